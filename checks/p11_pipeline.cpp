// P11: a pipeline grants accesses in request order, exclusively or shared, for every program and schedule.
#include <memory>
#include <optional>
#include <string>
#include <utility>
#include <vector>

#include <pika/barrier.hpp>
#include <pika/execution.hpp>
#include <pika/runtime.hpp>
#include <pika/semaphore.hpp>
#include <pika/thread.hpp>

#include <dlaf/common/pipeline.h>

#include "sched.hpp"

namespace ex = pika::execution::experimental;
using vp::pick;

// The resource knows when it has been moved away
struct Res {
  long v = -1;
  Res() = default;
  explicit Res(long x) : v(x) {}
  Res(Res&& o) noexcept : v(std::exchange(o.v, -2)) {}
  Res& operator=(Res&& o) noexcept {
    v = std::exchange(o.v, -2);
    return *this;
  }
};
using Pipe = dlaf::common::Pipeline<Res>;

// --- reference: the accesses in program order -------------------------------------------------------
struct Node;
struct Entry {
  int id;                     // access (-1: sub-pipeline)
  bool rw;
  std::shared_ptr<Node> sub;
};
struct Root {
  int readers = 0, writers = 0;
};
struct Node {
  std::shared_ptr<Root> root;
  long initial = 0;
  std::vector<Entry> entries;
};
struct Seen {
  bool attached = false, rw = false, done = false;
  long value = -100;
};

static void evaluate(const Node& n, long& cur, std::vector<Seen>& seen, const std::string& prog) {
  for (auto& e : n.entries) {
    if (e.sub) {
      evaluate(*e.sub, cur, seen, prog);
      continue;
    }
    auto& s = seen[std::size_t(e.id)];
    if (!s.attached)
      continue;
    VP_CHECK(s.done, "access %d never granted [%s]", e.id, prog.c_str());
    VP_CHECK(s.value == cur, "access %d observed %ld instead of %ld [%s]", e.id, s.value, cur, prog.c_str());
    if (s.rw)
      cur = 1000 + e.id;
  }
}

struct Held {
  bool any = false, rw = false;
  int id = -1;
  std::shared_ptr<Root> root;
  std::optional<Pipe::ReadOnlySender> r;
  std::optional<Pipe::ReadWriteSender> w;
};

enum Op { READ, WRITE, READ_DROP, WRITE_DROP, READ_HOLD, WRITE_HOLD, ATTACH, RELEASE, SUB, RESET, MOVE, OVERWRITE, NOPS };
static const char* opname[] = {"read", "write", "read-drop", "write-drop", "read-hold", "write-hold", "attach", "release", "sub", "reset", "move", "overwrite"};

struct Step {
  int op, slot;
};

// all enabled programs of the given length
static std::vector<Step> pick_program(int depth, int nslots, bool root_ops) {
  std::vector<Step> prog;
  std::vector<int> live(std::size_t(nslots), 0);  // 0 free, 1 live
  live[0] = 1;
  bool held = false;
  for (int d = 0; d < depth; ++d) {
    std::vector<Step> en;
    for (int k = 0; k < nslots; ++k) {
      if (!live[std::size_t(k)])
        continue;
      for (int op : {READ, WRITE, READ_DROP, WRITE_DROP})
        en.push_back({op, k});
      if (!held) {
        en.push_back({READ_HOLD, k});
        en.push_back({WRITE_HOLD, k});
      }
      bool has_free = false;
      for (int l : live)
        has_free |= l == 0;
      if (has_free)
        en.push_back({SUB, k});
      if (k > 0 || root_ops)
        en.push_back({RESET, k});
      if (k > 0 || root_ops)
        en.push_back({OVERWRITE, k});
      en.push_back({MOVE, k});
    }
    if (held) {
      en.push_back({ATTACH, 0});
      en.push_back({RELEASE, 0});
    }
    if (en.empty())
      break;
    const Step s = en[std::size_t(pick(int(en.size())))];
    if (s.op == READ_HOLD || s.op == WRITE_HOLD)
      held = true;
    if (s.op == ATTACH || s.op == RELEASE)
      held = false;
    if (s.op == SUB)
      for (auto& l : live)
        if (l == 0) {
          l = 1;
          break;
        }
    if (s.op == RESET)
      live[std::size_t(s.slot)] = 0;
    prog.push_back(s);
  }
  return prog;
}

template <class S>
static void attach(S&& sender, bool rw, int id, std::shared_ptr<Root> root, std::vector<Seen>& seen, bool transfer) {
  seen[std::size_t(id)].attached = true;
  seen[std::size_t(id)].rw = rw;
  auto work = [rw, id, root = root.get(), &seen](auto wrapper) {
    if (rw)
      VP_CHECK(root->writers == 0 && root->readers == 0, "exclusive access %d granted while %d writers and %d readers are active", id, root->writers, root->readers);
    else
      VP_CHECK(root->writers == 0, "shared access %d granted while an exclusive one is active", id);
    ++(rw ? root->writers : root->readers);
    const long v = wrapper.get().v;
    pika::this_thread::yield();
    if constexpr (!std::is_const_v<std::remove_reference_t<decltype(wrapper.get())>>)
      wrapper.get().v = 1000 + id;
    else
      VP_CHECK(wrapper.get().v == v, "the value changed during shared access %d", id);
    auto& s = seen[std::size_t(id)];
    VP_CHECK(!s.done, "access %d granted twice", id);
    s.value = v;
    s.done = true;
    --(rw ? root->writers : root->readers);
  };
  if (transfer)
    ex::start_detached(ex::continues_on(std::forward<S>(sender), ex::thread_pool_scheduler{}) | ex::then(std::move(work)));
  else
    ex::start_detached(std::forward<S>(sender) | ex::then(std::move(work)));
}

static std::string text(const std::vector<Step>& p) {
  std::string s;
  for (auto& x : p)
    s += std::string(s.empty() ? "" : " ") + opname[x.op] + (x.op == ATTACH || x.op == RELEASE ? "" : std::to_string(x.slot));
  return s;
}

static void programs(int depth, int nslots, bool transfer, bool root_ops) {
  const auto prog = pick_program(depth, nslots, root_ops);
  const bool ascending = nslots > 1 && pick(2);
  const std::string ptext = text(prog) + (ascending ? " (destroyed in ascending order)" : "");
  vp::context(ptext);
  std::vector<Seen> seen(prog.size() + 1);
  std::vector<std::shared_ptr<Node>> roots;
  auto new_root = [&](long initial) {
    auto n = std::make_shared<Node>();
    n->root = std::make_shared<Root>();
    n->initial = initial;
    roots.push_back(n);
    return n;
  };
  vp::ranks(1, 2, [&](int) {
    std::vector<std::optional<Pipe>> slot(static_cast<std::size_t>(nslots));
    std::vector<std::shared_ptr<Node>> node(static_cast<std::size_t>(nslots));
    slot[0].emplace(Res(7));
    node[0] = new_root(7);
    Held h;
    int id = 0;
    auto do_attach = [&] {
      if (h.rw)
        attach(std::move(*h.w), true, h.id, h.root, seen, transfer);
      else
        attach(std::move(*h.r), false, h.id, h.root, seen, transfer);
      h = Held{};
    };
    for (const Step& s : prog) {
      auto k = std::size_t(s.slot);
      switch (s.op) {
        case READ:
          node[k]->entries.push_back({id, false, nullptr});
          attach(slot[k]->read(), false, id, node[k]->root, seen, transfer);
          break;
        case WRITE:
          node[k]->entries.push_back({id, true, nullptr});
          attach(slot[k]->readwrite(), true, id, node[k]->root, seen, transfer);
          break;
        case READ_DROP:
          { auto x = slot[k]->read(); }
          break;
        case WRITE_DROP:
          { auto x = slot[k]->readwrite(); }
          break;
        case READ_HOLD:
          node[k]->entries.push_back({id, false, nullptr});
          h.any = true;
          h.rw = false;
          h.id = id;
          h.root = node[k]->root;
          h.r.emplace(slot[k]->read());
          break;
        case WRITE_HOLD:
          node[k]->entries.push_back({id, true, nullptr});
          h.any = true;
          h.rw = true;
          h.id = id;
          h.root = node[k]->root;
          h.w.emplace(slot[k]->readwrite());
          break;
        case ATTACH:
          do_attach();
          break;
        case RELEASE:
          h = Held{};
          break;
        case SUB: {
          std::size_t f = 0;
          while (slot[f])
            ++f;
          auto n = std::make_shared<Node>();
          n->root = node[k]->root;
          node[k]->entries.push_back({-1, true, n});
          slot[f].emplace(slot[k]->sub_pipeline());
          node[f] = n;
          VP_CHECK(slot[f]->valid() && slot[k]->valid(), "valid");
          break;
        }
        case RESET:
          if (id % 2) {
            slot[k]->reset();
            VP_CHECK(!slot[k]->valid(), "valid after reset");
          }
          slot[k].reset();
          node[k] = nullptr;
          break;
        case MOVE: {
          Pipe p(std::move(*slot[k]));
          VP_CHECK(p.valid() && !slot[k]->valid(), "validity after a move");
          if (id % 2)
            *slot[k] = std::move(p);
          else
            slot[k].emplace(std::move(p));
          VP_CHECK(slot[k]->valid() && !p.valid(), "validity after moving back");
          break;
        }
        case OVERWRITE: {
          *slot[k] = Pipe(Res(500 + id));
          node[k] = new_root(500 + id);
          break;
        }
      }
      ++id;
      pika::this_thread::yield();
    }
    if (h.any) {
      if (prog.size() % 2)
        do_attach();
      else
        h = Held{};
    }
    for (int i = 0; i < nslots; ++i)
      slot[std::size_t(ascending ? i : nslots - 1 - i)].reset();
    pika::wait();
  });
  for (auto& r : roots) {
    long cur = r->initial;
    evaluate(*r, cur, seen, ptext);
    VP_CHECK(r->root->readers == 0 && r->root->writers == 0, "accesses left");
  }
  ++vp::n_nontrivial;
}

// consecutive shared accesses can all be active at the same time, around exclusive ones
static void shared_overlap(int nreaders, bool sub, int copies) {
  vp::ranks(1, 2, [&](int) {
    Pipe p(Res(3));
    Pipe q;
    Pipe* x = &p;
    if (sub) {
      q = p.sub_pipeline();
      x = &q;
    }
    pika::counting_semaphore<> in(0);
    bool wrote = false;
    int finished = 0;
    auto rw = [&](long v) {
      ex::start_detached(ex::continues_on(x->readwrite(), ex::thread_pool_scheduler{}) | ex::then([&wrote, &finished, v](auto w) {
                           VP_CHECK(finished % 100 == 0, "exclusive access in the middle of shared ones");
                           w.get().v = v;
                           wrote = true;
                         }));
    };
    rw(11);
    pika::barrier<> all(nreaders * copies);
    std::vector<Pipe::ReadOnlySender> ss;
    for (int i = 0; i < nreaders; ++i) {
      auto s = x->read();
      for (int c = 0; c < copies; ++c) {
        auto t = s;
        ex::start_detached(ex::continues_on(std::move(t), ex::thread_pool_scheduler{}) | ex::then([&](auto w) {
                             VP_CHECK(w.get().v == 11, "shared access before the exclusive one");
                             finished = 1;
                             all.arrive_and_wait();  // everybody has access
                             VP_CHECK(w.get().v == 11, "shared access lost");
                             pika::this_thread::yield();
                             finished = 0;
                           }));
      }
    }
    rw(12);
    if (sub)
      q.reset();
    long last = 0;
    ex::start_detached(ex::continues_on(p.read(), ex::thread_pool_scheduler{}) | ex::then([&](auto w) { last = w.get().v; }));
    pika::wait();
    VP_CHECK(last == 12 && wrote, "last value %ld", last);
  });
  ++vp::n_nontrivial;
}

int main(int argc, char** argv) {
  return vp::explore_main(argc, argv, [](bool thorough) {
    vp::Suite s;
    s.property = "P11";
    s.rule = "all programs of up to the given number of requests (read, write; attached at once, later, or dropped), sub-pipelines, resets, moves and overwriting moves on up to 3 pipelines; "
             "non-trivial: a complete program";
    auto add = [&](int depth, int nslots, bool transfer, bool root_ops, int dev, unsigned policies, int split) {
      auto c = vp::sched_case(vp::fmt("programs of %d steps on %d pipelines, %s%s", depth, nslots, transfer ? "tasks" : "inline", root_ops ? ", root replaced" : ""),
                              [=] { programs(depth, nslots, transfer, root_ops); }, dev, policies, false, false);
      c.split = split;
      s.cases.push_back(c);
    };
    using vp::ALL_POLICIES;
    using vp::BASIC_POLICIES;
    for (bool tr : {true, false}) {
      for (int d = 1; d <= 3; ++d)
        add(d, 3, tr, true, tr ? (thorough ? 3 : 2) : 1, ALL_POLICIES, 36);
      add(4, 2, tr, false, thorough && tr ? 2 : tr ? 1 : 0, thorough ? ALL_POLICIES : BASIC_POLICIES, 36);
      add(4, 3, tr, true, thorough && tr ? 2 : thorough ? 1 : 0, BASIC_POLICIES, 36);
      if (thorough) {
        add(5, 2, tr, true, 1, BASIC_POLICIES, 36);
        add(5, 3, tr, true, 0, BASIC_POLICIES, 36);
      }
    }
    for (int n = 1; n <= 3; ++n)
      for (int c = 1; c <= 2; ++c)
        for (bool sub : {false, true})
          s.cases.push_back(vp::sched_case(vp::fmt("%d overlapping reads x%d%s", n, c, sub ? " in a sub-pipeline" : ""), [=] { shared_overlap(n, sub, c); }, thorough ? (n * c <= 3 ? 4 : 3) : 2, ALL_POLICIES, false, false));
    return s;
  });
}
