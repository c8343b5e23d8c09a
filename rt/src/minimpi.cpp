// In-process MPI. Every rank is a fiber (plus its tasks); completion of communication is an event whose
// position in the execution is decided by the explorer.
#include <vp/explorer.hpp>
#include <vp/hb.hpp>
#include <vp/mpi_rt.hpp>
#include <vp/runtime.hpp>

#include <algorithm>
#include <complex>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <map>
#include <memory>
#include <set>

using vp::fmt;
using vp::violation;

enum Kind { K_CHAR, K_SCHAR, K_UCHAR, K_SHORT, K_USHORT, K_INT, K_UINT, K_LONG, K_ULONG, K_LL, K_ULL, K_F, K_D, K_LD, K_BOOL, K_BYTE, K_C, K_Z, K_DERIVED };
static const unsigned TYPE_ALIVE = 0x7e57a11e;

struct vp_mpi_type {
  Kind kind;
  long size;    // bytes of data
  long extent;  // distance between consecutive elements
  bool committed;
  std::vector<std::pair<long, long>> blocks;
  unsigned magic;
  Kind base;
};
#define T(n, k, s) vp_mpi_type vp_type_##n{k, s, s, true, {{0, s}}, TYPE_ALIVE, k};
T(CHAR, K_CHAR, 1)
T(SIGNED_CHAR, K_SCHAR, 1)
T(UNSIGNED_CHAR, K_UCHAR, 1)
T(SHORT, K_SHORT, 2)
T(UNSIGNED_SHORT, K_USHORT, 2)
T(INT, K_INT, 4)
T(UNSIGNED, K_UINT, 4)
T(LONG, K_LONG, 8)
T(UNSIGNED_LONG, K_ULONG, 8)
T(LONG_LONG, K_LL, 8)
T(UNSIGNED_LONG_LONG, K_ULL, 8)
T(FLOAT, K_F, 4)
T(DOUBLE, K_D, 8)
T(LONG_DOUBLE, K_LD, 16)
T(C_BOOL, K_BOOL, 1)
T(BYTE, K_BYTE, 1)
T(C_FLOAT_COMPLEX, K_C, 8)
T(C_DOUBLE_COMPLEX, K_Z, 16)
#undef T

struct SharedComm;
struct vp_mpi_comm {
  unsigned magic;
  std::shared_ptr<SharedComm> sh;
  int rank;   // -1: the world communicator (rank of the caller)
  int owner;  // world rank that owns the handle
};
static const unsigned COMM_ALIVE = 0xc0337a11;

struct vp_mpi_request {
  bool done = false;
  bool released = false;
  int rank = 0;
  vp::TaskBase* cb = nullptr;
  int cb_rank = -1;
  vp::WaitList wl;
  void* token = nullptr;
  MPI_Status st{};
};

struct Msg {
  int src, tag;
  const char* buf;
  long count;
  MPI_Datatype type;
  bool packed;
  std::vector<char> data;
  vp_mpi_request* req;
  void* token;
  vp_mpi_type tcopy;
};
struct Rcv {
  int src, tag;
  char* buf;
  long count;
  vp_mpi_request* req;
  void* token;
  vp_mpi_type tcopy;
};
enum Coll { C_BCAST, C_REDUCE, C_ALLREDUCE, C_BARRIER, C_GATHER, C_SPLIT, C_DUP };
static const char* coll_name[] = {"Bcast", "Reduce", "Allreduce", "Barrier", "Gather", "Comm_split", "Comm_dup"};
struct CollArg {
  bool in = false;
  Coll kind;
  const char* sbuf = nullptr;
  char* rbuf = nullptr;
  long count = 0;
  vp_mpi_type type, rtype;
  long rcount = 0;
  MPI_Op op = 0;
  int root = -1;
  vp_mpi_request* req = nullptr;
  bool completed = false;
  void* token = nullptr;
  std::vector<char> data;
  int color = 0, key = 0;
  MPI_Comm* newcomm = nullptr;
};
struct CollState {
  std::vector<CollArg> a;
  int n = 0;
  int left = 0;
  bool result_done = false;
  std::vector<char> result;
};
struct SharedComm {
  std::vector<int> ranks;  // world ranks
  std::vector<std::deque<Msg*>> sends;   // by destination
  std::vector<std::deque<Rcv*>> recvs;   // by receiver
  std::vector<std::uint64_t> seq;
  std::map<std::uint64_t, CollState> colls;
  struct Probing {
    int src, tag;
  };
  std::vector<vp::WaitList> probers;
  explicit SharedComm(std::vector<int> r) : ranks(std::move(r)) {
    sends.resize(ranks.size());
    recvs.resize(ranks.size());
    seq.assign(ranks.size(), 0);
    probers.resize(ranks.size());
  }
};

static std::set<vp_mpi_comm*> live_comms;
static std::set<vp_mpi_type*> live_types;
static std::set<vp_mpi_request*> live_reqs;
static vp_mpi_comm world{COMM_ALIVE, std::make_shared<SharedComm>(std::vector<int>{0}), -1, -1};
static std::vector<std::unique_ptr<vp_mpi_comm>> selfs;
static vp_mpi_comm self_comm{COMM_ALIVE, std::make_shared<SharedComm>(std::vector<int>{0}), 0, -1};
vp_mpi_comm* vp_comm_world = &world;
vp_mpi_comm* vp_comm_self = &self_comm;
static bool initialized = true;

namespace vp {
int& mpi_thread_level() {
  static int l = MPI_THREAD_MULTIPLE;
  return l;
}
bool& mpi_abort_throws() {
  static bool b = false;
  return b;
}
void mpi_set_initialized(bool b) {
  initialized = b;
}
void mpi_reset(int n) {
  std::vector<int> r;
  for (int i = 0; i < n; ++i)
    r.push_back(i);
  world.sh = std::make_shared<SharedComm>(r);
  self_comm.sh = std::make_shared<SharedComm>(std::vector<int>{0});
  live_comms.clear();
  live_types.clear();
  live_reqs.clear();
}
static bool pending(const SharedComm& s) {
  for (auto& q : s.sends)
    if (!q.empty())
      return true;
  for (auto& q : s.recvs)
    if (!q.empty())
      return true;
  return !s.colls.empty();
}
std::string mpi_pending() {
  std::string s;
  std::set<SharedComm*> seen;
  auto show = [&](vp_mpi_comm& c) {
    if (!c.sh || !seen.insert(c.sh.get()).second)
      return;
    auto& sh = *c.sh;
    for (std::size_t d = 0; d < sh.ranks.size(); ++d) {
      for (auto* m : sh.sends[d])
        s += fmt("{send %d->%d tag %d} ", sh.ranks[std::size_t(m->src)], sh.ranks[d], m->tag);
      for (auto* r : sh.recvs[d])
        s += fmt("{recv %d->%d tag %d} ", r->src < 0 ? -1 : sh.ranks[std::size_t(r->src)], sh.ranks[d], r->tag);
    }
    for (auto& [k, st] : sh.colls) {
      s += "{collective of ranks";
      for (std::size_t i = 0; i < st.a.size(); ++i)
        if (st.a[i].in)
          s += fmt(" %d (%s)", sh.ranks[i], coll_name[st.a[i].kind]);
      s += "} ";
    }
  };
  show(world);
  for (auto* c : live_comms)
    show(*c);
  return s;
}
std::string mpi_leaks() {
  std::string s;
  if (!live_comms.empty())
    s += fmt("%zu communicator(s) not freed; ", live_comms.size());
  if (!live_types.empty())
    s += fmt("%zu datatype(s) not freed; ", live_types.size());
  if (!live_reqs.empty())
    s += fmt("%zu request(s) not completed; ", live_reqs.size());
  if (pending(*world.sh))
    s += "unmatched communication on the world communicator; ";
  return s;
}
TypeMap mpi_type_map(MPI_Datatype t) {
  TypeMap m;
  m.blocks = t->blocks;
  m.size = t->size;
  m.extent = t->extent;
  m.committed = t->committed;
  m.builtin = t->kind != K_DERIVED;
  return m;
}
long mpi_live_types() {
  return static_cast<long>(live_types.size());
}
long mpi_live_comms() {
  return static_cast<long>(live_comms.size());
}
long mpi_live_requests() {
  return static_cast<long>(live_reqs.size());
}
bool mpi_comm_valid(MPI_Comm c) {
  return c == &world || c == &self_comm || live_comms.count(c);
}
std::vector<int> mpi_comm_world_ranks(MPI_Comm c) {
  return c->sh->ranks;
}
}

static void check_init(const char* fn) {
  if (!initialized)
    violation(fmt("%s called while MPI is not initialized", fn));
}
static void check_comm(MPI_Comm c, const char* fn) {
  check_init(fn);
  if (!vp::mpi_comm_valid(c))
    violation(fmt("%s: invalid or freed communicator", fn));
  if (c->owner >= 0 && c->owner != vp::current_rank())
    violation(fmt("%s: communicator handle of another rank", fn));
}
static void check_type(MPI_Datatype t, const char* fn, bool committed = true) {
  check_init(fn);
  if (!t)
    violation(fmt("%s: null datatype", fn));
  if (t->magic != TYPE_ALIVE)
    violation(fmt("%s: datatype used after it was freed", fn));
  if (t->kind == K_DERIVED && !live_types.count(t))
    violation(fmt("%s: datatype used after it was freed", fn));
  if (committed && !t->committed)
    violation(fmt("%s: datatype not committed", fn));
}
static int rank_in(MPI_Comm c) {
  if (c->rank >= 0)
    return c->rank;
  return vp::current_rank();
}

template <class F>
static void for_blocks(const vp_mpi_type& t, long count, F&& f) {
  for (long i = 0; i < count; ++i)
    for (auto& b : t.blocks)
      f(i * t.extent + b.first, b.second);
}
static void pack(const char* buf, const vp_mpi_type& t, long count, std::vector<char>& out) {
  out.resize(static_cast<std::size_t>(t.size * count));
  long pos = 0;
  for_blocks(t, count, [&](long off, long len) {
    vp::hb_mem(buf + off, static_cast<std::size_t>(len), false, "MPI");
    std::memcpy(out.data() + pos, buf + off, static_cast<std::size_t>(len));
    pos += len;
  });
}
static void unpack(char* buf, const vp_mpi_type& t, long count, const std::vector<char>& in) {
  long pos = 0;
  for_blocks(t, count, [&](long off, long len) {
    long k = std::min<long>(len, static_cast<long>(in.size()) - pos);
    if (k <= 0)
      return;
    vp::hb_mem(buf + off, static_cast<std::size_t>(k), true, "MPI");
    std::memcpy(buf + off, in.data() + pos, static_cast<std::size_t>(k));
    pos += k;
  });
}

static vp_mpi_request* new_req() {
  auto* r = new vp_mpi_request;
  r->rank = vp::current_rank();
  live_reqs.insert(r);
  return r;
}
static void release(vp_mpi_request* r) {
  live_reqs.erase(r);
  delete r;
}
// must be called from an event of the request's rank (or inline from the rank itself)
static void complete(vp_mpi_request* r) {
  if (!r)
    return;
  r->done = true;
  if (r->cb) {
    auto* t = r->cb;
    const int rank = r->cb_rank;
    release(r);
    vp::spawn(t);
    vp::work_end(rank);
    return;
  }
  if (vp::hb_on) {
    if (r->token)
      vp::hb_join_token(r->token);
    r->token = vp::hb_fork();
  }
  vp::wake_all(r->wl);
}
static void complete_later(vp_mpi_request* r, const char* what) {
  if (r)
    vp::post_event(r->rank, [r] { complete(r); }, what);
}
static void wait(vp_mpi_request* r, const char* what) {
  while (!r->done)
    vp::park(r->wl, what, true);
  if (r->token) {
    vp::hb_join_token(r->token);
    r->token = nullptr;
  }
  release(r);
}
namespace vp {
void mpi_on_complete(MPI_Request r, int rank, TaskBase* t) {
  if (!r || !live_reqs.count(r))
    violation("operation on an invalid request");
  if (r->done) {
    post_event(
        r->rank,
        [r, rank, t] {
          if (r->token)
            hb_join_token(r->token);
          release(r);
          spawn(t);
          work_end(rank);
        },
        "MPI completion");
    return;
  }
  r->cb = t;
  r->cb_rank = rank;
}
}

// ---- point to point --------------------------------------------------------------------------------
static bool matches(const Msg& m, int src, int tag) {
  return (src == MPI_ANY_SOURCE || src == m.src) && (tag == MPI_ANY_TAG || tag == m.tag);
}
static void transfer(Msg* m, Rcv* r) {
  // one event: data moves, receive completes; a rendezvous send completes with another event
  vp::post_event(
      r->req->rank,
      [m, r] {
        if (vp::hb_on) {
          vp::hb_join_token(m->token);
          vp::hb_join_token(r->token);
        }
        if (!m->packed)
          pack(m->buf, m->tcopy, m->count, m->data);
        long bytes = static_cast<long>(m->data.size());
        if (bytes > r->tcopy.size * r->count)
          violation(fmt("message truncated: %ld bytes sent with tag %d, %ld expected", bytes, m->tag,
                        r->tcopy.size * r->count));
        unpack(r->buf, r->tcopy, r->count, m->data);
        r->req->st.MPI_SOURCE = m->src;
        r->req->st.MPI_TAG = m->tag;
        r->req->st.vp_bytes = bytes;
        if (m->req)
          complete_later(m->req, "send completion");
        complete(r->req);
        delete m;
        delete r;
      },
      "receive completion");
}
static void check_p2p(const char* fn, MPI_Comm c, int count, MPI_Datatype t, int peer, int tag, bool any) {
  check_comm(c, fn);
  check_type(t, fn);
  int n = static_cast<int>(c->sh->ranks.size());
  if (count < 0)
    violation(fmt("%s: negative count", fn));
  if (!((peer >= 0 && peer < n) || (any && peer == MPI_ANY_SOURCE)))
    violation(fmt("%s: invalid rank %d (communicator of size %d)", fn, peer, n));
  if (tag < 0 && !(any && tag == MPI_ANY_TAG))
    violation(fmt("%s: invalid tag %d", fn, tag));
}
static vp_mpi_request* isend(const char* fn, const void* b, int count, MPI_Datatype t, int dst, int tag, MPI_Comm c) {
  check_p2p(fn, c, count, t, dst, tag, false);
  auto& s = *c->sh;
  auto* req = new_req();
  auto* m = new Msg{rank_in(c), tag, static_cast<const char*>(b), count, t, false, {}, nullptr, nullptr, *t};
  if (vp::mpi_mode() == vp::MPI_EAGER) {
    pack(m->buf, m->tcopy, count, m->data);
    m->packed = true;
    complete_later(req, "send completion");
  }
  else
    m->req = req;
  m->token = vp::hb_fork();
  auto d = static_cast<std::size_t>(dst);
  for (auto it = s.recvs[d].begin(); it != s.recvs[d].end(); ++it)
    if (matches(*m, (*it)->src, (*it)->tag)) {
      Rcv* r = *it;
      s.recvs[d].erase(it);
      transfer(m, r);
      return req;
    }
  s.sends[d].push_back(m);
  vp::wake_all(s.probers[d]);
  return req;
}
static vp_mpi_request* irecv(const char* fn, void* b, int count, MPI_Datatype t, int src, int tag, MPI_Comm c) {
  check_p2p(fn, c, count, t, src, tag, true);
  auto& s = *c->sh;
  auto* req = new_req();
  auto* r = new Rcv{src, tag, static_cast<char*>(b), count, req, vp::hb_fork(), *t};
  auto d = static_cast<std::size_t>(rank_in(c));
  for (auto it = s.sends[d].begin(); it != s.sends[d].end(); ++it)
    if (matches(**it, src, tag)) {
      Msg* m = *it;
      s.sends[d].erase(it);
      transfer(m, r);
      return req;
    }
  s.recvs[d].push_back(r);
  return req;
}

// ---- collectives -----------------------------------------------------------------------------------
template <class X>
static void fold(MPI_Op op, X* acc, const X* in, long n) {
  for (long i = 0; i < n; ++i) {
    if (op == MPI_SUM)
      acc[i] = static_cast<X>(acc[i] + in[i]);
    else if (op == MPI_PROD)
      acc[i] = static_cast<X>(acc[i] * in[i]);
    else if constexpr (std::is_arithmetic_v<X>) {
      if (op == MPI_MAX)
        acc[i] = std::max(acc[i], in[i]);
      else if (op == MPI_MIN)
        acc[i] = std::min(acc[i], in[i]);
      else if (op == MPI_LAND)
        acc[i] = static_cast<X>(acc[i] && in[i]);
      else if (op == MPI_LOR)
        acc[i] = static_cast<X>(acc[i] || in[i]);
      else
        violation("reduction: unsupported operation");
    }
    else
      violation("reduction: operation not defined for complex");
  }
}
static void reduce_data(Kind k, MPI_Op op, std::vector<char>& acc, const std::vector<char>& in) {
  auto go = [&](auto x) {
    using X = decltype(x);
    fold(op, reinterpret_cast<X*>(acc.data()), reinterpret_cast<const X*>(in.data()),
         static_cast<long>(acc.size() / sizeof(X)));
  };
  switch (k) {
    case K_CHAR: case K_SCHAR: go(char{}); break;
    case K_UCHAR: case K_BYTE: go((unsigned char) 0); break;
    case K_SHORT: go(short{}); break;
    case K_USHORT: go((unsigned short) 0); break;
    case K_INT: go(int{}); break;
    case K_UINT: go(unsigned{}); break;
    case K_LONG: go(long{}); break;
    case K_ULONG: go((unsigned long) 0); break;
    case K_LL: go((long long) 0); break;
    case K_ULL: go((unsigned long long) 0); break;
    case K_F: go(float{}); break;
    case K_D: go(double{}); break;
    case K_LD: go((long double) 0); break;
    case K_BOOL: go(bool{}); break;
    case K_C: go(std::complex<float>{}); break;
    case K_Z: go(std::complex<double>{}); break;
    case K_DERIVED: violation("reduction with a derived datatype and a predefined operation");
  }
}

static void finish_part(std::shared_ptr<SharedComm> sh, std::uint64_t seq, int r);

static void coll_enter(std::shared_ptr<SharedComm> sh, std::uint64_t seq, int r) {
  CollState& st = sh->colls[seq];
  CollArg& me = st.a[static_cast<std::size_t>(r)];
  int n = static_cast<int>(st.a.size());
  // consistency with the other participants
  for (int i = 0; i < n; ++i) {
    auto& o = st.a[static_cast<std::size_t>(i)];
    if (!o.in || i == r)
      continue;
    if (o.kind != me.kind)
      violation(fmt("collective mismatch on a communicator of size %d: rank %d called %s, rank %d called %s", n, i,
                    coll_name[o.kind], r, coll_name[me.kind]));
    if (o.root != me.root)
      violation(fmt("collective mismatch in %s: different roots %d and %d", coll_name[me.kind], o.root, me.root));
    if (o.op != me.op)
      violation(fmt("collective mismatch in %s: different operations", coll_name[me.kind]));
    if (o.count * o.type.size != me.count * me.type.size)
      violation(fmt("collective mismatch in %s: %ld and %ld bytes", coll_name[me.kind], o.count * o.type.size,
                    me.count * me.type.size));
    if (me.kind == C_REDUCE || me.kind == C_ALLREDUCE)
      if (o.type.base != me.type.base)
        violation(fmt("collective mismatch in %s: different types", coll_name[me.kind]));
    break;
  }
  bool all = st.n == n;
  bool sync = vp::mpi_mode() != vp::MPI_EAGER;
  auto done = [&](int i) {
    auto& a = st.a[static_cast<std::size_t>(i)];
    if (a.in && !a.completed) {
      a.completed = true;
      vp::post_event(a.req->rank, [sh, seq, i] { finish_part(sh, seq, i); }, coll_name[a.kind]);
    }
  };
  if (all) {
    for (int i = 0; i < n; ++i)
      done(i);
    return;
  }
  if (sync)
    return;
  if (me.kind == C_BCAST) {
    auto& root = st.a[static_cast<std::size_t>(me.root)];
    if (root.in)
      for (int i = 0; i < n; ++i)
        done(i);
  }
  else if (me.kind == C_REDUCE || me.kind == C_GATHER) {
    if (r != me.root)
      done(r);
  }
}

// Event of one rank: moves its data and completes its request
static void finish_part(std::shared_ptr<SharedComm> sh, std::uint64_t seq, int r) {
  CollState& st = sh->colls[seq];
  auto n = st.a.size();
  CollArg& me = st.a[static_cast<std::size_t>(r)];
  auto join = [&](CollArg& a) {
    if (a.token) {
      vp::hb_join_token(a.token);
      a.token = vp::hb_fork();
    }
  };
  auto contrib = [&](CollArg& a) {
    // late read of the send buffer (unless it was read when the rank entered)
    if (a.data.empty() && a.count > 0) {
      if (a.token)
        vp::hb_join_token(a.token);
      pack(a.sbuf, a.type, a.count, a.data);
      a.token = vp::hb_fork();  // the request of this rank completes after the read
    }
  };
  join(me);
  switch (me.kind) {
    case C_BCAST: {
      auto& root = st.a[static_cast<std::size_t>(me.root)];
      join(root);
      if (r == me.root) {
        contrib(root);
      }
      else {
        contrib(root);
        unpack(me.rbuf, me.type, me.count, root.data);
      }
      break;
    }
    case C_REDUCE:
    case C_ALLREDUCE: {
      bool gets = me.kind == C_ALLREDUCE || r == me.root;
      contrib(me);
      if (gets) {
        if (!st.result_done) {
          for (auto& a : st.a) {
            join(a);
            contrib(a);
          }
          st.result = st.a[0].data;
          for (std::size_t i = 1; i < n; ++i)
            reduce_data(st.a[0].type.kind, me.op, st.result, st.a[i].data);
          st.result_done = true;
        }
        for (auto& a : st.a)
          join(a);
        unpack(me.rbuf, me.type, me.count, st.result);
      }
      break;
    }
    case C_GATHER:
      contrib(me);
      if (r == me.root)
        for (std::size_t i = 0; i < n; ++i) {
          contrib(st.a[i]);
          unpack(me.rbuf + static_cast<long>(i) * me.rcount * me.rtype.extent, me.rtype, me.rcount, st.a[i].data);
        }
      break;
    case C_BARRIER:
      for (auto& a : st.a)
        join(a);
      break;
    case C_SPLIT:
    case C_DUP: {
      // all ranks have entered
      for (auto& a : st.a)
        join(a);
      if (!st.result_done) {
        st.result_done = true;
        std::map<int, std::vector<std::size_t>> groups;
        for (std::size_t i = 0; i < n; ++i)
          if (st.a[i].color != MPI_UNDEFINED)
            groups[st.a[i].color].push_back(i);
        for (auto& g : groups) {
          std::stable_sort(g.second.begin(), g.second.end(),
                           [&](std::size_t x, std::size_t y) { return st.a[x].key < st.a[y].key; });
          std::vector<int> rk;
          for (auto i : g.second)
            rk.push_back(sh->ranks[i]);
          auto ns = std::make_shared<SharedComm>(rk);
          for (std::size_t k = 0; k < g.second.size(); ++k) {
            auto* c = new vp_mpi_comm{COMM_ALIVE, ns, static_cast<int>(k), rk[k]};
            live_comms.insert(c);
            *st.a[g.second[k]].newcomm = c;
          }
        }
        for (auto& a : st.a)
          if (a.color == MPI_UNDEFINED)
            *a.newcomm = MPI_COMM_NULL;
      }
      break;
    }
  }
  auto* rq = me.req;
  ++st.left;
  if (st.left == static_cast<int>(n)) {
    for (auto& a : st.a)
      if (a.token) {
        vp::hb_join_token(a.token);
        a.token = nullptr;
      }
    sh->colls.erase(seq);
  }
  complete(rq);
}

static vp_mpi_request* coll(MPI_Comm c, CollArg a) {
  const char* fn = coll_name[a.kind];
  check_comm(c, fn);
  auto sh = c->sh;
  auto n = sh->ranks.size();
  int r = rank_in(c);
  if (a.count < 0)
    violation(fmt("%s: negative count", fn));
  if (a.root != -1 && (a.root < 0 || a.root >= static_cast<int>(n)))
    violation(fmt("%s: invalid root %d (communicator of size %zu)", fn, a.root, n));
  std::uint64_t seq = sh->seq[static_cast<std::size_t>(r)]++;
  CollState& st = sh->colls[seq];
  if (st.a.empty())
    st.a.resize(n);
  a.in = true;
  a.req = new_req();
  auto* req = a.req;
  if (vp::mpi_mode() == vp::MPI_EAGER && a.count > 0 && a.sbuf &&
      (a.kind == C_REDUCE || a.kind == C_GATHER || (a.kind == C_BCAST && r == a.root)))
    pack(a.sbuf, a.type, a.count, a.data);
  a.token = vp::hb_fork();
  st.a[static_cast<std::size_t>(r)] = std::move(a);
  ++st.n;
  coll_enter(sh, seq, r);
  return req;
}
static CollArg coll_args(Coll k, const void* s, void* rb, int count, MPI_Datatype t, MPI_Op op, int root) {
  check_type(t, coll_name[k]);
  CollArg a;
  a.kind = k;
  a.sbuf = static_cast<const char*>(s);
  a.rbuf = static_cast<char*>(rb);
  a.count = count;
  a.type = *t;
  a.rtype = *t;
  a.op = op;
  a.root = root;
  return a;
}
static CollArg reduce_args(Coll k, const void* s, void* rb, int count, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) {
  check_comm(c, coll_name[k]);
  check_type(t, coll_name[k]);
  if (t->kind == K_DERIVED)
    violation(fmt("%s with a derived datatype and a predefined operation", coll_name[k]));
  int r = rank_in(c);
  bool gets = k == C_ALLREDUCE || r == root;
  if (s == MPI_IN_PLACE) {
    if (!gets)
      violation(fmt("%s: MPI_IN_PLACE on a rank that is not the root", coll_name[k]));
    s = rb;
  }
  else if (gets && s == rb && count > 0)
    violation(fmt("%s: send and receive buffers are the same", coll_name[k]));
  return coll_args(k, s, rb, count, t, op, root);
}

extern "C" {
int MPI_Init_thread(int*, char***, int req, int* p) {
  if (p)
    *p = req;
  initialized = true;
  return 0;
}
int MPI_Initialized(int* f) {
  *f = initialized;
  return 0;
}
int MPI_Finalized(int* f) {
  *f = 0;
  return 0;
}
int MPI_Query_thread(int* p) {
  *p = vp::mpi_thread_level();
  return 0;
}
int MPI_Finalize(void) {
  initialized = false;
  return 0;
}
int MPI_Abort(MPI_Comm, int) {
  if (vp::mpi_abort_throws())
    throw vp::mpi_aborted{};
  violation("MPI_Abort called");
}
int MPI_Error_string(int e, char* s, int* l) {
  *l = snprintf(s, 64, "error %d", e);
  return 0;
}
int MPI_Comm_rank(MPI_Comm c, int* r) {
  check_comm(c, "MPI_Comm_rank");
  *r = rank_in(c);
  return 0;
}
int MPI_Comm_size(MPI_Comm c, int* n) {
  check_comm(c, "MPI_Comm_size");
  *n = static_cast<int>(c->sh->ranks.size());
  return 0;
}
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm* out) {
  if (color < 0 && color != MPI_UNDEFINED)
    violation("MPI_Comm_split: negative color");
  CollArg a;
  a.kind = C_SPLIT;
  a.type = vp_type_BYTE;
  a.color = color;
  a.key = key;
  a.newcomm = out;
  wait(coll(c, std::move(a)), "MPI_Comm_split");
  return 0;
}
int MPI_Comm_dup(MPI_Comm c, MPI_Comm* out) {
  CollArg a;
  a.kind = C_DUP;
  a.type = vp_type_BYTE;
  a.color = 0;
  a.key = rank_in(c);
  a.newcomm = out;
  if (!vp::in_fiber() && c->sh->ranks.size() == 1) {
    auto ns = std::make_shared<SharedComm>(c->sh->ranks);
    auto* n = new vp_mpi_comm{COMM_ALIVE, ns, 0, c->sh->ranks[0]};
    live_comms.insert(n);
    *out = n;
    return 0;
  }
  wait(coll(c, std::move(a)), "MPI_Comm_dup");
  return 0;
}
int MPI_Comm_free(MPI_Comm* c) {
  check_init("MPI_Comm_free");
  if (*c == &world || *c == &self_comm)
    violation("MPI_Comm_free: predefined communicator");
  if (!live_comms.count(*c))
    violation("MPI_Comm_free: invalid or already freed communicator");
  check_comm(*c, "MPI_Comm_free");
  live_comms.erase(*c);
  (*c)->magic = 0;
  // the memory is kept: stale handles stay distinguishable from new ones
  (*c)->sh.reset();
  *c = MPI_COMM_NULL;
  return 0;
}
int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int* r) {
  check_comm(a, "MPI_Comm_compare");
  check_comm(b, "MPI_Comm_compare");
  if (a == b || a->sh == b->sh)
    *r = MPI_IDENT;
  else if (a->sh->ranks == b->sh->ranks)
    *r = MPI_CONGRUENT;
  else {
    auto x = a->sh->ranks, y = b->sh->ranks;
    std::sort(x.begin(), x.end());
    std::sort(y.begin(), y.end());
    *r = x == y ? MPI_SIMILAR : MPI_UNEQUAL;
  }
  return 0;
}
int MPI_Comm_set_errhandler(MPI_Comm c, MPI_Errhandler) {
  check_comm(c, "MPI_Comm_set_errhandler");
  return 0;
}
int MPI_Errhandler_set(MPI_Comm c, MPI_Errhandler) {
  check_comm(c, "MPI_Errhandler_set");
  return 0;
}
int MPI_Send(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) {
  wait(isend("MPI_Send", b, n, t, d, tag, c), "MPI_Send");
  return 0;
}
int MPI_Recv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status* st) {
  auto* r = irecv("MPI_Recv", b, n, t, s, tag, c);
  while (!r->done)
    vp::park(r->wl, "MPI_Recv", true);
  if (st)
    *st = r->st;
  wait(r, "MPI_Recv");
  return 0;
}
int MPI_Isend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* r) {
  *r = isend("MPI_Isend", b, n, t, d, tag, c);
  return 0;
}
int MPI_Irecv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request* r) {
  *r = irecv("MPI_Irecv", b, n, t, s, tag, c);
  return 0;
}
int MPI_Ibcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm c, MPI_Request* r) {
  *r = coll(c, coll_args(C_BCAST, b, b, n, t, 0, root));
  return 0;
}
int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm c) {
  wait(coll(c, coll_args(C_BCAST, b, b, n, t, 0, root)), "MPI_Bcast");
  return 0;
}
int MPI_Ireduce(const void* s, void* rb, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c, MPI_Request* r) {
  *r = coll(c, reduce_args(C_REDUCE, s, rb, n, t, op, root, c));
  return 0;
}
int MPI_Reduce(const void* s, void* rb, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) {
  wait(coll(c, reduce_args(C_REDUCE, s, rb, n, t, op, root, c)), "MPI_Reduce");
  return 0;
}
int MPI_Iallreduce(const void* s, void* rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c, MPI_Request* r) {
  *r = coll(c, reduce_args(C_ALLREDUCE, s, rb, n, t, op, -1, c));
  return 0;
}
int MPI_Allreduce(const void* s, void* rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
  wait(coll(c, reduce_args(C_ALLREDUCE, s, rb, n, t, op, -1, c)), "MPI_Allreduce");
  return 0;
}
int MPI_Ibarrier(MPI_Comm c, MPI_Request* r) {
  CollArg a;
  a.kind = C_BARRIER;
  a.type = vp_type_BYTE;
  *r = coll(c, std::move(a));
  return 0;
}
int MPI_Barrier(MPI_Comm c) {
  MPI_Request r;
  MPI_Ibarrier(c, &r);
  wait(r, "MPI_Barrier");
  return 0;
}
int MPI_Gather(const void* s, int n, MPI_Datatype t, void* rb, int rn, MPI_Datatype rt, int root, MPI_Comm c) {
  auto a = coll_args(C_GATHER, s, rb, n, t, 0, root);
  a.rcount = rn;
  if (rt)
    a.rtype = *rt;
  wait(coll(c, std::move(a)), "MPI_Gather");
  return 0;
}
int MPI_Probe(int src, int tag, MPI_Comm c, MPI_Status* st) {
  check_comm(c, "MPI_Probe");
  auto& s = *c->sh;
  auto d = static_cast<std::size_t>(rank_in(c));
  while (true) {
    for (auto* m : s.sends[d])
      if (matches(*m, src, tag)) {
        if (st) {
          st->MPI_SOURCE = m->src;
          st->MPI_TAG = m->tag;
          st->vp_bytes = m->count * m->tcopy.size;
        }
        return 0;
      }
    vp::park(s.probers[d], "MPI_Probe", true);
  }
}
int MPI_Get_count(const MPI_Status* st, MPI_Datatype t, int* n) {
  *n = static_cast<int>(t->size ? st->vp_bytes / t->size : 0);
  return 0;
}
int MPI_Wait(MPI_Request* r, MPI_Status*) {
  if (*r)
    wait(*r, "MPI_Wait");
  *r = nullptr;
  return 0;
}
int MPI_Waitall(int n, MPI_Request* r, MPI_Status*) {
  for (int i = 0; i < n; ++i)
    MPI_Wait(r + i, nullptr);
  return 0;
}
int MPI_Test(MPI_Request* r, int* f, MPI_Status*) {
  *f = !*r || (*r)->done;
  if (*f && *r)
    MPI_Wait(r, nullptr);
  else
    vp::preempt_point();
  return 0;
}
int MPI_Type_vector(int count, int len, int stride, MPI_Datatype t, MPI_Datatype* out) {
  check_type(t, "MPI_Type_vector", false);
  if (count < 0 || len < 0)
    violation("MPI_Type_vector: negative argument");
  auto* n = new vp_mpi_type;
  n->kind = K_DERIVED;
  n->base = t->base;
  n->committed = false;
  n->magic = TYPE_ALIVE;
  n->size = static_cast<long>(count) * len * t->size;
  long ub = 0, lb = 0;
  for (long i = 0; i < count; ++i)
    for (long j = 0; j < len; ++j) {
      long off = (i * stride + j) * t->extent;
      for (auto& b : t->blocks)
        n->blocks.push_back({off + b.first, b.second});
      ub = std::max(ub, off + t->extent);
      lb = std::min(lb, off);
    }
  n->extent = ub - lb;
  live_types.insert(n);
  *out = n;
  return 0;
}
int MPI_Type_contiguous(int count, MPI_Datatype t, MPI_Datatype* out) {
  return MPI_Type_vector(1, count, count, t, out);
}
int MPI_Type_commit(MPI_Datatype* t) {
  check_type(*t, "MPI_Type_commit", false);
  (*t)->committed = true;
  return 0;
}
int MPI_Type_free(MPI_Datatype* t) {
  check_init("MPI_Type_free");
  if (!*t)
    violation("MPI_Type_free: null datatype");
  if ((*t)->kind != K_DERIVED)
    violation("MPI_Type_free: predefined datatype");
  if (!live_types.count(*t))
    violation("MPI_Type_free: datatype already freed");
  live_types.erase(*t);
  (*t)->magic = 0;  // kept allocated so that stale handles are recognised
  *t = MPI_DATATYPE_NULL;
  return 0;
}
int MPI_Type_size(MPI_Datatype t, int* n) {
  check_type(t, "MPI_Type_size", false);
  *n = static_cast<int>(t->size);
  return 0;
}
int MPI_Dims_create(int n, int nd, int* d) {
  // balanced factorisation into nd dimensions (only zero entries are set)
  int rest = n;
  int free_d = 0;
  for (int i = 0; i < nd; ++i)
    if (d[i] > 0)
      rest /= d[i];
    else
      ++free_d;
  for (int i = 0; i < nd; ++i) {
    if (d[i] > 0)
      continue;
    if (free_d == 1) {
      d[i] = rest;
      break;
    }
    int best = rest;
    for (int k = 1; k <= rest; ++k)
      if (rest % k == 0 && k * k >= rest) {
        best = k;
        break;
      }
    d[i] = best;
    rest /= best;
    --free_d;
  }
  return 0;
}
MPI_Comm MPI_Comm_f2c(MPI_Fint) {
  violation("MPI_Comm_f2c not supported");
}
MPI_Fint MPI_Comm_c2f(MPI_Comm) {
  violation("MPI_Comm_c2f not supported");
}
double MPI_Wtime(void) {
  return 0;
}
}
