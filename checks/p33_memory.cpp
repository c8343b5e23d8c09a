// P33: memory chunks and views own, borrow and release memory exactly as their histories prescribe.
#include <array>
#include <memory>
#include <optional>
#include <vector>

#include <dlaf/memory/memory_chunk.h>
#include <dlaf/memory/memory_view.h>

#include <vp/alloc.hpp>
#include "pure.hpp"

using namespace dlaf;
using vp::pick;
using dlaf::memory::MemoryChunk;
using dlaf::memory::MemoryView;

static double ext[2][8];

// --- chunks ---------------------------------------------------------------------------------------
struct ChunkModel {
  double* p = nullptr;
  SizeType n = 0;
  bool owned = false;
};

static void chunk_history(int nslots, int depth) {
  vp::pool_reset();
  using Chunk = MemoryChunk<double, Device::CPU>;
  std::array<std::optional<Chunk>, 3> slot;
  std::array<ChunkModel, 3> model;
  const SizeType sizes[3] = {0, 1, 3};
  long live = 0;
  double stamp = 1;
  auto fill = [&](const ChunkModel& m) {
    for (SizeType i = 0; i < m.n; ++i)
      m.p[i] = stamp++;
  };
  std::vector<std::vector<double>> content(3);
  auto remember = [&](int i) { content[std::size_t(i)] = model[i].n ? std::vector<double>(model[i].p, model[i].p + model[i].n) : std::vector<double>{}; };
  auto verify = [&] {
    VP_CHECK(vp::pool_live() == live, "%ld live allocations, expected %ld", vp::pool_live(), live);
    for (int i = 0; i < nslots; ++i) {
      if (!slot[i])
        continue;
      auto& c = *slot[i];
      const auto& cc = c;
      const auto& m = model[i];
      VP_CHECK(c.size() == m.n, "size %ld instead of %ld", long(c.size()), long(m.n));
      VP_CHECK(c() == m.p && cc() == m.p, "pointer");
      for (SizeType k = 0; k < m.n; ++k) {
        VP_CHECK(c(k) == m.p + k && cc(k) == m.p + k, "element pointer");
        VP_CHECK(m.p[k] == content[i][k], "content lost");
      }
      if (m.owned && m.n)
        VP_CHECK(vp::pool_contains(m.p, sizeof(double) * m.n), "owned memory already released");
    }
  };
  auto drop = [&](int i) {
    if (model[i].owned && model[i].n)
      --live;
    model[i] = {};
  };
  for (int d = 0; d < depth; ++d) {
    const int i = pick(nslots);
    switch (pick(5)) {
      case 0: {  // allocate
        const int form = pick(4);  // 3: default constructed
        const SizeType n = form == 3 ? 0 : sizes[form];
        slot[i].reset();
        drop(i);
        if (form == 3)
          slot[i].emplace();
        else
          slot[i].emplace(n);
        model[i] = {n ? (*slot[i])() : nullptr, n, true};
        if (n) {
          ++live;
          VP_CHECK(model[i].p != nullptr && vp::pool_contains(model[i].p, sizeof(double) * n), "allocated memory too small");
        }
        fill(model[i]);
        remember(i);
        break;
      }
      case 1: {  // borrow
        const SizeType n = sizes[pick(3)];
        slot[i].reset();
        drop(i);
        slot[i].emplace(ext[i & 1], n);
        model[i] = {n ? ext[i & 1] : nullptr, n, false};
        if (i == 2 || n == 0 || true)
          for (int k = 0; k < 3; ++k)  // other borrowers of the same memory see the same values
            if (slot[k] && model[k].p == ext[i & 1])
              remember(k);
        break;
      }
      case 2: {  // move construct from slot j
        const int j = pick(nslots);
        if (j == i || !slot[j])
          break;
        slot[i].reset();
        drop(i);
        slot[i].emplace(std::move(*slot[j]));
        model[i] = model[j];
        model[j] = {};
        content[i] = content[j];
        break;
      }
      case 3: {  // move assign
        const int j = pick(nslots);
        if (j == i || !slot[j] || !slot[i])
          break;
        drop(i);
        *slot[i] = std::move(*slot[j]);
        model[i] = model[j];
        model[j] = {};
        content[i] = content[j];
        break;
      }
      case 4:
        slot[i].reset();
        drop(i);
        break;
    }
    verify();
  }
  for (auto& s : slot)
    s.reset();
  VP_CHECK(vp::pool_live() == 0, "leak: %ld allocations", vp::pool_live());
  ++vp::n_nontrivial;
}

// --- views ----------------------------------------------------------------------------------------
struct Block {
  double* p;
  SizeType n;
  bool owned;
};
struct ViewModel {
  std::shared_ptr<Block> b;
  SizeType off = 0, n = 0;
};

template <bool ConstSlot2>
static void view_history(int nslots, int depth) {
  vp::pool_reset();
  using View = MemoryView<double, Device::CPU>;
  using CView = MemoryView<const double, Device::CPU>;
  std::array<std::optional<View>, 3> slot;
  std::array<std::optional<CView>, 3> cslot;  // slot 2 holds const views in the ConstSlot2 flavour
  std::array<ViewModel, 3> model;
  std::vector<std::weak_ptr<Block>> blocks;
  double stamp = 1;
  auto is_c = [&](int i) { return ConstSlot2 && i == nslots - 1; };
  auto has = [&](int i) { return is_c(i) ? bool(cslot[i]) : bool(slot[i]); };
  auto verify = [&] {
    long live = 0;
    for (auto& w : blocks)
      if (auto b = w.lock(); b && b->owned && b->n > 0)
        ++live;
    VP_CHECK(vp::pool_live() == live, "%ld live allocations, expected %ld", vp::pool_live(), live);
    for (int i = 0; i < nslots; ++i) {
      if (!has(i))
        continue;
      const auto& m = model[i];
      auto check = [&](const auto& v) {
        VP_CHECK(v.size() == m.n, "size %ld instead of %ld", long(v.size()), long(m.n));
        const double* base = m.n ? m.b->p + m.off : nullptr;
        VP_CHECK(v() == base, "start of the view");
        for (SizeType k = 0; k < m.n; ++k)
          VP_CHECK(v(k) == base + k, "element %ld of the view", long(k));
        if (m.n && m.b->owned)
          VP_CHECK(vp::pool_contains(base, sizeof(double) * m.n), "view of released memory");
      };
      if (is_c(i))
        check(*cslot[i]);
      else
        check(*slot[i]);
    }
  };
  auto clear = [&](int i) {
    slot[i].reset();
    cslot[i].reset();
    model[i] = {};
  };
  for (int d = 0; d < depth; ++d) {
    const int i = pick(nslots);
    switch (pick(8)) {
      case 0: {  // allocate
        const int form = pick(4);  // 3: default constructed
        if (is_c(i) && form != 3)
          break;
        const SizeType n = form == 3 ? 0 : form * 2;
        clear(i);
        if (is_c(i)) {
          cslot[i].emplace();
          break;
        }
        if (form == 3)
          slot[i].emplace();
        else
          slot[i].emplace(n);
        model[i] = {n ? std::make_shared<Block>(Block{(*slot[i])(), n, true}) : nullptr, 0, n};
        if (n) {
          VP_CHECK(vp::pool_contains(model[i].b->p, sizeof(double) * n), "allocated memory too small");
          blocks.push_back(model[i].b);
        }
        for (SizeType k = 0; k < n; ++k)
          model[i].b->p[k] = stamp++;
        break;
      }
      case 1: {  // borrow
        const SizeType n = pick(2) * 3;
        clear(i);
        if (is_c(i))
          cslot[i].emplace(ext[0], n);
        else
          slot[i].emplace(ext[0], n);
        model[i] = {n ? std::make_shared<Block>(Block{ext[0], n, false}) : nullptr, 0, n};
        if (n)
          blocks.push_back(model[i].b);
        break;
      }
      case 2: {  // copy construct
        const int j = pick(nslots);
        if (j == i || !has(j) || (is_c(j) && !is_c(i)))
          break;
        clear(i);
        if (is_c(i)) {
          if (is_c(j))
            cslot[i].emplace(*cslot[j]);
          else
            cslot[i].emplace(*slot[j]);
        }
        else
          slot[i].emplace(*slot[j]);
        model[i] = model[j];
        break;
      }
      case 3: {  // move construct
        const int j = pick(nslots);
        if (j == i || !has(j) || (is_c(j) && !is_c(i)))
          break;
        clear(i);
        if (is_c(i))
          cslot[i].emplace(std::move(*slot[j]));
        else
          slot[i].emplace(std::move(*slot[j]));
        model[i] = model[j];
        model[j] = {};
        break;
      }
      case 4: {  // copy assign (also to itself)
        const int j = pick(nslots);
        if (!has(i) || !has(j) || (is_c(j) && !is_c(i)))
          break;
        if (is_c(i)) {
          if (is_c(j))
            *cslot[i] = *cslot[j];
          else
            *cslot[i] = *slot[j];
        }
        else
          *slot[i] = *slot[j];
        model[i] = ViewModel(model[j]);
        break;
      }
      case 5: {  // move assign
        const int j = pick(nslots);
        if (i == j || !has(i) || !has(j) || (is_c(j) && !is_c(i)))
          break;
        if (is_c(i))
          *cslot[i] = std::move(*slot[j]);
        else
          *slot[i] = std::move(*slot[j]);
        model[i] = model[j];
        model[j] = {};
        break;
      }
      case 6: {  // sub-view
        const int j = pick(nslots);
        if (!has(j) || (is_c(j) && !is_c(i)))
          break;
        const ViewModel mj = model[j];
        const SizeType off = pick(int(mj.n) + 1);
        const SizeType n = pick(int(mj.n - off) + 1);
        ViewModel m{n ? mj.b : nullptr, n ? mj.off + off : 0, n};
        if (is_c(i)) {
          CView v = is_c(j) ? CView(*cslot[j], off, n) : CView(*slot[j], off, n);
          clear(i);
          cslot[i].emplace(std::move(v));
        }
        else {
          View v(*slot[j], off, n);
          clear(i);
          slot[i].emplace(std::move(v));
        }
        model[i] = m;
        break;
      }
      case 7:
        clear(i);
        break;
    }
    verify();
  }
  for (int i = 0; i < 3; ++i)
    clear(i);
  VP_CHECK(vp::pool_live() == 0, "leak: %ld allocations", vp::pool_live());
  ++vp::n_nontrivial;
}

// all sub-views of sub-views of a view
template <class T>
static void subviews(SizeType n) {
  using View = MemoryView<T, Device::CPU>;
  using CView = MemoryView<const T, Device::CPU>;
  vp::pool_reset();
  {
    View v(n);
    T* base = v();
    for (SizeType o = 0; o <= n; ++o)
      for (SizeType s = 0; o + s <= n; ++s) {
        View w(v, o, s);
        VP_CHECK(w.size() == s && w() == (s ? base + o : nullptr), "sub-view");
        for (SizeType o2 = 0; o2 <= s; ++o2)
          for (SizeType s2 = 0; o2 + s2 <= s; ++s2) {
            View x(w, o2, s2);
            CView y(w, o2, s2);
            CView z(CView(w), o2, s2);
            VP_CHECK(x.size() == s2 && y.size() == s2 && z.size() == s2, "size");
            const T* e = s2 ? base + o + o2 : nullptr;
            VP_CHECK(x() == e && y() == e && z() == e, "nested sub-view starts at the wrong element");
            for (SizeType k = 0; k < s2; ++k)
              VP_CHECK(x(k) == e + k && y(k) == e + k && z(k) == e + k, "element");
            ++vp::n_nontrivial;
          }
      }
    for (SizeType o = 0; o <= n + 1; ++o)
      for (SizeType s = n - o + 1; s <= n + 1; ++s)
        if (o + s > n && s > 0)
          VP_CHECK(vp::dies([&] { new View(v, o, s); }), "sub-view (%ld,%ld) of %ld elements not refused", long(o), long(s), long(n));
    VP_CHECK(vp::dies([&] { v(n); }), "out of range access not refused");
    VP_CHECK(vp::pool_live() == (n > 0), "live");
  }
}

// chunks and views whose sizes and offsets do not fit in 32 bits (borrowed: the memory is only addressed, never accessed)
template <class T>
static void large_borrowed() {
  using Chunk = MemoryChunk<T, Device::CPU>;
  using View = MemoryView<T, Device::CPU>;
  using CView = MemoryView<const T, Device::CPU>;
  vp::pool_reset();
  const SizeType G = SizeType(1) << 31;
  const SizeType n = 3 * (2 * G) + 5;
  T* base = reinterpret_cast<T*>(std::uintptr_t(1) << 40);
  Chunk c(base, n);
  VP_CHECK(c.size() == n && c() == base, "chunk");
  View v(base, n);
  VP_CHECK(v.size() == n && v() == base, "view");
  const SizeType pos[] = {0, 1, G - 1, G, G + 1, 2 * G - 1, 2 * G, 2 * G + 1, 4 * G, 5 * G + 3, n - 1};
  for (SizeType o : pos) {
    VP_CHECK(c(o) == base + o && v(o) == base + o, "element %ld", long(o));
    for (SizeType o2 : pos)
      for (SizeType e : pos) {
        if (o + o2 > e)
          continue;
        View w(v, o, n - o);
        VP_CHECK(w.size() == n - o && w() == base + o, "sub-view from %ld", long(o));
        const SizeType len = e - o - o2 + 1;
        View x(w, o2, len);
        CView y(w, o2, len);
        CView z(CView(w), o2, len);
        const T* f = base + o + o2;
        VP_CHECK(x.size() == len && y.size() == len && z.size() == len, "size of a sub-view");
        VP_CHECK(x() == f && y() == f && z() == f, "start of a sub-view");
        VP_CHECK(x(len - 1) == f + (len - 1) && y(len - 1) == f + (len - 1) && z(len - 1) == f + (len - 1), "last element");
        View m(std::move(x));
        View cp(m);
        VP_CHECK(m.size() == len && cp.size() == len && m() == f && cp(len / 2) == f + len / 2, "moved or copied view");
        ++vp::n_nontrivial;
      }
  }
  for (SizeType extra : {SizeType(1), 2 * G, 4 * G})
    for (SizeType o : pos)
      VP_CHECK(vp::dies([&] { new View(v, o, n - o + extra); }), "sub-view beyond the end not refused");
  VP_CHECK(vp::dies([&] { v(n); }), "out of range access not refused");
  VP_CHECK(vp::pool_live() == 0, "live");
}

// allocations of more bytes than fit in 32 bits
template <class T>
static void large_allocated() {
  vp::pool_reset();
  for (SizeType bytes : {SizeType(1) << 31, (SizeType(1) << 32) + 64}) {
    const SizeType n = bytes / SizeType(sizeof(T)) + 3;
    {
      MemoryChunk<T, Device::CPU> c(n);
      VP_CHECK(c.size() == n && vp::pool_size_of(c()) >= sizeof(T) * std::size_t(n), "%ld elements, %zu bytes allocated", long(n), vp::pool_size_of(c()));
      *c(0) = T(1);
      *c(n - 1) = T(2);
      MemoryChunk<T, Device::CPU> d(std::move(c));
      VP_CHECK(d.size() == n && *d(n - 1) == T(2) && *d(0) == T(1), "content");
    }
    VP_CHECK(vp::pool_live() == 0, "leak");
    {
      MemoryView<T, Device::CPU> v(n);
      MemoryView<T, Device::CPU> w(v, n - 1, 1);
      v = {};
      VP_CHECK(vp::pool_live() == 1 && vp::pool_contains(w(), sizeof(T)), "the memory of a sub-view was released");
      *w() = T(3);
      ++vp::n_nontrivial;
    }
    VP_CHECK(vp::pool_live() == 0, "leak");
  }
}

int main(int argc, char** argv) {
  return vp::explore_main(argc, argv, [](bool thorough) {
    vp::Suite s;
    s.property = "P33";
    const int d = thorough ? 5 : 4;
    s.rule = vp::fmt("all sequences of allocation, borrowing, copy, move, assignment, sub-view and destruction on 2 or 3 chunks or views up to depth %d (3 views: one less), and all nested sub-views; "
                     "non-trivial: a complete history or a nested sub-view", d);
    for (int n = 0; n <= (thorough ? 9 : 6); ++n) {
      s.cases.push_back(vp::data_case("sub-views of " + std::to_string(n) + " doubles", [=] { subviews<double>(n); }));
      s.cases.push_back(vp::data_case("sub-views of " + std::to_string(n) + " floats", [=] { subviews<float>(n); }));
      s.cases.push_back(vp::data_case("sub-views of " + std::to_string(n) + " complex", [=] { subviews<std::complex<double>>(n); }));
    }
    s.cases.push_back(vp::data_case("borrowed memory beyond 32-bit sizes, float", [] { large_borrowed<float>(); }));
    s.cases.push_back(vp::data_case("borrowed memory beyond 32-bit sizes, complex", [] { large_borrowed<std::complex<double>>(); }));
    s.cases.push_back(vp::data_case("allocations beyond 32-bit sizes, float", [] { large_allocated<float>(); }));
    s.cases.push_back(vp::data_case("allocations beyond 32-bit sizes, complex", [] { large_allocated<std::complex<double>>(); }));
    s.cases.push_back(vp::history_case("chunks, 2 objects", [=] { chunk_history(2, d); }, 36));
    s.cases.push_back(vp::history_case("chunks, 3 objects", [=] { chunk_history(3, d); }, 36));
    s.cases.push_back(vp::history_case("views, 2 objects", [=] { view_history<false>(2, d); }, 36));
    s.cases.push_back(vp::history_case("views, 3 objects", [=] { view_history<false>(3, d - 1); }, 36));
    s.cases.push_back(vp::history_case("const views, 2 objects", [=] { view_history<true>(2, d); }, 36));
    s.cases.push_back(vp::history_case("const views, 3 objects", [=] { view_history<true>(3, d - 1); }, 36));
    return s;
  });
}
