// P31: an operation run through a temporary tile sees and leaves exactly what was requested.
#include <complex>
#include <memory>
#include <vector>

#include <pika/execution.hpp>
#include <pika/runtime.hpp>
#include <pika/thread.hpp>

#include <dlaf/matrix/copy_tile.h>
#include <dlaf/matrix/create_matrix.h>
#include <dlaf/matrix/matrix.h>
#include <dlaf/sender/when_all_lift.h>
#include <dlaf/sender/with_temporary_tile.h>

#include "sched.hpp"

using namespace dlaf;
using dlaf::internal::CopyFromDestination;
using dlaf::internal::CopyToDestination;
using dlaf::internal::RequireContiguous;
using matrix::Distribution;
using matrix::Matrix;
using matrix::Tile;
using vp::pick;
namespace ex = pika::execution::experimental;
namespace tt = pika::this_thread::experimental;
using Policy = dlaf::internal::Policy<Backend::MC>;

// (complete types before anything refers to them)
static_assert(sizeof(Tile<int, Device::CPU>) > 0 && sizeof(Tile<SizeType, Device::CPU>) > 0);

struct OpSpec {
  int to, from, contiguous, readonly, body;
};
struct Log {
  int calls = 0;      // of the callable
  int ended = 0;      // operations completed
  int continued = 0;  // continuations
};

template <class T>
static T value(int step, SizeType i, SizeType j) {
  return T(1000 * step + 10 * int(i) + int(j) + 1);
}
template <class T>
static void fill(const Tile<T, Device::CPU>& t, int step) {
  for (SizeType j = 0; j < t.size().cols(); ++j)
    for (SizeType i = 0; i < t.size().rows(); ++i)
      t({i, j}) = value<T>(step, i, j);
}
template <class T>
static void expect(const Tile<const T, Device::CPU>& t, int step, const char* what) {
  for (SizeType j = 0; j < t.size().cols(); ++j)
    for (SizeType i = 0; i < t.size().rows(); ++i)
      VP_CHECK(t({i, j}) == value<T>(step, i, j), "%s: element (%ld,%ld) does not have the value written by step %d", what, i, j, step);
}

// Applies the operation to the tile sent by `in`. Content of the tile before: step `before`. The operation writes `step`.
template <bool to, bool from, bool contiguous, class T, class In>
static void apply(In in, const OpSpec& o, Log& log, TileElementSize size, bool in_contiguous, const void* in_ptr, int before, int step, bool continuation) {
  constexpr bool readonly = std::is_const_v<T>;
  using TT = std::remove_const_t<T>;
  const bool direct = !contiguous || in_contiguous;
  auto look = [=](const Tile<const TT, Device::CPU>& t) {
    VP_CHECK(t.size() == size, "the size of the tile is %ld x %ld", t.size().rows(), t.size().cols());
    if (contiguous && size.rows() > 0)
      VP_CHECK(t.is_contiguous(), "the tile is not contiguous");
    if (!size.isEmpty())
      VP_CHECK((t.ptr() == in_ptr) == direct, direct ? "the tile has not been used directly" : "the original is used where a contiguous tile is required");
    if (to || direct)
      expect<TT>(t, before, "seen by the operation");
  };
  auto op = [=, &log](auto& tile) {
    {
      vp::HbIgnore ign;
      ++log.calls;
    }
    // a temporary tile can be written by the operation; the original only if it is not read-only
    auto work = [=, &log, &tile]() {
      look(tile);
      if constexpr (!std::is_const_v<typename std::decay_t<decltype(tile)>::ElementType> && !std::is_const_v<std::remove_reference_t<decltype(tile)>>)
        fill<TT>(tile, step);
      {
        vp::HbIgnore ign;
        ++log.ended;
      }
    };
    if (o.body == 0)  // at once, in the task that calls
      return ex::make_unique_any_sender(ex::just() | ex::then(work));
    if (o.body == 1)  // in another task; sends a value, which is dropped
      return ex::make_unique_any_sender(ex::schedule(ex::thread_pool_scheduler{}) | ex::then(work));
    // two tasks after each other (an asynchronous operation which is started, and completes later)
    return ex::make_unique_any_sender(ex::schedule(ex::thread_pool_scheduler{}) | ex::then([look, &tile] { look(tile); }) | ex::continues_on(ex::thread_pool_scheduler{}) | ex::then(work));
  };
  auto s = dlaf::internal::withTemporaryTile<Device::CPU, CopyToDestination(to), CopyFromDestination(from), RequireContiguous(contiguous)>(std::move(in), std::move(op));
  const int after = direct || from ? step : before;
  if constexpr (readonly) {
    if (continuation)
      ex::start_detached(std::move(s) | ex::then([&log] {
                           vp::HbIgnore ign;
                           VP_CHECK(log.ended == log.calls, "the continuation runs before the operation has completed");
                           ++log.continued;
                         }));
    else
      ex::start_detached(std::move(s));
  }
  else {
    if (continuation)
      ex::start_detached(dlaf::internal::transform(Policy(), [=, &log](const Tile<T, Device::CPU>& t) {
                           {
                             vp::HbIgnore ign;
                             VP_CHECK(log.ended == log.calls, "the continuation runs before the operation has completed");
                             ++log.continued;
                           }
                           VP_CHECK(t.size() == size && (size.isEmpty() || t.ptr() == in_ptr), "the tile sent on is not the original");
                           expect<TT>(t, after, "sent on");
                         }, std::move(s)));
    else
      ex::start_detached(std::move(s) | ex::drop_value());
  }
}

template <class T, class In>
static void dispatch(In in, const OpSpec& o, Log& log, TileElementSize size, bool in_contiguous, const void* p, int before, int step, bool cont) {
  auto f = [&](auto to, auto from, auto contiguous) {
    apply<decltype(to)::value, decltype(from)::value, decltype(contiguous)::value, T>(std::move(in), o, log, size, in_contiguous, p, before, step, cont);
  };
  using Y = std::true_type;
  using N = std::false_type;
  if constexpr (std::is_const_v<T>) {
    // nothing can be copied back to a read-only tile
    o.to ? (o.contiguous ? f(Y{}, N{}, Y{}) : f(Y{}, N{}, N{})) : (o.contiguous ? f(N{}, N{}, Y{}) : f(N{}, N{}, N{}));
  }
  else {
    if (o.from)
      o.to ? (o.contiguous ? f(Y{}, Y{}, Y{}) : f(Y{}, Y{}, N{})) : (o.contiguous ? f(N{}, Y{}, Y{}) : f(N{}, Y{}, N{}));
    else
      o.to ? (o.contiguous ? f(Y{}, N{}, Y{}) : f(Y{}, N{}, N{})) : (o.contiguous ? f(N{}, N{}, Y{}) : f(N{}, N{}, N{}));
  }
}

// A history of operations on one tile of a matrix
template <class T>
static void history(SizeType max, int nops) {
  const SizeType m = pick(int(max) + 1), n = pick(int(max) + 1);
  const int layout = pick(3);  // contiguous tiles; tiles in columns; sub-tile
  std::vector<OpSpec> ops;
  std::string text;
  for (int k = 0; k < nops; ++k) {
    OpSpec o;
    o.readonly = pick(2);
    o.to = pick(2);
    o.from = o.readonly ? 0 : pick(2);
    o.contiguous = pick(2);
    o.body = pick(3);
    ops.push_back(o);
    text += vp::fmt(" %s%s%s%s%d", o.readonly ? "r" : "w", o.to ? "T" : "-", o.from ? "F" : "-", o.contiguous ? "C" : "-", o.body);
  }
  const bool cont = pick(2);
  vp::context(vp::fmt("%ld x %ld %s:%s %s", m, n, layout == 0 ? "tile" : layout == 1 ? "column-major" : "sub-tile", text.c_str(), cont ? "with continuation" : ""));
  vp::pool_reset();
  vp::mpi_set_initialized(true);
  vp::run_ranks({1, 2}, [&](int) {
    const SizeType ld = layout == 0 ? std::max<SizeType>(1, m) : m + 2;
    std::vector<T> mem(std::size_t(ld * (n + 2)), T(-7));
    T* const base = mem.data() + 1;
    {
      Log log[4];
      // layout 2: a sub-tile of a (m+2) x (n+1) tile
      auto mat = layout == 2 ? matrix::create_matrix_from_col_major<Device::CPU>(GlobalElementSize{m + 2, n + 1}, TileElementSize{m + 2, n + 1}, m + 2, base)
                             : matrix::create_matrix_from_col_major<Device::CPU>(GlobalElementSize{std::max<SizeType>(m, 1), std::max<SizeType>(n, 1)}, TileElementSize{std::max<SizeType>(m, 1), std::max<SizeType>(n, 1)}, ld, base);
      const bool sub = layout == 2 || m == 0 || n == 0;
      const TileElementIndex o = layout == 2 ? TileElementIndex(1, 1) : TileElementIndex(0, 0);
      const T* in_ptr = base + (layout == 2 ? 1 + ld : 0);
      auto rw = [&] {
        auto s = mat.readwrite(LocalTileIndex(0, 0));
        return sub ? matrix::splitTile(std::move(s), {o, {m, n}}) : std::move(s);
      };
      auto ro = [&] {
        auto s = mat.read(LocalTileIndex(0, 0));
        return sub ? matrix::splitTile(std::move(s), {o, {m, n}}) : std::move(s);
      };
      const bool contiguous = ld == std::max<SizeType>(m, 1) && layout == 0 ? true : (layout == 2 ? ld == m : ld == m);
      // the flag as the tile reports it (P35 judges it)
      const bool in_contiguous = tt::sync_wait(ro()).get().is_contiguous();
      VP_CHECK(m == 0 || n == 0 || in_contiguous == contiguous, "is_contiguous of the original");
      ex::start_detached(rw() | dlaf::internal::transform(Policy(), [](const Tile<T, Device::CPU>& t) { fill<T>(t, 100); }));
      int state = 100;
      for (int k = 0; k < nops; ++k) {
        const OpSpec& op = ops[std::size_t(k)];
        const int step = k + 1;
        if (op.readonly) {
          dispatch<const T>(ro(), op, log[k], {m, n}, in_contiguous, in_ptr, state, step, cont);
        }
        else {
          dispatch<T>(rw(), op, log[k], {m, n}, in_contiguous, in_ptr, state, step, cont);
          if (op.from || !op.contiguous || in_contiguous)
            state = step;
        }
      }
      {
        auto t = tt::sync_wait(ro());
        // a read-only access waits for all earlier writes, so the operations on the original are over
        for (int k = 0; k < nops; ++k)
          if (!ops[std::size_t(k)].readonly)
            VP_CHECK(log[k].calls == 1 && log[k].ended == 1, "operation %d on the tile has been released before it has completed", k);
        expect<T>(t.get(), state, "finally");
      }
      tt::sync_wait(rw());
      for (int k = 0; k < nops; ++k)
        VP_CHECK(log[k].calls == 1 && log[k].ended == 1, "operation %d on the tile has been released before it has completed", k);
      pika::wait();
      for (int k = 0; k < nops; ++k)
        VP_CHECK(log[k].continued == (cont ? 1 : 0), "the continuation of operation %d ran %d times", k, log[k].continued);
    }
    // nothing outside the tile is touched
    std::vector<char> inside(mem.size(), 0);
    for (SizeType j = 0; j < n; ++j)
      for (SizeType i = 0; i < m; ++i)
        inside[std::size_t(1 + (layout == 2 ? 1 + ld : 0) + i + j * ld)] = 1;
    for (std::size_t i = 0; i < mem.size(); ++i)
      VP_CHECK(inside[i] || mem[i] == T(-7), "memory outside the tile has been modified");
  });
  VP_CHECK(vp::pool_live() == 0, "%ld temporary tiles are still alive", vp::pool_live());
  ++vp::n_nontrivial;
}

// Duplicates: a copy (or an uninitialised tile of the same shape) in contiguous memory of its own
template <class T>
static void duplicates(SizeType max) {
  const SizeType m = pick(int(max) + 1), n = pick(int(max) + 1), pad = pick(3);
  vp::context(vp::fmt("duplicate of %ld x %ld, padding %ld", m, n, pad));
  vp::pool_reset();
  const SizeType ld = std::max<SizeType>(1, m + pad);
  std::vector<T> mem(std::size_t(ld * (n + 1)), T(-7));
  Tile<T, Device::CPU> t({m, n}, memory::MemoryView<T, Device::CPU>(mem.data(), ld * (n + 1)), ld);
  fill<T>(t, 3);
  {
    const Tile<const T, Device::CPU>& c = t;
    auto d = matrix::Duplicate<Device::CPU>{}(c);
    VP_CHECK(d.size() == t.size() && (m == 0 || d.is_contiguous()) && (d.size().isEmpty() || d.ptr() != t.ptr()), "shape or place of a duplicate");
    expect<T>(d, 3, "duplicate");
    fill<T>(d, 4);
    expect<T>(t, 3, "original after the duplicate has been changed");
    auto u = matrix::DuplicateNoCopy<Device::CPU>{}(c);
    VP_CHECK(u.size() == t.size() && (m == 0 || u.is_contiguous()) && (u.size().isEmpty() || (u.ptr() != t.ptr() && u.ptr() != d.ptr())), "shape or place of a duplicate");
    fill<T>(u, 5);
    matrix::internal::copy(u, t);
    expect<T>(t, 5, "copied");
    expect<T>(d, 4, "duplicate");
  }
  for (SizeType j = 0; j < n + 1; ++j)
    for (SizeType i = 0; i < ld; ++i)
      if (i >= m || j >= n)
        VP_CHECK(mem[std::size_t(i + j * ld)] == T(-7), "memory outside the tile has been modified");
  VP_CHECK(vp::pool_live() == 0, "%ld duplicates are still alive", vp::pool_live());
  ++vp::n_nontrivial;
}

int main(int argc, char** argv) {
  return vp::explore_main(argc, argv, [](bool thorough) {
    vp::Suite s;
    s.property = "P31";
    s.rule = "all histories of operations through temporary tiles up to the depth, with all combinations of access, copying in, copying back, contiguity, tile layout, size, completion and continuation, "
             "under all schedules within the deviation bound; non-trivial: a history (or a pair of duplicates)";
    using vp::ALL_POLICIES;
    using vp::BASIC_POLICIES;
    constexpr unsigned two = (1u << vp::LIFO) | (1u << vp::EAGER);
    auto add = [&](const char* tn, auto zero, SizeType max, int nops, int dev, unsigned pol) {
      using T = decltype(zero);
      auto k = vp::sched_case(vp::fmt("%s, tiles up to %ld, %d operations", tn, max, nops), [=] { history<T>(max, nops); }, dev, pol, false);
      k.split = 12;
      s.cases.push_back(k);
    };
    auto dup = [&](const char* tn, auto zero) {
      using T = decltype(zero);
      s.cases.push_back(vp::sched_case(vp::fmt("%s, duplicates", tn), [=] { duplicates<T>(thorough ? 6 : 4); }, 0, BASIC_POLICIES, false));
    };
    add("double", 0., 2, 1, thorough ? 2 : 1, ALL_POLICIES);
    add("double", 0., 2, 2, 0, thorough ? unsigned(ALL_POLICIES) : two);
    add("double", 0., 1, 2, 1, thorough ? unsigned(ALL_POLICIES) : two);
    if (thorough)
      add("double", 0., 1, 3, 0, two);
    add("float", 0.f, 2, 1, 0, BASIC_POLICIES);
    add("complex<double>", std::complex<double>{}, 2, 1, 0, BASIC_POLICIES);
    add("complex<float>", std::complex<float>{}, 2, 1, 0, BASIC_POLICIES);
    add("int", 0, 2, 1, 0, BASIC_POLICIES);
    add("SizeType", SizeType(0), 2, 1, 0, BASIC_POLICIES);
    dup("double", 0.);
    dup("float", 0.f);
    dup("int", 0);
    dup("SizeType", SizeType(0));
    dup("complex<float>", std::complex<float>{});
    dup("complex<double>", std::complex<double>{});
    return s;
  });
}
