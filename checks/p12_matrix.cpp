// P12: tiles are accessed in program order under every schedule.
#include "matrix_programs.hpp"

// a tile that is done cannot be accessed any more, neither directly nor through a sub-pipeline of the whole matrix
static void done_tiles() {
  using namespace mp;
  namespace tt = pika::this_thread::experimental;
  const int which = vp::pick(3), before = vp::pick(3), flavour = vp::pick(2);
  vp::pool_reset();
  vp::ranks(1, 2, [&](int) {
    Matrix<double, Device::CPU> m(LocalElementSize(3, 2), TileElementSize(1, 2));
    auto sub = m.sub_pipeline();
    const LocalTileIndex ij(which, 0);
    const GlobalTileIndex gij(which, 0);
    auto program = [&](auto& a) {
      if (before == 1)
        tt::sync_wait(a.read(ij));
      if (before == 2)
        tt::sync_wait(a.readwrite(ij));
      Matrix<const double, Device::CPU>& c = a;
      if (flavour)
        c.done(ij);
      else
        c.done(gij);
      VP_CHECK(vp::dies([&] { a.read(ij); }) && vp::dies([&] { c.read(gij); }), "read of a tile that is done not refused");
      VP_CHECK(vp::dies([&] { a.readwrite(ij); }) && vp::dies([&] { a.readwrite(gij); }), "readwrite of a tile that is done not refused");
      for (int o = 0; o < 3; ++o)
        if (o != which)
          tt::sync_wait(a.readwrite(LocalTileIndex(o, 0)));
      VP_CHECK(vp::dies([&] { a.sub_pipeline(); }), "sub-pipeline of a matrix with a tile that is done not refused");
    };
    if (vp::pick(2)) {
      program(sub);
      auto gone = std::move(sub);  // frees the other matrix
    }
    else {
      auto gone = std::move(sub);
      auto x = m.sub_pipeline_const();
      auto gone2 = std::move(x);
    }
  });
  vp::ranks(1, 2, [&](int) {
    Matrix<double, Device::CPU> m(LocalElementSize(3, 2), TileElementSize(1, 2));
    const LocalTileIndex ij(which, 0);
    m.done(ij);
    VP_CHECK(vp::dies([&] { m.read(ij); }) && vp::dies([&] { m.readwrite(ij); }), "access to a tile that is done not refused");
  });
  ++vp::n_nontrivial;
}

int main(int argc, char** argv) {
  using namespace mp;
  return vp::explore_main(argc, argv, [](bool thorough) {
    vp::Suite s;
    s.property = "P12";
    s.rule = "all programs of tile requests (read, write, sub-tiles, disjoint splits, shared tiles; attached at once, later or dropped), sub-pipelines, done marks, waits, moves and destruction "
             "up to the depth on a two-tile matrix and up to two sub-pipelines; non-trivial: a complete program";
    constexpr unsigned long whole = ops(READ, WRITE, READ_TWICE, READ_DROP, WRITE_DROP), part = ops(READ_SUB, WRITE_SUB, WRITE_SPLIT, WRITE_SPLIT_DROP, SHARE, READ_SPLIT), hold = ops(HOLD_READ, HOLD_WRITE, ATTACH, RELEASE),
                            sub = ops(SUB, SUB_CONST), ctl = ops(DONE, WAIT, MOVE, DESTROY);
    auto add = [&](const char* what, int depth, int nslots, unsigned long o, int dev, unsigned policies, bool hb = false) {
      auto c = vp::sched_case(vp::fmt("%s, %d steps, %d matrices", what, depth, nslots), [=] { programs(depth, nslots, o); }, dev, policies, false, hb);
      c.split = 36;
      s.cases.push_back(c);
    };
    using vp::ALL_POLICIES;
    using vp::BASIC_POLICIES;
    for (int d = 1; d <= 2; ++d)
      add("all operations", d, 3, whole | part | hold | sub | ctl, thorough ? 2 : 1, ALL_POLICIES, true);
    add("all operations", 3, 3, whole | part | hold | sub | ctl, thorough ? 1 : 0, thorough ? ALL_POLICIES : BASIC_POLICIES);
    add("whole tiles", 3, 2, whole | sub | ctl, 1, ALL_POLICIES);
    add("whole tiles", 4, 1, ops(READ, WRITE, WAIT), thorough ? 2 : 1, ALL_POLICIES, true);
    add("sub-tiles", 3, 1, ops(READ, WRITE) | part, thorough ? 2 : 1, BASIC_POLICIES);
    add("sub-pipelines", 4, 3, ops(READ, WRITE, DESTROY) | sub, thorough ? 1 : 0, BASIC_POLICIES);
    add("held requests", 4, 2, ops(READ, WRITE) | hold | ops(SUB), thorough ? 1 : 0, BASIC_POLICIES);
    if (thorough) {
      add("whole tiles", 5, 1, ops(READ, WRITE, WAIT), 2, ALL_POLICIES);
      add("sub-pipelines", 5, 3, ops(READ, WRITE, DESTROY, SUB), 0, BASIC_POLICIES);
    }
    s.cases.push_back(vp::history_case("tiles that are done", done_tiles));
    return s;
  });
}
