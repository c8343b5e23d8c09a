// P44: the miniapps with a check of their results run as requested, approve right results and only those.
// The main functions of the miniapps are run on all ranks; their output is compared line by line with what the options ask for.
#include <sys/wait.h>
#include <unistd.h>

#include <cmath>
#include <iostream>
#include <sstream>

#include <dlaf/communication/communicator_grid.h>

#include "algo.hpp"

#include "p44_fault.hpp"

using namespace algo;

int p44_main_cholesky(int, char**);
int p44_main_eigensolver(int, char**);
int p44_main_gen_eigensolver(int, char**);

#define APPS(F)                                                                                                                            \
  F(triangular_solver)                                                                                                                     \
  F(triangular_multiplication)                                                                                                             \
  F(gen_to_std)                                                                                                                            \
  F(inverse_from_cholesky_factor)                                                                                                          \
  F(triangular_inverse)                                                                                                                    \
  F(reduction_to_band)                                                                                                                     \
  F(band_to_tridiag)                                                                                                                       \
  F(tridiag_solver)                                                                                                                        \
  F(bt_band_to_tridiag)                                                                                                                    \
  F(bt_reduction_to_band)                                                                                                                  \
  F(redistribution)
#define DECLARE(x) int p44_main_##x(int, char**);
APPS(DECLARE)

namespace p44 {
Fault fault;
bool only_options = false;
}

namespace {
enum App { CHOLESKY, EIGEN, GEN_EIGEN };
int (*const mains[])(int, char**) = {p44_main_cholesky, p44_main_eigensolver, p44_main_gen_eigensolver};
const char* const app_names[] = {"miniapp_cholesky", "miniapp_eigensolver", "miniapp_gen_eigensolver"};

struct Options {
  App app;
  char type = 'd', uplo = 'L';
  int gr = 1, gc = 1;
  bool local = false;
  long m = 4, mb = 2;
  int runs = 1, warmups = 0;
  const char* check = "all";
  bool csv = false;
  int range = 0;  // 0 all, 1 the index of the end, 2 a percentage
  long end = 0;
  bool upper_name = true;

  std::vector<std::string> args() const {
    std::vector<std::string> a = {app_names[app], "--matrix-size=" + std::to_string(m), "--block-size=" + std::to_string(mb), "--grid-rows=" + std::to_string(gr), "--grid-cols=" + std::to_string(gc),
                                  "--nruns=" + std::to_string(runs), "--nwarmups=" + std::to_string(warmups), std::string("--check-result=") + check,
                                  std::string("--type=") + (upper_name ? char(toupper(type)) : type), std::string("--uplo=") + (upper_name ? uplo : char(tolower(uplo)))};
    if (local)
      a.push_back("--local");
    if (csv) {
      a.push_back("--csv");
      a.push_back("--pp-info=nodes, 3");
    }
    if (range == 1)
      a.push_back("--eval-index-end=" + std::to_string(end));
    if (range == 2)
      a.push_back("--percent-evals=" + vp::fmt("%.17g", 100. * double(end) / double(m)));
    return a;
  }
  std::string str() const {
    std::string s;
    for (const auto& a : args())
      s += (s.empty() ? "" : " ") + a;
    return s;
  }
};

struct Captured {
  std::ostringstream out, err;
  std::streambuf *o, *e;
  Captured() : o(std::cout.rdbuf(out.rdbuf())), e(std::cerr.rdbuf(err.rdbuf())) {}
  ~Captured() {
    std::cout.rdbuf(o);
    std::cerr.rdbuf(e);
  }
};

// CSVData-2, title, value, title, value, ...
std::map<std::string, std::string> csv_fields(const std::string& line) {
  std::vector<std::string> f;
  for (std::size_t p = 0; p <= line.size();) {
    auto q = line.find(',', p);
    if (q == std::string::npos)
      q = line.size();
    auto b = line.find_first_not_of(' ', p);
    f.push_back(b < q ? line.substr(b, q - b) : "");
    p = q + 1;
  }
  VP_CHECK(f.size() % 2 == 1, "'%s' has no value for each title", line.c_str());
  std::map<std::string, std::string> m;
  for (std::size_t i = 1; i + 1 < f.size(); i += 2) {
    std::string t = f[i];
    for (auto& c : t)
      c = char(tolower(c));
    VP_CHECK(m.emplace(t, f[i + 1]).second, "'%s' has the title '%s' twice", line.c_str(), t.c_str());
  }
  return m;
}

void run(const Options& o, const p44::Fault& fault, bool wrong) {
  vp::context(o.str() + (fault.what ? vp::fmt(fault.nan ? ", NaN added to all elements of the %s" : ", one added to element (%2$ld,%3$ld) of the %1$s", fault.what == 1 ? "result" : "eigenvalues", fault.i, fault.j) : ""));
  std::string out, err;
  {
    Captured c;
    p44::fault = fault;
    vp::pool_reset();
    vp::ranks(o.gr * o.gc, 2, [&](int) {
      std::vector<std::string> a;
      std::vector<char*> p;
      {
        vp::HbIgnore h;
        a = o.args();
        for (auto& s : a)
          p.push_back(s.data());
        p.push_back(nullptr);
      }
      const int ret = mains[o.app](int(a.size()), p.data());
      VP_CHECK(ret == 0, "main returned %d", ret);
    });
    out = c.out.str();
    err = c.err.str();
  }
  VP_CHECK(vp::pool_live() == 0, "%ld allocations are still alive", vp::pool_live());
  const bool all = !strcmp(o.check, "all"), last = !strcmp(o.check, "last");
  const bool supported = !(o.app == CHOLESKY && o.m % o.mb);
  if (!all && !last)
    VP_CHECK(err.empty(), "error output: %s", err.c_str());
  if (!supported && (all || last))
    VP_CHECK(err.find("Warning!") != std::string::npos, "no warning that the results cannot be checked");
  std::istringstream lines(out);
  std::string line;
  auto next = [&](const char* what, int i) {
    VP_CHECK(bool(std::getline(lines, line)), "the output ends before the %s of run %d:\n%s", what, i, out.c_str());
  };
  const std::string type(1, o.type);
  for (int i = -o.warmups; i < o.runs; ++i) {
    const std::string id = "[" + std::to_string(i) + "]";
    if (i >= 0) {
      next("start", i);
      VP_CHECK(line == id, "'%s' instead of '%s'", line.c_str(), id.c_str());
      next("time", i);
      char* e = nullptr;
      const bool ok = line.compare(0, id.size() + 1, id + " ") == 0;
      const double time = ok ? strtod(line.c_str() + id.size() + 1, &e) : 0;
      VP_CHECK(ok && *e == 's' && time >= 0, "'%s' does not report the time of run %d", line.c_str(), i);
      const auto size = vp::fmt("(%ld, %ld)", o.m, o.m), block = vp::fmt("(%ld, %ld)", o.mb, o.mb), grid = vp::fmt("(%d, %d)", o.gr, o.gc);
      auto p = line.find(" " + type + o.uplo + " " + size);
      VP_CHECK(p != std::string::npos, "'%s' does not report type, triangle and size", line.c_str());
      p = line.find(block, p + size.size() + 4);
      VP_CHECK(p != std::string::npos, "'%s' does not report the block size", line.c_str());
      p = line.find(grid, p + block.size());
      VP_CHECK(p != std::string::npos, "'%s' does not report the grid", line.c_str());
      if (o.csv) {
        next("CSV data", i);
        VP_CHECK(line.compare(0, 11, "CSVData-2, ") == 0, "'%s' is not CSV data", line.c_str());
        auto f = csv_fields(line);
        auto field = [&](const char* t, const std::string& v) { VP_CHECK(f.count(t) && f[t] == v, "%s is '%s' instead of '%s' in '%s'", t, f[t].c_str(), v.c_str(), line.c_str()); };
        field("run", std::to_string(i));
        field("type", o.type == 's' ? "Single" : o.type == 'd' ? "Double" : o.type == 'c' ? "ComplexSingle" : "ComplexDouble");
        field("uplo", o.uplo == 'L' ? "Lower" : "Upper");
        field("matrixsize", std::to_string(o.m));
        field("blocksize", std::to_string(o.mb));
        field("comm_rows", std::to_string(o.gr));
        field("comm_cols", std::to_string(o.gc));
        field("threads", "2");
        field("nodes", "3");
        if (o.app != CHOLESKY)
          field(o.app == EIGEN ? "last eigenvalue index" : "eigenvalue index end", std::to_string(o.range ? o.end : o.m));
      }
    }
    if (supported && (all || (last && i == o.runs - 1))) {
      next("verdict", i);
      const bool error = line.compare(0, 7, "ERROR: ") == 0;
      auto p = line.find("Max Diff / Max A");
      VP_CHECK(p != std::string::npos, "'%s' is not a verdict", line.c_str());
      VP_CHECK(error == wrong, "results that are %s get the verdict '%s'", wrong ? "wrong" : "right", line.c_str());
      if (!wrong) {
        const double ratio = strtod(line.c_str() + line.rfind(':') + 1, nullptr);
        VP_CHECK(std::isfinite(ratio) && ratio >= 0, "the verdict is '%s'", line.c_str());
      }
    }
  }
  VP_CHECK(!std::getline(lines, line), "unexpected output '%s'", line.c_str());
  ++vp::n_nontrivial;
}

void ranges(Options& o, long min_end) {
  if (o.app == CHOLESKY)
    return;
  o.range = pick(3);
  o.end = o.m;
  if (o.range)
    o.end = min_end + pick(int(o.m - min_end) + 1);
}

// all options
void runs(App app, int gr, int gc, long max_m, long max_mb) {
  Options o;
  o.app = app;
  o.gr = gr;
  o.gc = gc;
  o.m = 1 + pick(int(max_m));
  o.mb = 1 + pick(int(max_mb));
  const int how = pick(4);  // combinations of the options which change what gets printed
  o.runs = how == 0 || how == 3 ? 2 : 1;
  o.warmups = how == 0 || how == 1;
  o.check = how == 3 ? "last" : how == 2 ? "none" : "all";
  o.csv = how == 0 || how == 2;
  o.local = false;
  o.upper_name = how % 2;
  if (app != CHOLESKY && how >= 2)
    ranges(o, 0);
  // the norm of an upper triangle is not implemented, so no results of it can be checked
  if (app == CHOLESKY && how == 2 && pick(2))
    o.uplo = 'U';
  // band of one is refused by the reduction to band
  if (app != CHOLESKY && o.mb == 1)
    o.mb = 2 + max_mb;
  run(o, {}, false);
}
// The other miniapps
struct Other {
  const char* name;
  int (*main)(int, char**);
};
#define ENTRY(x) {#x, p44_main_##x},
const Other others[] = {APPS(ENTRY)};

void other(const Other& app, int gr, int gc, bool all) {
  const std::string name = app.name;
  std::vector<std::string> args = {"miniapp_" + name};
  std::map<std::string, std::string> fields;
  std::vector<std::string> parts;
  auto arg = [&](const char* n, auto v) {
    std::ostringstream s;
    s << "--" << n << "=" << v;
    args.push_back(s.str());
  };
  auto num = [](long v) { return std::to_string(v); };
  auto flag = [&](const char* n, const char* title, std::vector<std::pair<char, const char*>> values) {
    const auto& v = values[to_sizet(pick(int(values.size())))];
    arg(n, v.first);
    fields[title] = v.second;
  };
  const int runs = 1 + pick(2), warmups = pick(2);
  const bool csv = runs == 1 || warmups;
  long m, n, mb;
  bool part = false;
  const bool local = gr * gc == 1 && name != "redistribution" && pick(2);
  const bool solver = name == "triangular_solver", product = name == "triangular_multiplication", bt = name.compare(0, 3, "bt_") == 0;
  const bool big = name.compare(0, 11, "triangular_") == 0 && name != "triangular_inverse";
  m = 1 + pick(big ? 3 : 5);
  mb = 2 + (big ? 0 : pick(2));
  n = m;
  if (solver || product || bt) {
    n = 1 + pick(3);
    const long nb = 1 + pick(2);
    arg("m", m);
    arg("n", n);
    arg("mb", mb);
    arg("nb", nb);
    parts = {vp::fmt("(%ld, %ld)", m, n), vp::fmt("(%ld, %ld)", mb, nb)};
    if (bt) {
      arg("b", mb);
      fields["band_size"] = num(mb);
    }
    if (!product && pick(2)) {
      part = true;
      const long end = pick(int(n) + 1);
      arg("eval-index-end", end);
      parts.insert(parts.begin() + 1, vp::fmt("(0, %ld)", end));
    }
  }
  else {
    if (name == "redistribution" && mb > m)
      mb = m;
    arg("matrix-size", m);
    arg("block-size", mb);
    parts = {vp::fmt("(%ld, %ld)", m, m), vp::fmt("(%ld, %ld)", mb, mb)};
    if (name == "tridiag_solver")
      parts = {vp::fmt("(%ld, 2)", m), vp::fmt("(%ld, 2)", mb)};
    if (name == "redistribution") {
      // one of the sizes has to be a multiple of the other
      std::vector<long> sizes;
      for (long k = 1; k <= m; ++k)
        if (k % mb == 0 || mb % k == 0)
          sizes.push_back(k);
      const long to = sizes[to_sizet(pick(int(sizes.size())))];
      arg("block-size-dst", to);
      parts.push_back(vp::fmt("-> (%ld, %ld)", to, to));
      fields["blocksize_dst"] = num(to);
    }
    if (name == "band_to_tridiag" || name == "reduction_to_band") {
      arg("band-size", mb);
      fields["band_size"] = num(mb);
    }
  }
  parts.push_back(vp::fmt("(%d, %d)", gr, gc));
  fields["matrixsize"] = num(m);
  fields[name == "redistribution" ? "blocksize_src" : "blocksize"] = num(mb);
  fields["comm_rows"] = num(gr);
  fields["comm_cols"] = num(gc);
  fields["threads"] = "2";
  fields["nodes"] = "3";
  if (solver || product) {
    // transposed products are not implemented on grids
    if (solver || local)
      flag("op", "op", {{'N', "NoTrans"}, {'T', "Trans"}, {'C', "ConjTrans"}});
    flag("uplo", "uplo", {{'L', "Lower"}, {'U', "Upper"}});
    if (all) {
      if (part) {
        args.push_back("--side=L");
        fields["side"] = "Left";
      }
      else {
        flag("side", "side", {{'L', "Left"}, {'R', "Right"}});
      }
      flag("diag", "diag", {{'N', "NonUnit"}, {'U', "Unit"}});
    }
  }
  if (name == "gen_to_std" || name == "inverse_from_cholesky_factor" || name == "triangular_inverse")
    flag("uplo", "uplo", {{'L', "Lower"}, {'U', "Upper"}});
  if (all && name == "tridiag_solver")
    flag("type", "type", {{'s', "Single"}, {'d', "Double"}});
  else if (all)
    flag("type", "type", {{'s', "Single"}, {'z', "ComplexDouble"}});
  arg("grid-rows", gr);
  arg("grid-cols", gc);
  arg("nruns", runs);
  arg("nwarmups", warmups);
  if (local)
    args.push_back("--local");
  if (csv) {
    args.push_back("--csv");
    args.push_back("--pp-info=nodes, 3");
  }
  std::string text;
  for (const auto& a : args)
    text += (text.empty() ? "" : " ") + a;
  vp::context(text);
  std::string out;
  {
    Captured c;
    vp::pool_reset();
    vp::ranks(gr * gc, 2, [&](int) {
      std::vector<std::string> a;
      std::vector<char*> p;
      {
        vp::HbIgnore h;
        a = args;
        for (auto& s : a)
          p.push_back(s.data());
        p.push_back(nullptr);
      }
      const int ret = app.main(int(a.size()), p.data());
      VP_CHECK(ret == 0, "main returned %d", ret);
    });
    out = c.out.str();
    VP_CHECK(c.err.str().empty(), "error output: %s", c.err.str().c_str());
  }
  VP_CHECK(vp::pool_live() == 0, "%ld allocations are still alive", vp::pool_live());
  std::istringstream lines(out);
  std::string line;
  for (int i = 0; i < runs; ++i) {
    const std::string id = "[" + std::to_string(i) + "]";
    VP_CHECK(std::getline(lines, line) && line == id, "'%s' instead of '%s'", line.c_str(), id.c_str());
    VP_CHECK(bool(std::getline(lines, line)), "no report of run %d", i);
    char* e = nullptr;
    const bool ok = line.compare(0, id.size() + 1, id + " ") == 0;
    const double time = ok ? strtod(line.c_str() + id.size() + 1, &e) : 0;
    VP_CHECK(ok && *e == 's' && time >= 0, "'%s' does not report the time of run %d", line.c_str(), i);
    std::size_t p = 0;
    for (const auto& x : parts) {
      p = line.find(x, p);
      VP_CHECK(p != std::string::npos, "'%s' does not report %s", line.c_str(), x.c_str());
      p += x.size();
    }
    if (csv) {
      VP_CHECK(std::getline(lines, line) && line.compare(0, 11, "CSVData-2, ") == 0, "'%s' is not CSV data", line.c_str());
      auto f = csv_fields(line);
      fields["run"] = std::to_string(i);
      for (const auto& [t, v] : fields)
        VP_CHECK(f.count(t) && f[t] == v, "%s is '%s' instead of '%s' in '%s'", t.c_str(), f[t].c_str(), v.c_str(), line.c_str());
    }
  }
  VP_CHECK(!std::getline(lines, line), "unexpected output '%s'", line.c_str());
  ++vp::n_nontrivial;
}

// whether the miniapp refuses the options before it starts to work
bool refused(App app, std::vector<std::string> a) {
  vp::context("options" + [&] {
    std::string s;
    for (auto& x : a)
      s += " " + x;
    return s;
  }());
  Captured c;
  a.insert(a.begin(), app_names[app]);
  std::vector<char*> p;
  for (auto& x : a)
    p.push_back(x.data());
  p.push_back(nullptr);
  bool threw = false;
  p44::only_options = true;
  const bool d = vp::dies([&] {
    try {
      mains[app](int(a.size()), p.data());
    }
    catch (const std::exception&) {
      threw = true;
    }
  });
  p44::only_options = false;
  ++vp::n_nontrivial;
  return d || threw;
}
void options(App app) {
  auto expect = [&](const std::vector<std::string>& a, bool ok) { VP_CHECK(refused(app, a) != ok, "options that are %s are %s", ok ? "valid" : "invalid", ok ? "refused" : "accepted"); };
  expect({}, true);
  for (int c = 33; c < 127; ++c) {
    const std::string v(1, char(c));
    expect({"--type=" + v}, std::string("sdczSDCZ").find(v) != std::string::npos);
    expect({"--uplo=" + v}, std::string("lugLUG").find(v) != std::string::npos);
    expect({"--type=d" + v}, false);
    expect({"--uplo=" + v + "L"}, false);
    for (std::string o : {"none", "last", "all"}) {
      expect({"--check-result=" + o + v}, false);
      expect({"--check-result=" + v}, false);
    }
    expect({"--matrix-size=" + v}, c >= '1' && c <= '9');
  }
  for (std::string o : {"none", "last", "all"})
    expect({"--check-result=" + o}, true);
  for (std::string b : {"default", "mc"})
    expect({"--backend=" + b}, true);
  for (std::string b : {"gpu", "cpu", "MC", ""})
    expect({"--backend=" + b}, false);
  for (int v = -2; v < 4; ++v) {
    for (std::string o : {"matrix-size", "block-size", "grid-rows", "grid-cols", "nruns"})
      expect({"--" + o + "=" + std::to_string(v)}, v > 0);
    expect({"--nwarmups=" + std::to_string(v)}, v >= 0);
    for (int w = 1; v > 0 && w < 4; ++w)
      expect({"--local", "--grid-rows=" + std::to_string(v), "--grid-cols=" + std::to_string(w)}, v == 1 && w == 1);
  }
  expect({"--unknown=1"}, false);
  for (std::string b : {"eval-index-end=1", "percent-evals=50"})
    expect({"--" + b}, app != CHOLESKY);
  if (app == CHOLESKY)
    return;
  vp::context("both ways to give the range");
  fflush(nullptr);
  const pid_t pid = fork();
  if (pid == 0) {
    refused(app, {"--eval-index-end=1", "--percent-evals=50"});
    _exit(77);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  VP_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == EXIT_FAILURE, "not refused");
}
// element types
void types(App app) {
  Options o;
  o.app = app;
  o.type = "sdcz"[pick(4)];
  o.gr = 1 + pick(2);
  o.gc = 1 + pick(2);
  o.m = 4;
  o.csv = true;
  run(o, {}, false);
}
// errors in all elements
void faults(App app, int gr, int gc, long m, long mb, char type) {
  Options o;
  o.app = app;
  o.type = type;
  o.gr = gr;
  o.gc = gc;
  o.m = m;
  o.mb = mb;
  ranges(o, 1);
  o.check = pick(2) ? "all" : "last";
  p44::Fault f;
  f.what = 1 + (app == CHOLESKY ? 0 : pick(2));
  f.i = pick(int(m) + 1);
  // Norms do not promise anything about single NaNs, but nothing is right if there is nothing else
  f.nan = f.i == m;
  f.j = f.what == 1 && !f.nan ? pick(int(m)) : 0;
  bool wrong = true;
  if (app == CHOLESKY)
    wrong = f.nan || f.i >= f.j;
  else
    wrong = f.nan || (f.what == 1 ? f.j : f.i) < o.end || !o.range;
  run(o, f, wrong);
}
}

int main(int argc, char** argv) {
  return vp::explore_main(argc, argv, [](bool thorough) {
    vp::Suite s;
    s.property = "P44";
    s.rule = "the main functions of the miniapps with a check of the results, for all grids, sizes, block sizes, types and combinations of the options within the bound, with right results and with each single element of the "
             "results replaced by a wrong value, or all by NaN; non-trivial: one run of a miniapp whose whole output was compared with what the options ask for";
    const int t = thorough;
    using vp::ALL_POLICIES;
    using vp::BASIC_POLICIES;
    auto add = [&](std::string name, std::function<void()> f, unsigned pol, bool both = false, int dev = 0) {
      auto k = vp::sched_case(std::move(name), std::move(f), dev, pol, both, false);
      k.split = 12;
      s.cases.push_back(k);
    };
    const unsigned one = thorough ? unsigned(BASIC_POLICIES) : JUST_LIFO;
    for (App app : {CHOLESKY, EIGEN, GEN_EIGEN}) {
      const bool ch = app == CHOLESKY;
      for (auto [r, c] : {std::pair{1, 1}, {2, 1}, {1, 2}, {2, 2}, {3, 2}, {2, 3}})
        if (r * c <= 4 || ch || thorough)
          add(vp::fmt("%s, runs on %dx%d", app_names[app], r, c), [=] { runs(app, r, c, ch ? 6 + t : r * c == 6 ? 4 : 4 + t, 2 + t); }, r * c <= 2 ? unsigned(LIFO_EAGER) | one : one, r * c <= 2 && ch);
      add(vp::fmt("%s, options", app_names[app]), [=] { options(app); }, JUST_LIFO);
      add(vp::fmt("%s, element types", app_names[app]), [=] { types(app); }, LIFO_EAGER | one);
      for (auto [r, c] : {std::pair{1, 1}, {2, 1}, {1, 2}, {2, 2}})
        if (ch || r * c != 2 || thorough)
          add(vp::fmt("%s, wrong results on %dx%d", app_names[app], r, c), [=] { faults(app, r, c, ch ? 6 : 4, 2, 'd'); }, one);
      add(vp::fmt("%s, wrong results, complex<float>", app_names[app]), [=] { faults(app, 1, 2, 4, 2, 'c'); }, one);
    }
    for (const auto& o : others)
      for (auto [r, c] : {std::pair{1, 1}, {2, 1}, {1, 2}, {2, 2}, {2, 3}})
        if (r * c <= 4 || thorough)
          add(vp::fmt("miniapp_%s on %dx%d", o.name, r, c), [&o, r, c, thorough] { other(o, r, c, r * c == 1 || (thorough && r * c == 2)); }, one);
    // schedules
    add("miniapp_cholesky, schedules", [] {
      Options o;
      o.app = CHOLESKY;
      o.gr = 2;
      o.m = 2;
      o.mb = 1;
      run(o, {}, false);
    }, one, true, 1);
    return s;
  });
}
