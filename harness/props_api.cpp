// C07, C13-C16, C18, C21: time bookkeeping, determinism, the BMI, configuration and soil files, calibration, subcycling.
#include "drive.hpp"
#include <algorithm>
#include <cstring>
#include <malloc.h>
#include <unistd.h>
#include <memory>
#include <functional>
#include <sys/wait.h>
using namespace ref;

static const char *RULE = "one case = soil profile, options and forcing history as for C01 (shorter), plus the property's own inputs; ";
typedef std::vector<double> V;

// everything observable after an update
static V observe(Model &m, bool runoff_routing = true) {
  Out o = outputs(m); V v{o.P, o.PET, o.AET, o.R, o.S, o.I, o.D, o.GW, o.MB};
  if (runoff_routing) { v.push_back(o.G); v.push_back(o.Q); }
  v.push_back(m.time()); v.push_back(m.g("soil_num_wetting_fronts"));
  for (const char *n : {"soil_moisture_wetting_fronts", "soil_depth_wetting_fronts", "soil_depth_layers"}) for (double d : m.gv(n)) v.push_back(d);
  return v;
}
static std::string where(size_t i) {
  static const char *n[] = {"precipitation", "potential_evapotranspiration", "actual_evapotranspiration", "surface_runoff", "soil_storage", "infiltration", "percolation", "groundwater_to_stream_recharge", "mass_balance", "giuh_runoff", "total_discharge", "time", "soil_num_wetting_fronts"};
  return i < 13 ? n[i] : fmt("profile entry %zu", i - 13);
}
static bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
static void expect_same(Ctx &x, const char *tag, const V &a, const V &b, const std::string &what) {
  if (a.size() != b.size()) x.fail(tag, what + fmt(": %zu values against %zu", a.size(), b.size()));
  for (size_t i = 0; i < a.size(); i++) if (!same(a[i], b[i])) x.fail(tag, what + ": " + where(i) + " " + num(a[i]) + " against " + num(b[i]));
}
// two models that must agree: exactly, except that rounding differences of 1e-9 (e.g. an expression written differently) may appear and then drift
struct Agree {
  bool drift = false;
  void operator()(Ctx &x, const char *tag, const V &a, const V &b, const std::string &what) {
    bool eq = a.size() == b.size(); if (eq) for (size_t i = 0; i < a.size(); i++) if (!same(a[i], b[i])) eq = false;
    if (eq) return;
    if (drift) x.labels["# updates compared after rounding drift"]++;
    if (a.size() != b.size()) { if (drift) return; x.fail(tag, what + fmt(": %zu values against %zu", a.size(), b.size())); }
    double tol = drift ? 1e-3 : 1e-9;
    for (size_t i = 0; i < a.size(); i++) if (!(same(a[i], b[i]) || close(a[i], b[i], tol, tol))) x.fail(tag, what + ": " + where(i) + " " + num(a[i]) + " against " + num(b[i]));
    drift = true;
  }
};
static void step(Ctx &x, Model &m, const Case &c, int t) { set_inputs(m, c, t); m.must_update(x, t); }
static void clear_log() { for (int fd : {1, 2}) { fflush(stdout); if (ftruncate(fd, 0)) {} lseek(fd, 0, SEEK_SET); } }

// ---------------------------------------------------------------- C07: time and forcing amounts
static void c07(const Case &c, Ctx &x) {
  Model m; m.must_init(x, put_case(c, x));
  if (m.start_time() != 0) x.fail("start", fmt("GetStartTime %.10g", m.start_time()));
  if (m.time() != 0) x.fail("time", fmt("GetCurrentTime %.10g before the first update", m.time()));
  if (m.time_units() != "s") x.fail("units", "GetTimeUnits " + m.time_units());
  if (!close(m.time_step(), c.res, 0, 1e-12)) x.fail("step", fmt("GetTimeStep %.12g, the forcing resolution is %.12g s", m.time_step(), c.res));
  double end = c.endt > 0 ? c.endt : 1e9;
  if (!close(m.end_time(), end, 0, 1e-12)) x.fail("end", fmt("GetEndTime %.12g, configured %.12g s", m.end_time(), end));
  double t = 0, cumP = 0, cumE = 0, wantP = 0, wantE = 0; bool cut = false; int k = 0;
  for (; k < c.T() && t < end - 1e-6; k++) {
    double pond = m.snap().pond, dt_h; int n; substeps(c, c.P[k], pond, dt_h, n);
    int take = n; double left = (end - t) / 3600;
    if (left < n * dt_h - 1e-9) { take = (int)std::ceil(left / dt_h - 1e-9); cut = true; }
    bool amb = std::fabs(left / dt_h - std::round(left / dt_h)) < 1e-7 && take < n;     // ends on a substep within rounding
    if (amb && dt_h * 64 == std::floor(dt_h * 64) && end * 8 == std::floor(end * 8)) { amb = false; x.label("end time exactly on a substep"); }   // no rounding in any way of adding up
    step(x, m, c, k);
    double t1 = m.time(), want = take == n ? t + c.res : t + take * dt_h * 3600;
    if (amb ? !(close(t1, want, 1e-5) || close(t1, want + dt_h * 3600, 1e-5)) : !close(t1, want, 1e-6, 1e-11)) x.fail("time", fmt("update %d moved the time from %.10g to %.10g s, expected %.10g (resolution %.10g, end time %.10g)", k, t, t1, want, c.res, end));
    double h = (t1 - t) / 3600; Out o = outputs(m);
    if (!close(o.P, c.P[k] * .1 * h, 1e-10, 1e-9)) x.fail("precip", fmt("update %d: precipitation %.12g cm for %.10g mm/h over %.10g h", k, o.P, c.P[k], h));
    if (!close(o.PET, c.E[k] * .1 * h, 1e-10, 1e-9)) x.fail("pet", fmt("update %d: potential evapotranspiration %.12g cm for %.10g mm/h over %.10g h", k, o.PET, c.E[k], h));
    cumP += o.P; cumE += o.PET; wantP += c.P[k] * .1 * h; wantE += c.E[k] * .1 * h; t = t1;
    if (m.g("precipitation_rate") != c.P[k] || m.g("potential_evapotranspiration_rate") != c.E[k]) x.fail("input", fmt("update %d changed its forcing inputs", k));
  }
  if (!close(cumP, wantP, 1e-9, 1e-9) || !close(cumE, wantE, 1e-9, 1e-9)) x.fail("total", "the forcing amounts do not add up");
  if (end < 1e9 && k < c.T() && !(t >= end - 1e-5 && t < end + c.res)) x.fail("end", fmt("the run stopped at %.10g s, end time %.10g", t, end));
  if (cut) x.label("cut short by the end time");
  bool moved = false;
  for (double target : c.av("until")) {                            // UpdateUntil is repeated Update
    if (c.endt > 0) break;
    Model a, b; a.must_init(x, put_case(c, x, "u")); b.must_init(x, put_case(c, x, "u"));
    int pre = std::min((int)c.a("pre"), c.T() - 1);
    for (int i = 0; i < pre; i++) { step(x, a, c, i); step(x, b, c, i); }
    set_inputs(a, c, pre); set_inputs(b, c, pre);
    double now = a.time(), tt = now + target * c.res; if (!(tt > 0)) continue;
    std::string r = a.until(tt); if (!r.empty()) x.fail("until", "UpdateUntil did not return normally: " + r);
    int n = std::max(1, (int)std::ceil(target - 1e-6 + 1e-9)); for (int i = 0; i < n; i++) b.must_update(x, i);
    double frac = target - std::floor(target); if (frac > 0 && frac < 1e-5) continue;
    if (!(a.time() >= tt - 1e-5 * c.res && a.time() < tt + c.res + 1e-5)) x.fail("until", fmt("UpdateUntil(%.12g) from %.12g went to %.12g s (resolution %.10g)", tt, now, a.time(), c.res));
    expect_same(x, "until", observe(a), observe(b), fmt("UpdateUntil(%.12g) from %.12g s against %d updates", tt, now, n));
    if (n > 1) { moved = true; x.label("UpdateUntil over several updates"); }
  }
  x.nontrivial = (cut || moved || c.T() > 10) && sum(c.P) > 0;
}
static Case g07(Rng &g, long) {
  GenOpt o; o.maxT = 30; o.soils = 1; Case c = gen_case(g, o);
  if (g.p(.15)) { c.dt = g.pick(std::vector<double>{225, 450, 900, 1800}); c.res = c.dt * g.i(2, 6); c.adaptive = g.p(.2); c.endt = c.dt * g.i(1, std::max(1, (int)(c.T() * c.res / c.dt))); }
  else if (g.p(.5)) c.endt = std::max(1.0, g.p(.3) ? std::floor(g.r(.5, c.T()) * c.res) : g.p(.5) ? c.res * g.i(1, c.T()) : c.dt * g.i(1, std::max(1, (int)(c.T() * c.res / c.dt))));
  c.aux["until"] = {g.p(.5) ? (double)g.i(1, 6) : g.r(0.05, 6)}; c.aux["pre"] = {(double)g.i(0, 5)};
  return c;
}
static const std::string rule07 = std::string(RULE) + "half with an end time inside the history (on or off a step), and an UpdateUntil target replayed as repeated Updates on a twin; non-trivial: the end time cut an update short, UpdateUntil spanned several updates, or more than 10 updates, with rain";
static Reg r07({"C07", rule07.c_str(), g07, c07, 30000, 400000, false, false});

// ---------------------------------------------------------------- C13: determinism and independent instances
// runs fn in a forked child, so that what it leaves behind in the process (globals, statics, heap) is gone afterwards; this process itself never runs the model
static std::vector<V> in_child(Ctx &x, const std::function<void(Ctx &, std::vector<V> &)> &fn) {
  int fd[2]; if (pipe(fd)) throw std::runtime_error("pipe");
  pid_t pid = fork(); if (pid < 0) throw std::runtime_error("fork");
  auto put = [&](const void *p, size_t n) { const char *q = (const char *)p; while (n) { ssize_t k = write(fd[1], q, n); if (k <= 0) _exit(3); q += k; n -= k; } };
  if (!pid) {
    close(fd[0]); std::vector<V> r; std::string tag, msg; Ctx y; y.dir = x.dir;
    try { fn(y, r); } catch (const Fail &f) { tag = f.tag; msg = f.what(); }
    uint64_t h[3] = {tag.size(), msg.size(), r.size()}; put(h, sizeof h); put(tag.data(), tag.size()); put(msg.data(), msg.size());
    for (auto &v : r) { uint64_t n = v.size(); put(&n, 8); put(v.data(), n * 8); }
    _exit(0);
  }
  close(fd[1]); std::string buf; char b[65536]; ssize_t k; while ((k = read(fd[0], b, sizeof b)) > 0) buf.append(b, k); close(fd[0]);
  int st = 0; waitpid(pid, &st, 0); size_t at = 0;
  auto get = [&](void *p, size_t n) { if (at + n > buf.size()) x.fail("crash", fmt("the process running the model ended with status 0x%x", st)); memcpy(p, buf.data() + at, n); at += n; };
  uint64_t h[3]; get(h, sizeof h); std::string tag(h[0], 0), msg(h[1], 0); get(&tag[0], h[0]); get(&msg[0], h[1]);
  std::vector<V> r(h[2]); for (auto &v : r) { uint64_t n; get(&n, 8); v.resize(n); get(v.data(), n * 8); }
  if (!tag.empty()) x.fail(tag.c_str(), msg);
  return r;
}
// a model that differs from c in little: what is remembered of one must not be taken for the other
static Case alike(Rng &g, const Case &c, const Case &forcing) {
  Case d = c; auto w = [&](double &v, double f) { v *= 1 + g.r(-f, f); }; double f = g.p(.5) ? .02 : .3;
  int only = g.p(.5) ? g.p(.2) ? 4 : g.i(0, 12) : -1, kind = 0; auto on = [&](double p) { return only < 0 ? g.p(p) : kind++ == only; };   // half of them differ in one respect alone
  if (on(.5)) w(d.wp, f);
  if (on(.5)) w(d.fc, f);
  if (on(.5)) w(d.psi0, f);
  if (on(.5)) w(d.pond, f);
  if (on(.2)) d.closedG = !d.closedG;
  if (on(.2)) d.adaptive = !d.adaptive;
  if (on(.3)) std::reverse(d.giuh.begin(), d.giuh.end());
  bool ks = on(.7), al = on(.7), nn = on(.7), th = on(.7);
  for (auto &s : d.soil) { if (ks && g.p(.5)) w(s.Ks, f); if (al && g.p(.5)) w(s.alpha, f / 3); if (nn && g.p(.5)) s.n = 1 + (s.n - 1) * (1 + g.r(-f, f) / 3); if (th && g.p(.5)) s.the = std::min(.8, s.the * (1 + g.r(-f, f) / 3)); }
  if (on(.3) && !d.sft) for (auto &t : d.thick) w(t, f);
  if (on(.7)) { if (!d.sft && g.p(.4)) { d.P = forcing.P; d.E = forcing.E; } else for (auto &q : d.P) if (g.p(.3)) w(q, f); }
  if (!d.sft && d.T() > 1 && g.p(.4)) { int n = g.i(1, d.T() - 1); d.P.resize(n); d.E.resize(n); }   // it stops early: the two meet in any state
  return d;
}
static void c13(const Case &c, Ctx &x) {
  auto begin = [](Model &m, std::vector<V> &r) { r.push_back(m.gv("soil_moisture_wetting_fronts")); };
  auto want = in_child(x, [&](Ctx &y, std::vector<V> &r) {
    Model m; m.must_init(y, put_case(c, y)); begin(m, r); for (int t = 0; t < c.T(); t++) { step(y, m, c, t); r.push_back(observe(m)); } std::string s; m.finalize(&s); });
  // the other instances: other profiles and histories, other verbosity
  static const char *verb[] = {"none", "low", "high"};
  int vk = (int)c.a("verb"), mode = (int)c.a("mode"), no = mode ? (int)c.a("others") : 0;
  Case e = c; e.auxs["verbosity"] = verb[vk];
  std::string what = fmt("second run (verbosity %s, %s)", verb[vk], mode == 0 ? "alone, fresh memory filled with a pattern" : mode == 1 ? "interleaved with other models" : mode == 2 ? "after other models were finalized" : "after other models that still exist");
  auto got = in_child(x, [&](Ctx &y, std::vector<V> &r) {
    Rng g((uint64_t)c.a("other")); mallopt(M_PERTURB, 0x5a);
    std::vector<Case> d; std::vector<std::unique_ptr<Model>> n; std::vector<int> j(no, 0);
    for (int k = 0; k < no; k++) {
      GenOpt o; o.maxT = 40; o.soils = 1; d.push_back(gen_case(g, o)); if (g.p(.5)) d[k] = alike(g, c, d[k]); d[k].prop = "other"; d[k].auxs["verbosity"] = verb[k == 0 ? (int)c.a("verb2") : 0]; if (!d[k].sft && g.p(.2)) add_sft(g, d[k]);
      n.emplace_back(new Model); n[k]->must_init(y, put_case(d[k], y, fmt("d%d", k)));
      if (mode >= 2) { for (; j[k] < d[k].T(); j[k]++) step(y, *n[k], d[k], j[k]); std::string s; if (mode == 2) n[k]->finalize(&s); }
    }
    Model m; m.must_init(y, put_case(e, y, "e")); begin(m, r);
    for (int t = 0; t < c.T(); t++) {
      if (mode == 1) for (int k = 0; k < no; k++) for (int q = g.i(0, 2); q > 0 && j[k] < d[k].T(); q--, j[k]++) step(y, *n[k], d[k], j[k]);
      step(y, m, e, t); r.push_back(observe(m));
    }
    std::string s; m.finalize(&s);
  });
  clear_log(); x.steps += c.T();
  if (want.size() != got.size()) x.fail("repeat", "the two runs differ in length");
  expect_same(x, "initial", want[0], got[0], what + ", initial profile");
  for (size_t t = 1; t < want.size(); t++) expect_same(x, "repeat", want[t], got[t], what + fmt(", update %d", (int)t - 1));
  x.label(std::string("verbosity ") + verb[vk]); x.label(mode == 0 ? "alone" : mode == 1 ? "interleaved" : mode == 2 ? "one after another" : "beside others");
  x.nontrivial = sum(c.P) > 0 && c.T() >= 5 && (mode > 0 || vk > 0);
}
static Case g13(Rng &g, long) {
  GenOpt o; o.maxT = 40; Case c = gen_case(g, o); if (g.p(.15)) add_sft(g, c);
  c.aux["other"] = {(double)(g.u() >> 20)}; c.aux["verb"] = {(double)(g.p(.3) ? 1 : g.p(.4) ? 2 : 0)}; c.aux["verb2"] = {(double)(g.p(.7) ? 0 : 1)}; c.aux["mode"] = {(double)g.i(0, 3)}; c.aux["others"] = {(double)(g.p(.6) ? 1 : g.i(2, 3))};
  if (g.p(.3)) { for (auto &t : c.thick) t = g.r(3, 15); for (auto &q : c.P) if (q > 0) q = g.r(10, 80); c.soil.back() = CATALOGUE[g.i(8, 11)]; if (c.sft) add_sft(g, c); }   // soon full
  return c;
}
static const std::string rule13 = std::string(RULE) + "run once alone and once more with heap memory filled with a pattern, other verbosity, and alone / interleaved with / after / beside one to three other randomly configured models, each run in a process of its own; every output and profile compared bit for bit. Non-trivial: rain, at least 5 updates, and another model or verbosity";
static Reg r13({"C13", rule13.c_str(), g13, c13, 6000, 120000, false, false});

// ---------------------------------------------------------------- C14: the BMI
struct VarSpec { const char *name; int grid; const char *type; const char *units; };
static const VarSpec VARS[] = {
  {"soil_moisture_wetting_fronts", 3, "double", "none"}, {"soil_depth_layers", 2, "double", "m"}, {"soil_depth_wetting_fronts", 3, "double", "m"}, {"soil_num_wetting_fronts", 0, "int", "none"},
  {"precipitation", 1, "double", "m"}, {"potential_evapotranspiration", 1, "double", "m"}, {"actual_evapotranspiration", 1, "double", "m"}, {"surface_runoff", 1, "double", "m"}, {"giuh_runoff", 1, "double", "m"},
  {"soil_storage", 1, "double", "m"}, {"total_discharge", 1, "double", "m"}, {"infiltration", 1, "double", "m"}, {"percolation", 1, "double", "m"}, {"groundwater_to_stream_recharge", 1, "double", "m"}, {"mass_balance", 1, "double", "m"},
  {"precipitation_rate", 1, "double", "mm h^-1"}, {"potential_evapotranspiration_rate", 1, "double", "mm h^-1"}, {"soil_temperature_profile", 4, "double", "K"},
  {"smcmax", 2, "double", nullptr}, {"smcmin", 2, "double", nullptr}, {"van_genuchten_n", 2, "double", nullptr}, {"van_genuchten_alpha", 2, "double", nullptr}, {"hydraulic_conductivity", 2, "double", nullptr},
  {"field_capacity", 1, "double", nullptr}, {"ponded_depth_max", 1, "double", nullptr}};
static const int NOUT = 15, NIN = 3, NVAR = 25;

static void metadata(Ctx &x, Model &m, const Case &c, const std::string &w) {
  auto chk = [&](const std::string &what, bool ok) { if (!ok) x.fail("metadata", w + what); };
  auto in = m.in_names(), out = m.out_names();
  chk(fmt("%zu/%d inputs, %zu/%d outputs", in.size(), m.in_count(), out.size(), m.out_count()), (int)in.size() == NIN && m.in_count() == NIN && (int)out.size() == NOUT && m.out_count() == NOUT);
  for (int i = 0; i < NOUT; i++) chk(fmt("output %d is ", i) + out[i], std::find(out.begin(), out.end(), VARS[i].name) != out.end());
  for (int i = 0; i < NIN; i++) chk(fmt("input %d is ", i) + in[i], std::find(in.begin(), in.end(), VARS[NOUT + i].name) != in.end());
  chk("component name is empty", !m.component().empty()); chk("grid 0 is a " + m.grid_type(0), m.grid_type(0) == "uniform_rectilinear"); for (int q = 1; q < 5; q++) chk(fmt("grid %d is a ", q) + m.grid_type(q), m.grid_type(q).empty());
  int cells = c.sft ? (int)c.soilz.size() : 1;
  int nf = (int)m.snap().f.size(), size[5] = {1, 1, c.L(), nf, cells};
  for (int g = 0; g < 5; g++) {
    chk(fmt("grid %d has rank %d", g, m.grid_rank(g)), m.grid_rank(g) == 1);
    chk(fmt("grid %d has size %d, expected %d", g, m.grid_size(g), size[g]), m.grid_size(g) == size[g]);
    auto s = m.grid_shape(g); chk(fmt("shape of grid %d is %d, or more than one entry was written", g, s[2]), s[2] == size[g] && s[3] == -77 && s[1] == -77);
  }
  for (int g : {-1, 5, 77}) chk(fmt("grid %d exists", g), m.grid_rank(g) == -1 && m.grid_size(g) == -1);
  for (auto &v : VARS) {
    int g = m.var_grid(v.name), item = v.grid == 0 ? sizeof(int) : sizeof(double);
    chk(std::string(v.name) + fmt(": grid %d, expected %d", g, v.grid), g == v.grid);
    chk(std::string(v.name) + ": type " + m.var_type(v.name), m.var_type(v.name) == v.type);
    chk(std::string(v.name) + fmt(": item size %d", m.var_itemsize(v.name)), m.var_itemsize(v.name) == item);
    chk(std::string(v.name) + fmt(": %d bytes for %d items", m.var_nbytes(v.name), size[g]), m.var_nbytes(v.name) == item * size[g]);
    if (v.units) { chk(std::string(v.name) + ": units " + m.var_units(v.name), m.var_units(v.name) == v.units); chk(std::string(v.name) + ": location " + m.var_location(v.name), m.var_location(v.name) == "node"); }
  }
}
static void unknown(Ctx &x, Model &m, const std::string &n) {
  double d[64] = {0}; int i0 = 0; void *p;
  if (m.var_grid(n) != -1 || m.var_type(n) != "none" || m.var_itemsize(n) != 0) x.fail("unknown", "metadata for the unknown variable '" + n + "'");
  std::string r[5] = {m.trap([&] { m.raw_get(n, d); }), m.trap([&] { m.raw_set(n, d); }), m.trap([&] { p = m.raw_ptr(n); }), m.trap([&] { m.raw_get_at(n, d, &i0, 1); }), m.trap([&] { m.raw_set_at(n, &i0, 1, d); })};
  for (auto &s : r) if (s.compare(0, 10, "exception:") != 0) x.fail("unknown", "access to the unknown variable '" + n + "' was not refused with an exception: " + (s.empty() ? "returned" : s));
}
static std::vector<V> all(Model &m) { std::vector<V> v; for (auto &s : VARS) v.push_back(m.gv(s.name)); return v; }
static void c14(const Case &c, Ctx &x) {
  Model m; m.must_init(x, put_case(c, x)); Rng g((uint64_t)c.a("ops"));
  auto bits = [](const V &a, const V &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!same(a[i], b[i])) return false; return true; };
  metadata(x, m, c, "after Initialize: ");
  // after Initialize: calibration variables show the configured soils
  for (int k = 0; k < 5; k++) { auto v = m.gv(VARS[18 + k].name); for (int l = 0; l < c.L(); l++) { double want = k == 0 ? c.soil[l].the : k == 1 ? c.soil[l].thr : k == 2 ? c.soil[l].n : k == 3 ? c.soil[l].alpha : c.soil[l].Ks; if (v[l] != want) x.fail("calibvar", std::string(VARS[18 + k].name) + fmt("[%d] = ", l) + num(v[l]) + ", configured " + num(want)); } }
  if (m.g("field_capacity") != c.fc || m.g("ponded_depth_max") != c.pond) x.fail("calibvar", fmt("field_capacity %.10g ponded_depth_max %.10g, configured %.10g %.10g", m.g("field_capacity"), m.g("ponded_depth_max"), c.fc, c.pond));
  auto zl = m.gv("soil_depth_layers"), z = m.gv("soil_depth_wetting_fronts"), th = m.gv("soil_moisture_wetting_fronts"); double d = 0;
  for (int l = 0; l < c.L(); l++) { d += c.thick[l] / 100; if (!close(zl[l], d, 1e-12, 1e-12) || !close(z[l], d, 1e-12, 1e-12) || !close(th[l], theta(c.psi0, make(c.soil[l])), 1e-9)) x.fail("initial", fmt("layer %d: depth %.10g, front depth %.10g, theta %.10g", l + 1, zl[l], z[l], th[l])); }
  for (int i = 0; i < (int)c.av("showers").size(); i++) { m.set("precipitation_rate", c.av("showers")[i]); m.set("potential_evapotranspiration_rate", 0); if (c.sft && !i) m.setv("soil_temperature_profile", V(c.soilz.size(), 280.0)); m.must_update(x, -1 - i); }   // first a history that leaves many fronts
  bool many = m.snap().f.size() > 12; int sets = 0, t = 0; if (many) metadata(x, m, c, "with many fronts: "); std::map<std::string, V> held;               // values last set
  for (int op = 0; op < 60 && t < c.T(); op++) {
    int k = g.i(0, 9);
    const VarSpec &s = VARS[g.i(0, NVAR - 1)]; auto cur = m.gv(s.name); int n = (int)cur.size();
    if (k <= 1) {                                                  // GetValue, GetValuePtr, GetValueAtIndices agree
      std::vector<int> idx; for (int i = 0; i < g.i(1, 5); i++) idx.push_back(g.i(0, n - 1));
      if (s.grid == 0) { std::vector<int> o(idx.size() + 1, -99); m.raw_get_at(s.name, o.data(), idx.data(), (int)idx.size()); for (size_t i = 0; i < idx.size(); i++) if (o[i] != (int)cur[idx[i]]) x.fail("get", std::string(s.name) + ": GetValueAtIndices differs"); if (*(int *)m.raw_ptr(s.name) != (int)cur[0]) x.fail("get", "GetValuePtr differs"); if (o.back() != -99) x.fail("get", "GetValueAtIndices wrote too much"); }
      else { V o(idx.size() + 1, -99); m.raw_get_at(s.name, o.data(), idx.data(), (int)idx.size()); double *p = (double *)m.raw_ptr(s.name); for (size_t i = 0; i < idx.size(); i++) if (!same(o[i], cur[idx[i]])) x.fail("get", std::string(s.name) + fmt(": GetValueAtIndices[%d] ", idx[i]) + num(o[i]) + " against " + num(cur[idx[i]])); for (int i = 0; i < n; i++) if (!same(p[i], cur[i])) x.fail("get", std::string(s.name) + ": GetValuePtr differs from GetValue"); if (o.back() != -99) x.fail("get", "GetValueAtIndices wrote too much"); V big(n + 2, -99); m.raw_get(s.name, big.data() + 1); if (big[0] != -99 || big[n + 1] != -99) x.fail("get", std::string(s.name) + ": GetValue wrote outside its array"); }
    } else if (k <= 6) {                                           // set an input or calibration variable: read back, nothing else changed
      int vi = g.p(.6) ? NOUT + g.i(0, 2) : 18 + g.i(0, 6); const VarSpec &w = VARS[vi];
      auto before = all(m); V val = before[vi]; int nn = (int)val.size(); std::vector<int> idx; bool at = g.p(.4);
      if (at) { for (int i = 0; i < nn; i++) if (g.p(.5)) idx.push_back(i); if (g.p(.5)) std::reverse(idx.begin(), idx.end()); }
      else for (int i = 0; i < nn; i++) idx.push_back(i);
      V src; for (int i : idx) { double nv = vi == 15 ? g.lg(.01, 50) : vi == 16 ? g.r(0, 1) : vi == 17 ? g.r(273.5, 290) : before[vi][i] * g.r(.99, 1.01); val[i] = nv; src.push_back(nv); }
      if (at) { if (!idx.empty()) m.raw_set_at(w.name, idx.data(), (int)idx.size(), src.data()); } else m.raw_set(w.name, val.data());
      auto after = all(m);
      for (int q = 0; q < NVAR; q++) if (!bits(after[q], q == vi ? val : before[q])) x.fail("set", std::string(at ? "SetValueAtIndices(" : "SetValue(") + w.name + ") left " + VARS[q].name + (q == vi ? " with other values than set" : " changed"));
      if (!idx.empty()) { held[w.name] = val; sets++; }
    } else if (k == 7) { static const std::vector<std::string> un{"", "precipitation_rat", "soil_storage ", "Precipitation", "van_genuchten_m2", "layer_thickness", "soil_num_wetting_front", "x"}; unknown(x, m, g.pick(un)); }
    else if (k == 8) metadata(x, m, c, fmt("after %d updates: ", t));
    else {
      if (!held.count("precipitation_rate") ) { m.set("precipitation_rate", c.P[t]); } if (!held.count("potential_evapotranspiration_rate")) m.set("potential_evapotranspiration_rate", c.E[t]);
      if (c.sft && !held.count("soil_temperature_profile")) { V v(c.soilz.size(), 280.0); m.setv("soil_temperature_profile", v); held["soil_temperature_profile"] = v; }
      if (c.sft) { auto v = m.gv("soil_temperature_profile"); bool ok = true; for (double q : v) if (q < 250) ok = false; if (!ok) { V w(c.soilz.size(), 280.0); m.setv("soil_temperature_profile", w); held["soil_temperature_profile"] = w; } }
      V p0 = m.gv("precipitation_rate"), e0 = m.gv("potential_evapotranspiration_rate"), t0 = m.gv("soil_temperature_profile"), zl0 = m.gv("soil_depth_layers");
      m.must_update(x, t); t++;
      if (!bits(p0, m.gv("precipitation_rate")) || !bits(e0, m.gv("potential_evapotranspiration_rate")) || !bits(t0, m.gv("soil_temperature_profile")) || !bits(zl0, m.gv("soil_depth_layers"))) x.fail("input", fmt("update %d changed an input variable or the layer depths", t - 1));
      for (auto &h : held) if (h.first.compare(0, 4, "prec") && h.first.compare(0, 4, "pote") && !bits(m.gv(h.first), h.second)) x.fail("input", fmt("update %d changed ", t - 1) + h.first);
      auto f = m.snap().f; if (f.size() > 12) many = true; auto th2 = m.gv("soil_moisture_wetting_fronts"); for (size_t i = 0; i < f.size(); i++) if (th2[i] != f[i].theta) x.fail("profile", "soil_moisture_wetting_fronts does not show the wetting fronts");
    }
  }
  if (m.not_implemented() != 10) x.fail("notimpl", "a grid function the model lacks does not refuse");
  x.label(c.sft ? "temperature coupled" : "not coupled"); if (t) x.label("with updates"); if (held.size() >= 3) x.label("three or more variables set"); if (many) x.label("more than 12 fronts");
  x.nontrivial = sets >= 3 && t >= 1;
}
static Case g14(Rng &g, long) { GenOpt o; o.minT = 8; o.maxT = 20; o.soils = 1; Case c = gen_case(g, o);
  if (g.p(.1)) { V w; if (g.p(.7)) while (c.L() < 8) { c.thick.push_back(g.r(5, 40)); c.soil.push_back(CATALOGUE[g.i(0, 11)]); } double Ks = c.soil[0].Ks * 10, q = g.r(.4, .95), top = g.r(.3, 3), dry = g.i(1, 8); for (int k = g.i(8, 20); k > 0; k--) { w.push_back(Ks * top); top *= q; for (int j = 0; j < dry; j++) w.push_back(0); } c.aux["showers"] = w; c.thick[0] += 60; if (g.p(.5)) c.psi0 = g.lg(500, 5000); c.res = 3600; c.dt = std::min(c.dt, 3600.0); }
  if (g.p(.4)) add_sft(g, c); c.aux["ops"] = {(double)(g.u() >> 20)}; c.aux["fixed"] = {1}; return c; }
static const std::string rule14 = std::string(RULE) + "driven by a random sequence of up to 60 BMI calls (metadata, get by copy/pointer/index, set whole/at indices, unknown names, Update) against an exact model of the variables; non-trivial: at least 3 sets and one update";
static Reg r14({"C14", rule14.c_str(), g14, c14, 24000, 300000, false, false});

// ---------------------------------------------------------------- C15/C16: configuration and soil files
typedef std::vector<std::pair<std::string, std::string>> Cfg;
static std::string join(const V &v, const char *sep = ",") { std::string s; for (size_t i = 0; i < v.size(); i++) s += (i ? sep : "") + num(v[i]); return s; }
static Cfg config_of(const Case &c, const std::string &soilfile, const std::vector<int> &types, int maxv) {
  Cfg k; k.push_back({"soil_params_file", soilfile}); k.push_back({"layer_thickness", join(c.thick) + "[cm]"}); k.push_back({"initial_psi", num(c.psi0) + "[cm]"});
  k.push_back({"timestep", num(c.dt) + "[sec]"}); k.push_back({"endtime", num(c.endt > 0 ? c.endt : 864000000) + "[sec]"}); k.push_back({"forcing_resolution", num(c.res) + "[sec]"});
  std::string t; for (size_t i = 0; i < types.size(); i++) t += fmt("%s%d", i ? "," : "", types[i]); k.push_back({"layer_soil_type", t});
  if (maxv > 0) k.push_back({"max_valid_soil_types", fmt("%d", maxv)});
  k.push_back({"wilting_point_psi", num(c.wp) + "[cm]"}); k.push_back({"field_capacity_psi", num(c.fc) + "[cm]"}); k.push_back({"giuh_ordinates", join(c.giuh)});
  k.push_back({"verbosity", "none"});
  return k;
}
static std::string text_of(const Cfg &k) { std::string s; for (auto &p : k) s += p.second.empty() && p.first.empty() ? "\n" : p.first + "=" + p.second + "\n"; return s; }
static void set_key(Cfg &k, const std::string &key, const std::string &v) { for (auto &p : k) if (p.first == key) { p.second = v; return; } k.push_back({key, v}); }
static void del_key(Cfg &k, const std::string &key) { for (size_t i = 0; i < k.size(); i++) if (k[i].first == key) { k.erase(k.begin() + i); return; } }
static std::string time_as(double s, int unit, Rng &g, bool day = false) {
  switch (unit) { case 0: return num(s) + (g.p(.5) ? "[s]" : "[sec]"); case 1: return num(s / 60) + (g.p(.5) ? "[min]" : "[minute]"); case 2: return num(s / 3600) + (g.p(.5) ? "[h]" : "[hr]"); case 3: return day ? num(s / 86400) + (g.p(.5) ? "[d]" : "[day]") : num(s); default: return num(s); }
}
// the same numbers in another notation
static std::string renumber(const std::string &s, Rng &g) {
  std::string o; size_t i = 0;
  while (i < s.size() && s[i] != '[') {
    if (s[i] == ' ') { o += s[i++]; continue; }
    char *e; double v = strtod(s.c_str() + i, &e); size_t n = e - (s.c_str() + i);
    if (!n) { o += s[i++]; continue; }
    std::string q = s.substr(i, n);
    switch (g.i(0, 3)) { case 0: q = fmt("%.17e", v); break; case 1: q = fmt("%.17E", v); break; case 2: if (q.find_first_of(".eE") == std::string::npos) q += ".0"; else if (q.find_first_of("eE") == std::string::npos) q += "00"; break; default: if (v >= 0) q = "0" + q; }
    o += strtod(q.c_str(), nullptr) == v ? q : s.substr(i, n); i += n;
  }
  return o + s.substr(i);
}
static const char *MANDATORY[] = {"layer_thickness", "layer_soil_type", "wilting_point_psi", "soil_params_file", "initial_psi", "timestep", "endtime", "field_capacity_psi", "forcing_resolution", "giuh_ordinates"};
static void c15(const Case &c, Ctx &x) {
  Rng g((uint64_t)c.a("cfg")); std::string sf = x.dir + "/s.dat"; write_file(sf, soil_text(c.soil));
  std::vector<int> types; for (int l = 0; l < c.L(); l++) types.push_back(l + 1);
  Cfg base = config_of(c, sf, types, 0);
  set_key(base, "use_closed_form_G", c.closedG ? "true" : "false"); set_key(base, "adaptive_timestep", c.adaptive ? "true" : "false"); set_key(base, "ponded_depth_max", num(c.pond) + "[cm]");
  set_key(base, "sft_coupled", c.sft ? "true" : "false"); if (c.sft) set_key(base, "soil_z", join(c.soilz) + "[cm]"); set_key(base, "calib_params", "false");
  write_file(x.dir + "/a.cfg", text_of(base));
  int mode = (int)c.a("mode");
  if (mode == 1) {                                                 // a mandatory entry is missing: Initialize refuses
    Cfg k = base; std::vector<std::string> keys(std::begin(MANDATORY), std::end(MANDATORY)); if (c.sft) keys.push_back("soil_z");
    std::string key = keys[(int)c.a("which") % keys.size()]; del_key(k, key);
    if (g.p(.3)) set_key(k, "calib_params", "true"); if (g.p(.3)) for (const char *q : {"adaptive_timestep", "use_closed_form_G", "ponded_depth_max", "verbosity"}) if (g.p(.5)) del_key(k, q);
    if (g.p(.3)) { std::string q = key; switch (g.i(0, 3)) { case 0: q = "#" + q; break; case 1: q += "_old"; break; case 2: q[0] = (char)toupper(q[0]); break; default: q.pop_back(); } k.insert(k.begin() + g.i(0, (int)k.size()), {q, key == "soil_params_file" ? sf : "1,2,3"}); }   // a remark or a look-alike is not the entry
    if (g.p(.5)) for (size_t i = k.size() - 1; i > 0; i--) std::swap(k[i], k[g.i(0, (int)i)]);
    write_file(x.dir + "/b.cfg", text_of(k)); Model m; std::string r = m.init(x.dir + "/b.cfg");
    if (r.compare(0, 10, "exception:") != 0) x.fail("mandatory", "a configuration without " + key + " was not refused with an exception: " + (r.empty() ? "Initialize returned" : r));
    if (r.find(key) == std::string::npos) x.fail("mandatory", "the refusal of a configuration without " + key + " does not name it: " + r);
    x.label("missing " + key); x.nontrivial = true; return;
  }
  if (mode == 2) {                                                 // an option that is neither true nor false, or files that do not exist
    Cfg k = base; static const char *bad[] = {"maybe", "TRUE", "yes", "2", ""}; static const char *keys[] = {"use_closed_form_G", "adaptive_timestep", "sft_coupled", "calib_params", "soil_params_file"};
    if (g.p(.1)) { Model m; std::string r = m.init(x.dir + "/no-such.cfg"); if (r.empty() || r.compare(0, 4, "hang") == 0) x.fail("invalid", "Initialize accepted a configuration file that does not exist"); x.label("no configuration file"); x.nontrivial = true; return; }
    if (g.p(.2)) set_key(k, "calib_params", "true");
    std::string key = keys[(int)c.a("which") % 5]; set_key(k, key, key == "soil_params_file" ? x.dir + "/does-not-exist" : bad[g.i(0, 3)]);
    write_file(x.dir + "/b.cfg", text_of(k)); Model m; std::string r = m.init(x.dir + "/b.cfg");
    if (r.empty() || r.compare(0, 4, "hang") == 0) x.fail("invalid", "Initialize accepted a configuration with an invalid " + key);
    x.label("invalid " + key); x.nontrivial = true; return;
  }
  // the same configuration written differently
  Cfg k = base; bool day = c.endt > 0 && c.endt / 86400 * 86400 == c.endt;
  auto unit = [&](double s) { int u = g.i(0, 4); if (u == 1 && std::fmod(s, 60) != 0) u = 0; if (u == 2 && std::fmod(s, 900) != 0) u = 0; return u; };
  auto um = [&](double s, bool d) { int u = unit(s); if (u == 3 && !d) u = 4; return u; };
  int u1 = um(c.dt, false), u2 = um(c.res, false), u3 = um(c.endt > 0 ? c.endt : 864000000, c.endt <= 0 || day);
  set_key(k, "timestep", time_as(c.dt, u1, g)); set_key(k, "forcing_resolution", time_as(c.res, u2, g)); set_key(k, "endtime", time_as(c.endt > 0 ? c.endt : 864000000, u3, g, true));
  int n = 0; auto maybe = [&](const char *key, bool dflt) { if (dflt && g.p(.6)) { del_key(k, key); n++; } };
  maybe("use_closed_form_G", !c.closedG); maybe("adaptive_timestep", !c.adaptive); maybe("sft_coupled", !c.sft); maybe("calib_params", true); maybe("verbosity", true);
  if (c.pond == 0) { if (g.p(.5)) del_key(k, "ponded_depth_max"); else set_key(k, "ponded_depth_max", g.p(.5) ? "-1.5[cm]" : "0"); }
  for (auto &p : k) if (p.first == "adaptive_timestep" && g.p(.5)) p.second = c.adaptive ? "1" : "0";
  for (auto &p : k) if (g.p(.3)) { size_t b = p.second.find("[cm]"); if (b != std::string::npos) p.second.erase(b); }
  if (g.p(.4)) for (auto &p : k) if (g.p(.5)) for (const char *q : {"layer_thickness", "giuh_ordinates", "initial_psi", "timestep", "endtime", "forcing_resolution", "wilting_point_psi", "field_capacity_psi", "ponded_depth_max", "soil_z"}) if (p.first == q) { std::string r = renumber(p.second, g); if (r != p.second) { x.label("numbers in another notation"); n++; } p.second = r; }
  if (g.p(.4)) for (auto &p : k) if (p.first == "layer_thickness" || p.first == "giuh_ordinates" || p.first == "layer_soil_type") { std::string s; for (char ch : p.second) { s += ch; if (ch == ',') s += ' '; } p.second = s; }
  if (g.p(.3)) set_key(k, "max_valid_soil_types", fmt("%d", g.i(c.L(), 15)));
  for (auto &p : k) if (p.second.find(']') != std::string::npos && g.p(.2)) { static const std::vector<std::string> tail{" ", "\t", " # a remark", " (see table 3)", " [remark]"}; p.second += g.pick(tail); n++; }   // text after the unit is ignored
  if (!c.sft && g.p(.1)) { set_key(k, "soil_z", "10,20.5,40[cm]"); n++; }   // means nothing without coupling
  for (size_t i = k.size() - 1; i > 0; i--) std::swap(k[i], k[g.i(0, (int)i)]);
  for (int i = g.i(0, 4); i > 0; i--) { static const std::pair<std::string, std::string> junk[] = {{"", ""}, {"# timestep", "7[sec]"}, {"forcing_file", "nowhere.csv"}, {"unknown_key", "1,2,3[cm]"}, {"# a comment [cm]", "x"}, {"layer_thickness_old", "1.0[m]"}, {"x", ""}}; k.insert(k.begin() + g.i(0, (int)k.size()), junk[g.i(0, 6)]); n++; }
  if (g.p(.4)) for (int i = g.i(1, 3); i > 0; i--) {               // keys that only resemble a known one
    std::string q = k[g.i(0, (int)k.size() - 1)].first; if (q.empty() || q[0] == '#') continue;
    switch (g.i(0, 5)) { case 0: q += g.pick(std::vector<std::string>{"_note", "2", "_h", "x", " "}); break; case 1: q = g.pick(std::vector<std::string>{"old_", "x", "#", " ", "2"}) + q; break; case 2: q.pop_back(); break; case 3: q.erase(0, 1); break; case 4: q[0] = (char)toupper(q[0]); break; default: for (auto &ch : q) ch = (char)toupper(ch); }
    bool known = false; for (auto &p : base) if (p.first == q) known = true; for (const char *p : {"max_valid_soil_types", "forcing_file", "soil_z", "verbosity"}) if (q == p) known = true;
    if (!known) { k.insert(k.begin() + g.i(0, (int)k.size()), {q, g.pick(std::vector<std::string>{"7", "true", "7[h]", "3,1[cm]", "high", "nowhere", "12[sec]"})}); n++; x.label("a key that resembles another"); }
  }
  std::string txt = text_of(k); if (g.p(.3)) txt.pop_back();       // no newline at the end of the file
  write_file(x.dir + "/b.cfg", txt);
  Model a, b; a.must_init(x, x.dir + "/a.cfg"); std::string r = b.init(x.dir + "/b.cfg"); if (!r.empty()) x.fail("equivalent", "Initialize did not return normally: " + r + " for\n" + txt);
  if (!close(a.time_step(), b.time_step(), 0, 1e-12) || !close(a.end_time(), b.end_time(), 0, 1e-12)) x.fail("equivalent", fmt("time step %.17g / %.17g, end time %.17g / %.17g for\n", a.time_step(), b.time_step(), a.end_time(), b.end_time()) + txt);
  if (!close(a.time_step(), c.res, 0, 1e-12)) x.fail("units", fmt("GetTimeStep %.12g for %.12g s", a.time_step(), c.res));
  Agree agree;
  for (int t = 0; t < c.T(); t++) {
    step(x, a, c, t); step(x, b, c, t);
    try { agree(x, "equivalent", observe(a), observe(b), fmt("update %d: two spellings of one configuration", t)); } catch (const Fail &f) { x.fail(f.tag, std::string(f.what()) + " for\n" + txt); }
  }
  if (u1 != 0 || u2 != 0 || u3 != 0) x.label("other time units"); x.label("rewritten");
  x.nontrivial = sum(c.P) > 0 && n > 0;
}
static Case g15(Rng &g, long) {
  GenOpt o; o.maxT = 20; o.soils = 1; Case c = gen_case(g, o); if (g.p(.2)) add_sft(g, c);
  c.aux["cfg"] = {(double)(g.u() >> 20)}; c.aux["mode"] = {(double)(g.p(.15) ? 1 : g.p(.05) ? 2 : 0)}; c.aux["which"] = {(double)g.i(0, 1000)}; if (g.p(.2)) c.endt = g.p(.5) ? 86400.0 * g.i(1, 9) / g.pick(std::vector<double>{1, 1, 2, 4, 8}) : c.res * c.T(); 
  return c;
}
static const std::string rule15 = std::string(RULE) + "the configuration is rewritten (order, units, defaults spelt out or left out, comments, unknown keys) and both models must agree bit for bit; one case in six drops a mandatory entry and one in twenty makes an option invalid. Non-trivial: rain and at least one rewritten entry, or a refusal";
static Reg r15({"C15", rule15.c_str(), g15, c15, 30000, 300000, false, false});

static void c16(const Case &c, Ctx &x) {
  Rng g((uint64_t)c.a("file")); int N = (int)c.a("rows"), M = (int)c.a("maxv"); auto ty = c.av("types"); std::vector<int> types; for (double t : ty) types.push_back((int)t);
  // a table of N soils; the rows the layers name hold the layers' soils
  std::vector<Soil> rows; for (int i = 0; i < N; i++) rows.push_back(CATALOGUE[g.i(0, 11)]);
  int valid = std::min(N, M > 0 ? M : 15); bool invalid = false;
  Case d = c;
  for (int l = 0; l < c.L(); l++) { if (types[l] < 1 || types[l] > valid) invalid = true; if (types[l] >= 1 && types[l] <= N) rows[types[l] - 1] = c.soil[l]; }
  for (int l = 0; l < c.L(); l++) if (types[l] >= 1 && types[l] <= N) d.soil[l] = rows[types[l] - 1];
  static const std::vector<std::string> names{"Sand", "\"Loamy sand\"", "\"Silty clay loam\"", "\"Clay\"", "Sandy-clay", "\"A B C D\"", "\"x\""};
  std::string longhead; for (int n = g.i(1, 9); n > 0; n--) longhead += "0.05 0.41 0.02 1.53 1.2   "; longhead += "\n";   // looks like soils, wherever one starts reading
  std::string t = g.p(.4) ? "\"Texture\" theta_r theta_e alpha n Ks\n" : g.p(.4) ? "some header line without numbers\n" : g.p(.4) ? "\"Version 2\" 0.05 0.4 0.02 1.5 1.2\n" : g.p(.5) ? longhead : "\n";   // the first line is never a soil
  auto name = [&]() { if (g.p(.8)) return g.pick(names); std::string q; for (int k = g.i(1, 24); k > 0; k--) q += "abcdefgh XYZ-_01"[q.empty() ? g.i(0, 7) : g.i(0, 15)]; return "\"" + q + "\""; };
  bool forms = g.p(.2);
  for (int i = 0; i < N; i++) { auto &s = rows[i]; t += name() + (g.p(.3) ? "\t" : "   ") + (forms ? renumber(join({s.thr, s.the, s.alpha, s.n, s.Ks}, " "), g) : join({s.thr, s.the, s.alpha, s.n, s.Ks}, g.p(.5) ? " " : "\t")) + (g.p(.2) ? "   " : "") + (g.p(.1) ? " 1.0" : "") + "\n"; if (g.p(.08)) t += "\n"; }
  if (g.p(.2)) t.pop_back();
  std::string sf = x.dir + "/s.dat"; write_file(sf, t);
  Cfg k = config_of(c, sf, types, M); set_key(k, "use_closed_form_G", c.closedG ? "true" : "false"); set_key(k, "adaptive_timestep", c.adaptive ? "true" : "false"); set_key(k, "ponded_depth_max", num(c.pond) + "[cm]");
  if (g.p(.3)) set_key(k, "verbosity", g.p(.5) ? "low" : "high");
  write_file(x.dir + "/b.cfg", text_of(k)); Model b; b.must_init(x, x.dir + "/b.cfg");
  if (invalid) {                                                   // no valid soil: water passes through
    double P = 0;
    for (int i = 0; i < c.T(); i++) {
      step(x, b, c, i); Out o = outputs(b); double want = c.P[i] * .1 * c.res / 3600; P += want;
      if (!close(o.P, want, 1e-10, 1e-9) || !close(o.Q, want, 1e-10, 1e-9) || !close(o.R, want, 1e-10, 1e-9)) x.fail("passthrough", fmt("update %d: rain %.10g cm, precipitation %.10g, runoff %.10g, discharge %.10g", i, want, o.P, o.R, o.Q));
      if (o.PET != 0 || o.AET != 0 || o.I != 0 || o.D != 0 || o.GW != 0 || o.MB != 0 || o.G != 0) x.fail("passthrough", fmt("update %d: AET %.6g infiltration %.6g percolation %.6g giuh %.6g balance %.6g without a valid soil", i, o.AET, o.I, o.D, o.G, o.MB));
      if (!close(b.time(), (i + 1) * c.res, 1e-6, 1e-10)) x.fail("passthrough", fmt("update %d ends at %.10g s", i, b.time()));
    }
    std::string out; std::string r = b.finalize(&out); if (!r.empty()) x.fail("finalize", "Finalize did not return normally: " + r);
    size_t p = out.find("Total discharge (Q)"); if (p != std::string::npos) { double q = strtod(out.c_str() + out.find('=', p) + 1, nullptr); if (!close(q, P, 2e-9, 1e-9)) x.fail("passthrough", fmt("the summary reports %.10g cm of discharge for %.10g cm of rain", q, P)); }
    x.label("soil type without parameters"); x.nontrivial = sum(c.P) > 0; clear_log(); return;
  }
  Model a; a.must_init(x, put_case(d, x, "a"));
  for (const char *n : {"smcmax", "smcmin", "van_genuchten_n", "van_genuchten_alpha", "hydraulic_conductivity"}) if (a.gv(n) != b.gv(n)) x.fail("row", std::string(n) + " does not come from the rows the layers name, in\n" + t);
  Agree agree;
  for (int i = 0; i < c.T(); i++) { step(x, a, d, i); step(x, b, c, i); agree(x, "rows", observe(a), observe(b), fmt("update %d: soil table of %d rows against the rows alone", i, N)); }
  clear_log();
  std::set<int> u(types.begin(), types.end()); if ((int)u.size() < c.L()) x.label("layers share a row"); if (N > 15) x.label("more than 15 rows");
  x.nontrivial = N > c.L() && sum(c.P) > 0;
}
static Case g16(Rng &g, long) {
  GenOpt o; o.maxT = 15; o.soils = 1; Case c = gen_case(g, o); int N = g.p(.7) ? g.i(1, 15) : g.i(10, 40), M = g.p(.3) ? 0 : g.i(1, 40); int valid = std::min(N, M > 0 ? M : 15);
  V ty; for (int l = 0; l < c.L(); l++) ty.push_back(g.p(.04) ? g.i(-3, 60) : g.i(1, valid)); if (g.p(.1)) ty[g.i(0, c.L() - 1)] = valid + 1; if (g.p(.02)) ty[0] = 0;
  c.aux["types"] = ty; c.aux["rows"] = {(double)N}; c.aux["maxv"] = {(double)M}; c.aux["file"] = {(double)(g.u() >> 20)}; c.aux["keeplayers"] = {1}; return c;
}
static const std::string rule16 = std::string(RULE) + "the soil table has 1-40 rows with quoted names with blanks, tabs, blank lines and any max_valid_soil_types, layers name any rows (also shared, also outside the table); compared bit for bit with a table of just those rows, or with pass-through of the rain when a type has no parameters. Non-trivial: rain and more rows than layers, or pass-through";
static Reg r16({"C16", rule16.c_str(), g16, c16, 30000, 300000, false, false});

// ---------------------------------------------------------------- C18: calibration
static void c18(const Case &c, Ctx &x) {
  auto the = c.av("the"), thr = c.av("thr"), vn = c.av("n"), al = c.av("alpha"), ks = c.av("Ks"); double fc = c.a("fc"), pond = c.a("pond"); int mode = (int)c.a("mode"); auto ty = c.av("types"); int L = c.L();
  std::vector<int> types; for (double t : ty) types.push_back((int)t);
  Case base = c; for (int l = 0; l < L; l++) base.soil[l] = c.soil[types[l] - 1];   // layers may share a soil type
  std::string sf = x.dir + "/s.dat"; write_file(sf, soil_text(c.soil));
  Cfg k = config_of(c, sf, types, 0); set_key(k, "use_closed_form_G", c.closedG ? "true" : "false"); set_key(k, "adaptive_timestep", c.adaptive ? "true" : "false"); set_key(k, "ponded_depth_max", num(c.pond) + "[cm]");
  if (c.sft) { set_key(k, "sft_coupled", "true"); set_key(k, "soil_z", join(c.soilz) + "[cm]"); }
  set_key(k, "calib_params", mode == 0 ? "false" : "true"); write_file(x.dir + "/b.cfg", text_of(k));
  Case want = base; want.calib = false; want.aux.clear(); int keep = (int)c.a("keep");   // variables that are not set keep the configured value
  if (mode == 1) for (int l = 0; l < L; l++) { Soil &q = base.soil[l]; if (keep & 1) the[l] = q.the; if (keep & 2) thr[l] = q.thr; if (keep & 4) vn[l] = q.n; if (keep & 8) al[l] = q.alpha; if (keep & 16) ks[l] = q.Ks; }
  if (keep & 32) fc = c.fc; if (keep & 64) pond = c.pond;
  if (mode == 1) { for (int l = 0; l < L; l++) want.soil[l] = {thr[l], the[l], al[l], vn[l], ks[l]}; want.fc = fc; want.pond = pond; }
  Model a, b; a.must_init(x, put_case(want, x, "a")); b.must_init(x, x.dir + "/b.cfg");
  double S0 = ref::mass(b.snap().f, cum_of(c)), Sc = ref::mass(a.snap().f, cum_of(c)), tot = 0;
  auto setall = [&](Model &m, double f) {
    auto sc = [&](V v) { for (auto &q : v) q *= f; return v; };
    if (keep) {
      const char *n[7] = {"smcmax", "smcmin", "van_genuchten_n", "van_genuchten_alpha", "hydraulic_conductivity", "field_capacity", "ponded_depth_max"}; V v[7] = {sc(the), sc(thr), vn, sc(al), sc(ks), V{fc * f}, V{pond * f}};
      for (int q = 6; q >= 0; q--) if (!(keep >> q & 1)) m.setv(n[q], v[q]);
      return;
    }
    if (c.a("at") != 0) { for (int l = 0; l < L; l++) { double v[5] = {the[l] * f, thr[l] * f, vn[l], al[l] * f, ks[l] * f}; int i = l; const char *n[5] = {"smcmax", "smcmin", "van_genuchten_n", "van_genuchten_alpha", "hydraulic_conductivity"}; for (int q = 0; q < 5; q++) m.raw_set_at(n[q], &i, 1, &v[q]); } }
    else { m.setv("smcmax", sc(the)); m.setv("smcmin", sc(thr)); m.setv("van_genuchten_n", vn); m.setv("van_genuchten_alpha", sc(al)); m.setv("hydraulic_conductivity", sc(ks)); }
    m.set("field_capacity", fc * f); m.set("ponded_depth_max", pond * f);
  };
  Agree agree;
  if (mode == 1 && c.a("twice") != 0) setall(b, 1.02);               // the last value counts
  if (mode != 2) setall(b, 1);                                     // mode 2: flag on, but nothing changed
  for (int t = 0; t < c.T(); t++) {
    step(x, a, c, t); step(x, b, c, t); Out o = outputs(b); tot += o.P - o.R - o.AET - o.D; V va = observe(a), vb = observe(b);
    agree(x, "calibrated", va, vb, fmt("update %d: %s", t, mode == 0 ? "parameters were set, but calibration is off" : mode == 1 ? "calibrated model against a model configured with those parameters" : "calibration on, nothing set"));
    if ((t == c.T() / 2 || (t == 0 && c.a("later") == 2)) && c.a("later") != 0) { setall(b, 1.01); }   // too late: parameters are taken over once
  }
  std::string out; std::string r = b.finalize(&out); if (!r.empty()) x.fail("finalize", "Finalize did not return normally: " + r);
  size_t p = out.find("Vol change (calibration)"); double v = p == std::string::npos ? NAN : strtod(out.c_str() + out.find('=', p) + 1, nullptr);
  if (!close(v, mode == 1 ? Sc - S0 : 0.0, 2e-9)) x.fail("volume", fmt("the summary reports a calibration volume of %.10g cm, the profile changed from %.10g to %.10g", v, S0, mode == 1 ? Sc : S0));
  x.label(mode == 0 ? "calibration off" : mode == 1 ? "calibrated" : "on, unchanged"); std::set<int> u(types.begin(), types.end()); if ((int)u.size() < L) x.label("layers share a soil type"); if (c.a("later") != 0) x.label("set again later");
  x.nontrivial = mode == 1 && sum(c.P) > 0;
}
static Case g18(Rng &g, long) {
  GenOpt o; o.maxT = 30; o.soils = 1; Case c = gen_case(g, o); int L = c.L(); V the, thr, vn, al, ks, ty;
  for (int l = 0; l < L; l++) ty.push_back(g.p(.3) ? g.i(1, L) : l + 1);
  for (int l = 0; l < L; l++) { Soil s = g.p(.5) ? c.soil[(int)ty[l] - 1] : CATALOGUE[g.i(0, 11)]; the.push_back(s.the * g.r(.95, 1.1)); thr.push_back(s.thr * g.r(.8, 1.1)); vn.push_back(1 + (s.n - 1) * g.r(.85, 1.2)); al.push_back(s.alpha * g.lg(.7, 1.4)); ks.push_back(s.Ks * g.lg(.5, 2)); }
  c.aux["the"] = the; c.aux["thr"] = thr; c.aux["n"] = vn; c.aux["alpha"] = al; c.aux["Ks"] = ks; c.aux["types"] = ty; c.aux["fc"] = {g.p(.5) ? c.fc : g.lg(10.3, 516)}; c.aux["pond"] = {g.p(.4) ? c.pond : g.p(.5) ? 0 : g.r(0, 3)};
  c.aux["mode"] = {(double)(g.p(.7) ? 1 : g.p(.5) ? 0 : 2)}; c.aux["later"] = {(double)(g.p(.35) ? g.i(1, 2) : 0)}; c.aux["at"] = {(double)g.p(.3)}; c.aux["keeplayers"] = {1};
  c.aux["keep"] = {(double)(g.p(.4) ? g.i(1, 127) : 0)}; c.aux["twice"] = {(double)g.p(.15)}; if (g.p(.15)) add_sft(g, c); return c;
}
static const std::string rule18 = std::string(RULE) + "calibration values for every layer (also layers sharing a soil type), field capacity and ponding depth, all or some of the variables, some with frozen soil; the calibrated model must equal, bit for bit, a model configured with those values; values set with calibration off or after the first update must have no effect. Non-trivial: calibrated, with rain";
static Reg r18({"C18", rule18.c_str(), g18, c18, 24000, 300000, false, false});

// ---------------------------------------------------------------- C21: subcycling
static void c21(const Case &c, Ctx &x) {
  int mode = (int)c.a("mode"); Case a = c, b = c; a.aux.clear(); b.aux.clear();
  double dt_h; int n; substeps(Case(c), c.P[0], 0, dt_h, n);
  std::string what;
  if (mode == 0) { a.adaptive = b.adaptive = false; substeps(a, 0, 0, dt_h, n); b.auxs["timestep"] = num(dt_h) + "[h]"; b.auxs["resolution"] = num(dt_h) + "[h]"; what = fmt("resolution %.6g s with %d substeps against %d updates of one substep", c.res, n, n); }
  else if (mode == 1) { a.adaptive = true; b.adaptive = false; what = "adaptive steps in heavy rain or ponding against the fixed time step"; }
  else if (mode == 2) { a.adaptive = true; b.adaptive = false; b.dt = std::min(2 * c.dt, c.res); what = "adaptive steps in light rain against twice the time step"; }
  else if (mode == 3) { a.adaptive = true; b.adaptive = false; b.dt = c.res; what = "adaptive steps without rain against one step per update"; }
  else { a.adaptive = false; b.adaptive = false; substeps(a, 0, 0, dt_h, n); b.auxs["timestep"] = num(dt_h) + "[h]"; what = fmt("time step %.6g s that does not divide %.6g s against %d equal steps", c.dt, c.res, n); }
  Model A, B; A.must_init(x, put_case(a, x, "a")); B.must_init(x, put_case(b, x, "b")); int cmp = 0; Agree agree;
  for (int t = 0; t < c.T(); t++) {
    set_inputs(A, c, t); set_inputs(B, c, t);
    if (mode >= 1 && mode <= 3) { double d1, d2; int n1, n2; double pond = A.snap().pond; substeps(a, c.P[t], pond, d1, n1); substeps(b, c.P[t], pond, d2, n2); if (n1 != n2) break; }   // left the regime
    A.must_update(x, t); V sumB; std::string w = what + fmt(", update %d", t);
    if (mode == 0) {
      double P = 0, PET = 0, AET = 0, R = 0, I = 0, D = 0;
      for (int i = 0; i < n; i++) { B.must_update(x, t); Out o = outputs(B); P += o.P; PET += o.PET; AET += o.AET; R += o.R; I += o.I; D += o.D; }
      Out o = outputs(A); const char *nm[] = {"precipitation", "PET", "AET", "runoff", "infiltration", "percolation"}; double va[] = {o.P, o.PET, o.AET, o.R, o.I, o.D}, vb[] = {P, PET, AET, R, I, D};
      for (int i = 0; i < 6; i++) if (!close(va[i], vb[i], agree.drift ? 1e-3 : 1e-9, 1e-9)) x.fail("sum", w + fmt(": %s %.14g against %.14g in total", nm[i], va[i], vb[i]));
      V pa, pb; for (Model *q : {&A, &B}) { V &v = q == &A ? pa : pb; v.assign(14, 0); v.push_back(q->snap().pond); for (const char *s : {"soil_storage", "soil_moisture_wetting_fronts", "soil_depth_wetting_fronts"}) for (double d : q->gv(s)) v.push_back(d); }
      agree(x, "state", pa, pb, w);
      if (!close(A.time(), B.time(), 1e-6, 1e-10)) x.fail("time", w + fmt(": time %.10g against %.10g", A.time(), B.time()));
    } else { B.must_update(x, t); agree(x, "steps", observe(A), observe(B), w); }
    cmp++;
  }
  x.label(mode == 0 ? "substeps as updates" : mode == 1 ? "adaptive, fine" : mode == 2 ? "adaptive, double" : mode == 3 ? "adaptive, coarse" : "not dividing");
  x.nontrivial = cmp >= 3 && (mode == 3 || sum(c.P) > 0) && (mode != 0 || n > 1);
}
static Case g21(Rng &g, long) {
  GenOpt o; o.maxT = 25; o.soils = -1; Case c = gen_case(g, o); int mode = g.p(.5) ? 0 : g.i(1, 4); c.aux["mode"] = {(double)mode};
  if (mode == 1) { if (c.pond == 0 && g.p(.5)) c.pond = g.r(.1, 5); for (auto &p : c.P) p = g.p(.2) && c.pond > 0 ? g.r(0, 10) : 10 + g.lg(.001, 100); }
  if (mode == 2) for (auto &p : c.P) p = g.p(.1) ? 10 : g.lg(g.p(.1) ? 1e-6 : 1e-3, 10);
  if (mode == 3) { for (auto &p : c.P) p = 0; for (auto &e : c.E) if (g.p(.5)) e = g.r(0, 1); c.psi0 = g.lg(5, 500); }
  if (g.p(.1)) add_sft(g, c); if (g.p(.1)) c.calib = true;
  if (mode == 4) { c.dt = g.r(.07, 1.3) * c.res; if (g.p(.3)) c.dt = std::floor(c.dt) + 1; else if (g.p(.3)) c.dt = c.res / (g.i(1, 12) + g.lg(1e-5, .05) * (g.p(.5) ? 1 : -1)); }   // also steps that almost divide
  return c;
}
static const std::string rule21 = std::string(RULE) + "an update with n substeps against n updates of one substep; adaptive stepping against the fixed step it prescribes for heavy rain or ponding, light rain, and no rain; steps that do not divide the resolution against equal steps; exactly (1e-9). Non-trivial: at least 3 updates compared, with rain (or the no-rain regime), more than one substep";
static Reg r21({"C21", rule21.c_str(), g21, c21, 24000, 300000, false, false});
