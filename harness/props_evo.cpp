// C08-C11, C17: one Update of the model against the reference model, started from the model's own state.
#include "drive.hpp"
#include <cstring>
using namespace ref;

static std::string dump(const std::vector<Front> &f) { std::string s; for (auto &w : f) s += fmt(" [z=%.9g th=%.9g psi=%.6g K=%.4g v=%.4g L%d%s]", w.depth, w.theta, w.psi, w.K, w.dzdt, w.layer, w.bottom ? "b" : ""); return s; }
enum { PROFILE = 1, AET_ = 2, SURFACE = 4, PERC = 8, ALL = 15 };

struct Unstable {};
// compares the outcome of one update with the reference; false: too close to a threshold to tell
static bool compare_(const Case &c, Ctx &x, const Par &p, const Step &s, int mask, Flux *out) {
  OneStep r = predict(c, p, s);
  if (r.f.sataet && !r.f.amb) {      // a deep front that just saturated: the model may drop that substep's AET altogether
    Par q = p; q.satzero = true; OneStep r2 = predict(c, q, s);
    if (std::fabs(s.o.AET - r2.f.AET) < std::fabs(s.o.AET - r.f.AET)) r = r2;
    if (r.f.sataet > 1 && !close(s.o.AET, r.f.AET, 1e-9)) { x.labels["# updates not judged: several saturations"]++; return false; }
  }
  if (out) *out = r.f;
  if (r.f.amb) { x.labels["# updates not judged: " + r.f.why]++; return false; }
  x.labels["# updates compared"]++; label_events(x, r.f);
  auto bad = [&](const char *tag, const std::string &msg) {
    // is the outcome determined at all? the reference must not react by this much to forcing and state changed in the tenth digit
    for (int k = 0; k < 6; k++) {
      Case d = c; double e = k & 1 ? 1e-10 : -1e-10; d.P[s.t] *= 1 + e; d.E[s.t] *= 1 - e; Step q = s; if (k & 2) for (auto &w : q.a.f) if (!w.bottom) w.depth = w.depth * (1 + e * .1) + (e > 0 ? r.f.zslop : -r.f.zslop);
      if (r.f.adjusted && q.a.pond > 1e-9) q.a.pond += 3 * e;      // deepening a saturated front balances its water to 2e-10 cm only
      Par pp = p; if (k > 3) pp.jitter = k & 1 ? 5e-16 : 5e-15; OneStep r2 = predict(d, pp, q); const Flux &f = r.f, &g = r2.f; bool same = !g.amb && r2.s.f.size() == r.s.f.size() && close(f.AET, g.AET, 2e-8) && close(f.I, g.I, 2e-8) && close(f.R, g.R, 2e-8) && close(f.D, g.D, 2e-7) && close(r.s.pond, r2.s.pond, 2e-8);
      if (same) for (size_t i = 0; i < r.s.f.size(); i++) if (r.s.f[i].layer != r2.s.f[i].layer || !close(r.s.f[i].depth, r2.s.f[i].depth, 6e-6, 6e-7) || !close(r.s.f[i].theta, r2.s.f[i].theta, 6e-7)) same = false;
      if (!same && k > 3 && !g.amb) {                              // saturated but for rounding: only a difference of that size is excused
        auto in = [](double got, double u, double v, double tol) { return std::fabs(got - u) <= tol + 3 * std::fabs(u - v); };
        bool ok = r2.s.f.size() == s.b.f.size() && r.s.f.size() == s.b.f.size() && in(s.o.AET, f.AET, g.AET, 1e-7) && in(s.o.I, f.I, g.I, 1e-7) && in(s.o.R, f.R, g.R, 1e-7) && in(s.o.D, f.D, g.D, 1e-5) && in(s.b.pond, r.s.pond, r2.s.pond, 1e-7);
        for (size_t i = 0; ok && i < r.s.f.size(); i++) ok = s.b.f[i].layer == r.s.f[i].layer && in(s.b.f[i].depth, r.s.f[i].depth, r2.s.f[i].depth, 3e-5) && in(s.b.f[i].theta, r.s.f[i].theta, r2.s.f[i].theta, 3e-6);
        if (ok) throw Unstable(); else continue;
      }
      if (!same) throw Unstable();
    }
    x.fail(tag, fmt("update %d (%d substeps of %.5g h, P %.6g PET %.6g mm/h): ", s.t, s.n, s.dt_h, c.P[s.t], c.E[s.t]) + msg + "\n before" + dump(s.a.f) + fmt(" pond %.9g prevP %.4g", s.a.pond, s.prevP) + "\n model " + dump(s.b.f) + "\n expect" + dump(r.s.f)
      + fmt("\n events created %d merged %d crossed %d bottom %d dow %d adj %d sat %d", r.f.created, r.f.merged, r.f.crossed, r.f.bottom, r.f.dow, r.f.adjusted, r.f.sat));
  };
  double w = std::max(1.0, s.n / 12.0);                               // rounding grows with the number of substeps
  if (mask & PROFILE) {
    if (r.s.f.size() != s.b.f.size()) bad("fronts", fmt("%zu wetting fronts, expected %zu", s.b.f.size(), r.s.f.size()));
    for (size_t i = 0; i < r.s.f.size(); i++) {
      const Front &a = s.b.f[i], &b = r.s.f[i];
      if (a.layer != b.layer) bad("layer", fmt("front %zu in layer %d, expected %d", i + 1, a.layer, b.layer));
      if (!close(a.depth, b.depth, 3e-5 * w, 3e-6 * w)) bad("depth", fmt("front %zu at depth %.10g cm, expected %.10g", i + 1, a.depth, b.depth));
      if (!close(a.theta, b.theta, 3e-6 * w)) bad("theta", fmt("front %zu theta %.10g, expected %.10g", i + 1, a.theta, b.theta));
    }
  }
  if ((mask & AET_) && !close(s.o.AET, r.f.AET, 1e-7 * w)) bad("aet", fmt("AET %.10g cm, expected %.10g", s.o.AET, r.f.AET));
  if (mask & SURFACE) {
    if (!close(s.o.I, r.f.I, 1e-7 * w)) bad("infil", fmt("infiltration %.10g cm, expected %.10g", s.o.I, r.f.I));
    if (!close(s.o.R, r.f.R, 1e-7 * w)) bad("runoff", fmt("runoff %.10g cm, expected %.10g", s.o.R, r.f.R));
    if (!close(s.b.pond, r.s.pond, 1e-7 * w)) bad("pond", fmt("ponded depth %.10g cm, expected %.10g", s.b.pond, r.s.pond));
  }
  if ((mask & PERC) && !close(s.o.D, r.f.D, 1e-5 * w)) bad("perc", fmt("percolation %.10g cm, expected %.10g", s.o.D, r.f.D));
  return true;
}
static bool compare(const Case &c, Ctx &x, const Par &p, const Step &s, int mask, Flux *out = nullptr) {
  try { return compare_(c, x, p, s, mask, out); } catch (const Unstable &) { x.labels["# updates not judged: the outcome hangs on rounding"]++; return false; }
}

static std::vector<double> factors(const Case &c, const std::vector<double> &T) {
  std::vector<double> ff(1, 1.0); size_t k = 0; double z = 0;
  for (double t : c.thick) { z += t; double s = 0; int n = 0; while (k < T.size() && c.soilz[k] <= z) { s += T[k++]; n++; } ff.push_back(frozen_factor(s / n)); }
  return ff;
}
// the reference's parameters follow the temperatures in force (those set last)
static void frost(const Case &c, Ctx &x, Par &p, int t, std::vector<double> &T) {
  if (!c.sft) return;
  if (!c.temp[t].empty()) { T = c.temp[t]; p.ff = factors(c, T); }
  for (double q : p.ff) if (q < 1) { x.labels["# updates with a frozen layer"]++; break; }
}

// ---------------------------------------------------------------- C08: evapotranspiration
static const double EDGE = .05;                               // share of the cases that look for a threshold
static void c08_(const Case &c, Ctx &x) {
  Model m; m.must_init(x, put_case(c, x)); Par p = params(c); int judged = 0; bool stressed = false, full = false; std::vector<double> T;
  auto theta0 = m.gv("soil_moisture_wetting_fronts");
  drive(c, x, m, [&](const Step &s) {
    frost(c, x, p, s.t, T);
    double th = theta0[0]; theta0 = m.gv("soil_moisture_wetting_fronts");
    bool sat = saturated(p, s.S0) || saturated(p, s.S1);
    if (c.E[s.t] == 0 && std::fabs(s.o.AET) > (sat ? 2e-3 * s.n : c.soilclass == 2 ? 1e-6 : 1e-7)) x.fail("nopet", fmt("update %d: AET %.6e cm without PET", s.t, s.o.AET));
    Flux f; if (!compare(c, x, p, s, AET_, &f)) return;
    if (s.n == 1 && !f.sataet && !f.dow && c.E[s.t] > 0) {          // straight from the published profile
      double frac = aet_fraction(h(std::min(1.0, se(th, p.s[1])), p.s[1]), p.s[1], p.wp, p.fc), want = s.o.PET * frac;
      if (!close(s.o.AET, want, 1e-9, 1e-5)) x.fail("law", fmt("update %d: AET %.10g cm for PET %.10g at surface water content %.10g, expected %.10g", s.t, s.o.AET, s.o.PET, th, want));
      if (frac < .5) stressed = true; else full = true; judged++;
    }
  });
  if (stressed) x.label("below half of PET"); if (full) x.label("above half of PET");
  x.nontrivial = judged >= 2 && sum(c.E) > 0;
}
static void c08(const Case &c, Ctx &x) { at_edges(c, x, c08_, false); }
static Case g08(Rng &g, long) {
  GenOpt o; o.maxT = 60; Case c = gen_case(g, o); if (g.p(.7)) c.dt = c.res; else if (g.p(.5)) c.adaptive = true;
  for (auto &e : c.E) if (e == 0 && g.p(.7)) e = g.lg(.01, 2); if (g.p(.4)) for (auto &q : c.P) if (g.p(.7)) q = 0;
  c.psi0 = g.p(.5) ? g.lg(20, 1000) : g.lg(300, 8000); if (g.p(.1)) add_sft(g, c); if (c.soilclass < 2 && g.p(EDGE)) add_edge(g, c); return c;
}
static Reg r08({"C08", "soil profile, options and forcing as for C01, mostly single-substep updates, drier starts and more PET; 5 % of the cases bisect one input to a threshold and judge both sides and nearby; non-trivial: at least two updates judged directly against the AET law", g08, c08, 20000, 400000, false, false});

// ---------------------------------------------------------------- C09: infiltration, ponding, runoff
static void c09_(const Case &c, Ctx &x) {
  Model m; m.must_init(x, put_case(c, x)); Par p = params(c); int judged = 0, lim = 0; std::vector<double> T;
  drive(c, x, m, [&](const Step &s) {
    frost(c, x, p, s.t, T);
    if (compare(c, x, p, s, SURFACE) && c.P[s.t] > 0) { judged++; if (s.o.R > 1e-9 || s.b.pond > 1e-9) { lim++; x.label("infiltration limited"); } else x.label("all infiltrates"); }
  });
  x.nontrivial = lim > 0 && judged > 1;
}
static void c09(const Case &c, Ctx &x) { at_edges(c, x, c09_); }
static Case g09(Rng &g, long) {
  GenOpt o; o.maxT = 40; o.ppond = .6; Case c = gen_case(g, o);
  for (auto &q : c.P) if (q > 0 && g.p(.5)) q = std::min(300.0, c.soil[0].Ks * 10 * g.lg(.3, 30)); if (g.p(.3)) for (auto &e : c.E) e = 0;
  if (g.p(.3)) { c.thick[0] = g.r(3, 12); }
  if (g.p(.2)) add_sft(g, c);
  if (c.soilclass < 2 && g.p(EDGE)) add_edge(g, c); return c;
}
static Reg r09({"C09", "soil profile, options and forcing as for C01, with rain around the infiltration capacity, ponding and thin top layers; 5 % of the cases bisect one input to a threshold and judge both sides and nearby; non-trivial: some judged update with runoff or ponding", g09, c09, 16000, 300000, false, false});

// ---------------------------------------------------------------- C10: evolution of the profile
static void c10_(const Case &c, Ctx &x) {
  Model m; m.must_init(x, put_case(c, x)); Par p = params(c); int judged = 0, ev = 0; std::vector<double> T;
  drive(c, x, m, [&](const Step &s) { Flux f; frost(c, x, p, s.t, T); if (compare(c, x, p, s, ALL, &f)) { judged++; ev += f.created + f.merged + f.crossed + f.bottom; } });
  x.nontrivial = ev > 0 && judged > 0;
}
static void c10(const Case &c, Ctx &x) { at_edges(c, x, c10_, false); }
static Case g10(Rng &g, long) { GenOpt o; o.maxT = 60; if (g.p(.4)) { o.minL = 2; o.maxdepth = 30; o.mindepth = 3; } Case c = gen_case(g, o); if (g.p(.1)) add_sft(g, c); if (c.soilclass < 2 && g.p(EDGE)) add_edge(g, c); return c; }
static Reg r10({"C10", "soil profile, options and forcing as for C01, 40 % with several thin layers so that fronts cross; 5 % of the cases bisect one input to a threshold and judge both sides and nearby; non-trivial: a front was created, merged, crossed a boundary or left at the bottom in a judged update", g10, c10, 20000, 400000, false, false});

// ---------------------------------------------------------------- C11: speed of the fronts
static void c11_(const Case &c, Ctx &x) {
  Model m; m.must_init(x, put_case(c, x)); Par p = params(c); int judged = 0; std::vector<double> T;
  drive(c, x, m, [&](const Step &s) {
    frost(c, x, p, s.t, T);
    bool any = false; for (auto &f : s.b.f) if (!f.bottom) any = true;
    if (!any) return;
    std::vector<Front> a = s.b.f; for (auto &f : a) { const SP &q = p.s[f.layer]; f.K = K(std::min(1.0, std::max(0.0, se(f.theta, q))), q.Ks * p.ff[f.layer], q.m); }
    std::vector<Front> b = a; Flux fl; velocities(a, p, 0, fl); velocities(b, p, s.b.pond, fl);
    for (size_t i = 0; i + 1 < a.size(); i++) {
      double v = s.b.f[i].dzdt; if (s.b.f[i].bottom) continue;
      double w0 = a[i].dzdt, w1 = b[i].dzdt, dth = s.b.f[i].theta - s.b.f[i + 1].theta;
      if (dth < 1e-9 || fl.amb) { x.labels["# fronts not judged"]++; continue; }
      double rel = 1e-5 + 1e-10 / dth;
      // water ponding in the very step that creates a front does not press on it yet
      bool fresh = s.n == 1 && s.a.pond == 0 && s.prevP == 0 && c.P[s.t] > 0;
      if (!((fresh && close(v, w0, 1e-8, rel)) || close(v, w1, 1e-8, rel))) x.fail("speed", fmt("update %d: front %zu moves at %.10g cm/h, expected %.10g (%.10g under %.6g cm of ponded water);", s.t, i + 1, v, w0, w1, s.b.pond) + dump(s.b.f));
      x.labels["# fronts judged"]++; judged++; x.label(s.b.f[i].layer == 1 ? "front in the top layer" : "front in a deeper layer"); if (s.b.pond > 0) x.label("under ponded water");
    }
    // and the advance it makes (single substep, nothing else happening)
    if (s.n == 1 && s.a.f.size() == s.b.f.size()) {
      OneStep r = predict(c, p, s);
      if (!r.f.amb && !r.f.created && !r.f.merged && !r.f.crossed && !r.f.bottom && !r.f.dow && !r.f.adjusted)
        for (size_t i = 0; i + 1 < s.a.f.size(); i++) if (!s.a.f[i].bottom && !s.b.f[i].bottom) { double z = std::min(s.a.f[i].depth + s.a.f[i].dzdt * s.dt_h, p.cum[p.L]); if (!close(s.b.f[i].depth, z, 1e-6, 1e-9)) x.fail("advance", fmt("update %d: front %zu went from %.10g to %.10g cm in %.6g h at %.10g cm/h", s.t, i + 1, s.a.f[i].depth, s.b.f[i].depth, s.dt_h, s.a.f[i].dzdt)); x.labels["# advances judged"]++; }
    }
  });
  x.nontrivial = judged >= 3;
}
static void c11(const Case &c, Ctx &x) { at_edges(c, x, c11_); }
static Case g11(Rng &g, long) { GenOpt o; o.maxT = 50; o.pclosed = .35; if (g.p(.5)) { o.minL = 2; o.maxdepth = 30; o.mindepth = 3; } Case c = gen_case(g, o); if (g.p(.3)) c.dt = c.res; if (g.p(.15)) add_sft(g, c); if (c.soilclass < 2 && g.p(EDGE)) add_edge(g, c); return c; }
static Reg r11({"C11", "soil profile, options and forcing as for C01, half with several thin layers, a third with the closed form of the capillary drive; 5 % of the cases bisect one input to a threshold and judge both sides and nearby; non-trivial: at least three front speeds judged", g11, c11, 24000, 300000, false, false});

// ---------------------------------------------------------------- C17: soil freeze-thaw coupling
static void c17(const Case &c, Ctx &x) {
  int mode = (int)c.a("mode"); Case b = c; b.sft = false; b.soilz.clear(); b.temp.clear();
  Model m; m.must_init(x, put_case(c, x, "a")); bool drift = false; int judged = 0, frozen = 0;
  if (mode < 2) {
    auto ff = factors(c, c.temp[0]);
    if (mode == 1) for (int l = 0; l < c.L(); l++) b.soil[l].Ks *= ff[l + 1];
    Model n; n.must_init(x, put_case(b, x, "b"));
    for (int t = 0; t < c.T(); t++) {
      set_inputs(m, c, t); set_inputs(n, b, t); m.must_update(x, t); n.must_update(x, t); Out p = outputs(m), q = outputs(n); const double *u = &p.P, *v = &q.P;
      const char *nm[] = {"precipitation", "PET", "AET", "runoff", "giuh_runoff", "storage", "discharge", "infiltration", "percolation", "groundwater", "balance"};
      std::vector<double> a(u, u + 11), d(v, v + 11); a[10] = d[10] = 0; bool eq = true; auto f = m.snap().f, g = n.snap().f;
      if (f.size() != g.size()) { if (drift) break; x.fail(mode ? "scaled" : "warm", fmt("update %d: %zu wetting fronts against %zu", t, f.size(), g.size())); }
      for (size_t i = 0; i < f.size(); i++) { a.push_back(f[i].theta); d.push_back(g[i].theta); a.push_back(f[i].depth); d.push_back(g[i].depth); }
      for (size_t i = 0; i < a.size(); i++) if (a[i] != d[i]) { eq = false; double tol = drift ? 1e-3 : 1e-9; if (!close(a[i], d[i], tol, tol)) x.fail(mode ? "scaled" : "warm", fmt("update %d: %s %.12g against %.12g in %s", t, i < 11 ? nm[i] : "profile", a[i], d[i], mode ? "a model with the conductivities scaled by hand" : "the uncoupled model")); }
      if (!eq) drift = true; judged++;
    }
    for (double q : ff) if (q < 1) frozen++;
  } else {
    Par p = params(c); std::vector<double> T; size_t seen = 0;
    std::vector<double> last = c.temp[0];
    drive(c, x, m, [&](const Step &s) {
      if (!c.temp[s.t].empty()) last = c.temp[s.t];
      p.ff = factors(c, last); for (double q : p.ff) if (q < 1) frozen++;
      if (compare(c, x, p, s, ALL)) judged++;
      for (size_t i = 0; i + 1 < s.b.f.size(); i++) { const SP &q = p.s[s.b.f[i].layer]; double k = K(std::min(1.0, std::max(0.0, se(s.b.f[i].theta, q))), q.Ks * p.ff[s.b.f[i].layer], q.m); if (!close(k, s.b.f[i].K, 1e-12, 1e-6)) x.fail("K", fmt("update %d: conductivity %.10g of front %zu, expected %.10g (frozen factor %.6g)", s.t, s.b.f[i].K, i + 1, k, p.ff[s.b.f[i].layer])); }
      (void)seen;
    });
  }
  x.label(mode == 0 ? "warm soil" : mode == 1 ? "constant temperatures" : "varying temperatures"); if (frozen) x.label("some layer frozen");
  x.nontrivial = judged >= 3 && (mode == 0 || frozen) && sum(c.P) > 0;
}
static Case g17(Rng &g, long) {
  GenOpt o; o.maxT = 40; o.maxdepth = 60; Case c = gen_case(g, o); int mode = g.i(0, 3); if (mode == 3) mode = 2; c.aux["mode"] = {(double)mode};
  c.sft = true; double lo = 0;
  for (double t : c.thick) { int k = g.i(1, 4); for (int i = 0; i < k; i++) c.soilz.push_back(lo + t * (i + (i + 1 == k && g.p(.3) ? 1.0 : g.r(.55, .95))) / k); lo += t; }
  for (int k = g.p(.3) ? g.i(1, 3) : 0; k > 0; k--) c.soilz.push_back(c.soilz.back() + 1 + lo);      // cells below the soil profile
  double z = 0; for (double t : c.thick) { z += t; } for (auto &v : c.soilz) { double cum = 0; for (double t : c.thick) { cum += t; if (std::fabs(v - cum) < 1e-9 && v != cum) v = cum - 1e-6; } }
  for (int t = 0; t < c.T(); t++) {
    std::vector<double> v;
    if (t == 0 || (mode != 1 && g.p(.4))) { double base = g.r(272.85, 273.25); bool deepfreeze = g.p(.2); for (size_t i = 0; i < c.soilz.size(); i++) v.push_back(mode == 0 ? 273.15 + g.r(0, g.p(.2) ? 40 : 10) : deepfreeze && g.p(.6) ? g.r(g.p(.2) ? 225 : 255, 273) : base + g.r(-.15, .25)); }
    c.temp.push_back(v);
  }
  if (mode == 0 && g.p(.2)) for (auto &v : c.temp) for (auto &q : v) q = 273.15;
  return c;
}
static Reg r17({"C17", "soil profile, options and forcing as for C01 with a temperature grid (1-4 cells per layer, cells below the profile) and temperatures around freezing; warm soil against the uncoupled model, constant temperatures against a model with conductivities scaled by hand, varying temperatures against the reference model. Non-trivial: at least three updates judged, rain, and (unless warm) a frozen layer", g17, c17, 20000, 250000, false, false});
