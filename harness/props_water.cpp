// C01-C06, C12, C22: conservation, bounds and structure, judged on the model's own outputs after every Update.
#include "drive.hpp"
#include <cstring>
using namespace ref;

static const char *RULE_HIST = "one case = soil profile (1-4 layers; HYDRUS catalogue, perturbed or documented-range soils), options (time steps incl. ones that do not divide, adaptive, closed-form G, ponding, GIUH) and a forcing history of 5-120 updates; ";

static Case gen_mix(Rng &g, long, GenOpt o = GenOpt()) { Case c = gen_case(g, o); if (g.p(.08)) add_sft(g, c); return c; }

static const double EDGE = .05;                               // share of the cases that look for a threshold
static std::string at(const Step &s) { return fmt("update %d (%d substeps of %.6g h): ", s.t, s.n, s.dt_h); }

// ---------------------------------------------------------------- C01
static void c01_(const Case &c, Ctx &x) {
  Model m; m.must_init(x, put_case(c, x));
  double tot = 0, maxS = 0, minS = 1e9; int rain = 0, subs = 0; bool rounding = c.soilclass == 2 && ref::rounding(c) > 5e-5;
  drive(c, x, m, [&](const Step &s) {
    double in = s.S0 + s.a.pond + s.o.P, out = s.S1 + s.b.pond + s.o.AET + s.o.R + s.o.D, e = in - out;
    if (!(std::fabs(e) <= mass_tol(c, s.n))) x.fail("balance", at(s) + fmt("water balance off by %.3e cm: storage %.10g -> %.10g, ponded %.10g -> %.10g, P %.10g AET %.10g runoff %.10g percolation %.10g", e, s.S0, s.S1, s.a.pond, s.b.pond, s.o.P, s.o.AET, s.o.R, s.o.D));
    if (!(std::fabs(s.o.MB) <= (c.soilclass == 2 ? 1.01e-4 : 1e-6))) x.fail("mbvar", at(s) + fmt("mass_balance output %.3e cm", s.o.MB));
    if (s.n == 1 && !close(s.o.MB, e, 1e-9)) x.fail("mbvar", at(s) + fmt("mass_balance output %.6e cm, but the outputs leave %.6e cm unaccounted", s.o.MB, e));
    if (!close(s.o.P, c.P[s.t] * 0.1 * c.res / 3600, 1e-9, 1e-9)) x.fail("precip", at(s) + fmt("precipitation %.10g cm for %.10g mm/h over %.6g s", s.o.P, c.P[s.t], c.res));
    tot += e; subs += s.n; if (c.P[s.t] > 0) rain++; maxS = std::max(maxS, s.S1); minS = std::min(minS, s.S1);
    if (s.o.R > 0) x.label("runoff"); if (s.o.D > 0) x.label("percolation"); if (s.b.pond > 0) x.label("ponding"); if (s.o.AET > 0) x.label("AET"); if ((int)s.b.f.size() > c.L() + 1) x.label("several moving fronts");
  });
  if (!(std::fabs(tot) <= (rounding ? std::max(1e-3, 1.05e-4 * subs) : c.soilclass == 2 ? 1e-3 : 1e-5))) x.fail("balance", fmt("cumulative water balance over %d updates off by %.3e cm", c.T(), tot));
  if (c.sft) x.label("sft"); if (c.adaptive) x.label("adaptive"); x.label(fmt("layers=%d", c.L())); x.label(fmt("soilclass=%d", c.soilclass));
  x.nontrivial = rain > 0 && maxS - minS > 1e-3;
}
static void c01(const Case &c, Ctx &x) { at_edges(c, x, c01_); }
static Case g01(Rng &g, long i) { Case c = gen_mix(g, i); if (c.soilclass < 2 && g.p(EDGE)) add_edge(g, c); return c; }
static const std::string rule01 = std::string(RULE_HIST) + "5 % of the cases bisect one input to a threshold and judge both sides and nearby; non-trivial: it rained and the soil water storage changed by more than 1e-3 cm";
static Reg r01({"C01", rule01.c_str(), g01, c01, 20000, 400000, false, false});

// ---------------------------------------------------------------- C02
static bool line_value(const std::string &out, const char *key, double &v) { size_t p = out.find(key); if (p == std::string::npos) return false; p = out.find('=', p); if (p == std::string::npos) return false; v = strtod(out.c_str() + p + 1, nullptr); return true; }
static void c02_(const Case &c, Ctx &x) {
  Model m; m.must_init(x, put_case(c, x));
  double S0 = ref::mass(m.snap().f, cum_of(c)), S = S0, pond = 0, change = 0;
  Out t{}; int T = c.T(), subs = 0; bool any = false;
  auto cal = c.av("cal"); bool pass = c.a("notype") != 0;        // a layer without soil parameters: the rain is passed through
  std::vector<double> prevS{S0};
  if (!cal.empty()) m.setv("smcmax", cal);
  auto add = [&](const Out &o) { t.P += o.P; t.PET += o.PET; t.AET += o.AET; t.R += o.R; t.G += o.G; t.Q += o.Q; t.I += o.I; t.D += o.D; t.GW += o.GW; };
  if (pass) for (int k = 0; k < T; k++) { set_inputs(m, c, k); m.must_update(x, k); add(outputs(m)); x.steps++; if (t.R > 0) any = true; }
  else drive(c, x, m, [&](const Step &s) {
    add(s.o);
    subs += s.n; if (s.t == 0) change = (s.S1 + s.b.pond + s.o.AET + s.o.R + s.o.D) - (S0 + s.o.P);   // only the calibration may change it
    S = s.S1; pond = s.b.pond; if (s.o.R > 0) any = true;
  });
  if (cal.empty()) change = 0;
  std::string out; std::string r = m.finalize(&out);
  if (!r.empty()) x.fail("finalize", "Finalize did not return normally: " + r);
  double tol = 2e-9 + 1e-12 * T + (c.soilclass == 2 ? 1.05e-4 * 12 : 1e-6) * 0;
  auto expect = [&](const char *key, double want, double tl) { double v; if (!line_value(out, key, v)) x.fail("summary", std::string("no line '") + key + "' in the Finalize summary"); if (!close(v, want, tl, 1e-12)) x.fail("summary", fmt("summary says %s = %.10f cm, the run gave %.10f", key, v, want)); return v; };
  if (pass && !line_value(out, "Initial water in soil", S)) x.fail("summary", "no initial storage in the summary");
  double v0 = expect("Initial water in soil", pass ? S : S0, tol), vP = expect("Total precipitation", t.P, tol); expect("Total infiltration", t.I, tol);
  double vE = expect("Final water in soil", S, tol), vO = expect("Surface ponded water", pond, tol), vR = expect("Surface runoff", t.R, tol);
  expect("GIUH runoff", t.G, tol); expect("GIUH water (in array)", pass ? 0 : t.R - t.G, tol); double vD = expect("Total percolation", t.D, tol), vA = expect("Total AET", t.AET, tol);
  expect("Total PET", t.PET, tol); expect("Total discharge (Q)", t.Q, tol);
  double vC; if (!line_value(out, "Vol change (calibration)", vC)) x.fail("summary", "no calibration line in the summary");
  if (!close(vC, change, (c.soilclass == 2 ? 1.05e-4 * 40 : 1e-6) + tol)) x.fail("summary", fmt("calibration changed the stored water by %.10f cm, the summary says %.10f", change, vC));
  double gb; if (!line_value(out, "Global balance", gb)) x.fail("summary", "no global balance in the summary");
  double want = v0 + vP - vR - vA - vO - vD - vE + vC;
  if (!close(gb, want, 2e-9)) x.fail("summary", fmt("global balance printed as %.6e, the totals give %.6e", gb, want));
  if (!(std::fabs(gb) <= (c.soilclass == 2 && ref::rounding(c) > 5e-5 ? std::max(1e-3, 1.05e-4 * subs) : c.soilclass == 2 ? 1e-3 : 1e-5))) x.fail("global", fmt("global balance %.6e cm", gb));
  if (pass) x.label("pass-through"); if (!cal.empty()) x.label("calibrated"); if (any) x.label("runoff");
  x.nontrivial = T >= 5 && t.P > 0 && (any || t.D > 0 || t.AET > 0);
}
static void c02(const Case &c, Ctx &x) { at_edges(c, x, c02_); }
static Case g02(Rng &g, long i) {
  GenOpt o; o.maxT = 80; Case c = gen_mix(g, i, o);
  if (g.p(.25)) { c.calib = true; c.sft = false; c.soilz.clear(); c.temp.clear(); std::vector<double> v; for (auto &s : c.soil) v.push_back(s.the * g.r(.95, 1.1)); c.aux["cal"] = v; }
  else if (g.p(.05)) { c.sft = false; c.soilz.clear(); c.temp.clear(); c.aux["notype"] = {(double)g.i(1, c.L())}; c.aux["keeplayers"] = {1}; }
  else if (c.soilclass < 2 && g.p(EDGE)) add_edge(g, c);
  return c;
}
static const std::string rule02 = std::string(RULE_HIST) + "a quarter of them with a calibrated porosity, some with a soil type that has no parameters (rain passed through); the run is closed with Finalize and its printed summary parsed. 5 % of the cases bisect one input to a threshold and judge both sides and nearby; Non-trivial: at least 5 updates with rain and with runoff, percolation or AET";
static Reg r02({"C02", rule02.c_str(), g02, c02, 16000, 300000, false, false});

// ---------------------------------------------------------------- C03
static void c03_(const Case &c, Ctx &x) {
  Model m; m.must_init(x, put_case(c, x));
  auto ord = ref::giuh(c.giuh, c.res / 3600); double so = sum(c.giuh), R = 0, G = 0; std::vector<double> h; int runoff = 0;
  drive(c, x, m, [&](const Step &s) {
    h.push_back(s.o.R); if (s.o.R > 1e-9) runoff++;
    double q = 0; for (size_t k = 0; k < ord.size() && k < h.size(); k++) q += ord[k] * h[h.size() - 1 - k];
    R += s.o.R; G += s.o.G;
    if (!close(s.o.G, q, 1e-12, 1e-10)) x.fail("convolution", at(s) + fmt("giuh_runoff %.12g cm, the unit hydrograph applied to the surface runoff gives %.12g", s.o.G, q));
    if (!(s.o.G >= 0)) x.fail("negative", at(s) + fmt("giuh_runoff %.6e", s.o.G));
    if (!close(s.o.Q, s.o.G + s.o.GW, 1e-13, 1e-12)) x.fail("discharge", at(s) + fmt("total_discharge %.12g cm, giuh_runoff %.12g + groundwater %.12g", s.o.Q, s.o.G, s.o.GW));
    if (s.o.GW != 0) x.fail("discharge", at(s) + "groundwater_to_stream_recharge is not zero");
    if (G > R * std::max(1.0, so) + 1e-9) x.fail("conservation", at(s) + fmt("routed %.10g cm out of %.10g cm of runoff", G, R));
  });
  // flush: no rain until the hydrograph has run out; any remaining ponding infiltrates or runs off meanwhile
  double last = 0; int extra = (int)ord.size() + 2; Rng dummy(1);
  for (int k = 0; k < extra; k++) {
    m.set("precipitation_rate", 0); m.set("potential_evapotranspiration_rate", 0); m.must_update(x, c.T() + k);
    Out o = outputs(m); R += o.R; G += o.G; h.push_back(o.R); last = o.G;
    double q = 0; for (size_t j = 0; j < ord.size() && j < h.size(); j++) q += ord[j] * h[h.size() - 1 - j];
    if (!close(o.G, q, 1e-12, 1e-10)) x.fail("convolution", fmt("flush update %d: giuh_runoff %.12g cm, expected %.12g", k, o.G, q));
  }
  if (!close(G, R * so, 1e-9, 1e-9)) x.fail("conservation", fmt("after the hydrograph ran out, %.12g cm of %.12g cm of runoff (ordinates sum %.6g) were discharged", G, R, so));
  if (last > 1e-12 + 1e-9 * R) x.fail("tail", fmt("giuh_runoff %.3e cm long after the last runoff", last));
  x.label(c.res < 3600 ? "resolution < 1 h" : c.res > 3600 ? "resolution > 1 h" : "hourly"); if (ord.size() > 8) x.label("long hydrograph");
  x.nontrivial = runoff >= 2 && c.giuh.size() >= 2;
}
static void c03(const Case &c, Ctx &x) { at_edges(c, x, c03_); }
static Case g03(Rng &g, long) {
  GenOpt o; o.maxT = 40; o.ppond = 0.3; o.pgiuh = 1; Case c = gen_case(g, o);
  if (g.p(.5)) { static const std::vector<double> r{300, 600, 720, 900, 1200, 1500, 1800, 2400, 3600, 5000, 5400, 7200, 10800, 14400}; c.res = g.pick(r); c.dt = std::min(c.dt, c.res); }
  if (g.p(.3)) { int n = g.i(6, 14); c.giuh.clear(); double s = 0; for (int i = 0; i < n; i++) { c.giuh.push_back(g.p(.2) ? 0 : g.r(.01, 1)); s += c.giuh.back(); } if (s == 0) { c.giuh[0] = 1; s = 1; } for (auto &q : c.giuh) q /= s; }
  if (g.p(.15)) { c.res = g.i(200, 20000); c.dt = std::min(c.dt, c.res); if (c.dt < c.res / 60) c.dt = c.res / 60; }   // any number of seconds
  if (g.p(.15)) for (auto &q : c.giuh) q = g.p(.7) ? std::floor(q * 100 + .5) / 100 : std::floor(q * 10 + .5) / 10;   // written with two digits (or one): the sum need not be exactly one
  for (auto &p : c.P) if (p > 0 && g.p(.6)) p = g.r(30, 200);
  if (c.soilclass < 2 && g.p(EDGE)) add_edge(g, c);
  return c;
}
static const std::string rule03 = std::string(RULE_HIST) + "with intense rain, 1-40 hourly ordinates (also rounded ones, whose sum is not one) and resolutions from 200 s to 5.5 h (any number of seconds); 5 % of the cases bisect one input to a threshold and judge both sides and nearby; non-trivial: runoff in at least two updates and at least two ordinates";
static Reg r03({"C03", rule03.c_str(), g03, c03, 24000, 250000, false, false});

// ---------------------------------------------------------------- C04
static void bounds(const Case &c, Ctx &x, const Par &p, const std::vector<Front> &f, double S, const std::string &w) {
  double lo = 0, hi = 0; for (int l = 1; l <= p.L; l++) { lo += p.s[l].thr * (p.cum[l] - p.cum[l - 1]); hi += p.s[l].the * (p.cum[l] - p.cum[l - 1]); }
  for (size_t i = 0; i < f.size(); i++) {
    if (f[i].layer < 1 || f[i].layer > p.L) x.fail("layer", w + fmt("front %zu in layer %d", i + 1, f[i].layer));
    const SP &s = p.s[f[i].layer];
    if (!(f[i].theta >= s.thr - 1e-9 && f[i].theta <= s.the + 1e-9)) x.fail("theta", w + fmt("water content %.10g of front %zu outside [%.10g, %.10g]", f[i].theta, i + 1, s.thr, s.the));
    if (!(f[i].psi >= -1e-9) || !std::isfinite(f[i].psi)) x.fail("psi", w + fmt("capillary head %.6g of front %zu", f[i].psi, i + 1));
    if (!(f[i].K >= 0 && f[i].K <= s.Ks * (1 + 1e-9))) x.fail("K", w + fmt("conductivity %.6g of front %zu outside [0, %.6g]", f[i].K, i + 1, s.Ks));
    if (!(f[i].dzdt >= 0 && f[i].dzdt <= 1e4 * (1 + 1e-12))) x.fail("dzdt", w + fmt("front %zu moves at %.6g cm/h", i + 1, f[i].dzdt));
  }
  if (!(S >= lo - 1e-7 && S <= hi + 1e-7)) x.fail("storage", w + fmt("storage %.10g cm outside [%.10g, %.10g]", S, lo, hi));
}
static void c04_(const Case &c, Ctx &x) {
  Model m; m.must_init(x, put_case(c, x)); Par p = params(c);
  Snap s0 = m.snap(); bounds(c, x, p, s0.f, ref::mass(s0.f, p.cum), "after Initialize: ");
  bool wet = false, dry = false;
  drive(c, x, m, [&](const Step &s) {
    bounds(c, x, p, s.b.f, s.S1, at(s));
    const double *v = &s.o.P; for (int i = 0; i < 11; i++) if (!std::isfinite(v[i])) x.fail("finite", at(s) + fmt("output %d is not finite", i));
    auto th = m.gv("soil_moisture_wetting_fronts"), z = m.gv("soil_depth_wetting_fronts");
    for (size_t i = 0; i < th.size(); i++) {
      double zz = z[i] * 100; if (!(zz > 0 && zz <= p.cum[p.L] + 1e-7)) x.fail("depth", at(s) + fmt("front %zu at depth %.10g cm of %.10g", i + 1, zz, p.cum[p.L]));
      if (!(th[i] > 0 && th[i] < 1)) x.fail("theta", at(s) + fmt("soil moisture %.6g", th[i]));
    }
    // without a new front and with as many fronts in every layer as before, none merged, crossed or left: each is where it was, or deeper
    bool fresh = c.P[s.t] > 0 && s.prevP == 0 && s.a.pond == 0, same = !fresh && s.a.f.size() == s.b.f.size();
    for (size_t i = 0; same && i < s.a.f.size(); i++) same = s.a.f[i].layer == s.b.f[i].layer;
    if (same) for (size_t i = 0; i < s.a.f.size(); i++) if (s.b.f[i].depth < s.a.f[i].depth - 1e-9) x.fail("upward", at(s) + fmt("front %zu moved up from %.12g to %.12g cm", i + 1, s.a.f[i].depth, s.b.f[i].depth));
    if (s.b.f[0].theta >= p.s[1].the - 1e-6) { wet = true; x.label("saturated at the surface"); }
    if (s.b.f[0].theta <= p.s[1].thr + 0.02) { dry = true; x.label("near residual at the surface"); }
    if (saturated(p, s.S1)) x.label("profile full");
  });
  x.nontrivial = wet || dry || s0.f.size() < m.snap().f.size();
}
static void c04(const Case &c, Ctx &x) { at_edges(c, x, c04_); }
static Case g04(Rng &g, long i) {
  GenOpt o; Case c = gen_mix(g, i, o);
  if (g.p(.2)) { for (auto &p : c.P) p = 0; for (auto &e : c.E) e = g.r(.5, 5); }          // long drying
  else if (g.p(.2)) { for (auto &p : c.P) p = g.r(5, 150); }                                // deluge
  if (c.soilclass < 2 && g.p(EDGE)) add_edge(g, c);
  return c;
}
static const std::string rule04 = std::string(RULE_HIST) + "plus deluges and long droughts; 5 % of the cases bisect one input to a threshold and judge both sides and nearby; non-trivial: the surface saturated, came close to residual, or new fronts formed";
static Reg r04({"C04", rule04.c_str(), g04, c04, 12000, 250000, false, false});

// ---------------------------------------------------------------- C05
static void structure(const Case &c, Ctx &x, Model &m, const Par &p, const std::vector<Front> &f, bool post, const std::string &w) {
  size_t n = f.size();
  if (n < (size_t)p.L) x.fail("count", w + fmt("%zu fronts for %d layers", n, p.L));
  for (size_t i = 0; i < n; i++) {
    int l = f[i].layer;
    if (l < 1 || l > p.L) x.fail("layer", w + fmt("front %zu in layer %d", i + 1, l));
    if (!(f[i].depth > p.cum[l - 1] - 1e-9 && f[i].depth <= p.cum[l] + 1e-9)) x.fail("depth", w + fmt("front %zu of layer %d at %.10g cm, the layer is [%.10g, %.10g]", i + 1, l, f[i].depth, p.cum[l - 1], p.cum[l]));
    if (f[i].num != (int)i + 1) x.fail("number", w + fmt("front %zu numbered %d", i + 1, f[i].num));
    bool last_of_layer = i + 1 == n || f[i + 1].layer != l;
    if (i + 1 < n) {
      if (f[i + 1].layer != l && f[i + 1].layer != l + 1) x.fail("layer", w + fmt("front %zu in layer %d followed by layer %d", i + 1, l, f[i + 1].layer));
      if (f[i + 1].depth < f[i].depth - 1e-9) x.fail("order", w + fmt("front %zu at %.10g above front %zu at %.10g", i + 2, f[i + 1].depth, i + 1, f[i].depth));
      if (!last_of_layer && !(f[i].theta > f[i + 1].theta - 1e-12)) x.fail("dry-over-wet", w + fmt("front %zu (theta %.12g) drier than the soil below it (%.12g)", i + 1, f[i].theta, f[i + 1].theta));
    }
    if (last_of_layer && !close(f[i].depth, p.cum[l], 1e-9)) x.fail("bottom", w + fmt("deepest front of layer %d at %.10g, not at its bottom %.10g", l, f[i].depth, p.cum[l]));
    if (last_of_layer != f[i].bottom) x.fail("bottom", w + fmt("front %zu of layer %d: touches the layer bottom %d, marked %d", i + 1, l, last_of_layer, f[i].bottom));
    if (f[i].bottom && f[i].dzdt != 0) x.fail("bottom", w + fmt("front %zu at a layer bottom moves", i + 1));
  }
  if (f[0].layer != 1 || f[n - 1].layer != p.L) x.fail("layer", w + "layers without fronts");
  // what the BMI shows
  if (m.gi("soil_num_wetting_fronts") != (int)n) x.fail("bmi", w + fmt("soil_num_wetting_fronts %d, %zu fronts", m.gi("soil_num_wetting_fronts"), n));
  if (m.grid_size(3) != (int)n) x.fail("bmi", w + fmt("grid 3 has size %d, %zu fronts", m.grid_size(3), n));
  auto th = m.gv("soil_moisture_wetting_fronts"), z = m.gv("soil_depth_wetting_fronts"), zl = m.gv("soil_depth_layers");
  for (size_t i = 0; i < n; i++) if (th[i] != f[i].theta || !close(z[i] * 100, f[i].depth, 1e-9, 1e-12)) x.fail("bmi", w + fmt("front %zu is at %.10g cm with %.10g, the BMI arrays say %.10g and %.10g", i + 1, f[i].depth, f[i].theta, z[i] * 100, th[i]));
  for (int l = 1; l <= p.L; l++) if (!close(zl[l - 1] * 100, p.cum[l], 1e-9, 1e-12)) x.fail("bmi", w + fmt("soil_depth_layers[%d] = %.10g m for %.10g cm", l - 1, zl[l - 1], p.cum[l]));
  if (post) {   // storage recomputed from the published profile alone: between consecutive depths of a layer the soil holds theta of the front below it
    double S = 0, zprev = 0; int l = 1;
    for (size_t i = 0; i < n; i++) { double zz = z[i] * 100; S += (zz - zprev) * th[i]; zprev = zz; if (close(zz, p.cum[l], 1e-9) && l < p.L) l++; }
    double so = m.g("soil_storage") * 100;
    if (!close(S, so, 1e-8, 1e-10)) x.fail("storage", w + fmt("soil_storage %.10g cm, the published profile holds %.10g", so, S));
  }
}
static void c05_(const Case &c, Ctx &x) {
  Model m; m.must_init(x, put_case(c, x)); Par p = params(c);
  structure(c, x, m, p, m.snap().f, false, "after Initialize: ");
  size_t mx = 0; bool deep = false;
  drive(c, x, m, [&](const Step &s) {
    structure(c, x, m, p, s.b.f, true, at(s)); mx = std::max(mx, s.b.f.size());
    for (auto &f : s.b.f) if (f.layer > 1 && !f.bottom) deep = true;
    if (s.b.f.size() < s.a.f.size()) x.label("fronts merged or left"); if (s.b.f.size() > s.a.f.size()) x.label("front created");
  });
  if (deep) x.label("moving front below the first layer"); x.label(fmt("at most %zu moving fronts", mx - p.L));
  x.nontrivial = mx > (size_t)p.L;
}
static void c05(const Case &c, Ctx &x) { at_edges(c, x, c05_); }
static Case g05(Rng &g, long i) { GenOpt o; o.mindepth = 3; if (g.p(.4)) { o.maxdepth = 15; o.minL = 2; } Case c = gen_mix(g, i, o); if (c.soilclass < 2 && g.p(EDGE)) add_edge(g, c); return c; }
static const std::string rule05 = std::string(RULE_HIST) + "including thin layers (3-15 cm); 5 % of the cases bisect one input to a threshold and judge both sides and nearby; non-trivial: at least one moving wetting front formed";
static Reg r05({"C05", rule05.c_str(), g05, c05, 12000, 250000, false, false});

// ---------------------------------------------------------------- C06
static void c06_(const Case &c, Ctx &x) {
  Model m; m.must_init(x, put_case(c, x)); Par p = params(c);
  int runoff = 0, pondn = 0, aet = 0;
  drive(c, x, m, [&](const Step &s) {
    const Out &o = s.o; double tol = c.soilclass == 2 ? 1.05e-4 * s.n : 1e-6, t9 = 1e-9;
    bool full = saturated(p, s.S0) || saturated(p, s.S1); double relax = full ? 2e-3 * s.n : t9;
    if (!close(s.a.pond + o.P, o.I + o.R + s.b.pond, 1e-9)) x.fail("surface", at(s) + fmt("ponded %.12g + rain %.12g cm, but infiltration %.12g + runoff %.12g + ponded %.12g", s.a.pond, o.P, o.I, o.R, s.b.pond));
    if (!(std::fabs(s.S0 + o.I - o.AET - o.D - s.S1) <= tol)) x.fail("soil", at(s) + fmt("storage %.10g -> %.10g cm with infiltration %.10g, AET %.10g, percolation %.10g", s.S0, s.S1, o.I, o.AET, o.D));
    if (!close(o.P, c.P[s.t] * 0.1 * c.res / 3600, 1e-9, 1e-9)) x.fail("rain", at(s) + fmt("precipitation %.10g cm for %.10g mm/h", o.P, c.P[s.t]));
    if (!close(o.PET, c.E[s.t] * 0.1 * c.res / 3600, 1e-9, 1e-9)) x.fail("pet", at(s) + fmt("potential evapotranspiration %.10g cm for %.10g mm/h", o.PET, c.E[s.t]));
    if (!(o.AET >= -relax && o.AET <= o.PET + relax)) x.fail("aet", at(s) + fmt("AET %.6e cm outside [0, PET = %.6e]", o.AET, o.PET));
    if (o.PET == 0 && std::fabs(o.AET) > relax + (c.soilclass == 2 ? 1e-6 : 1e-7)) x.fail("aet", at(s) + fmt("AET %.6e cm without PET", o.AET));
    if (!(o.R >= 0)) x.fail("runoff", at(s) + fmt("runoff %.6e", o.R));
    if (!(o.I >= -t9 && o.I <= s.a.pond + o.P + t9)) x.fail("infiltration", at(s) + fmt("infiltration %.10g cm of %.10g available", o.I, s.a.pond + o.P));
    if (!(o.D >= -relax)) x.fail("percolation", at(s) + fmt("percolation %.6e cm", o.D));
    if (!(s.b.pond >= 0 && s.b.pond <= p.pondmax + t9)) x.fail("pond", at(s) + fmt("ponded depth %.10g cm, at most %.10g can pond", s.b.pond, p.pondmax));
    if (o.P == 0 && s.a.pond == 0 && (o.R > 0 || std::fabs(o.I) > t9 || s.b.pond > 0)) x.fail("dry", at(s) + fmt("no water at the surface, but infiltration %.6e, runoff %.6e, ponding %.6e", o.I, o.R, s.b.pond));
    if (s.n == 1 && o.R > 1e-9 && !close(s.b.pond, p.pondmax, 1e-9)) x.fail("runoff", at(s) + fmt("runoff %.6e cm although only %.6g of %.6g cm pond", o.R, s.b.pond, p.pondmax));
    if (o.R > 0) { runoff++; x.label("runoff"); } if (s.b.pond > 0) { pondn++; x.label("ponding"); } if (o.AET > 0) aet++; if (full) x.label("full profile"); if (s.b.pond > 0 && s.b.pond < p.pondmax - 1e-9) x.label("partly ponded");
  });
  x.nontrivial = runoff > 0 || pondn > 0 || aet > 3;
}
static void c06(const Case &c, Ctx &x) { at_edges(c, x, c06_); }
static Case g06(Rng &g, long i) { GenOpt o; o.ppond = .6; o.maxT = 80; Case c = gen_mix(g, i, o); if (g.p(.3)) c.dt = c.res; if (g.p(.3)) for (auto &q : c.P) if (q > 0) q *= 3; if (c.soilclass < 2 && g.p(EDGE)) add_edge(g, c); return c; }
static const std::string rule06 = std::string(RULE_HIST) + "with more ponding and single-substep updates; 5 % of the cases bisect one input to a threshold and judge both sides and nearby; non-trivial: runoff, ponding or more than three updates with AET";
static Reg r06({"C06", rule06.c_str(), g06, c06, 24000, 300000, false, false});

// ---------------------------------------------------------------- C12
static void hydraulics(const Case &c, Ctx &x, const Par &p, const std::vector<Front> &f, const std::string &w, bool pre) {
  for (size_t i = 0; i < f.size(); i++) {
    const SP &s = p.s[f[i].layer]; const Front &q = f[i];
    double th = theta(q.psi, s); double tol = 1e-7 + (q.psi < 2 ? 1e-5 : 0);
    if (!close(th, q.theta, tol)) x.fail("theta-psi", w + fmt("front %zu: theta %.10g and head %.10g cm, the retention curve gives %.10g", i + 1, q.theta, q.psi, th));
    if (i + 1 < f.size() || pre) {
      double k = K(std::min(1.0, std::max(0.0, se(q.theta, s))), s.Ks * p.ff[q.layer], s.m);
      if (!close(k, q.K, 1e-12, 1e-6)) x.fail("K", w + fmt("front %zu: conductivity %.10g cm/h at theta %.10g, expected %.10g", i + 1, q.K, q.theta, k));
    }
    // near saturation a head is known only as well as a water content (to 1e-12) tells it
    auto told = [&](const SP &t) { return std::max(q.psi, f[i + 1].psi) < 1 && close(theta(q.psi, t), theta(f[i + 1].psi, t), 1e-12); };
    if (i + 1 < f.size() && f[i + 1].layer != q.layer && !close(q.psi, f[i + 1].psi, 1e-4, q.psi > 1e5 ? 1e-3 : 1e-5) && !told(s) && !told(p.s[f[i + 1].layer])) x.fail("interface", w + fmt("head jumps from %.10g to %.10g cm across the bottom of layer %d", q.psi, f[i + 1].psi, q.layer));
  }
}
static void c12_(const Case &c, Ctx &x) {
  Model m; m.must_init(x, put_case(c, x)); Par p = params(c);
  auto f = m.snap().f; St s0 = initial(p, c.psi0);
  if (f.size() != (size_t)p.L) x.fail("initial", fmt("%zu fronts after Initialize, %d layers", f.size(), p.L));
  for (int l = 0; l < p.L; l++)
    if (!close(f[l].psi, c.psi0, 0, 1e-12) || !close(f[l].theta, s0.f[l].theta, 1e-10) || !close(f[l].depth, p.cum[l + 1], 1e-9) || !close(f[l].K, s0.f[l].K, 1e-15, 1e-9))
      x.fail("initial", fmt("layer %d starts with depth %.10g theta %.10g head %.10g K %.6g, expected %.10g %.10g %.10g %.6g", l + 1, f[l].depth, f[l].theta, f[l].psi, f[l].K, p.cum[l + 1], s0.f[l].theta, c.psi0, s0.f[l].K));
  hydraulics(c, x, p, f, "after Initialize: ", true);
  if (c.sft) { x.label("coupled, initial profile only"); x.nontrivial = true; return; }
  bool deep = false, moved = false;
  drive(c, x, m, [&](const Step &s) { hydraulics(c, x, p, s.b.f, at(s), false); if ((int)s.b.f.size() > p.L) moved = true; for (auto &q : s.b.f) if (q.layer > 1 && !q.bottom) deep = true; });
  if (deep) x.label("moving front below the first layer"); x.nontrivial = moved;
}
static void c12(const Case &c, Ctx &x) { at_edges(c, x, c12_); }
static Case g12(Rng &g, long i) { GenOpt o; o.maxT = 80; if (g.p(.5)) { o.maxdepth = 30; o.minL = 2; } Case c = gen_case(g, o); if (g.p(.02)) add_sft(g, c); else if (c.soilclass < 2 && g.p(EDGE)) add_edge(g, c); return c; }
static const std::string rule12 = std::string(RULE_HIST) + "5 % of the cases bisect one input to a threshold and judge both sides and nearby; non-trivial: a moving wetting front formed";
static Reg r12({"C12", rule12.c_str(), g12, c12, 12000, 250000, false, false});

// ---------------------------------------------------------------- C22
static void c22_(const Case &c, Ctx &x) {
  Model m; m.must_init(x, put_case(c, x)); Par p = params(c);
  int quiet = 0, T = c.T(); while (quiet < T && c.P[quiet] == 0 && c.E[quiet] == 0) quiet++;
  Snap s0 = m.snap(); bool drained = false;
  double e = 0;                                              // how well the water contents of the initial profile determine its head
  for (int l = 1; l <= p.L; l++) { double t = theta(c.psi0, p.s[l]), k = h(se(std::min(p.s[l].the, t + 4e-16), p.s[l]), p.s[l]); e = std::max(e, std::fabs(k - c.psi0) / std::max(c.psi0, 1e-12)); }
  auto slop = [&](const Front &f) { return 1e-9 + std::min(1.0, 8 * e * (c.T() + 1)) * (p.s[f.layer].the - f.theta); };
  drive(c, x, m, [&](const Step &s) {
    bool full = saturated(p, s.S0);
    if (s.t < quiet) {                                       // nothing has happened yet: the initial profile is at rest
      bool same = s.b.f.size() == s0.f.size();
      for (size_t i = 0; same && i < s0.f.size(); i++) same = close(s.b.f[i].depth, s0.f[i].depth, 1e-9) && std::fabs(s.b.f[i].theta - s0.f[i].theta) <= slop(s0.f[i]) && s.b.f[i].layer == s0.f[i].layer && s.b.f[i].bottom && s.b.f[i].dzdt == 0;
      if (!same) x.fail("rest", at(s) + "the initial profile changed without any forcing");
      if (std::fabs(s.o.I) > 1e-9 || s.o.R != 0 || std::fabs(s.o.AET) > 1e-9 || std::fabs(s.o.D) > 1e-9 || s.o.G != 0 || s.o.Q != 0 || s.b.pond != 0) x.fail("rest", at(s) + fmt("fluxes without any forcing: I %.3e R %.3e AET %.3e D %.3e G %.3e", s.o.I, s.o.R, s.o.AET, s.o.D, s.o.G));
    }
    if (c.P[s.t] == 0 && s.a.pond == 0) {
      double tol = c.soilclass == 2 ? 1.05e-4 * s.n : 1e-7;
      if (s.S1 > s.S0 + tol) x.fail("gain", at(s) + fmt("storage rose from %.10g to %.10g cm without water at the surface", s.S0, s.S1));
      double slack = full ? 2e-3 * s.n : 1e-9;
      if (s.S0 - s.S1 > std::max(0.0, s.o.AET) + std::max(0.0, s.o.D) + tol + slack) x.fail("loss", at(s) + fmt("storage fell by %.6e cm, percolation %.6e, AET %.6e", s.S0 - s.S1, s.o.D, s.o.AET));
      // a front deeper than the domain cannot be needed for percolation: without a moving front nothing leaves
      if ((int)s.a.f.size() == p.L && !full && std::fabs(s.o.D) > 1e-7) x.fail("percolation", at(s) + fmt("percolation %.6e cm without a moving wetting front", s.o.D));
      if (s.o.D > 0) drained = true;
      if (s.b.f.size() > s.a.f.size()) x.fail("create", at(s) + "a wetting front appeared without water at the surface");
      // fronts deepen, never rise (unless two merged)
      if (s.b.f.size() == s.a.f.size() && s.n == 1) for (size_t i = 0; i < s.a.f.size(); i++) if (s.b.f[i].depth < s.a.f[i].depth - 1e-7) x.fail("rise", at(s) + fmt("front %zu rose from %.10g to %.10g cm", i + 1, s.a.f[i].depth, s.b.f[i].depth));
    }
  });
  if (drained) x.label("drained"); if (quiet >= T) x.label("no forcing at all");
  x.nontrivial = T > quiet + 3 && sum(c.P) > 0;
}
static void c22(const Case &c, Ctx &x) { at_edges(c, x, c22_); }
static Case g22(Rng &g, long i) {
  GenOpt o; o.maxT = 60; Case c = gen_case(g, o); bool frost = g.p(.08); int q = g.i(0, 6);
  for (int k = 0; k < q; k++) { c.P.insert(c.P.begin(), 0.0); c.E.insert(c.E.begin(), 0.0); }
  if (g.p(.3)) { int n = g.i(10, 60); for (int k = 0; k < n; k++) { c.P.push_back(0); c.E.push_back(g.p(.5) ? 0 : g.r(0, 1)); } }
  if (g.p(.03)) { for (auto &v : c.P) v = 0; for (auto &v : c.E) v = 0; q = c.T(); }
  if (frost) add_sft(g, c);
  if (c.soilclass < 2 && g.p(EDGE)) add_edge(g, c); return c;
}
static const std::string rule22 = std::string(RULE_HIST) + "starting with 0-6 updates without forcing and often ending in a long dry spell; 5 % of the cases bisect one input to a threshold and judge both sides and nearby; non-trivial: it rained after the quiet start";
static Reg r22({"C22", rule22.c_str(), g22, c22, 24000, 250000, false, false});
