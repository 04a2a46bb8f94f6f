#include "common.hpp"
// HYDRUS-1D catalogue (data/vG_default_params_HYDRUS.dat): thr, the, alpha, n, Ks
const std::vector<Soil> CATALOGUE = {
  {0.045,0.43,0.145,2.68,29.7},{0.057,0.41,0.124,2.28,14.59},{0.065,0.41,0.075,1.89,4.42},{0.078,0.43,0.036,1.56,1.04},
  {0.034,0.46,0.016,1.37,0.25},{0.067,0.45,0.02,1.41,0.45},{0.1,0.39,0.059,1.48,1.31},{0.095,0.41,0.019,1.31,0.26},
  {0.089,0.43,0.01,1.23,0.07},{0.1,0.38,0.027,1.23,0.12},{0.07,0.36,0.005,1.09,0.02},{0.068,0.38,0.008,1.09,0.2}};

void gen_profile(Rng &g, Case &c, const GenOpt &o) {
  int L = g.i(o.minL, o.maxL); if (o.maxL >= 4 && g.p(.06)) L = g.i(5, 8);
  c.thick.clear(); c.soil.clear();
  double u = g.d();
  c.soilclass = o.soils == 0 ? 0 : o.soils == 1 ? (u < .6 ? 0 : 1) : u < .5 ? 0 : u < .75 ? 1 : 2;
  bool same = g.p(0.1);
  for (int l = 0; l < L; l++) {
    c.thick.push_back(g.p(.7) ? g.r(o.mindepth, o.maxdepth) : g.lg(std::min(3.0, o.mindepth), 200));
    Soil s = CATALOGUE[g.i(0, 11)];
    if (c.soilclass == 1) { s.thr *= g.r(.8, 1.2); s.the *= g.r(.85, 1.15); s.alpha *= g.lg(.7, 1.4); s.n = 1 + (s.n - 1) * g.r(.8, 1.25); s.Ks *= g.lg(.5, 2); }
    if (c.soilclass == 2) s = {g.r(.01, .15), g.r(.3, .8), g.lg(.001, .3), g.r(1.01, 3), g.lg(.001, 100)};
    if (same && l) s = c.soil[0];
    c.soil.push_back(s);
  }
  c.psi0 = g.p(o.pdrypsi) ? g.lg(300, 3000) : g.p(.95) ? g.lg(10, 300) : g.p(.5) ? g.lg(3000, 14000) : g.p(.5) ? g.r(0, 10) : g.lg(1e-2, 10);
}
void gen_options(Rng &g, Case &c, const GenOpt &o) {
  static const std::vector<double> dts{300, 300, 300, 600, 900, 1800, 3600}, oddres{300, 600, 900, 1800, 2700, 5400, 7200, 10800, 21600, 86400};
  c.dt = o.fixdt ? o.fixdt : g.pick(dts);
  c.res = o.fixres ? o.fixres : 3600;
  if (o.odd && !o.fixres && g.p(.3)) c.res = g.p(.3) ? 60.0 * g.i(5, 240) : g.pick(oddres);   // any number of minutes: not all are exact in hours
  if (o.odd && !o.fixdt && g.p(.15)) c.dt = g.pick(std::vector<double>{420, 1000, 2400, 7200, 250, 180, 60, 700});
  c.adaptive = g.p(o.padaptive);
  c.closedG = g.p(o.pclosed);
  c.pond = g.p(o.ppond) ? (g.p(.5) ? g.r(0.01, 1) : g.p(.15) ? g.lg(1e-7, .01) : g.r(0.5, 5)) : 0;
  c.fc = g.lg(10.3, 516);
  if (g.p(.2)) c.wp = g.r(8000, 20000);
  if (g.p(o.pgiuh)) {
    int n = g.p(.85) ? g.i(1, 8) : g.i(9, 40); c.giuh.clear(); bool holes = g.p(.15); double s = 0;
    for (int i = 0; i < n; i++) { c.giuh.push_back(holes && g.p(.4) && i + 1 < n ? 0 : g.r(.01, 1)); s += c.giuh.back(); }
    for (auto &q : c.giuh) q /= s;
  }
}
void gen_forcing(Rng &g, Case &c, const GenOpt &o) {
  int T = g.i(o.minT, o.maxT); if (o.maxT >= 20 && g.p(.01)) T = g.i(o.maxT, 10 * o.maxT);
  double Ks = c.soil[0].Ks * 10;                              // mm/h
  int kind = g.i(0, 5);
  bool showers = g.p(.06);                                    // short showers, each weaker than the one before: many wetting fronts at once
  bool rain = g.p(.3); double inten = 1, wet = g.r(.1, .7), petm = g.p(.15) ? 0 : g.lg(.02, 1.5);
  c.P.clear(); c.E.clear();
  for (int t = 0; t < T; t++) {
    double sw = kind == 0 ? .5 : kind == 1 ? .15 : kind == 2 ? .05 : .25;
    if (t == 0 || g.p(sw)) {
      rain = g.p(kind == 4 ? .25 : wet);
      double m = kind == 3 ? g.lg(.05, 3) : kind == 5 ? Ks * g.lg(.05, 20) : g.lg(.1, 80);
      inten = std::min(std::max(m, 0.01), 250.0);
    }
    if (showers) { rain = t % 2; inten = Ks * 0.8 * std::pow(0.8, t / 2 % 16); }
    c.P.push_back(rain ? (g.p(.5) ? inten : inten * g.r(.3, 1.7)) : 0);
    double hr = std::fmod(t * c.res / 3600, 24.0);
    double e = petm * std::max(0.0, std::sin((hr - 6) / 12 * M_PI));
    if (g.p(.05)) e = g.p(.97) ? g.r(0, 3) : g.lg(3, 30);
    if (kind == 4 && g.p(.3)) e = g.r(.2, 2);
    c.E.push_back(e);
  }
}
Case gen_case(Rng &g, const GenOpt &o) { Case c; gen_profile(g, c, o); gen_options(g, c, o); if (o.steps) gen_forcing(g, c, o); return c; }
// soil freeze-thaw: 1-3 temperature cells per layer, temperatures around freezing
void add_sft(Rng &g, Case &c) {
  c.sft = true; c.soilz.clear(); c.temp.clear(); double lo = 0;
  bool edge = g.p(.3);                                        // the last cell of a layer right at its bottom
  for (double t : c.thick) { int k = g.p(.9) ? g.i(1, 3) : g.i(4, 9); for (int i = 0; i < k; i++) c.soilz.push_back(edge && i + 1 == k ? lo + t : lo + t * (i + 1.0) / (k + 0.5)); lo += t; }
  if (g.p(.2)) for (int k = g.i(1, 3); k > 0; k--) c.soilz.push_back(lo += g.r(1, 50));   // cells below the column belong to no layer
  double base = g.r(272.7, 273.4), span = g.p(.5) ? .15 : .6;
  for (int t = 0; t < c.T(); t++) { std::vector<double> v; if (t == 0 || g.p(.4)) for (size_t i = 0; i < c.soilz.size(); i++) v.push_back(g.p(.02) ? g.r(235, 305) : base + g.r(-span, span)); c.temp.push_back(v); }
}
