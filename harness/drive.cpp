#include "drive.hpp"

std::vector<double> cum_of(const Case &c) { std::vector<double> v(1, 0.0); for (double t : c.thick) v.push_back(v.back() + t); return v; }
double sum(const std::vector<double> &v) { double s = 0; for (double x : v) s += x; return s; }
void set_inputs(Model &m, const Case &c, int t) {
  m.set("precipitation_rate", c.P[t]); m.set("potential_evapotranspiration_rate", c.E[t]);
  if (c.sft && t < (int)c.temp.size() && !c.temp[t].empty()) m.setv("soil_temperature_profile", c.temp[t]);
}
void drive(const Case &c, Ctx &x, Model &m, const StepFn &fn) {
  auto cum = cum_of(c);
  Step s; s.b = m.snap(); s.S1 = ref::mass(s.b.f, cum); double prevP = 0;
  for (int t = 0; t < c.T(); t++) {
    set_inputs(m, c, t);
    s.t = t; s.a = s.b; s.S0 = s.S1; s.prevP = prevP;
    substeps(c, c.P[t], s.a.pond, s.dt_h, s.n);
    m.must_update(x, t);
    s.b = m.snap(); s.o = outputs(m); s.S1 = s.o.S;
    prevP = c.P[t] * 0.1 * s.dt_h;
    fn(s);
  }
}
OneStep predict(const Case &c, const ref::Par &p, const Step &s) {
  OneStep r; r.s.f = s.a.f; r.s.pond = s.a.pond; r.s.prevP = s.prevP;
  for (int i = 0; i < s.n; i++) ref::substep(r.s, p, c.P[s.t] * 0.1, c.E[s.t] * 0.1, s.dt_h, r.f);
  return r;
}
bool saturated(const ref::Par &p, double S) { return S >= 0.999 * ref::capacity(p); }
double mass_tol(const Case &c, int n) { return c.soilclass == 2 ? 1.05e-4 * n : 1e-6; }
void label_events(Ctx &x, const ref::Flux &f) {
  if (f.created) x.label("front created"); if (f.merged) x.label("fronts merged"); if (f.crossed) x.label("front crossed a layer boundary");
  if (f.bottom) x.label("front left at the bottom"); if (f.dow) x.label("dry over wet repaired"); if (f.adjusted) x.label("saturated front deepened"); if (f.deep) x.label("front inside a deeper layer");
}

static double &knob(Case &c, int which, size_t where) {
  switch (which) { case 0: return c.P[where % c.P.size()]; case 1: return c.E[where % c.E.size()]; case 2: return c.psi0; case 3: return c.thick[where % c.thick.size()]; default: return c.pond; }
}
static std::string happening(const Case &c, Ctx &x) {
  Model m; std::string r = m.init(put_case(c, x, "e")); if (!r.empty()) return "init";
  for (int t = 0; t < c.T(); t++) {
    set_inputs(m, c, t); if (!m.update().empty()) return r + "!";
    Snap s = m.snap(); Out o = outputs(m);
    for (auto &f : s.f) r += char('0' + f.layer);
    r += o.R > 0 ? 'R' : '-'; r += o.D > 0 ? 'D' : '-'; r += s.pond <= 0 ? '-' : s.pond >= c.pond ? 'F' : 'p'; r += ' ';
  }
  return r;
}
void at_edges(const Case &c, Ctx &x, void (*check)(const Case &, Ctx &), bool exact) {
  auto e = c.av("edge"); if (e.size() < 3) return check(c, x);
  int which = (int)e[0]; size_t where = (size_t)e[1]; Case lo = c, hi = c; lo.aux.erase("edge"); hi.aux.erase("edge"); knob(hi, which, where) = e[2];
  std::string a = happening(lo, x), b = happening(hi, x);
  if (a == b) { x.label("threshold: none between the two values"); return check(lo, x); }
  for (int i = 0; i < 120; i++) {
    double u = knob(lo, which, where), v = knob(hi, which, where), m = i < 8 && u > 0 && v > 0 ? std::sqrt(u * v) : u + (v - u) / 2;
    if (m == u || m == v) break;
    Case mid = lo; knob(mid, which, where) = m; if (happening(mid, x) == a) lo = mid; else hi = mid;
  }
  x.label("threshold found"); static const char *names[] = {"rain", "PET", "initial head", "layer thickness", "ponding depth"}; x.labels[std::string("threshold in ") + names[which]]++;
  bool nt = false; Case by = e.size() > 3 && e[3] < 0 ? lo : hi; std::vector<Case *> judged; if (exact) judged = {&lo, &hi};
  if (e.size() > 3) { double &k = knob(by, which, where), d = k * std::fabs(e[3]); k += (knob(hi, which, where) > knob(lo, which, where)) == (e[3] > 0) ? d : -d; judged.push_back(&by); }   // and a little beyond it
  for (Case *q : judged) {
    try { check(*q, x); } catch (const Fail &f) { throw Fail(f.tag, std::string(f.what()) + fmt(" [at or near a threshold: %s = %.17g]", names[which], knob(*q, which, where))); }
    nt = nt || x.nontrivial;
  }
  x.nontrivial = nt;
}
void add_edge(Rng &g, Case &c) {
  if (c.T() > 14) { int n = g.i(5, 14), a = g.i(0, c.T() - n); c.P = std::vector<double>(c.P.begin() + a, c.P.begin() + a + n); c.E = std::vector<double>(c.E.begin() + a, c.E.begin() + a + n); if (!c.temp.empty()) c.temp.resize(n); }
  int which = g.p(.6) ? 0 : g.i(1, 4); double o; size_t where = g.i(0, c.T() - 1);
  switch (which) { case 0: o = g.p(.5) ? c.P[where] * g.lg(.2, 5) + .01 : g.lg(.05, 100); break; case 1: o = g.lg(.01, 3); break; case 2: o = g.lg(5, 5000); break; case 3: o = c.thick[where % c.thick.size()] * g.lg(.3, 3); break; default: o = g.lg(.001, 3); }
  if (c.sft && which == 3) which = 2;
  c.aux["edge"] = {(double)which, (double)where, o, g.lg(1e-9, 1e-2) * (g.p(.5) ? 1 : -1)};
}
