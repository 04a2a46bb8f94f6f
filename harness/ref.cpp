// Reference model: LGAR as published/documented, written over arrays with closed-form / bisection solutions
// instead of the model's incremental searches. It also reports when a step sits so close to a decision threshold
// (merge or not, cross or not, ...) that both outcomes are legitimate ("amb"); such steps are not compared.
#include "common.hpp"

namespace ref {

SP make(const Soil &s) {
  SP o; o.thr = s.thr; o.the = s.the; o.a = s.alpha; o.n = s.n; o.m = 1 - 1 / s.n; o.Ks = s.Ks;
  double p = 1 + 2 / o.m;                                            // Brooks-Corey equivalents (Morel-Seytoux 1996)
  o.lam = 2 / (p - 3);
  o.psib = (p + 3) * (147.8 + 8.1 * p + 0.092 * p * p) / (2 * o.a * p * (p - 1) * (55.6 + 7.4 * p + p * p));
  return o;
}
double theta(double psi, const SP &s) { return 1 / std::pow(1 + std::pow(s.a * psi, s.n), s.m) * (s.the - s.thr) + s.thr; }
double se(double th, const SP &s) { return (th - s.thr) / (s.the - s.thr); }
double h(double Se, const SP &s) { return 1 / s.a * std::pow(std::pow(Se, -1 / s.m) - 1, 1 / s.n); }
static double se_h(double hh, const SP &s) { return std::fabs(hh) < 1e-10 ? 1.0 : 1 / std::pow(1 + std::pow(s.a * hh, s.n), s.m); }
double K(double Se, double Ks, double m) { return Ks * std::sqrt(Se) * std::pow(1 - std::pow(1 - std::pow(Se, 1 / m), m), 2); }

// capillary drive between a dry and a wet water content
double geff(bool closed, double td, double tw, const SP &s, double Ks, bool *amb) {
  if (closed) {
    double Sd = se(td, s), Sw = se(tw, s), e = 3 + 1 / s.lam, Hc = s.psib * ((2 + 3 * s.lam) / (1 + 3 * s.lam));
    double g = Hc * (std::pow(Sw, e) - std::pow(Sd, e)) / (1 - std::pow(Sd, e));
    if (std::isnan(g) || std::isinf(g)) g = Hc;
    return g;
  }
  double hi = h(se(td, s), s), hf = h(se(tw, s), s), dh = (hi - hf) / 120 * 0.01;
  double G = 0, K1 = K(se(td, s), Ks, s.m), h2 = hf + dh;
  while (h2 < hi) {
    double K2 = K(se_h(h2, s), Ks, s.m), q = (K1 - K2) / K2;
    if (amb && std::fabs(q - 0.02) < 1e-8) *amb = true;
    dh *= q > 0.02 ? 0.5 : 10.0;
    G += (K1 + K2) * dh / 2;
    K1 = K2; h2 += dh;
    if (amb && std::fabs(h2 - hi) < 1e-8 * (1 + hi)) *amb = true;
  }
  return std::fabs(G / Ks);
}
// the same integral by brute force (log-spaced trapezoids), to judge the quality of geff()
double geff_exact(double td, double tw, const SP &s) {
  double hi = h(se(td, s), s), hf = h(se(tw, s), s);
  if (!(hi > hf)) return 0;
  double lo = std::max(hf, 1e-9 * hi), G = (lo - hf) * K(se_h(lo, s), 1, s.m);
  int N = 20000; double r = std::pow(hi / lo, 1.0 / N), a = lo, Ka = K(se_h(a, s), 1, s.m);
  for (int i = 0; i < N; i++) { double b = a * r, Kb = K(se_h(b, s), 1, s.m); G += (Ka + Kb) / 2 * (b - a); a = b; Ka = Kb; }
  return G;
}
double frozen_factor(double T) { return std::max(std::min(std::exp(-10 * (273.15 - T)), 1.0), 0.05); }
double aet_fraction(double psi, const SP &s, double wp, double fc) {
  double t50 = (theta(fc, s) + theta(wp, s)) / 2, h50 = h(se(t50, s), s);
  return 1 / (1 + std::pow(psi / h50, 3));
}

Par params(const Case &c) {
  Par p; p.L = c.L(); p.cum.assign(1, 0.0); p.s.resize(1);
  for (int i = 0; i < p.L; i++) { p.cum.push_back(p.cum.back() + c.thick[i]); p.s.push_back(make(c.soil[i])); }
  p.ff.assign(p.L + 1, 1.0); p.wp = c.wp; p.fc = c.fc; p.pondmax = std::max(c.pond, 0.0); p.closed = c.closedG;
  return p;
}
St initial(const Par &p, double psi0) {
  St s;
  for (int l = 1; l <= p.L; l++) {
    double t = theta(psi0, p.s[l]);
    s.f.push_back({p.cum[l], t, psi0, K(se(t, p.s[l]), p.s[l].Ks * p.ff[l], p.s[l].m), 0, l, l, true});
  }
  return s;
}
double mass(const std::vector<Front> &f, const std::vector<double> &cum) {
  double m = 0;
  for (size_t i = 0; i < f.size(); i++) {
    if (f[i].layer < 1 || f[i].layer >= (int)cum.size()) return NAN;
    double b = f[i].theta - (i + 1 < f.size() && f[i + 1].layer == f[i].layer ? f[i + 1].theta : 0.0);
    m += (f[i].depth - cum[f[i].layer - 1]) * b;
  }
  return m;
}
double capacity(const Par &p) { double m = 0; for (int l = 1; l <= p.L; l++) m += p.s[l].the * (p.cum[l] - p.cum[l - 1]); return m; }

std::vector<double> giuh(const std::vector<double> &q, double res) {
  int n = (int)std::ceil(q.size() / res - 1e-8);
  std::vector<double> o(n, 0.0);
  for (int k = 0; k < n; k++)
    for (size_t i = 0; i < q.size(); i++) { double ov = std::min((k + 1) * res, i + 1.0) - std::max(k * res, (double)i); if (ov > 0) o[k] += q[i] * ov; }
  return o;
}

static const double DTOL = 1e-7;      // depths closer than this to a threshold: ambiguous
static void flag(Flux &fl, bool c, const char *w) { if (c) { fl.amb = true; if (fl.why.empty()) fl.why = w; } }
static void renum(std::vector<Front> &f) { for (size_t i = 0; i < f.size(); i++) f[i].num = (int)i + 1; }

static int supply(const std::vector<Front> &f) {   // index of the front that takes infiltration and AET: wettest at the surface
  int i = 0, n = f.size();
  while (i + 1 < n && f[i].layer != f[i + 1].layer) i++;
  return i;
}

static void merge(std::vector<Front> &f, const Par &p, Flux &fl) {
  for (size_t i = 0; i + 1 < f.size(); i++) {
    auto &c = f[i], &n = f[i + 1];
    if (c.layer != n.layer || n.bottom) continue;
    flag(fl, std::fabs(c.depth - n.depth) < DTOL + fl.zslop, "merge");
    if (!(c.depth > n.depth)) continue;
    double below = f[i + 2].theta;
    c.depth = (c.depth * (c.theta - n.theta) + n.depth * (n.theta - below)) / (c.theta - below);
    const SP &s = p.s[c.layer]; double Se = se(c.theta, s);
    c.psi = h(Se, s); c.K = K(Se, s.Ks * p.ff[c.layer], s.m);
    f.erase(f.begin() + i + 1); renum(f); fl.merged++;
    i = (size_t)-1;
  }
}

static void cross(std::vector<Front> &f, const Par &p, Flux &fl) {
  for (size_t i = 0; i + 1 < f.size(); i++) {
    auto &c = f[i], &n = f[i + 1]; int l = c.layer;
    if (l == p.L || std::fabs(n.depth - p.cum[l]) > 1e-9 || n.layer != l) continue;
    flag(fl, std::fabs(c.depth - p.cum[l]) < DTOL + fl.zslop && c.depth != p.cum[l], "cross");
    if (!(c.depth > p.cum[l])) continue;
    const SP &s = p.s[l], &sn = p.s[l + 1];
    double Se = se(c.theta, s); c.psi = h(Se, s); c.K = K(Se, s.Ks * p.ff[l], s.m);
    double tn = theta(c.psi, sn), over = (c.depth - n.depth) * (std::min(s.the, c.theta) - n.theta), dth = tn - f[i + 2].theta;
    flag(fl, std::fabs(dth) < 1e-6, "cross-dtheta");
    double z = over / dth; if (!std::isfinite(z) || z < 0) z = p.cum[l + 1] / 1e3;
    n.depth = p.cum[l] + z; n.theta = tn; n.psi = c.psi; n.layer = l + 1; n.dzdt = c.dzdt; n.bottom = false;
    c.depth = p.cum[l]; c.dzdt = 0; c.bottom = true; fl.crossed++;
  }
}

static void dry_over_wet(std::vector<Front> &f, const Par &p, double &change, Flux &fl) {
  for (size_t i = 0; i + 1 < f.size(); i++) flag(fl, f[i].layer == f[i + 1].layer && std::fabs(f[i].theta - f[i + 1].theta) < 1e-9, "dry-over-wet");
  bool any = false; for (size_t i = 0; i + 1 < f.size(); i++) if (f[i].layer == f[i + 1].layer && f[i].theta <= f[i + 1].theta) any = true;
  if (!any) return;
  fl.dow++;
  size_t i = 0;
  while (i + 1 < f.size()) {
    if (f[i].theta <= f[i + 1].theta && f[i].layer == f[i + 1].layer) {
      int l = f[i].layer; double before = mass(f, p.cum);
      f.erase(f.begin() + i); renum(f);
      if (l > 1) {
        auto &c = f[i]; c.psi = h(se(c.theta, p.s[c.layer]), p.s[c.layer]);
        size_t top = 0; for (size_t k = 0; k < f.size() && f[k].layer < l; k++) if (!f[k].bottom) top = k + 1;   // fronts above these hold water of their own
        for (size_t k = top; k < f.size() && f[k].layer < l; k++) { f[k].psi = c.psi; f[k].theta = theta(c.psi, p.s[f[k].layer]); }
      }
      change += std::fabs(mass(f, p.cum) - before);
    }
    i++;
  }
}

// head at which the water held between the surface and the front (relative to the profile below) equals `want`
static double solve(const Par &p, int l, double zl, const std::vector<double> &below, double want, bool &sat, Flux &fl) {
  auto m = [&](double psi) {
    double v = zl * (theta(psi, p.s[l]) - below[l]);
    for (int k = 1; k < l; k++) v += (p.cum[k] - p.cum[k - 1]) * (theta(psi, p.s[k]) - below[k]);
    return v;
  };
  sat = false;
  double m0 = m(0), scale = 1e-11;
  flag(fl, std::fabs(m0 - want) < 1e-9, "near-saturation-m");
  if (want >= m0 - scale) { sat = true; return 0; }
  double lo = 0, hi = 1;
  while (m(hi) > want) { lo = hi; hi *= 2; if (hi > 9e6) { flag(fl, true, "too dry"); return hi; } }
  for (int i = 0; i < 200 && hi - lo > 1e-14 * hi; i++) { double c = (lo + hi) / 2; (m(c) > want ? lo : hi) = c; }
  flag(fl, hi < 0.2, "near-saturation-psi");
  return (lo + hi) / 2;
}

static double move(std::vector<Front> &f, const Par &p, double water, int fd, double &AET, double dt, Flux &fl) {
  const std::vector<Front> old = f;
  const double old_mass = mass(f, p.cum);
  int n = f.size();
  double out = 0;
  for (int i = n - 1; i >= 0; i--) {
    auto &c = f[i]; int l = c.layer; const SP &s = p.s[l];
    bool last = i == n - 1;
    if (!last && f[i + 1].layer != l) { c.psi = f[i + 1].psi; c.theta = theta(c.psi, s); }
    else if (last && n == p.L) {
      c.depth += c.dzdt * dt;
      std::vector<double> below(l + 1, 0.0);
      double z = c.depth - p.cum[l - 1], want = (old[i].depth - p.cum[l - 1]) * old[i].theta;
      for (int k = 1; k < l; k++) want += (p.cum[k] - p.cum[k - 1]) * theta(old[i].psi, p.s[k]);
      if (fd == i) want += water - AET;
      bool sat; double psi = solve(p, l, z, below, want, sat, fl);
      if (sat) { fl.sat++; if (AET > 0) { fl.sataet++; if (p.satzero) AET = 0; } }
      c.theta = sat ? s.the : theta(psi, s); c.theta = std::max(s.thr, std::min(c.theta, s.the));
      c.psi = sat ? 0 : h(se(c.theta, s), s);
    }
    else if (!last) {
      if (l == 1) {
        double pm = old[i].depth * (old[i].theta - old[i + 1].theta);
        if (fd == i) pm += water - AET;
        c.depth = std::min(c.depth + c.dzdt * dt, p.cum[p.L]);
        if (!(c.dzdt == 0 && !c.bottom)) {
          double t = pm / c.depth + f[i + 1].theta;
          flag(fl, t < s.thr + 1e-12, "below residual");
          flag(fl, std::fabs(t - s.the) < 1e-13 && t != s.the, "near-saturation-t");
          if (t > s.the) fl.sat++;
          c.theta = std::max(s.thr, std::min(s.the, t));
        }
      } else {
        fl.deep++;
        c.depth += c.dzdt * dt;
        double psib = f[i + 1].psi, psio = old[i].psi, psibo = old[i + 1].psi;
        std::vector<double> below(l + 1, 0.0);
        double want = (old[i].depth - p.cum[l - 1]) * (old[i].theta - old[i + 1].theta);
        for (int k = 1; k < l; k++) { want += (p.cum[k] - p.cum[k - 1]) * (theta(psio, p.s[k]) - theta(psibo, p.s[k])); below[k] = theta(psib, p.s[k]); }
        below[l] = f[i + 1].theta;
        if (fd == i) want += water - AET;
        bool sat; double psi = solve(p, l, c.depth - p.cum[l - 1], below, want, sat, fl);
        if (sat) { fl.sat++; if (AET > 0) { fl.sataet++; if (p.satzero) AET = 0; } }
        c.theta = std::max(s.thr, std::min(sat ? s.the : theta(psi, s), s.the));
      }
      c.psi = h(se(c.theta, s), s);
    }
  }
  // water that did not fit under a saturated front deepens that front
  cross(f, p, fl);
  int k = supply(f);
  if (std::fabs(f[k].theta - p.s[f[k].layer].the) < 1e-15) {
    double want = old_mass + water - AET, have = mass(f, p.cum);
    if (std::fabs(want - have) > 2e-10) {
      if ((size_t)k + 1 >= f.size()) flag(fl, true, "full profile");
      else {
        double dth = f[k].theta - f[k + 1].theta;
        flag(fl, dth < 1e-4, "flat front");
        f[k].depth += (want - have) / dth; fl.adjusted++; fl.zslop = std::max(fl.zslop, 3e-10 / std::max(dth, 1e-9));   // the model finds that depth to 2e-10 cm of water
      }
    }
  } else flag(fl, std::fabs(f[k].theta - p.s[f[k].layer].the) < 1e-10, "near-saturation");

  double change = 0;
  dry_over_wet(f, p, change, fl); merge(f, p, fl);
  for (int l = 1; l <= p.L; l++) { cross(f, p, fl); dry_over_wet(f, p, change, fl); merge(f, p, fl); }
  for (;;) {                                                   // fronts reaching the bottom of the domain drain
    int m = f.size(); if (m < 2) break;
    auto &c = f[m - 2], &b = f[m - 1];
    if (c.layer != b.layer) break;
    flag(fl, std::fabs(c.depth - p.cum[p.L]) < DTOL + fl.zslop && (p.L > 1 || c.depth != p.cum[p.L] || fl.adjusted || fl.sat), "bottom");
    if (c.depth < p.cum[p.L]) break;
    out += (c.theta - b.theta) * (c.depth - b.depth);
    b.theta = c.theta; b.psi = h(se(c.theta, p.s[c.layer]), p.s[c.layer]); b.K = K(se(c.theta, p.s[c.layer]), p.s[c.layer].Ks * p.ff[c.layer], p.s[c.layer].m);
    f.erase(f.begin() + m - 2); renum(f); fl.bottom++;
  }
  dry_over_wet(f, p, change, fl);
  flag(fl, change > 5e-8 && change < 2e-7, "mass change");
  if (change > 1e-7) AET -= change;
  for (size_t i = 0; i + 1 < f.size(); i++) {
    const SP &s = p.s[f[i].layer]; if (p.jitter > 0 && !f[i].bottom && s.the - f[i].theta < 1e-12) f[i].theta = s.the - p.jitter;   // saturated but for rounding
    double Se = se(f[i].theta, s);
    if (f[i].psi > 1) f[i].psi = h(Se, s);
    f[i].K = K(Se, s.Ks * p.ff[f[i].layer], s.m);
  }
  if (f.size() == 1) f[0].depth = p.cum[1];
  return out;
}

void velocities(std::vector<Front> &f, const Par &p, double hp, Flux &fl) {
  for (size_t i = 0; i + 1 < f.size(); i++) {
    auto &c = f[i]; int l = c.layer; const SP &s = p.s[l]; double Ks = s.Ks * p.ff[l];
    if (c.bottom) { c.dzdt = 0; continue; }
    double dth = c.theta - f[i + 1].theta, G = geff(p.closed, f[i + 1].theta, c.theta, s, Ks, &fl.amb), v = 0;
    if (dth > 0) {
      if (l == 1) v = (Ks * (G + hp) / c.depth + c.K) / dth;
      else {
        double r = (c.depth - p.cum[l - 1]) / c.K;
        for (int k = 1; k < l; k++) { const SP &sk = p.s[k]; r += (p.cum[k] - p.cum[k - 1]) / K(se(theta(c.psi, sk), sk), sk.Ks * p.ff[k], sk.m); }
        v = (c.depth / r + Ks * (G + hp) / c.depth) / dth;
      }
    }
    if (v == 0) v = 1e-9;
    c.dzdt = std::min(v, 1e4);
  }
}

void substep(St &s, const Par &p, double Pr, double Er, double dt, Flux &fl) {
  auto &f = s.f;
  double rain = Pr * dt, pond0 = s.pond, surf = rain + pond0, PET = Er * dt, AET = 0, infil = 0, runoff = 0, perc = 0, pond1;
  flag(fl, pond0 != 0 && pond0 < 1e-11, "trace of ponding");
  const SP &s1 = p.s[f[0].layer];
  if (Er > 0) AET = PET * aet_fraction(f[0].psi, s1, p.wp, p.fc);
  int fd = supply(f);
  flag(fl, std::fabs(f[0].theta + 1e-12 - s1.the) < 1e-10 && f[0].theta != s1.the, "top near saturation");
  bool create = s.prevP == 0 && rain > 0 && !(f[0].theta + 1e-12 >= s1.the) && !(pond0 > 0);
  double hp = 0;
  if (create) {
    fl.created++;
    perc = move(f, p, 0, fd, AET, dt, fl);
    const SP &t = p.s[f[0].layer]; double Ks = t.Ks * p.ff[f[0].layer];
    double dth = t.the - f[0].theta, tau = dt * Ks / dth;
    double G = geff(p.closed, f[0].theta, t.the, t, Ks, &fl.amb);
    double dry = std::min(p.cum[f[0].layer], 0.5 * (tau + std::sqrt(tau * tau + 4 * tau * G)));
    const SP &u = p.s[1]; double room = dry * (u.the - f[0].theta);
    flag(fl, std::fabs(room - surf) < 1e-12, "dry depth");
    double tn;
    if (room > surf) { infil = surf; tn = std::min(f[0].theta + surf / dry, u.the); surf = 0; }
    else { infil = room; surf -= room; tn = u.the; }
    Front w{dry, tn, h(se(tn, u), u), K(se(tn, u), u.Ks * p.ff[1], u.m), 0, 1, 1, false};
    f.insert(f.begin(), w); renum(f);
    flag(fl, std::fabs(dry - f[1].depth) < DTOL + fl.zslop && dry != f[1].depth, "new front depth");
    if (f[0].depth > f[1].depth) { merge(f, p, fl); cross(f, p, fl); }
    if (surf < p.pondmax) { pond1 = surf; hp = 0; }
    else { runoff = surf - p.pondmax; pond1 = p.pondmax; hp = p.pondmax; }
  } else if (surf > 0) {
    auto &c = f[fd]; int l = c.layer; double Ks = p.s[l].Ks * p.ff[l], standing = std::max(surf - rain, 0.0);
    double G = (int)f.size() == p.L ? 0 : geff(p.closed, f[fd + 1].theta, p.s[l].the, p.s[l], Ks, &fl.amb), cap;
    if (l == 1) cap = Ks * (1 + (G + standing) / c.depth);
    else {
      double r = (c.depth - p.cum[l - 1]) / Ks;
      for (int k = 1; k < l; k++) r += (p.cum[k] - p.cum[k - 1]) / (p.s[k].Ks * p.ff[k]);
      cap = c.depth / r + (G + standing) * Ks / c.depth;
    }
    if (l == p.L && (int)f.size() == p.L) { flag(fl, std::fabs(c.theta - s1.the) < 1e-6, "full profile"); }
    double room = capacity(p) - mass(f, p.cum);
    flag(fl, room < 1e-6, "full profile");
    cap = std::min(cap, room / dt);
    infil = std::min(surf, cap * dt);
    double left = surf - infil;
    flag(fl, std::fabs(left) < 1e-13 && left != 0, "all infiltrates");
    runoff = std::max(left - p.pondmax, 0.0); pond1 = left - runoff; hp = pond1;
    perc = move(f, p, infil, fd, AET, dt, fl);
  } else {
    pond1 = 0;
    perc = move(f, p, 0, fd, AET, dt, fl);
  }
  velocities(f, p, hp, fl);
  s.pond = pond1; s.prevP = rain;
  fl.P += rain; fl.PET += PET; fl.AET += AET; fl.I += infil; fl.R += runoff; fl.D += perc;
}
} // namespace ref

double ref::rounding(const Case &c) {
  double worst = 0;
  for (int l = 1; l < c.L(); l++) for (int k = 0; k < l; k++) {
    SP lo = make(c.soil[l]), up = make(c.soil[k]);
    double psi = std::pow(1e-12 / ((lo.the - lo.thr) * lo.m), 1 / lo.n) / lo.a;
    worst = std::max(worst, c.thick[k] * (up.the - theta(psi, up)));
  }
  return worst;
}
