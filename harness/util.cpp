#include "common.hpp"
#include <cstdarg>
#include <fstream>
#include <sstream>

std::string fmt(const char *f, ...) { char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
std::string num(double v) { char b[64]; snprintf(b, sizeof b, "%.17g", v); return b; }
void write_file(const std::string &p, const std::string &t) { FILE *f = fopen(p.c_str(), "w"); if (!f) { perror(p.c_str()); _Exit(3); } fwrite(t.data(), 1, t.size(), f); fclose(f); }
std::string read_file(const std::string &p) { std::ifstream f(p); std::stringstream s; s << f.rdbuf(); return s.str(); }

static std::string join(const std::vector<double> &v, const char *sep = " ") { std::string s; for (size_t i = 0; i < v.size(); i++) s += (i ? sep : "") + num(v[i]); return s; }

std::string Case::text() const {
  std::string o = "prop " + prop + "\n";
  o += "thick " + join(thick) + "\n";
  for (auto &s : soil) o += "soil " + join({s.thr, s.the, s.alpha, s.n, s.Ks}) + "\n";
  o += "psi0 " + num(psi0) + "\ndt " + num(dt) + "\nres " + num(res) + "\nendt " + num(endt) + "\nwp " + num(wp) + "\nfc " + num(fc) + "\npond " + num(pond) + "\n";
  o += fmt("closedG %d\nadaptive %d\nsft %d\ncalib %d\nsoilclass %d\n", closedG, adaptive, sft, calib, soilclass);
  o += "giuh " + join(giuh) + "\n";
  if (!soilz.empty()) o += "soilz " + join(soilz) + "\n";
  for (size_t i = 0; i < P.size(); i++) {
    o += "step " + num(P[i]) + " " + num(E[i]);
    if (i < temp.size()) for (double t : temp[i]) o += " " + num(t);
    o += "\n";
  }
  for (auto &k : aux) o += "aux " + k.first + " " + join(k.second) + "\n";
  for (auto &k : auxs) o += "auxs " + k.first + " " + k.second + "\n";
  return o;
}

Case Case::parse(const std::string &t) {
  Case c; c.giuh.clear();
  std::istringstream in(t); std::string line;
  bool hastemp = false;
  while (std::getline(in, line)) {
    if (line.empty() || line[0] == '#') continue;
    std::istringstream l(line); std::string k; l >> k;
    if (k == "prop") { l >> c.prop; continue; }
    if (k == "auxs") { std::string n, v; l >> n; std::getline(l, v); if (!v.empty()) v.erase(0, 1); c.auxs[n] = v; continue; }
    std::string an; if (k == "aux") l >> an;
    std::vector<double> v; std::string w; while (l >> w) v.push_back(strtod(w.c_str(), nullptr));
    if (k == "thick") c.thick = v;
    else if (k == "soil") c.soil.push_back({v[0], v[1], v[2], v[3], v[4]});
    else if (k == "psi0") c.psi0 = v[0]; else if (k == "dt") c.dt = v[0]; else if (k == "res") c.res = v[0]; else if (k == "endt") c.endt = v[0];
    else if (k == "wp") c.wp = v[0]; else if (k == "fc") c.fc = v[0]; else if (k == "pond") c.pond = v[0];
    else if (k == "closedG") c.closedG = v[0]; else if (k == "adaptive") c.adaptive = v[0]; else if (k == "sft") c.sft = v[0]; else if (k == "calib") c.calib = v[0]; else if (k == "soilclass") c.soilclass = (int)v[0];
    else if (k == "giuh") c.giuh = v; else if (k == "soilz") c.soilz = v;
    else if (k == "step") { c.P.push_back(v[0]); c.E.push_back(v[1]); c.temp.push_back(std::vector<double>(v.begin() + 2, v.end())); if (v.size() > 2) hastemp = true; }
    else if (k == "aux") c.aux[an] = v;
  }
  if (!hastemp) c.temp.clear();
  return c;
}

std::string Case::brief() const {
  double pm = 0, ps = 0; for (double p : P) { pm = std::max(pm, p); ps += p; }
  double es = 0; for (double e : E) es += e;
  std::string o = fmt("layers=%d [", L());
  for (int i = 0; i < L(); i++) o += fmt("%s%.4gcm(thr=%.3g the=%.3g a=%.3g n=%.3g Ks=%.3g)", i ? "; " : "", thick[i], soil[i].thr, soil[i].the, soil[i].alpha, soil[i].n, soil[i].Ks);
  o += fmt("] psi0=%.4g dt=%.4gs res=%.4gs pondmax=%.3g fc=%.4g G=%s adaptive=%d giuh=%zu steps=%d maxP=%.3gmm/h sumP=%.4g sumPET=%.4g", psi0, dt, res, pond, fc, closedG ? "closed" : "numeric", adaptive, giuh.size(), T(), pm, ps, es);
  if (sft) o += fmt(" sft cells=%zu", soilz.size());
  if (calib) o += " calib";
  for (auto &k : aux) if (k.second.size() <= 8) o += " " + k.first + "=" + join(k.second, ",");
  for (auto &k : auxs) if (k.second.size() < 60) o += " " + k.first + "=" + k.second;
  return o;
}

std::string soil_text(const std::vector<Soil> &soils) {
  std::string o = "\"Texture\" \"theta_r\" \"theta_e\" \"alpha(cm^-1)\" \"n\" \"Ks(cm/h)\"\n";
  for (size_t i = 0; i < soils.size(); i++) { auto &s = soils[i]; o += fmt("\"Soil%zu\" ", i + 1) + join({s.thr, s.the, s.alpha, s.n, s.Ks}) + "\n"; }
  return o;
}

std::string config_text(const Case &c, const std::string &soilfile) {
  std::string o = "verbosity=" + c.as("verbosity", "none") + "\nforcing_file=" + c.as("forcing", "none.csv") + "\nsoil_params_file=" + soilfile + "\n";
  o += "layer_thickness=" + join(c.thick, ",") + "[cm]\ninitial_psi=" + num(c.psi0) + "[cm]\ntimestep=" + c.as("timestep", num(c.dt) + "[sec]") + "\n";
  o += "endtime=" + num(c.endt > 0 ? c.endt : 1e9) + "[sec]\nforcing_resolution=" + c.as("resolution", num(c.res) + "[sec]") + "\nlayer_soil_type=";
  for (int i = 0; i < c.L(); i++) o += fmt("%s%d", i ? "," : "", i + 1 == (int)c.a("notype") ? c.L() + 1 : i + 1);
  o += fmt("\nmax_valid_soil_types=%d\n", c.L());
  o += "wilting_point_psi=" + num(c.wp) + "[cm]\nfield_capacity_psi=" + num(c.fc) + "[cm]\ngiuh_ordinates=" + join(c.giuh, ",") + "\n";
  if (c.pond > 0) o += "ponded_depth_max=" + num(c.pond) + "[cm]\n";
  o += std::string("use_closed_form_G=") + (c.closedG ? "true" : "false") + "\n";
  if (c.adaptive) o += "adaptive_timestep=true\n";
  if (c.sft) o += "sft_coupled=true\nsoil_z=" + join(c.soilz, ",") + "[cm]\n";
  else if (c.a("soilz")) o += "sft_coupled=false\nsoil_z=5,10,25,60[cm]\n";   // the temperature grid without the coupling
  if (c.calib) o += "calib_params=true\n";
  return o;
}

std::string put_case(const Case &c, Ctx &x, const std::string &name) {
  std::string sf = x.dir + "/" + name + ".soil", cf = x.dir + "/" + name + ".cfg";
  write_file(sf, soil_text(c.soil));
  write_file(cf, config_text(c, sf));
  return cf;
}

void substeps(const Case &c, double P, double pond, double &dt_h, int &n) {
  double res = c.res / 3600, dt = c.dt / 3600;
  if (c.adaptive) {
    double d = res;
    if (P > 10.0 || pond > 0) d = dt; else if (P > 0) d = 2 * dt;
    dt = std::min(d, res);
  }
  n = (int)std::ceil(res / dt - 1e-8);
  dt_h = std::fabs(n * dt - res) > 1e-8 * res ? res / n : dt;
}

std::vector<Prop> &registry() { static std::vector<Prop> r; return r; }
