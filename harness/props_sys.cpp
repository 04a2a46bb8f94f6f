// C19, C20, C23: memory safety over whole lifecycles, the standalone program, the framework (NGEN) build.
#include "drive.hpp"
#include <algorithm>
#include <cstring>
#include <csignal>
#include <fcntl.h>
#include <sstream>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace ref;
typedef std::vector<double> V;
extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));

static void clear_log() { for (int fd : {1, 2}) { fflush(stdout); if (ftruncate(fd, 0)) {} lseek(fd, 0, SEEK_SET); } }

// ---------------------------------------------------------------- C19
static const char *NAMES[] = {"soil_moisture_wetting_fronts", "soil_depth_layers", "soil_depth_wetting_fronts", "soil_num_wetting_fronts", "precipitation", "potential_evapotranspiration", "actual_evapotranspiration", "surface_runoff", "giuh_runoff", "soil_storage", "total_discharge", "infiltration", "percolation", "groundwater_to_stream_recharge", "mass_balance", "precipitation_rate", "potential_evapotranspiration_rate", "soil_temperature_profile", "smcmax", "smcmin", "van_genuchten_n", "van_genuchten_alpha", "hydraulic_conductivity", "field_capacity", "ponded_depth_max"};
static void poke(Model &m, Rng &g, const Case &c, bool sets) {    // random BMI traffic between updates
  for (int k = g.i(0, 4); k > 0; k--) {
    std::string n = NAMES[g.i(0, 24)]; V v = m.gv(n);
    if (v.empty()) continue;
    int i = g.i(0, (int)v.size() - 1); double d[2] = {0, 0};
    switch (g.i(0, 5)) {
      case 0: m.raw_get_at(n, d, &i, 1); break;
      case 1: m.var_nbytes(n); m.var_units(n); m.var_location(n); m.var_itemsize(n); break;
      case 2: for (int q = -1; q < 6; q++) { m.grid_size(q); m.grid_rank(q); } break;
      case 3: m.grid_shape(g.i(0, 4)); m.in_names(); m.out_names(); break;
      case 4: if (sets && n.compare(0, 3, "smc") == 0) m.setv(n, v); break;
      default: { std::string e = m.trap([&] { m.raw_ptr("no_such_variable"); }); (void)e; }
    }
  }
}
static int open_files() { int n = 0; for (int fd = 0; fd < 1024; fd++) if (fcntl(fd, F_GETFD) != -1) n++; return n; }
static std::string life(const Case &c, Ctx &x, Rng &g, int upto, const std::string &tag) {
  Model m; m.must_init(x, put_case(c, x, tag));
  if (c.calib) { for (const char *n : {"smcmax", "smcmin", "van_genuchten_n", "van_genuchten_alpha", "hydraulic_conductivity"}) { V v = m.gv(n); for (auto &q : v) q *= g.r(.98, 1.02); m.setv(n, v); } }
  for (int t = 0; t < upto; t++) { set_inputs(m, c, t); if (g.p(.3)) poke(m, g, c, true); m.must_update(x, t); if (g.p(.3)) { m.gv("soil_moisture_wetting_fronts"); m.gv("soil_depth_wetting_fronts"); } }
  std::string out; std::string r = m.finalize(&out); if (!r.empty()) x.fail("finalize", "Finalize did not return normally: " + r); return out;
}
static std::string mutate(std::string s, Rng &g, std::string *what) {
  std::vector<std::string> l; { std::istringstream in(s); std::string q; while (std::getline(in, q)) l.push_back(q); }
  static const std::vector<std::string> vals{"", "0", "-1", "1e400", "nan", "inf", "abc", "1,2,3,4,5,6,7,8", ",", ",,,", "1,,2", "-5,3", "1e-300", "99999999999999999999", "[cm]", "1[", "]1[", "true", "false", " ", "1;2", "0x10", "1.5.5"};
  for (int k = g.i(1, 3); k > 0 && !l.empty(); k--) {
    int i = g.i(0, (int)l.size() - 1); std::string &q = l[i]; size_t e = q.find('=');
    switch (g.i(0, 9)) {
      case 0: *what += " drop[" + q.substr(0, e) + "]"; l.erase(l.begin() + i); break;
      case 1: *what += " dup[" + q.substr(0, e) + "]"; l.insert(l.begin() + g.i(0, (int)l.size() - 1), std::string(q)); break;
      case 2: *what += " cut[" + q.substr(0, e) + "]"; q = q.substr(0, g.i(0, (int)q.size())); break;
      case 3: case 4: case 5: { std::string v = g.pick(vals); *what += " " + q.substr(0, e) + ":=" + v; q = (e == std::string::npos ? q : q.substr(0, e)) + "=" + v; break; }
      case 6: { *what += " bytes"; for (int n = g.i(1, 4); n > 0 && !q.empty(); n--) q[g.i(0, (int)q.size() - 1)] = (char)g.i(1, 255); break; }
      case 7: { *what += " join"; if (i + 1 < (int)l.size()) { q += l[i + 1]; l.erase(l.begin() + i + 1); } break; }
      case 8: *what += " long"; q += std::string(g.i(100, 5000), "a=,[ 1"[g.i(0, 5)]); break;
      default: *what += " list"; if (e != std::string::npos) q = q.substr(0, e + 1) + "1,2,3,4,5,6,7,8,9,10,11,12"; break;
    }
  }
  std::string o; for (auto &q : l) o += q + "\n"; if (g.p(.2) && !o.empty()) o.resize(g.i(0, (int)o.size() - 1)); return o;
}
static void c19(const Case &c, Ctx &x) {
  int mode = (int)c.a("mode"); Rng g((uint64_t)c.a("ops"));
  if (mode == 0) {                                                 // a whole lifecycle, or two at the same time
    life(c, x, g, c.T(), "a"); x.label("lifecycle"); x.nontrivial = sum(c.P) > 0 && c.T() >= 5;
  } else if (mode == 1) {                                          // repeated lifecycles do not accumulate memory
    if (!__sanitizer_get_current_allocated_bytes) { x.label("not instrumented"); return; }
    uint64_t s = g.u(); { Rng h(s); life(c, x, h, c.T(), "a"); } { Rng h(s); life(c, x, h, c.T(), "a"); }   // warm up
    int f0 = open_files(); long b0 = (long)__sanitizer_get_current_allocated_bytes(); for (int k = 0; k < 3; k++) { Rng h(s); life(c, x, h, c.T(), "a"); } long b1 = (long)__sanitizer_get_current_allocated_bytes();
    if (b1 - b0 >= 3 * 8) x.fail("leak", fmt("three more Initialize/Update x %d/Finalize lifecycles leave %ld bytes allocated", c.T(), b1 - b0));
    if (open_files() > f0) x.fail("files", fmt("three more lifecycles leave %d more files open", open_files() - f0));
    x.label("repeated lifecycles"); x.nontrivial = sum(c.P) > 0 && c.T() >= 3;
  } else if (mode == 4) {                                          // a temperature grid that leaves layers without cells: used or refused
    Model m; std::string r = m.init(put_case(c, x, "a")); int t = 0;
    for (; t < c.T() && r.empty(); t++) { set_inputs(m, c, t); r = m.update(); }
    if (r.compare(0, 4, "hang") == 0) x.fail("hang", "Update does not return for a temperature grid with an empty layer");
    if (r.empty()) { std::string out; m.finalize(&out); }
    x.label("sparse temperature grid"); x.label(r.empty() ? "accepted" : "refused"); x.nontrivial = true;
  } else {                                                         // damaged configuration or soil file: accepted or refused, nothing else
    std::string sf = x.dir + "/f.soil", cf = x.dir + "/f.cfg", what; std::string st = soil_text(c.soil), ct = config_text(c, sf);
    if (mode == 2) ct = mutate(ct, g, &what);
    else if (g.p(.25)) { size_t q = st.find("Soil1"); std::string n; for (int k = g.p(.7) ? g.i(20, 30) : g.i(1, 230); k > 0; k--) n += (char)g.i('a', 'z'); st.replace(q, 5, n); what = " long soil name"; if (g.p(.3)) st.erase(st.find('"', q), 1), st.erase(q - 1, 1); }
    else st = mutate(st, g, &what);
    write_file(sf, st); write_file(cf, ct);
    Model m; std::string r = m.init(cf);
    if (r.compare(0, 4, "hang") == 0) x.fail("hang", "Initialize does not return for a damaged " + std::string(mode == 2 ? "configuration" : "soil file") + ":" + what);
    if (r.empty()) { for (const char *n : NAMES) { V v; std::string e = m.getv(n, v); if (!e.empty() && e.compare(0, 10, "exception:") != 0) x.fail("get", std::string("GetValue(") + n + ") after a damaged file: " + e); } std::string out; m.finalize(&out); }
    x.label(mode == 2 ? "damaged configuration" : "damaged soil file"); x.label(r.empty() ? "accepted" : "refused"); x.nontrivial = !what.empty(); clear_log();
  }
}
static Case g19(Rng &g, long) {
  GenOpt o; int mode = g.p(.55) ? 0 : g.p(.3) ? 1 : g.p(.65) ? 2 : 3; o.maxT = mode == 0 ? 60 : 12; if (mode == 1 && g.p(.25)) o.minT = o.maxT = g.i(0, 1); o.soils = -1; if (g.p(.4)) { o.minL = 2; o.maxdepth = 20; o.mindepth = 3; }
  Case c = gen_case(g, o); if (g.p(.2)) add_sft(g, c); if (g.p(.2)) c.calib = true;
  if (g.p(.2)) c.auxs["verbosity"] = g.p(.5) ? "low" : "high";
  if (g.p(.04)) { mode = 4; c.calib = false; add_sft(g, c); int n = g.i(1, (int)c.soilz.size()); c.soilz.resize(n); for (auto &t : c.temp) if (!t.empty()) t.resize(n); if (g.p(.3)) for (auto &z : c.soilz) z += 1000; }
  if (!c.sft && g.p(.1)) c.aux["soilz"] = {1};
  c.aux["mode"] = {(double)mode}; c.aux["ops"] = {(double)(g.u() >> 20)}; c.aux["keeplayers"] = {1}; return c;
}
static Reg r19({"C19", "under AddressSanitizer and UndefinedBehaviorSanitizer: whole lifecycles with random BMI traffic between updates (all options, temperature coupling, calibration, verbosity), repeated lifecycles with allocation accounting, and damaged configuration or soil files (lines dropped, duplicated, cut, joined; values replaced; bytes flipped). Non-trivial: rain and at least 5 updates (3 for accounting), or a file that was damaged", g19, c19, 10000, 200000, true, false});

// ---------------------------------------------------------------- C20: the standalone program
static int run_exe(const std::string &exe, const std::string &dir, const std::string &cfg, std::string &out) {
  std::string of = dir + "/stdout"; unlink(of.c_str()); unlink((dir + "/data_variables.csv").c_str()); unlink((dir + "/data_layers.csv").c_str());
  pid_t k = fork();
  if (k == 0) {
    if (chdir(dir.c_str())) _exit(120);
    int fd = open(of.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(fd, 1); fd = open("/dev/null", O_WRONLY); dup2(fd, 2);
    alarm(60); execl(exe.c_str(), exe.c_str(), cfg.c_str(), (char *)nullptr); _exit(121);
  }
  int st = 0; waitpid(k, &st, 0); out = read_file(of); return WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
}
static std::vector<std::string> split(const std::string &s, char d) { std::vector<std::string> v; std::string q; std::istringstream in(s); while (std::getline(in, q, d)) v.push_back(q); return v; }
static void c20(const Case &c, Ctx &x) {
  if (x.exe.empty() || access(x.exe.c_str(), X_OK)) throw std::runtime_error("no standalone program");
  Rng g((uint64_t)c.a("file")); int mode = (int)c.a("mode"), rows = c.T(), n = (int)c.a("n"), extra = (int)c.a("cols");
  std::string dir = x.dir + "/run"; mkdir(dir.c_str(), 0700); Case d = c; d.endt = c.res * n + c.a("frac") * c.res; if (d.endt <= 0) d.endt = c.res;
  std::string ff = dir + "/forcing.csv"; d.auxs["forcing"] = ff; std::vector<std::string> tm;
  std::string f = "Time,P(mm/h),PET(mm/h)" + std::string(extra ? ",other" : "") + "\n";
  bool gaps = c.a("gaps") != 0, forms = c.a("forms") != 0;     // empty lines between the rows, other notations of the numbers
  auto val = [&](double v) { if (!forms) return num(v); std::string q = g.p(.5) ? fmt("%.17e", v) : num(v); return (g.p(.3) ? " " : "") + q + (g.p(.2) ? " " : ""); };
  int stamp = g.p(.6) ? 0 : g.i(1, 6);                          // also stamps that repeat (an hour twice in autumn, or dates only)
  for (int i = 0; i < rows; i++) { int mo = 1 + i / 672 % 12, da = 1 + i / 24 % 28, hr = i % 24; tm.push_back(stamp == 0 ? fmt("2016-%02d-%02d %02d:00:00", mo, da, hr) : stamp == 1 ? fmt("2016-%02d-%02dT%02d:00:00.000+00:00", mo, da, hr) : stamp == 2 ? fmt("t%d", i) : stamp == 3 ? fmt("%d", i) : stamp == 4 ? fmt("2016-%02d-%02d", mo, da) : stamp == 5 ? fmt("2016-%02d-%02d %02d:00:00", mo, da, hr ? hr - hr / 12 : 0) : fmt("Monday %02d.%02d.2016 at %02d:00 (local time)", da, mo, hr)); f += tm.back() + "," + val(c.P[i]) + "," + val(c.E[i]); for (int q = 0; q < extra; q++) f += "," + num(g.r(0, 9)); f += "\n"; if (gaps && g.p(.05)) f += "\n"; }
  if (g.p(.2)) f += "\n"; if (g.p(.2)) f.pop_back();
  if (mode == 3) d.auxs["forcing"] = dir + "/no-such-file.csv"; else write_file(ff, f);
  std::string cfg = put_case(d, x, "c"), out; if (mode == 4) { std::string t = read_file(cfg); size_t p = t.find("forcing_file"); t.erase(p, t.find('\n', p) - p + 1); write_file(cfg, t); }
  if (c.a("moved")) {                                              // the entry may stand anywhere, beside entries that resemble it
    auto l = split(read_file(cfg), '\n'); for (size_t i = l.size() - 1; i > 0; i--) std::swap(l[i], l[g.i(0, (int)i)]);
    for (const char *q : {"old_forcing_file=nowhere.csv", "forcing_file2=nowhere.csv", "forcing=nowhere.csv", "# forcing_file=nowhere.csv", ""}) if (g.p(.4)) l.insert(l.begin() + g.i(0, (int)l.size()), q);
    std::string t; for (auto &q : l) t += q + "\n"; write_file(cfg, t);
  }
  int rc = run_exe(x.exe, dir, cfg, out);
  if (mode >= 2) {                                                 // too few rows, no forcing file: must not end as if all went well
    if (rc == 0) x.fail("refuse", mode == 2 ? fmt("the program ended normally although %d updates were configured for %d forcing rows", n, rows) : "the program ended normally without forcing");
    x.label(mode == 2 ? "too few forcing rows" : "no forcing"); x.nontrivial = true; return;
  }
  if (rc != 0) x.fail("exit", fmt("the program ended with status %d", rc));
  Model m; m.must_init(x, cfg); auto vars = split(read_file(dir + "/data_variables.csv"), '\n'), lays = split(read_file(dir + "/data_layers.csv"), '\n');
  static const char *nm[] = {"precipitation", "potential_evapotranspiration", "actual_evapotranspiration", "surface_runoff", "giuh_runoff", "soil_storage", "total_discharge", "infiltration", "percolation", "groundwater_to_stream_recharge", "mass_balance"};
  if ((int)vars.size() != n + 1) x.fail("rows", fmt("data_variables.csv has %zu lines for %d updates", vars.size(), n));
  if ((int)lays.size() != 2 * n) x.fail("rows", fmt("data_layers.csv has %zu lines for %d updates", lays.size(), n));
  auto head = split(vars[0], ','); if (head.size() != 12 || head[0] != "Time") x.fail("header", "data_variables.csv starts with " + vars[0]);
  for (int j = 0; j < 11; j++) if (std::find(head.begin(), head.end(), nm[j]) == head.end()) x.fail("header", std::string("data_variables.csv has no column ") + nm[j]);
  for (int i = 0; i < n; i++) {
    m.set("precipitation_rate", c.P[i]); m.set("potential_evapotranspiration_rate", c.E[i]); m.must_update(x, i);
    auto v = split(vars[i + 1], ','); if (v.size() != 12) x.fail("row", "data_variables.csv: " + vars[i + 1]);
    if (v[0] != tm[i]) x.fail("time", fmt("row %d is stamped ", i) + v[0] + ", forcing row " + tm[i]);
    for (int j = 1; j < 12; j++) { double a = strtod(v[j].c_str(), nullptr), b = m.g(head[j]); if (!close(a, b, 1.1e-15, 1e-12)) x.fail("value", fmt("update %d: ", i) + head[j] + " = " + v[j] + " in data_variables.csv, the library gives " + num(b)); }
    if (lays[2 * i].find(fmt("Timestep = %d,", i)) == std::string::npos || lays[2 * i].find(tm[i]) == std::string::npos) x.fail("layers", "data_layers.csv: " + lays[2 * i] + " for update " + fmt("%d at ", i) + tm[i]);
    std::string s = lays[2 * i + 1]; if (s.size() < 2 || s[0] != '[' || s.back() != ']') x.fail("layers", "data_layers.csv: " + s);
    auto fr = split(s.substr(1, s.size() - 2), '|'); auto w = m.snap().f; if (fr.size() != w.size()) x.fail("layers", fmt("update %d: %zu wetting fronts in data_layers.csv, the library has %zu", i, fr.size(), w.size()));
    for (size_t k = 0; k < fr.size(); k++) {
      double z, th, psi; int l, fn; if (sscanf(fr[k].c_str(), "(%lf,%lf,%d,%d,%lf)", &z, &th, &l, &fn, &psi) != 5) x.fail("layers", "data_layers.csv: " + fr[k]);
      if (!close(z, w[k].depth * 10, 6e-7, 1e-9) || !close(th, w[k].theta, 6e-7) || l != w[k].layer || fn != w[k].num || !close(psi, w[k].psi * 10, 6e-7, 1e-9)) x.fail("layers", fmt("update %d: front %zu is ", i, k + 1) + fr[k] + fmt(" in data_layers.csv, the library has depth %.9g mm, theta %.9g, layer %d, head %.9g mm", w[k].depth * 10, w[k].theta, w[k].layer, w[k].psi * 10));
    }
  }
  std::string sum_; std::string r = m.finalize(&sum_); if (!r.empty()) x.fail("finalize", r);
  for (auto &l : split(sum_, '\n')) if (l.find('=') != std::string::npos && out.find(l) == std::string::npos) x.fail("summary", "the program did not print the summary line '" + l + "'");
  x.label(n < rows ? "more forcing rows than updates" : "exactly enough rows"); if (extra) x.label("extra forcing columns"); if (c.as("verbosity") != "") x.label("verbose"); clear_log();
  x.nontrivial = n >= 3 && sum(c.P) > 0;
}
static Case g20(Rng &g, long) {
  GenOpt o; o.minT = 3; o.maxT = 60; o.soils = 1; Case c = gen_case(g, o); c.adaptive = g.p(.3); int mode = g.p(.9) ? 0 : g.i(2, 4), n = g.p(.5) ? c.T() : g.i(1, c.T()); if (mode == 2) n = c.T() + g.i(1, 5);
  c.aux["mode"] = {(double)mode}; c.aux["n"] = {(double)n}; c.aux["frac"] = {g.p(.3) ? (g.p(.3) ? 1 - g.lg(1e-5, .1) : g.r(.001, .9)) : 0}; c.aux["cols"] = {(double)(g.p(.7) ? 0 : g.i(1, 4))}; c.aux["file"] = {(double)(g.u() >> 20)}; c.aux["fixed"] = {1}; if (g.p(.15)) c.auxs["verbosity"] = g.p(.5) ? "low" : "high";
  if (g.p(.1)) c.calib = true; else if (g.p(.05)) c.aux["notype"] = {(double)g.i(1, c.L())}; else if (g.p(.05)) add_sft(g, c);
  c.aux["keeplayers"] = {1}; c.aux["gaps"] = {(double)g.p(.1)}; c.aux["forms"] = {(double)g.p(.2)}; c.aux["moved"] = {(double)g.p(.3)};
  return c;
}
static Reg r20({"C20", "configuration and forcing file (several kinds of time stamps, extra columns, empty lines, several notations of numbers, the forcing entry anywhere in the configuration, blank or missing last line, more rows than needed, too few rows, no file) written to a scratch directory, the standalone program run there, and its two output files and printed summary compared with an in-process run of the library over the same forcing. Non-trivial: at least 3 updates with rain, or a forcing that must be refused", g20, c20, 8000, 100000, false, true});

// ---------------------------------------------------------------- C23: built for the framework
static void c23(const Case &c, Ctx &x) {
  if (!Model::ngen()) throw std::runtime_error("not the framework build");
  Case far = c; far.endt = 0; Model a(true), b(true); a.must_init(x, put_case(c, x, "a")); b.must_init(x, put_case(far, x, "b")); int past = 0;
  for (int t = 0; t < c.T(); t++) {
    set_inputs(a, c, t); set_inputs(b, c, t); double t0 = a.time(); a.must_update(x, t); b.must_update(x, t);
    if (!close(a.time(), t0 + c.res, 1e-6, 1e-11)) x.fail("time", fmt("update %d moved the time from %.10g to %.10g s (resolution %.10g, end time %.10g)", t, t0, a.time(), c.res, c.endt));
    Out p = outputs(a), q = outputs(b); const double *u = &p.P, *v = &q.P; for (int i = 0; i < 11; i++) if (u[i] != v[i]) x.fail("endtime", fmt("update %d: output %d is ", t, i) + num(u[i]) + fmt(" with end time %.6g s and ", c.endt) + num(v[i]) + " with a later one");
    for (const char *n : {"soil_moisture_wetting_fronts", "soil_depth_wetting_fronts"}) if (a.gv(n) != b.gv(n)) x.fail("endtime", fmt("update %d: ", t) + n + " depends on the end time");
    if (!close(p.P, c.P[t] * .1 * c.res / 3600, 1e-10, 1e-9) || !close(p.PET, c.E[t] * .1 * c.res / 3600, 1e-10, 1e-9)) x.fail("forcing", fmt("update %d: precipitation %.10g cm, PET %.10g cm", t, p.P, p.PET));
    if (a.time() > c.endt + 1e-6) past++;
  }
  std::string out, r = a.finalize(&out); if (!r.empty()) x.fail("finalize", r);
  if (past) x.label("updates beyond the end time"); x.nontrivial = past > 0 && sum(c.P) > 0;
}
static Case g23(Rng &g, long) { GenOpt o; o.maxT = 25; Case c = gen_case(g, o); if (g.p(.15)) add_sft(g, c); if (g.p(.1)) c.calib = true; c.endt = std::max(1.0, g.p(.5) ? c.res * g.i(1, c.T()) : g.r(.1, c.T()) * c.res); return c; }
static Reg r23({"C23", "the library compiled as for the framework, instances created through its factory; an end time anywhere in the history against a twin that ends far later, all outputs and profiles bit for bit. Non-trivial: rain and at least one update beyond the end time", g23, c23, 16000, 150000, false, false});
