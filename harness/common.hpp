// Shared types of the LGAR-C property-based test harness: generated cases, RNG, check context.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <functional>
#include <stdexcept>

struct Rng {                       // splitmix64; every random choice of a case comes from one of these
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed) {}
  uint64_t u() { s += 0x9e3779b97f4a7c15ULL; uint64_t z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
                 z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
  double d() { return (u() >> 11) * 0x1p-53; }
  double r(double a, double b) { return a + (b - a) * d(); }
  double lg(double a, double b) { return std::exp(r(std::log(a), std::log(b))); }
  int i(int a, int b) { return a + int(u() % (uint64_t)(b - a + 1)); }
  bool p(double x) { return d() < x; }
  template <class T> const T &pick(const std::vector<T> &v) { return v[u() % v.size()]; }
};

struct Soil { double thr, the, alpha, n, Ks; };

// One generated case: a model configuration, a forcing history and property-specific extras.
struct Case {
  std::string prop;
  std::vector<double> thick;              // layer thicknesses [cm]
  std::vector<Soil> soil;                 // soil of each layer
  double psi0 = 2000, dt = 300, res = 3600, endt = 0; // [cm], [s]; endt == 0: far beyond the history
  double wp = 15495, fc = 340.9, pond = 0;
  bool closedG = false, adaptive = false;
  std::vector<double> giuh{0.06, 0.51, 0.28, 0.12, 0.03};
  bool sft = false;
  std::vector<double> soilz;              // [cm]
  std::vector<std::vector<double>> temp;  // soil temperatures [K] per step (empty entry: keep)
  bool calib = false;
  std::vector<double> P, E;               // forcing [mm/h]
  int soilclass = 0;                      // 0 catalogue, 1 perturbed catalogue, 2 documented ranges
  std::map<std::string, std::vector<double>> aux;
  std::map<std::string, std::string> auxs;

  int L() const { return (int)thick.size(); }
  int T() const { return (int)P.size(); }
  double a(const std::string &k, double dflt = 0) const { auto it = aux.find(k); return it == aux.end() || it->second.empty() ? dflt : it->second[0]; }
  std::vector<double> av(const std::string &k) const { auto it = aux.find(k); return it == aux.end() ? std::vector<double>() : it->second; }
  std::string as(const std::string &k, const std::string &dflt = "") const { auto it = auxs.find(k); return it == auxs.end() ? dflt : it->second; }
  std::string text() const;
  static Case parse(const std::string &text);
  std::string brief() const;              // short description for evidence samples
};

struct Fail : std::runtime_error { std::string tag; Fail(const std::string &t, const std::string &m) : std::runtime_error(m), tag(t) {} };

std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
std::string num(double v);                // %.17g
void write_file(const std::string &path, const std::string &text);
std::string read_file(const std::string &path);

struct Ctx {
  std::string dir;                        // scratch directory of this worker
  std::string exe;                        // standalone executable (built from /repo), where needed
  bool thorough = false;
  bool nontrivial = false;
  long steps = 0;                         // model updates judged
  std::map<std::string, long> labels;
  void label(const std::string &l) { labels[l]++; }
  [[noreturn]] void fail(const std::string &tag, const std::string &msg) { throw Fail(tag, msg); }
};

// how a case is written down for the model
std::string soil_text(const std::vector<Soil> &soils);
std::string config_text(const Case &c, const std::string &soilfile);
std::string put_case(const Case &c, Ctx &x, const std::string &name = "c"); // writes files, returns config path

// ---------------------------------------------------------------- model under test (sim.cpp)
struct Front { double depth, theta, psi, K, dzdt; int layer, num; bool bottom; };
struct Snap {
  std::vector<Front> f;
  double pond = 0, time = 0;
};
struct Totals { double start, end, precip, in, on, runoff, giuh, rech, aet, pet, q, qgw, calib; };

class Model {
public:
  explicit Model(bool factory = false); ~Model();
  static bool ngen();                     // built for the framework: the factory exists
  Model(const Model &) = delete; Model &operator=(const Model &) = delete;
  // each returns "" or why the call did not return normally ("exception: ..", "abort", "exit", "assert ..", "hang")
  std::string init(const std::string &cfg);
  std::string update();
  std::string until(double t);
  std::string finalize(std::string *out = nullptr);
  void must_init(Ctx &, const std::string &cfg);
  void must_update(Ctx &, int step);
  std::string getv(const std::string &name, std::vector<double> &out);   // trapped; ints converted
  std::vector<double> gv(const std::string &name);
  double g(const std::string &name);
  int gi(const std::string &name);
  void set(const std::string &name, double v);
  void setv(const std::string &name, std::vector<double> v);
  std::string trap(const std::function<void()> &fn);   // run with abort/exit/assert/hang trapped
  Snap snap();
  Totals totals();
  int grid_size(int grid); double time(); double time_step(); double end_time();
  void *bmi();                            // BmiLGAR*
  // BMI metadata and raw access (any of them may throw what the model throws)
  int var_grid(const std::string &n); std::string var_type(const std::string &n); int var_itemsize(const std::string &n); std::string var_units(const std::string &n);
  int var_nbytes(const std::string &n); std::string var_location(const std::string &n); std::string component(); std::vector<std::string> in_names(), out_names(); int in_count(), out_count();
  double start_time(); std::string time_units(); int grid_rank(int g); std::vector<int> grid_shape(int g); std::string grid_type(int g);
  void raw_get(const std::string &n, void *d); void raw_set(const std::string &n, void *s); void *raw_ptr(const std::string &n);
  void raw_get_at(const std::string &n, void *d, int *i, int k); void raw_set_at(const std::string &n, int *i, int k, void *s);
  int not_implemented();                  // how many of the grid functions the model lacks threw as they should
  void *bmi_ = nullptr;
  bool inited = false, done = false, factory_ = false;
};
bool trap_hang_possible();

struct Out { double P, PET, AET, R, G, S, Q, I, D, GW, MB; };   // outputs of one update [cm]
Out outputs(Model &m);
double storage_cm(const std::vector<Front> &f, const std::vector<double> &cum);

// ---------------------------------------------------------------- reference model (ref.cpp)
namespace ref {
struct SP { double thr, the, a, n, m, Ks, lam, psib; };
SP make(const Soil &s);
double theta(double psi, const SP &s);
double se(double th, const SP &s);
double h(double Se, const SP &s);
double K(double Se, double Ks, double m);
double geff(bool closed, double th_dry, double th_wet, const SP &s, double Ks, bool *amb);
double geff_exact(double th_dry, double th_wet, const SP &s);
double frozen_factor(double Tavg);
double aet_fraction(double psi, const SP &s, double wp, double fc);
struct Par { int L; std::vector<double> cum; std::vector<SP> s; std::vector<double> ff; double wp, fc, pondmax; bool closed; bool satzero = false; double jitter = 0; };
struct St { std::vector<Front> f; double pond = 0, prevP = 0; };
struct Flux { double P = 0, PET = 0, AET = 0, I = 0, R = 0, D = 0; bool amb = false; std::string why; int created = 0, merged = 0, crossed = 0, bottom = 0, dow = 0, adjusted = 0, sat = 0, deep = 0, sataet = 0; double zslop = 0; };
Par params(const Case &c);
St initial(const Par &p, double psi0);
void substep(St &s, const Par &p, double Pr, double Er, double dt, Flux &fl); // rates cm/h, dt h
double mass(const std::vector<Front> &f, const std::vector<double> &cum);
double capacity(const Par &p);
double rounding(const Case &c);            // water [cm] a layer holds or loses when the head follows from a water content 1e-12 below saturation of a layer underneath
void velocities(std::vector<Front> &f, const Par &p, double hp, Flux &fl);   // dz/dt [cm/h] of every front from depths, theta, head and K
std::vector<double> giuh(const std::vector<double> &hourly, double res_h);
}
// substeps of one update, as documented: length [h] and count
void substeps(const Case &c, double P_mm_h, double pond_cm, double &dt_h, int &n);

// ---------------------------------------------------------------- generators (gen.cpp)
extern const std::vector<Soil> CATALOGUE;
struct GenOpt {
  int maxL = 4, minL = 1, minT = 5, maxT = 120; int soils = -1;   // soils: -1 mixed, 0 catalogue only, 1 catalogue or perturbed
  double ppond = 0.4, pclosed = 0.2, padaptive = 0.3; bool steps = true; double maxdepth = 100, mindepth = 5;
  int fixdt = 0, fixres = 0; bool odd = true;                      // odd: also steps that do not divide, other resolutions
  double pwet = 0.5; double pdrypsi = 0.5; double pgiuh = 0.5;
};
void gen_profile(Rng &g, Case &c, const GenOpt &o);
void gen_options(Rng &g, Case &c, const GenOpt &o);
void gen_forcing(Rng &g, Case &c, const GenOpt &o);
void add_sft(Rng &g, Case &c);
Case gen_case(Rng &g, const GenOpt &o);

// ---------------------------------------------------------------- properties
struct Prop {
  const char *id; const char *rule;
  Case (*gen)(Rng &, long idx);
  void (*check)(const Case &, Ctx &);
  long quick, thorough;
  bool asan;
  bool needs_exe;
};
std::vector<Prop> &registry();
struct Reg { Reg(const Prop &p) { registry().push_back(p); } };
