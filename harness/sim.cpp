// The only file that includes the model's headers: wraps BmiLGAR, traps abort/exit/assert and CPU hangs.
#include LGAR_BMI_HEADER
#include "common.hpp"
#include <csetjmp>
#include <iostream>
#include <csignal>
#include <sys/time.h>
#include <unistd.h>

static sigjmp_buf jb;
static volatile sig_atomic_t armed = 0;
static char why[512];

extern "C" {
void __real_abort(void) __attribute__((noreturn));
void __real_exit(int) __attribute__((noreturn));
void __wrap_abort(void) { if (armed) { snprintf(why, sizeof why, "abort() called"); siglongjmp(jb, 1); } __real_abort(); }
void __wrap_exit(int c) { if (armed) { snprintf(why, sizeof why, "exit(%d) called", c); siglongjmp(jb, 1); } __real_exit(c); }
void __wrap___assert_fail(const char *e, const char *, unsigned, const char *fn) {
  if (armed) { snprintf(why, sizeof why, "assertion failed: %s in %.100s", e, fn); siglongjmp(jb, 1); }
  fprintf(stderr, "assert outside trap: %s\n", e); __real_abort();
}
}
static void on_alarm(int) { if (armed) { snprintf(why, sizeof why, "hang: no return within the CPU limit"); siglongjmp(jb, 1); } }
static int cpu_limit() {
  static int l = 0;
  if (!l) { const char *e = getenv("LGAR_CPU_LIMIT"); l = e ? atoi(e) : 30; }
  return l;
}

static BmiLGAR *B(void *p) { return (BmiLGAR *)p; }
extern "C" BmiLGAR *bmi_model_create() __attribute__((weak));
extern "C" void bmi_model_destroy(BmiLGAR *) __attribute__((weak));
bool Model::ngen() { return bmi_model_create && bmi_model_destroy; }
Model::Model(bool factory) : factory_(factory) { bmi_ = factory ? bmi_model_create() : new BmiLGAR(); }
Model::~Model() {
  if (inited && !done) { std::string dummy; finalize(&dummy); }
  if (!inited || done) { if (factory_ && bmi_) bmi_model_destroy(B(bmi_)); else delete B(bmi_); }
}
void *Model::bmi() { return bmi_; }

std::string Model::trap(const std::function<void()> &fn) {
  static bool handler = false;
  if (!handler) { signal(SIGVTALRM, on_alarm); handler = true; }
  if (armed) { fn(); return ""; }
  itimerval it = {{0, 0}, {cpu_limit(), 0}}, off = {{0, 0}, {0, 0}};
  setitimer(ITIMER_VIRTUAL, &it, nullptr);
  std::string r;
  if (sigsetjmp(jb, 1) == 0) {
    armed = 1;
    try { fn(); }
    catch (const Fail &) { armed = 0; setitimer(ITIMER_VIRTUAL, &off, nullptr); throw; }
    catch (const std::exception &e) { r = std::string("exception: ") + e.what(); }
    catch (...) { r = "exception: unknown"; }
    armed = 0;
  } else { armed = 0; r = why; done = false; inited = false; bmi_ = nullptr; }
  setitimer(ITIMER_VIRTUAL, &off, nullptr);
  return r;
}

std::string Model::init(const std::string &cfg) {
  std::string r = trap([&] { B(bmi_)->Initialize(cfg); });
  if (r.empty()) inited = true; else { bmi_ = nullptr; }
  return r;
}
std::string Model::update() { return trap([&] { B(bmi_)->Update(); }); }
std::string Model::until(double t) { return trap([&] { B(bmi_)->UpdateUntil(t); }); }
std::string Model::finalize(std::string *out) {
  fflush(stdout);
  off_t before = lseek(1, 0, SEEK_END);
  std::string r = trap([&] { B(bmi_)->Finalize(); });
  done = true;
  fflush(stdout); std::cout.flush();
  if (out && r.empty()) {
    off_t after = lseek(1, 0, SEEK_END);
    out->clear();
    if (after > before && before >= 0) { out->resize(after - before); ssize_t k = pread(1, &(*out)[0], after - before, before); if (k < 0) out->clear(); else out->resize(k); }
    if (after > (1 << 20)) { if (ftruncate(1, 0)) {} lseek(1, 0, SEEK_SET); }
  }
  return r;
}
void Model::must_init(Ctx &x, const std::string &cfg) { std::string r = init(cfg); if (!r.empty()) x.fail("init", "Initialize did not return normally: " + r); }
void Model::must_update(Ctx &x, int step) { std::string r = update(); if (!r.empty()) x.fail("update", fmt("Update %d did not return normally: ", step) + r); x.steps++; }

std::string Model::getv(const std::string &name, std::vector<double> &out) {
  return trap([&] {
    BmiLGAR *b = B(bmi_);
    b->GetValuePtr(name);                 // throws for unknown names
    int n = b->GetGridSize(b->GetVarGrid(name));
    out.clear();
    if (n < 0 || n > 100000) throw std::runtime_error("grid size");
    if (b->GetVarType(name) == "int") { std::vector<int> v(n + 1); b->GetValue(name, v.data()); out.assign(v.begin(), v.begin() + n); }
    else { out.resize(n); b->GetValue(name, out.data()); }
  });
}
std::vector<double> Model::gv(const std::string &name) { std::vector<double> v; std::string r = getv(name, v); if (!r.empty()) throw Fail("get", "GetValue(" + name + ") did not return normally: " + r); return v; }
double Model::g(const std::string &name) { auto v = gv(name); if (v.empty()) throw Fail("get", "GetValue(" + name + "): no value"); return v[0]; }
int Model::gi(const std::string &name) { return (int)g(name); }
void Model::set(const std::string &name, double v) { std::string r = trap([&] { B(bmi_)->SetValue(name, &v); }); if (!r.empty()) throw Fail("set", "SetValue(" + name + "): " + r); }
void Model::setv(const std::string &name, std::vector<double> v) { std::string r = trap([&] { B(bmi_)->SetValue(name, v.data()); }); if (!r.empty()) throw Fail("set", "SetValue(" + name + "): " + r); }
int Model::grid_size(int grid) { int n = -1; trap([&] { n = B(bmi_)->GetGridSize(grid); }); return n; }
double Model::time() { return B(bmi_)->GetCurrentTime(); }
double Model::time_step() { return B(bmi_)->GetTimeStep(); }
double Model::end_time() { return B(bmi_)->GetEndTime(); }

Snap Model::snap() {
  Snap s; auto *st = B(bmi_)->get_model();
  int guard = 0;
  for (auto *w = st->head; w; w = w->next) {
    s.f.push_back({w->depth_cm, w->theta, w->psi_cm, w->K_cm_per_h, w->dzdt_cm_per_h, w->layer_num, w->front_num, (bool)w->to_bottom});
    if (++guard > 100000) throw Fail("list", "the list of wetting fronts is not finite");
  }
  s.pond = st->lgar_mass_balance.volon_timestep_cm;
  s.time = st->lgar_bmi_params.time_s;
  return s;
}
Totals Model::totals() {
  auto &b = B(bmi_)->get_model()->lgar_mass_balance;
  return {b.volstart_cm, b.volend_cm, b.volprecip_cm, b.volin_cm, b.volon_cm, b.volrunoff_cm, b.volrunoff_giuh_cm, b.volrech_cm, b.volAET_cm, b.volPET_cm, b.volQ_cm, b.volQ_gw_cm, b.volchange_calib_cm};
}

Out outputs(Model &m) {
  return {m.g("precipitation") * 100, m.g("potential_evapotranspiration") * 100, m.g("actual_evapotranspiration") * 100, m.g("surface_runoff") * 100,
          m.g("giuh_runoff") * 100, m.g("soil_storage") * 100, m.g("total_discharge") * 100, m.g("infiltration") * 100, m.g("percolation") * 100,
          m.g("groundwater_to_stream_recharge") * 100, m.g("mass_balance") * 100};
}
double storage_cm(const std::vector<Front> &f, const std::vector<double> &cum) { return ref::mass(f, cum); }

int Model::var_grid(const std::string &n) { return B(bmi_)->GetVarGrid(n); }
std::string Model::var_type(const std::string &n) { return B(bmi_)->GetVarType(n); }
int Model::var_itemsize(const std::string &n) { return B(bmi_)->GetVarItemsize(n); }
std::string Model::var_units(const std::string &n) { return B(bmi_)->GetVarUnits(n); }
int Model::var_nbytes(const std::string &n) { return B(bmi_)->GetVarNbytes(n); }
std::string Model::var_location(const std::string &n) { return B(bmi_)->GetVarLocation(n); }
std::string Model::component() { return B(bmi_)->GetComponentName(); }
std::vector<std::string> Model::in_names() { return B(bmi_)->GetInputVarNames(); }
std::vector<std::string> Model::out_names() { return B(bmi_)->GetOutputVarNames(); }
int Model::in_count() { return B(bmi_)->GetInputItemCount(); }
int Model::out_count() { return B(bmi_)->GetOutputItemCount(); }
double Model::start_time() { return B(bmi_)->GetStartTime(); }
std::string Model::time_units() { return B(bmi_)->GetTimeUnits(); }
int Model::grid_rank(int g) { return B(bmi_)->GetGridRank(g); }
std::vector<int> Model::grid_shape(int g) { std::vector<int> v(8, -77); B(bmi_)->GetGridShape(g, v.data() + 2); return v; }
std::string Model::grid_type(int g) { return B(bmi_)->GetGridType(g); }
void Model::raw_get(const std::string &n, void *d) { B(bmi_)->GetValue(n, d); }
void Model::raw_set(const std::string &n, void *s) { B(bmi_)->SetValue(n, s); }
void *Model::raw_ptr(const std::string &n) { return B(bmi_)->GetValuePtr(n); }
void Model::raw_get_at(const std::string &n, void *d, int *i, int k) { B(bmi_)->GetValueAtIndices(n, d, i, k); }
void Model::raw_set_at(const std::string &n, int *i, int k, void *s) { B(bmi_)->SetValueAtIndices(n, i, k, s); }
int Model::not_implemented() {
  BmiLGAR *b = B(bmi_); double d[4] = {0}; int v[4] = {0}, n = 0;
  auto t = [&](auto f) { try { f(); } catch (const std::exception &) { n++; } };
  t([&] { b->GetGridX(0, d); }); t([&] { b->GetGridY(0, d); }); t([&] { b->GetGridZ(0, d); }); t([&] { b->GetGridNodeCount(0); }); t([&] { b->GetGridEdgeCount(0); });
  t([&] { b->GetGridFaceCount(0); }); t([&] { b->GetGridEdgeNodes(0, v); }); t([&] { b->GetGridFaceEdges(0, v); }); t([&] { b->GetGridFaceNodes(0, v); }); t([&] { b->GetGridNodesPerFace(0, v); });
  return n;
}
