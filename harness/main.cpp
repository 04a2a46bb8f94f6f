// Runner: generates cases, judges them in forked workers, shrinks failures, replays them, writes evidence.
//   runner run <ID> --tier quick|thorough --seed N --evidence FILE --replays DIR --exe PATH --regress DIR
//   runner replay <FILE> [--exe PATH]
//   runner list
#include "common.hpp"
#include <algorithm>
#include <chrono>
#include <csignal>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

using Clock = std::chrono::steady_clock;
static double since(Clock::time_point t) { return std::chrono::duration<double>(Clock::now() - t).count(); }
static uint64_t hash_str(const std::string &s) { uint64_t h = 1469598103934665603ULL; for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; } return h; }
static std::string scratch;
static void rm_rf(const std::string &d) {
  if (d.compare(0, 5, "/tmp/") != 0) return;
  if (DIR *p = opendir(d.c_str())) {
    while (dirent *e = readdir(p)) {
      std::string n = e->d_name; if (n == "." || n == "..") continue;
      std::string f = d + "/" + n; struct stat st;
      if (lstat(f.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) rm_rf(f); else unlink(f.c_str());
    }
    closedir(p);
  }
  rmdir(d.c_str());
}
static std::string json(const std::string &s) {
  std::string o = "\"";
  for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32) o += ' '; else o += c; }
  return o + "\"";
}
static const Prop *find(const std::string &id) { for (auto &p : registry()) if (id == p.id) return &p; return nullptr; }
static Case make_case(const Prop &p, uint64_t seed, long idx) {
  Rng g(hash_str(fmt("%s/%llu/%ld", p.id, (unsigned long long)seed, idx)));
  g.u();
  Case c = p.gen(g, idx); c.prop = p.id; return c;
}

// outcome of one case, judged in this process
struct Res { int st = 0; std::string tag, msg; };          // 0 held, 1 failed, 2 harness trouble
static Res judge(const Prop &p, const Case &c, Ctx &x) {
  Res r;
  try { p.check(c, x); }
  catch (const Fail &f) {
    // known finding (known_findings.txt): near saturation, layers of very different retention curves amplify rounding beyond the 1e-4 cm at which the model stops itself
    if (f.tag == "update" && c.soilclass == 2 && std::string(f.what()).find("abort() called") != std::string::npos && ref::rounding(c) > 5e-5) { x.labels["# known finding: rounding amplified near saturation"]++; x.nontrivial = false; }
    else r = {1, f.tag, f.what()};
  }
  catch (const std::exception &e) { r = {2, "harness", e.what()}; }
  return r;
}
static void quiet(const std::string &dir, const std::string &name) {   // model output goes to files, never to ours
  int fd = open((dir + "/" + name + ".out").c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600); dup2(fd, 1); close(fd);
  fd = open((dir + "/" + name + ".err").c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600); dup2(fd, 2); close(fd);
}
static void core_off() { rlimit l = {0, 0}; setrlimit(RLIMIT_CORE, &l); }
// the same in a child, so that crashes are outcomes too
static Res judge_fork(const Prop &p, const Case &c, const std::string &exe, bool thorough) {
  static int n = 0; std::string d = scratch + fmt("/j%d", n++); mkdir(d.c_str(), 0700);
  pid_t k = fork();
  if (k == 0) {
    core_off(); quiet(d, "log"); alarm(240);
    Ctx x; x.dir = d; x.exe = exe; x.thorough = thorough;
    Res r = judge(p, c, x);
    write_file(d + "/result", fmt("%d\n", r.st) + r.tag + "\n" + r.msg);
    _exit(0);
  }
  int st = 0; waitpid(k, &st, 0);
  Res r;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
    std::istringstream in(read_file(d + "/result")); std::string l; std::getline(in, l); r.st = atoi(l.c_str()); std::getline(in, r.tag); std::getline(in, r.msg, '\0');
  } else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) r = {2, "timeout", "replay took too long"};
  else {
    std::string e = read_file(d + "/log.err"); size_t q = e.find("ERROR: AddressSanitizer"); if (q == std::string::npos) q = e.find("runtime error:");
    std::string ex = q == std::string::npos ? "" : e.substr(q > 120 ? q - 120 : 0, 500);
    r = {1, "crash", (WIFSIGNALED(st) ? fmt("the process died with signal %d ", WTERMSIG(st)) : fmt("the process ended with status %d ", WEXITSTATUS(st))) + ex};
  }
  rm_rf(d);
  return r;
}

// ------------------------------------------------------------------ shrinking
static double tidy(double v, int digits) { char b[40]; snprintf(b, sizeof b, "%.*g", digits, v); return strtod(b, nullptr); }
static Case shrink(const Prop &p, Case best, std::string tag, const std::string &exe, bool thorough, Res &last, int &tried) {
  auto t0 = Clock::now(); tried = 0;
  auto ok = [&](const Case &c) {
    if (tried >= 400 || since(t0) > 60) return false;
    if (c.text() == best.text()) return false;
    tried++;
    Res r = judge_fork(p, c, exe, thorough);
    if (r.st == 1 && r.tag == tag) { best = c; last = r; return true; }
    return false;
  };
  auto cut = [&](size_t a, size_t b) {
    Case c = best;
    c.P.erase(c.P.begin() + a, c.P.begin() + b); c.E.erase(c.E.begin() + a, c.E.begin() + b);
    if (a == 0 && b < c.temp.size() && c.temp[b].empty()) for (size_t i = b; i-- > 0;) if (!c.temp[i].empty()) { c.temp[b] = c.temp[i]; break; }   // temperatures are always set before the first update
    if (!c.temp.empty()) c.temp.erase(c.temp.begin() + std::min(a, c.temp.size()), c.temp.begin() + std::min(b, c.temp.size()));
    return c;
  };
  bool fixed = best.a("fixed") != 0;       // history length is tied to other parts of the case
  for (int round = 0; round < 3; round++) {
    std::string before = best.text();
    if (!fixed) {
      for (size_t n = best.P.size(); n > 1;) { size_t h = n / 2; if (ok(cut(h, best.P.size()))) n = best.P.size(); else { size_t lo = h, hi = best.P.size(); while (hi - lo > 1) { size_t m = (lo + hi) / 2; if (ok(cut(m, best.P.size()))) hi = best.P.size(); else lo = m; } break; } }
      for (size_t ch = std::max<size_t>(1, best.P.size() / 2); ch >= 1; ch /= 2) { for (size_t a = 0; a + ch <= best.P.size() && best.P.size() > 1;) if (!ok(cut(a, a + ch))) a += ch; if (ch == 1) break; }
    }
    auto opt = [&](std::function<void(Case &)> f) { Case c = best; f(c); ok(c); };
    opt([](Case &c) { c.adaptive = false; }); opt([](Case &c) { c.closedG = false; }); opt([](Case &c) { c.pond = 0; });
    opt([](Case &c) { c.giuh = {1.0}; }); opt([](Case &c) { c.dt = 300; c.res = 3600; }); opt([](Case &c) { c.dt = c.res; });
    opt([](Case &c) { c.wp = 15495; c.fc = 340.9; }); opt([](Case &c) { c.psi0 = 2000; }); opt([](Case &c) { c.psi0 = tidy(c.psi0, 2); });
    opt([](Case &c) { for (auto &e : c.E) e = 0; });
    if (!best.sft && !best.calib && !fixed && best.a("keeplayers") == 0)
      for (int l = best.L() - 1; l >= 0 && best.L() > 1; l--) { Case c = best; c.thick.erase(c.thick.begin() + l); c.soil.erase(c.soil.begin() + l); ok(c); }
    for (size_t i = 0; i < best.P.size(); i++) { Case c = best; c.P[i] = 0; ok(c); c = best; c.E[i] = 0; ok(c); }
    for (int dg = 1; dg <= 3; dg++) {
      if (!best.sft) opt([&](Case &c) { for (auto &v : c.thick) v = tidy(v, dg); });
      opt([&](Case &c) { for (auto &v : c.P) v = tidy(v, dg); for (auto &v : c.E) v = tidy(v, dg); });
      if (best.soilclass == 2) opt([&](Case &c) { for (auto &s : c.soil) s = {tidy(s.thr, dg), tidy(s.the, dg), tidy(s.alpha, dg), std::max(1.01, tidy(s.n, dg + 1)), tidy(s.Ks, dg)}; });
    }
    if (best.text() == before) break;
  }
  return best;
}

// ------------------------------------------------------------------ run
struct Shared { volatile long cur[64]; volatile int stop; };
static std::string opt_of(int argc, char **argv, const char *k, const char *d) { for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], k)) return argv[i + 1]; return d; }

static int report(const Prop &p, Case c, Res r, const std::string &exe, bool thorough, const std::string &dir) {
  // replay 3x before saying anything
  int again = 0; Res k = r;
  for (int i = 0; i < 3; i++) { Res q = judge_fork(p, c, exe, thorough); if (q.st == 1) { again++; k = q; } }
  if (again < 3) { fprintf(stderr, "%s: a failure did not replay (%d/3): %s\n", p.id, again, r.msg.c_str()); if (!again) return 0; }
  int tried = 0; Res last = k;
  Case m = shrink(p, c, k.tag, exe, thorough, last, tried);
  std::string text = m.text(), path = dir + "/" + p.id + fmt("-%016llx.case", (unsigned long long)hash_str(text));
  mkdir(dir.c_str(), 0755);
  std::string note = last.tag + ": " + last.msg; for (auto &ch : note) if (ch == '\n') ch = ' ';
  write_file(path, "# " + note + "\n# replay: ./check.sh replay " + path + "\n" + text);
  printf("%s\n", note.c_str());
  printf("shrunk with %d candidates to: %s\n", tried, m.brief().c_str());
  printf("VIOLATION property=%s replay=%s\n", p.id, path.c_str());
  fflush(stdout);
  return 1;
}

static int run(int argc, char **argv) {
  auto t0 = Clock::now();
  const Prop *p = find(argv[2]); if (!p) { fprintf(stderr, "unknown property %s\n", argv[2]); return 2; }
  std::string tier = opt_of(argc, argv, "--tier", "quick"), exe = opt_of(argc, argv, "--exe", ""), evidence = opt_of(argc, argv, "--evidence", ""),
              replays = opt_of(argc, argv, "--replays", "/tmp"), regress = opt_of(argc, argv, "--regress", "");
  uint64_t seed = strtoull(opt_of(argc, argv, "--seed", "1").c_str(), nullptr, 10);
  bool thorough = tier == "thorough";
  long N = thorough ? p->thorough : p->quick;
  N = atol(opt_of(argc, argv, "--cases", fmt("%ld", N).c_str()).c_str());
  double cap = thorough ? 7200 : 480;
  int W = (int)std::min<long>(std::max(1L, sysconf(_SC_NPROCESSORS_ONLN)), 8); W = atoi(opt_of(argc, argv, "--workers", fmt("%d", W).c_str()).c_str());
  bool keep = opt_of(argc, argv, "--keep-going", "") == "1";

  int violations = 0; long evals = 0, steps = 0; std::set<uint64_t> nontriv; std::map<std::string, long> labels; std::vector<std::string> samples; long trouble = 0; std::string troublemsg;
  std::vector<std::pair<Case, Res>> failures;

  // saved reproductions first
  long reg = 0;
  if (!regress.empty()) if (DIR *d = opendir(regress.c_str())) {
    std::vector<std::string> names; while (dirent *e = readdir(d)) { std::string n = e->d_name; if (n.size() > 5 && n.substr(n.size() - 5) == ".case") names.push_back(n); }
    closedir(d); std::sort(names.begin(), names.end());
    for (auto &n : names) { Case c = Case::parse(read_file(regress + "/" + n)); if (c.prop != p->id) continue; reg++; Res r = judge_fork(*p, c, exe, thorough); if (r.st == 1) failures.push_back({c, r}); if (r.st == 2) { trouble++; troublemsg = r.msg; } }
  }

  Shared *sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset((void *)sh, 0, sizeof *sh);
  std::vector<long> next(W); std::vector<pid_t> pid(W, 0); std::vector<int> gen(W, 0); int crashes = 0;
  auto start = [&](int w) {
    std::string d = scratch + fmt("/w%d_%d", w, gen[w]); mkdir(d.c_str(), 0700);
    sh->cur[w] = -1;
    fflush(stdout);
    pid_t k = fork();
    if (k) { pid[w] = k; return; }
    core_off(); quiet(d, "log");
    FILE *o = fopen((d + "/results").c_str(), "w");
    Ctx total; long ev = 0; int nsamp = 0; int fails = 0;
    for (long i = next[w]; i < N; i += W) {
      if (sh->stop || since(t0) > cap) break;
      sh->cur[w] = i;
      Case c = make_case(*p, seed, i);
      Ctx x; x.dir = d; x.exe = exe; x.thorough = thorough;
      Res r = judge(*p, c, x);
      ev++; total.steps += x.steps; for (auto &l : x.labels) total.labels[l.first] += l.first[0] == '#' ? l.second : 1;
      if (x.nontrivial) { fprintf(o, "H %llx\n", (unsigned long long)hash_str(c.text())); if (nsamp++ < 2) fprintf(o, "S #%ld %s\n", i, c.brief().c_str()); }
      if (r.st == 1) { fprintf(o, "F %ld %s|%s\n", i, r.tag.c_str(), r.msg.c_str()); fails++; if (!keep) sh->stop = 1; }
      if (r.st == 2) { fprintf(o, "T %ld %s\n", i, r.msg.c_str()); }
      if (ev % 64 == 0 || r.st) { fprintf(o, "E %ld %ld\n", ev, total.steps); fflush(o); }
    }
    fprintf(o, "E %ld %ld\n", ev, total.steps);
    for (auto &l : total.labels) fprintf(o, "L %ld %s\n", l.second, l.first.c_str());
    fclose(o);
    _exit(0);
  };
  for (int w = 0; w < W; w++) { next[w] = w; start(w); }
  int live = W;
  while (live) {
    int st; pid_t k = wait(&st); if (k < 0) break;
    int w = -1; for (int i = 0; i < W; i++) if (pid[i] == k) w = i;
    if (w < 0) continue;
    std::string d = scratch + fmt("/w%d_%d", w, gen[w]);
    std::istringstream in(read_file(d + "/results")); std::string l; long ev = 0, stp = 0;
    while (std::getline(in, l)) {
      if (l.size() < 2) continue;
      if (l[0] == 'H') nontriv.insert(strtoull(l.c_str() + 2, nullptr, 16));
      else if (l[0] == 'S') { if (samples.size() < 6) samples.push_back(l.substr(2)); }
      else if (l[0] == 'E') sscanf(l.c_str() + 2, "%ld %ld", &ev, &stp);
      else if (l[0] == 'L') { long n; int off; if (sscanf(l.c_str() + 2, "%ld %n", &n, &off) == 1) labels[l.substr(2 + off)] += n; }
      else if (l[0] == 'T') { trouble++; troublemsg = l; }
      else if (l[0] == 'F') { long i = atol(l.c_str() + 2); size_t sp = l.find(' ', 2), bar = l.find('|'); failures.push_back({make_case(*p, seed, i), {1, l.substr(sp + 1, bar - sp - 1), l.substr(bar + 1)}}); if (keep) printf("case %ld %s\n", i, l.c_str()); }
    }
    evals += ev; steps += stp;
    bool crashed = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
    if (crashed && sh->cur[w] >= 0) {
      long i = sh->cur[w]; evals++; crashes++;
      if (keep) printf("case %ld crash status %x\n", i, st);
      failures.push_back({make_case(*p, seed, i), {1, "crash", "the process died"}});
      if (keep && crashes < 200) { next[w] = i + W; gen[w]++; start(w); continue; }
      sh->stop = 1;
    }
    live--;
  }
  if (opt_of(argc, argv, "--fast", "") == "1") { if (!failures.empty()) { violations = 1; printf("VIOLATION property=%s %s: %s\n", p->id, failures[0].second.tag.c_str(), failures[0].second.msg.substr(0, 200).c_str()); } }   // development only: no replay, no shrinking
  else if (!keep) for (size_t i = 0; i < failures.size() && i < 3 && !violations; i++) violations += report(*p, failures[i].first, failures[i].second, exe, thorough, replays);
  else violations = failures.size();
  double wall = since(t0);
  std::string ev = "{\n  \"property\": " + json(p->id) + ",\n  \"tier\": " + json(tier) + fmt(",\n  \"seed\": %llu,\n  \"level\": \"exploration\",\n  \"coverage\": {\n    \"evaluations\": %ld,\n    \"distinct_nontrivial\": %zu,\n    \"rule\": ", (unsigned long long)seed, evals, nontriv.size()) + json(p->rule);
  ev += fmt(",\n    \"model_updates_judged\": %ld,\n    \"saved_reproductions_replayed\": %ld,\n    \"cases_planned\": %ld,\n    \"classes\": {", steps, reg, N);
  bool first = true; for (auto &l : labels) { ev += std::string(first ? "" : ", ") + json(l.first) + fmt(": %ld", l.second); first = false; }
  ev += "},\n    \"samples\": ["; first = true; for (auto &s : samples) { ev += std::string(first ? "" : ", ") + "\n      " + json(s); first = false; }
  ev += fmt("\n    ]\n  },\n  \"wall_s\": %.2f,\n  \"violations\": %d\n}\n", wall, violations);
  if (!evidence.empty()) write_file(evidence, ev);
  printf("%s %s seed=%llu: %ld cases, %zu distinct non-trivial, %ld updates judged, %d violation(s), %.1f s\n", p->id, tier.c_str(), (unsigned long long)seed, evals, nontriv.size(), steps, violations, wall);
  if (keep) for (auto &l : labels) printf("   %-40s %ld\n", l.first.c_str(), l.second);
  if (trouble) fprintf(stderr, "%s: %ld case(s) gave harness trouble, e.g. %s\n", p->id, trouble, troublemsg.c_str());
  if (violations) return 1;
  if (trouble > 0 && trouble * 10 > evals) return 2;
  return 0;
}

int main(int argc, char **argv) {
  if (argc >= 2 && !strcmp(argv[1], "list")) { for (auto &p : registry()) printf("%s %d %d\n", p.id, p.asan, p.needs_exe); return 0; }
  if (argc < 3) { fprintf(stderr, "usage: runner run <ID> .. | replay <FILE> | list\n"); return 2; }
  char t[] = "/tmp/lgarpbt.XXXXXX"; if (!mkdtemp(t)) { perror("mkdtemp"); return 2; } scratch = t;
  int rc = 2;
  if (!strcmp(argv[1], "run")) rc = run(argc, argv);
  else if (!strcmp(argv[1], "gen")) { const Prop *p = find(argv[2]); printf("%s", make_case(*p, atoi(argv[3]), atol(argv[4])).text().c_str()); rc = 0; }
  else if (!strcmp(argv[1], "replay")) {
    Case c = Case::parse(read_file(argv[2])); const Prop *p = find(c.prop);
    if (!p) fprintf(stderr, "replay file names no known property\n");
    else { Res r = judge_fork(*p, c, opt_of(argc, argv, "--exe", ""), false);
      if (r.st == 1) { printf("%s: %s\nVIOLATION property=%s replay=%s\n", r.tag.c_str(), r.msg.c_str(), p->id, argv[2]); rc = 1; }
      else if (r.st == 0) { printf("property %s holds on %s\n", p->id, argv[2]); rc = 0; } else fprintf(stderr, "%s\n", r.msg.c_str()); }
  }
  rm_rf(scratch);
  return rc;
}
