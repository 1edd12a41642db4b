// Native side of the harness interface: reads assignments from a file and runs
// one entry per assignment, each in a child process.
//   usage: prog ENTRY FILE [timeout-seconds]
// FILE: blocks of "name value" lines, separated by lines "--".
// Prints one line per assignment: OK <checksum> | VIOL <label> | DIED <signal/status> | TIMEOUT | SKIP
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <string>
#include <vector>
#include <exception>
#include <thread>
#include <dlfcn.h>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>

static std::map<std::string, std::string> values;
static std::map<std::string, int> used;
static int outfd = 1;
static double checksum = 0, magnitude = 0;
static long observations = 0;

static std::string uniq(const char* n)
{
  int k = used[n]++;
  return k == 0 ? std::string(n) : std::string(n) + "#" + std::to_string(k);
}

static void finish(const std::string& s, int code)
{
  std::string t = s + "\n";
  if (write(outfd, t.data(), t.size()) < 0) _exit(99);
  _exit(code);
}

static void viol(const char* label) { finish(std::string("VIOL ") + label, 1); }

static const std::string* get(const char* n)
{
  auto it = values.find(uniq(n));
  return it == values.end() ? nullptr : &it->second;
}

extern "C" {
  long long vp_int(const char* n, long long lo, long long hi)
  {
    auto* v = get(n);
    if (!v) return lo;
    long long r = strtoll(v->c_str(), nullptr, 10);
    if (r < lo || r > hi) finish("SKIP range", 3);
    return r;
  }
  long long vp_choose(const char* n, long long lo, long long hi) { return vp_int(n, lo, hi); }
  unsigned long long vp_u64(const char* n) { auto* v = get(n); return v ? strtoull(v->c_str(), nullptr, 10) : 0; }
  double vp_real(const char* n, double lo, double hi)
  {
    auto* v = get(n);
    return v ? strtod(v->c_str(), nullptr) : (lo + hi) / 2;
  }
  long long vp_conc(long long v) { return v; }
  // real-valued assumptions may fail by rounding of the model values
  void vp_assume(bool c) { if (!c) finish("SKIP assume", 3); }
  void vp_assume_pos(double v) { if (!(v > 0)) finish("SKIP assume", 3); }
  void vp_assume_ge(double a, double b) { if (!(a >= b - 1e-12 * (1 + std::fabs(a) + std::fabs(b)))) finish("SKIP assume", 3); }
  void vp_check(bool c, const char* l) { if (!c) viol(l); }
  void vp_eqi(long long a, long long b, const char* l) { if (a != b) { viol(l); } }
  static void observe(double a) { if (std::isfinite(a)) { checksum += a; magnitude += std::fabs(a); ++observations; } }
  void vp_near(double a, double b, double tol, const char* l)
  {
    observe(a);
    double s = std::max(1.0, std::max(std::fabs(a), std::fabs(b)));
    if (!(std::fabs(a - b) <= tol * s)) viol(l);
  }
  void vp_eq(double a, double b, const char* l) { vp_near(a, b, 1e-7, l); }
  void vp_le(double a, double b, const char* l) { if (!(a <= b + 1e-7 * std::max(1.0, std::max(std::fabs(a), std::fabs(b))))) viol(l); }
  void vp_lt(double a, double b, const char* l) { if (!(a < b)) viol(l); }
  void vp_fail(const char* l) { viol(l); }
  void vp_reach(const char*) {}
  void vp_skip() { finish("SKIP", 3); }
  int vp_tier() { const char* t = getenv("VP_TIER"); return t ? atoi(t) : 0; }
  int vp_native() { return 1; }
  void vp_rounding(int) {}
  void vp_round(double a, double b, double tol, const char* l)
  {
    observe(a);
    if (!(std::fabs(a - b) <= tol)) viol((std::string("round-off: ") + l).c_str());
  }
  void vp_threads(void (*f)(void*), void* a, void (*g)(void*), void* b)
  {
    const char* e = getenv("VP_STAGGER");
    int s = e ? atoi(e) : 0;
    std::thread t([=] { if (s == 1) usleep(100000); f(a); });
    std::thread u([=] { if (s == 2) usleep(100000); g(b); });
    t.join();
    u.join();
  }
  void vp_note(const char* l, double v) { fprintf(stderr, "NOTE %s %.17g\n", l, v); }
}

int main(int argc, char** argv)
{
  if (argc < 3) return 2;
  std::string name = std::string("vpe_") + argv[1];
  auto f = (void (*)()) dlsym(RTLD_DEFAULT, name.c_str());
  if (!f) { fprintf(stderr, "no entry %s\n", argv[1]); return 2; }
  int timeout = argc > 3 ? atoi(argv[3]) : 20;
  std::vector<std::map<std::string, std::string>> sets(1);
  std::ifstream in(argv[2]);
  std::string line;
  bool any = false;
  while (std::getline(in, line)) {
    if (line == "--") { sets.emplace_back(); any = true; continue; }
    auto k = line.rfind(' ');
    if (k == std::string::npos) continue;
    sets.back()[line.substr(0, k)] = line.substr(k + 1);
  }
  if (any) sets.pop_back();
  int bad = 0;
  for (auto& s : sets) {
    int fd[2];
    if (pipe(fd)) return 2;
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
      close(fd[0]);
      outfd = fd[1];
      alarm(timeout);
      values = s;
      try { f(); }
      catch (const std::exception& e) { viol("uncaught exception"); }
      catch (...) { viol("uncaught exception"); }
      char buf[96];
      snprintf(buf, sizeof buf, "OK %.17g %.17g %ld", checksum, magnitude, observations);
      finish(buf, 0);
    }
    close(fd[1]);
    std::string out;
    char buf[512];
    ssize_t n;
    while ((n = read(fd[0], buf, sizeof buf)) > 0) out.append(buf, n);
    close(fd[0]);
    int st = 0;
    waitpid(p, &st, 0);
    if (WIFSIGNALED(st)) {
      if (WTERMSIG(st) == SIGALRM) out = "TIMEOUT\n";
      else out = "DIED signal " + std::to_string(WTERMSIG(st)) + "\n";
    }
    else if (out.empty()) out = "DIED status " + std::to_string(WEXITSTATUS(st)) + "\n";
    fputs(out.c_str(), stdout);
    if (out.compare(0, 2, "OK") != 0 && out.compare(0, 4, "SKIP") != 0) bad = 1;
  }
  fflush(stdout);
  return bad;
}
