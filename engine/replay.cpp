// Native side of the harness interface: runs a harness of the real code (no instrumentation) on concrete input vectors.
// usage: replay HARNESS < vectors   (one vector per line, hexadecimal floats)   -> one result line per vector
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <algorithm>
#include <exception>
#include <sstream>
#include <iostream>
#include <sys/wait.h>
#include <unistd.h>
#include "ns.h"
struct Reg { std::string n; void (*f)(); };
static std::vector<Reg> &regs() { static std::vector<Reg> r; return r; }
extern "C" void ns_hook_register(const char *n, void (*f)()) { regs().push_back({n, f}); }
static std::vector<double> in; static size_t pos; static FILE *out;
[[noreturn]] static void finish(const char *kind, const char *msg) { fprintf(out, "END\t%s\t%s\n", kind, msg); fflush(out); _exit(0); }
static double next() { if (pos >= in.size()) finish("short", "more inputs needed"); return in[pos++]; }
extern "C" {
int ns_symbolic() { return 0; }
int ns_issym(double) { return 0; }
void ns_unsupported(const char *m) { finish("assume", m); }
double ns_real(const char *, double lo, double hi) { double v = next(); return std::min(std::max(v, lo), hi); }
double ns_grid(const char *n, double lo, double hi) { return ns_real(n, lo, hi); }
int ns_int(const char *, int lo, int hi) { int v = (int)std::lround(next()); return std::min(std::max(v, lo), hi); }
void ns_assume(int c) { if (!c) finish("assume", ""); }
void ns_flag(const char *, int) {}
void ns_reach(const char *) {}
void ns_observe(const char *n, double v) { fprintf(out, "OBS\t%s\t%a\n", n, v); }
void ns_check(int c, const char *m) { if (!c) finish("viol", m); }
static bool close_(double a, double b, double tol) { return std::fabs(a - b) <= tol * std::max(1.0, std::max(std::fabs(a), std::fabs(b))); }
void ns_check_eq(double a, double b, double tol, const char *m) { if (std::isnan(a) || std::isnan(b) || !(a == b || close_(a, b, tol))) { char s[512]; snprintf(s, 512, "%s (%.17g vs %.17g)", m, a, b); finish("viol", s); } }
void ns_check_le(double a, double b, double tol, const char *m) { if (!(a <= b || close_(a, b, tol))) { char s[512]; snprintf(s, 512, "%s (%.17g vs %.17g)", m, a, b); finish("viol", s); } }
void ns_must_eq0(double) {}
double ns_parse(const char *s, const char **end) { char *e; double v = strtod(s, &e); if (end) *end = e; return v; }
void __ns_violation(const char *m) { finish("viol", m); }
}
int main(int argc, char **argv) {
  if (argc > 1 && !strcmp(argv[1], "--list")) { for (auto &r : regs()) puts(r.n.c_str()); return 0; }
  void (*h)() = nullptr; for (auto &r : regs()) if (argc > 1 && r.n == argv[1]) h = r.f; if (!h) { fprintf(stderr, "no harness\n"); return 2; }
  int lim = argc > 2 ? atoi(argv[2]) : 20;
  std::string line; out = stdout;
  while (std::getline(std::cin, line)) {
    in.clear(); std::istringstream is(line); std::string w; while (is >> w) in.push_back(strtod(w.c_str(), 0));
    fflush(stdout); pid_t p = fork();
    if (!p) { alarm(lim); pos = 0; if (!getenv("NS_KEEPERR")) freopen("/dev/null", "w", stderr);
      try { h(); } catch (const std::exception &e) { finish("viol", (std::string("exception: ") + e.what()).c_str()); } catch (...) { finish("viol", "exception"); } finish("ok", ""); }
    int st = 0; waitpid(p, &st, 0);
    if (WIFSIGNALED(st)) printf("\nEND\t%s\tsignal %d\n", WTERMSIG(st) == SIGALRM ? "hang" : "crash", WTERMSIG(st)); else if (WEXITSTATUS(st)) printf("\nEND\tcrash\texit %d\n", WEXITSTATUS(st));
    fflush(stdout);
  }
}
