#include <ostream>
// Symbolic runtime: path exploration over NaN-boxed symbolic doubles, decided by Z3.
#include "term.h"
#include <z3++.h>
#include <csetjmp>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <time.h>
#include <unistd.h>
#include <optional>
#include <set>
#include <random>
#include <unordered_set>
#define API extern "C" __attribute__((visibility("default")))

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

// ------------------------------------------------------------------ configuration
static double OPT_TIME = 60; static int OPT_WORKERS = 8, OPT_SAMPLES = 40; static std::string OPT_HARNESS, OPT_OUT = "/dev/stdout";
static unsigned OPT_RLIMIT = 40000000; static int OPT_NLMS = 10000; static int OPT_MAXDEC = 200000; static int OPT_MAXVIOL = 12; static int OPT_VERBOSE = 0;

// ------------------------------------------------------------------ boxing
static const u64 BOXM = 0xFFFC000000000000ULL, BOXV = 0x7FFC000000000000ULL;
static inline u64 bits(double d) { u64 u; memcpy(&u, &d, 8); return u; }
static inline double frombits(u64 u) { double d; memcpy(&d, &u, 8); return d; }
static inline bool isSym(double d) { return (bits(d) & BOXM) == BOXV; }
static inline PolyId idOf(double d) { return (PolyId)(bits(d) & 0xFFFFFFFFULL); }

// ------------------------------------------------------------------ shared memory between workers
struct Shared {
  pthread_mutex_t mu; pthread_cond_t cv; volatile int idle, done, nq, total; volatile int stop;
  static const int QCAP = 256, PCAP = 6000; int qlen[QCAP]; struct E { u32 h; uint8_t o; } q[QCAP][PCAP];
  volatile long viol, paths;
};
static Shared *SH;

// ------------------------------------------------------------------ registries
struct HarnessReg { std::string n; void (*f)(); };
static std::vector<HarnessReg> &regs() { static std::vector<HarnessReg> r; return r; }
API void ns_hook_register(const char *n, void (*f)()) { regs().push_back({n, f}); }
struct GlobReg { char *p; size_t n; std::string name; };
static std::vector<GlobReg> &globs() { static std::vector<GlobReg> r; return r; }
API void __ns_globreg(void *p, i64 n, const char *name) { globs().push_back({(char *)p, (size_t)n, name}); }
struct CovReg { uint8_t *p; std::vector<std::string> names; };
static std::vector<CovReg> &covs() { static std::vector<CovReg> r; return r; }
API void __ns_covreg(uint8_t *p, const char *names, i64 n) {
  CovReg c; c.p = p; std::string s; for (const char *q = names; *q; ++q) { if (*q == '\n') { c.names.push_back(s); s.clear(); } else s.push_back(*q); }
  (void)n; covs().push_back(c);
}

// ------------------------------------------------------------------ arena
static char *AR = nullptr; static size_t ARN = (size_t)3 << 30; static size_t arp = 0, arhigh = 0; static volatile int in_path = 0; static volatile int in_engine = 0;
struct Eng { Eng() { ++in_engine; } ~Eng() { --in_engine; } };
static const u64 LIVE = 0xA11CA11CA11CA11CULL, DEAD = 0xDEADDEADDEADDEADULL;
struct Hdr { u64 magic, size; };
enum EndKind { E_OK, E_ASSUME, E_VIOL, E_UNSUP, E_LIMIT, E_STOP };
static sigjmp_buf path_jb; static EndKind path_end; 
[[noreturn]] static void endPath(EndKind k) { path_end = k; in_engine = 0; siglongjmp(path_jb, 1); }
[[noreturn]] static void violation(const std::string &msg);
static inline bool inArena(const void *p) { return (char *)p >= AR && (char *)p < AR + ARN; }
static void *aalloc(size_t n, size_t al) {
  if (!in_path || !AR) { void *p = nullptr; if (al <= 16) return ::malloc(n); if (posix_memalign(&p, al, n)) return nullptr; return p; }
  size_t q = (arp + sizeof(Hdr) + al - 1) & ~(al - 1);
  if (q + n + 64 > ARN) violation("memory exhausted (runaway allocation)");
  Hdr *h = (Hdr *)(AR + q - sizeof(Hdr)); h->magic = LIVE; h->size = n; arp = q + ((n + 15) & ~15ULL) + 16; if (arp > arhigh) arhigh = arp;
  memset(AR + q, 0xFF, n); return AR + q;
}
static void afree(void *p) {
  if (!p) return;
  if (!inArena(p)) { if (!in_path) ::free(p); else ::free(p); return; }
  Hdr *h = (Hdr *)((char *)p - sizeof(Hdr));
  if (h->magic == DEAD) violation("double free");
  if (h->magic != LIVE) violation("free of an invalid pointer");
  h->magic = DEAD; memset(p, 0xFD, h->size);
}
API void *__ns_malloc(size_t n) { return aalloc(n, 16); }
API void *__ns_malloc_nothrow(size_t n, const void *) { return aalloc(n, 16); }
API void *__ns_memalign_sz(size_t n, size_t al) { return aalloc(n, al < 16 ? 16 : al); }
API void *__ns_aligned_alloc(size_t al, size_t n) { return aalloc(n, al < 16 ? 16 : al); }
API int __ns_posix_memalign(void **p, size_t al, size_t n) { *p = aalloc(n, al < 16 ? 16 : al); return 0; }
API void *__ns_calloc(size_t a, size_t b) { void *p = aalloc(a * b, 16); memset(p, 0, a * b); return p; }
API void __ns_free(void *p) { afree(p); }
API void __ns_free_nothrow(void *p, const void *) { afree(p); }
API void __ns_free2(void *p, size_t) { afree(p); }
API void __ns_free3(void *p, size_t, size_t) { afree(p); }
API void *__ns_realloc(void *p, size_t n) {
  if (!p) return aalloc(n, 16); if (!inArena(p)) return ::realloc(p, n);
  Hdr *h = (Hdr *)((char *)p - sizeof(Hdr)); void *q = aalloc(n, 16); memcpy(q, p, std::min((size_t)h->size, n)); afree(p); return q;
}
API int __ns_atexit(void (*)(void *), void *, void *) { return 0; }
#define DELOP __attribute__((visibility("default")))
DELOP void operator delete(void *p) noexcept { if (!inArena(p)) ::free(p); }
DELOP void operator delete[](void *p) noexcept { if (!inArena(p)) ::free(p); }
DELOP void operator delete(void *p, size_t) noexcept { if (!inArena(p)) ::free(p); }
DELOP void operator delete[](void *p, size_t) noexcept { if (!inArena(p)) ::free(p); }

// ------------------------------------------------------------------ state
static Terms T;
static bool f_itemin = false, f_havoc = false;
struct Dec { uint8_t out; bool alt; u32 h; bool asserted; };
static std::vector<Dec> decs; static size_t pos = 0;
struct Con { PolyId p; int m; };
static std::vector<Con> cons;                   // constraints of the current path
static std::unordered_map<PolyId, int> known;   // sign knowledge on canonical polynomials
static std::unordered_map<AtomId, Itv> refined; // path bounds of atoms
struct Input { std::string name; AtomId a; double lo, hi; bool grid; bool isint; };
static std::vector<Input> inputs;
struct Obs { std::string name; double v; };
static std::vector<Obs> obs;
static std::set<std::string> reached;
static long n_checks_path = 0;

// statistics of this worker
struct Stats {
  double paths = 0, ok = 0, pruned = 0, viol = 0, unsup = 0, limit = 0, branches = 0, forced = 0, q_lin = 0, q_nl = 0, unknown = 0, q_sat = 0, q_unsat = 0,
      t_lin = 0, t_nl = 0, chk = 0, chk_norm = 0, chk_solver = 0, chk_conc = 0, chk_unknown = 0, havoc = 0, maxdepth = 0, incomplete = 0, checked_paths = 0, assume_false = 0;
} ST;
static std::map<std::string, long> chkcount; static std::map<std::string, long> reachcount;
static std::set<std::string> notes;
static FILE *out; static u64 path_no = 0; static int wid = 0; static double t_start;
static std::map<std::string, int> violcount;

static void note(const std::string &s) { if (notes.size() < 50) notes.insert(s); }

static double box(PolyId p) {
  if (T.isConst(p)) return T.constOf(p).toDouble();
  return frombits(BOXV | p);
}
static PolyId polyOf(double d) { return isSym(d) ? idOf(d) : T.cst(Rat::fromDouble(d)); }

// ------------------------------------------------------------------ intervals
static std::unordered_map<PolyId, Itv> ivcache;
static Itv polyItv(PolyId p);
static Itv atomItv(AtomId a) {
  auto &A = T.atoms[a]; Itv r{A.lo, A.hi};
  switch (A.k) {
    case A_SQRT: { Itv q = polyItv(A.a); r.lo = q.lo > 0 ? dn(std::sqrt(q.lo)) : 0; r.hi = q.hi < INFINITY ? up(std::sqrt(std::max(0.0, q.hi))) : INFINITY; break; }
    case A_ITE: { Itv x = polyItv(A.a), y = polyItv(A.b); r = {std::min(x.lo, y.lo), std::max(x.hi, y.hi)}; break; }
    case A_INV: { Itv q = polyItv(A.a); if (q.lo > 0) r = {q.hi < INFINITY ? dn(1 / q.hi) : 0, up(1 / q.lo)}; else if (q.hi < 0) r = {dn(1 / q.hi), q.lo > -INFINITY ? up(1 / q.lo) : 0}; break; }
    case A_EXP: { Itv q = polyItv(A.a); r.lo = q.lo > -700 ? std::max(0.0, std::exp(q.lo / A.den) * (1 - 1e-9)) : 0; r.hi = q.hi < 700 ? std::exp(q.hi / A.den) * (1 + 1e-9) : INFINITY; break; }
    case A_LOG: { Itv q = polyItv(A.a); r.lo = q.lo > 0 ? std::log(q.lo) - 1e-9 : -INFINITY; r.hi = q.hi < INFINITY ? std::log(q.hi) + 1e-9 : INFINITY; break; }
    default: break;
  }
  auto it = refined.find(a); if (it != refined.end()) { r.lo = std::max(r.lo, it->second.lo); r.hi = std::min(r.hi, it->second.hi); }
  return r;
}
static Itv ipow(Itv x, int e) {
  if (e < 0) { Itv y = ipow(x, -e); if (y.lo > 0) return {y.hi < INFINITY ? dn(1 / y.hi) : 0, up(1 / y.lo)}; if (y.hi < 0) return {dn(1 / y.hi), y.lo > -INFINITY ? up(1 / y.lo) : 0}; 
    if (y.lo >= 0) return {0, INFINITY}; return {-INFINITY, INFINITY}; }
  if (e == 1) return x;
  if (e % 2 == 0) { double a = std::max(std::fabs(x.lo), std::fabs(x.hi)), b = (x.lo <= 0 && x.hi >= 0) ? 0 : std::min(std::fabs(x.lo), std::fabs(x.hi));
    double l = b, h = a; for (int i = 1; i < e; ++i) { l = l * b; h = h * a; } return {l > 0 ? l * (1 - 1e-14) : 0, h * (1 + 1e-14)}; }
  Itv r = x; for (int i = 1; i < e; ++i) r = imul(r, x); return r;
}
static Itv polyItv(PolyId p) {
  auto it = ivcache.find(p); if (it != ivcache.end()) return it->second;
  Itv r{0, 0}; bool first = true;
  auto &t = T.polys[p].t;
  for (auto &x : t) {
    double c = x.c.toDouble(); Itv m{dn(c), up(c)}; if (x.c.isInt() && !x.c.b && std::llabs(x.c.n) < (1LL << 53)) m = {c, c};
    for (auto &f : T.monos[x.m].f) m = imul(m, ipow(atomItv(f.first), f.second));
    if (std::isnan(m.lo)) m.lo = -INFINITY; if (std::isnan(m.hi)) m.hi = INFINITY;
    if (first) { r = m; first = false; } else r = iadd(r, m);
    if (std::isnan(r.lo)) r.lo = -INFINITY; if (std::isnan(r.hi)) r.hi = INFINITY;
  }
  ivcache.emplace(p, r); return r;
}

// exact bounds test for linear polynomials over bounded variables is subsumed by polyItv except at the rim: exact rim check
static int itvMask(PolyId p) {
  Itv r = polyItv(p); int m = 0; if (r.lo < 0) m |= NEG; if (r.hi > 0) m |= POS; if (r.lo <= 0 && r.hi >= 0) m |= ZER;
  if ((m & (NEG | ZER)) && (m & (ZER | POS)) && r.lo > -1e-6) {  // maybe exactly nonnegative at the rim: exact evaluation for affine forms
    bool aff = true; Rat lo(0), hi(0);
    for (auto &x : T.polys[p].t) { auto &f = T.monos[x.m].f; if (f.empty()) { lo = lo + x.c; hi = hi + x.c; continue; }
      if (f.size() != 1 || f[0].second != 1) { aff = false; break; } Itv b = atomItv(f[0].first); if (!(std::isfinite(b.lo) && std::isfinite(b.hi))) { 
        if (x.c.sign() > 0 && std::isfinite(b.lo)) { lo = lo + x.c * Rat::fromDouble(b.lo); continue; } aff = false; break; }
      Rat l = Rat::fromDouble(b.lo), h = Rat::fromDouble(b.hi); if (x.c.sign() > 0) { lo = lo + x.c * l; hi = hi + x.c * h; } else { lo = lo + x.c * h; hi = hi + x.c * l; } }
    if (aff) { if (lo.sign() >= 0) m &= ~NEG; if (lo.sign() > 0) m &= ~ZER; }
  }
  return m ? m : ALLS;
}
static int monoMask(MonoId m) {  // sign possibilities of a monomial from its atoms
  int s = POS;
  for (auto &f : T.monos[m].f) {
    PolyId a = T.patom(f.first); int k = ALLS; auto it = known.find(a); if (it != known.end()) k = it->second; k &= itvMask(a); if (!k) k = ALLS;
    if (T.atoms[f.first].k == A_INV) { int b = ALLS; auto j = known.find(T.atoms[f.first].a); if (j != known.end()) b = j->second; b &= itvMask(T.atoms[f.first].a); k &= b & ~ZER; if (!k) k = NEG | POS; }
    if (f.second < 0) k &= ~ZER;
    if (f.second % 2 == 0) k = (k & ZER) | ((k & (NEG | POS)) ? POS : 0);
    int r = 0; for (int x : {NEG, ZER, POS}) for (int y : {NEG, ZER, POS}) if ((s & x) && (k & y)) { int z = (x == ZER || y == ZER) ? ZER : (x == y ? POS : NEG); r |= z; }
    s = r;
  }
  return s;
}
static int termsMask(PolyId p) {  // all terms of one sign
  int acc = 0; auto &t = T.polys[p].t; if (t.empty()) return ZER;
  bool pos_ok = true, neg_ok = true, strictp = false, strictn = false;
  for (auto &x : t) { int m = x.m ? monoMask(x.m) : POS; if (x.c.sign() < 0) m = flipmask(m); if (m & NEG) pos_ok = false; if (m & POS) neg_ok = false; if (m == POS) strictp = true; if (m == NEG) strictn = true; }
  acc = ALLS; if (pos_ok) { acc &= ~NEG; if (strictp) acc &= ~ZER; } if (neg_ok) { acc &= ~POS; if (strictn) acc &= ~ZER; }
  return acc ? acc : ALLS;
}
static int quickMask(PolyId p) {
  if (T.isConst(p)) { int s = T.constOf(p).sign(); return s < 0 ? NEG : s > 0 ? POS : ZER; }
  int k = ALLS; auto it = known.find(p); if (it != known.end()) k = it->second;
  if ((k & (k - 1)) == 0) return k;
  int q = k & itvMask(p); if (q) k = q; if ((k & (k - 1)) == 0) return k;
  q = k & termsMask(p); if (q) k = q; return k;
}
static int signOf(PolyId p) {  // quick mask for an arbitrary polynomial through canonicalisation
  Rat c; PolyId q = T.canon(p, c); int m = quickMask(q); return c.sign() < 0 ? flipmask(m) : m;
}

// bring p into the form whose sign we reason about: returns q and factor sign so that sign(p) = sign(q) * s (s=+-1)
static PolyId signForm(PolyId p, int &s) {
  s = 1;
  for (int guard = 0; guard < 64; ++guard) {
    AtomId a; int k; if (!T.clearStep(p, a, k)) break;
    PolyId b = T.baseOf(a); int m = signOf(b) & ~ZER;
    if (k % 2) { if (m == POS) {} else if (m == NEG) s = -s; else ++k; }
    p = T.clearBy(p, a, k);
  }
  // strip a common monomial factor of known sign
  auto &t = T.polys[p].t;
  if (t.size() > 1) {
    std::vector<std::pair<AtomId, int>> g = T.monos[t[0].m].f;
    for (size_t i = 1; i < t.size() && !g.empty(); ++i) {
      auto &f = T.monos[t[i].m].f; std::vector<std::pair<AtomId, int>> h;
      for (auto &x : g) for (auto &y : f) if (x.first == y.first) { int e = std::min(x.second, y.second); if (e > 0) h.push_back({x.first, e}); }
      g = h;
    }
    std::vector<std::pair<AtomId, int>> use;
    for (auto &x : g) { int m = signOf(T.patom(x.first)); if (m == POS) use.push_back(x); else if (m == NEG) { use.push_back(x); if (x.second % 2) s = -s; } }
    if (!use.empty()) { auto ng = use; for (auto &x : ng) x.second = -x.second; MonoId gm = T.mono(ng); std::vector<Term> r; 
      for (auto &x : t) r.push_back({T.mmul(x.m, gm), x.c}); std::sort(r.begin(), r.end(), [](const Term &x, const Term &y) { return x.m < y.m; }); p = T.poly(r); }
  } else if (t.size() == 1 && t[0].m) {  // single monomial: drop factors of known nonzero sign
    auto f = T.monos[t[0].m].f; std::vector<std::pair<AtomId, int>> keep; 
    for (auto &x : f) { int m = signOf(T.patom(x.first)); if (m == POS) continue; if (m == NEG) { if (x.second % 2) s = -s; continue; } int e = x.second; e = e % 2 ? 1 : 2; keep.push_back({x.first, e}); }
    p = T.pmono(T.mono(keep), t[0].c.sign() > 0 ? Rat(1) : Rat(-1));
  }
  return p;
}

// ------------------------------------------------------------------ z3
struct Z {
  z3::context c; z3::solver inc; std::unordered_map<PolyId, z3::expr> pe; std::unordered_map<AtomId, z3::expr> ae; std::unordered_map<AtomId, z3::expr> ie;
  int level = 0; std::vector<std::pair<AtomId, int>> decl; std::unordered_set<AtomId> declset;
  bool have_model = false; std::unordered_map<AtomId, Rat> model;
  Z() : inc(mk(c)) {}
  static z3::solver mk(z3::context &c) { z3::solver s(c, "QF_LRA"); return s; }
  z3::expr num(const Rat &r) { return c.real_val(r.str().c_str()); }
  z3::expr atomE(AtomId a) {
    auto it = ae.find(a); if (it != ae.end()) return it->second;
    auto &A = T.atoms[a];
    if (A.k == A_ITE) { z3::expr co = polyE(A.cond); z3::expr zero = c.real_val(0);
      z3::expr cd = maskE(co, A.mask); z3::expr e = z3::ite(cd, polyE(A.a), polyE(A.b)); ae.emplace(a, e); return e; }
    z3::expr e = c.real_const(("a" + std::to_string(a)).c_str()); ae.emplace(a, e); return e;
  }
  z3::expr invE(AtomId a) { auto it = ie.find(a); if (it != ie.end()) return it->second; z3::expr e = c.real_const(("i" + std::to_string(a)).c_str()); ie.emplace(a, e); return e; }
  z3::expr maskE(const z3::expr &e, int m) {
    z3::expr z = c.real_val(0);
    switch (m) { case NEG: return e < z; case ZER: return e == z; case POS: return e > z; case NEG | ZER: return e <= z; case POS | ZER: return e >= z; case NEG | POS: return e != z; }
    return m ? c.bool_val(true) : c.bool_val(false);
  }
  z3::expr polyE(PolyId p) {
    auto it = pe.find(p); if (it != pe.end()) return it->second;
    z3::expr_vector sum(c); auto t = T.polys[p].t;
    for (auto &x : t) {
      z3::expr_vector pr(c); if (!x.c.one() || !x.m) pr.push_back(num(x.c));
      for (auto &f : T.monos[x.m].f) { int e = f.second; z3::expr b = e < 0 ? invE(f.first) : atomE(f.first); for (int i = 0; i < std::abs(e); ++i) pr.push_back(b); }
      z3::expr r = pr[0]; if (pr.size() > 1) { std::vector<Z3_ast> as; for (unsigned i = 0; i < pr.size(); ++i) as.push_back(pr[i]); r = z3::expr(c, Z3_mk_mul(c, as.size(), as.data())); }
      sum.push_back(r);
    }
    z3::expr r = sum.size() == 0 ? c.real_val(0) : sum.size() == 1 ? sum[0] : z3::sum(sum);
    pe.emplace(p, r); return r;
  }
};
static Z *ZZ;

// support of a polynomial (atoms, transitively) and hardness
struct Sup { std::vector<AtomId> at; bool hard; };
static std::unordered_map<PolyId, Sup> supc;
static const Sup &support(PolyId p);
static void addSup(std::vector<AtomId> &v, const std::vector<AtomId> &w) { std::vector<AtomId> r; std::set_union(v.begin(), v.end(), w.begin(), w.end(), std::back_inserter(r)); v.swap(r); }
static const Sup &support(PolyId p) {
  auto it = supc.find(p); if (it != supc.end()) return it->second;
  Sup s; s.hard = false; auto t = T.polys[p].t;
  for (auto &x : t) {
    auto &f = T.monos[x.m].f; int deg = 0;
    for (auto &y : f) {
      deg += std::abs(y.second); if (y.second < 0) s.hard = true; auto A = T.atoms[y.first];
      if (A.k != A_ITE) addSup(s.at, {y.first});
      switch (A.k) { case A_SQRT: case A_INV: case A_SIN: case A_COS: s.hard = true; break; default: break; }
      if (A.k == A_SQRT || A.k == A_INV) { auto q = support(A.a); addSup(s.at, q.at); }
      if (A.k == A_ITE) { for (PolyId z : {A.a, A.b, A.cond}) { auto q = support(z); addSup(s.at, q.at); s.hard |= q.hard; } }
    }
    if (deg > 1) s.hard = true;
  }
  return supc.emplace(p, s).first->second;
}

static void declareAtoms(PolyId p) {  // bounds in the incremental solver
  auto &s = support(p);
  for (AtomId a : s.at) {
    if (ZZ->declset.count(a)) continue; ZZ->declset.insert(a); ZZ->decl.push_back({a, ZZ->level});
    auto &A = T.atoms[a]; z3::expr e = ZZ->atomE(a);
    double lo = A.lo, hi = A.hi; if (A.k == A_SQRT) lo = 0;
    if (A.k == A_LOG || A.k == A_EXP || A.k == A_SQRT) { auto sv = refined; refined.clear(); auto si = ivcache; ivcache.clear(); Itv r = atomItv(a); refined.swap(sv); ivcache.swap(si); lo = std::max(lo, r.lo); hi = std::min(hi, r.hi); }
    if (lo > -INFINITY) ZZ->inc.add(e >= ZZ->num(Rat::fromDouble(lo))); if (hi < INFINITY) ZZ->inc.add(e <= ZZ->num(Rat::fromDouble(hi)));
  }
}
static void zpush() { ZZ->inc.push(); ++ZZ->level; }
static void zpop(int n = 1) { if (!n) return; ZZ->inc.pop(n); ZZ->level -= n; while (!ZZ->decl.empty() && ZZ->decl.back().second > ZZ->level) { ZZ->declset.erase(ZZ->decl.back().first); ZZ->decl.pop_back(); } }

static void readModel() {
  ZZ->model.clear(); z3::model m = ZZ->inc.get_model();
  for (unsigned i = 0; i < m.num_consts(); ++i) {
    z3::func_decl d = m.get_const_decl(i); std::string n = d.name().str(); if (n.empty() || n[0] != 'a') continue;
    z3::expr v = m.get_const_interp(d); if (!v.is_numeral()) continue; std::string s = v.get_decimal_string(0); 
    std::string str = Z3_get_numeral_string(ZZ->c, v); mpq_class q; if (q.set_str(str, 10) == 0) ZZ->model[atoi(n.c_str() + 1)] = Rat::big(q);
  }
  ZZ->have_model = true;
}
enum Res { SAT, UNSAT, UNK };
static bool timeUp() { return now() - t_start > OPT_TIME || SH->stop; }
static Res incCheck(bool want_model) {
  double t0 = now(); z3::check_result r;
  try { r = ZZ->inc.check(); } catch (z3::exception &e) { r = z3::unknown; note(std::string("z3: ") + e.msg()); }
  ST.t_lin += now() - t0; ST.q_lin++;
  if (r == z3::sat) { ST.q_sat++; if (want_model) readModel(); return SAT; }
  if (r == z3::unsat) { ST.q_unsat++; return UNSAT; }
  ST.unknown++; return UNK;
}
// collect constraints connected with p
static void slice(PolyId p, std::vector<Con> &out_) {
  std::vector<AtomId> S = support(p).at; std::vector<char> used(cons.size(), 0); bool ch = true;
  while (ch) { ch = false;
    for (size_t i = 0; i < cons.size(); ++i) { if (used[i]) continue; auto &s = support(cons[i].p).at; std::vector<AtomId> x; std::set_intersection(S.begin(), S.end(), s.begin(), s.end(), std::back_inserter(x));
      if (!x.empty()) { used[i] = 1; addSup(S, s); ch = true; out_.push_back(cons[i]); } } }
}
static void addAxioms(z3::solver &s, const std::vector<AtomId> &at, const std::set<AtomId> &negs) {
  z3::context &c = ZZ->c;
  for (AtomId a : at) {
    auto A = T.atoms[a]; z3::expr e = ZZ->atomE(a);
    if (A.lo > -INFINITY) s.add(e >= ZZ->num(Rat::fromDouble(A.lo))); if (A.hi < INFINITY) s.add(e <= ZZ->num(Rat::fromDouble(A.hi)));
    switch (A.k) {
      case A_SQRT: s.add(e >= 0); s.add(e * e == ZZ->polyE(A.a)); break;
      case A_INV: s.add(e * ZZ->polyE(A.a) == 1); break;
      case A_EXP: s.add(e > 0); { Itv r = atomItv(a); if (r.lo > 0) s.add(e >= ZZ->num(Rat::fromDouble(r.lo))); if (r.hi < INFINITY) s.add(e <= ZZ->num(Rat::fromDouble(r.hi))); } break;
      case A_LOG: { Itv r = atomItv(a); if (r.lo > -INFINITY) s.add(e >= ZZ->num(Rat::fromDouble(r.lo))); if (r.hi < INFINITY) s.add(e <= ZZ->num(Rat::fromDouble(r.hi))); } break;
      case A_SIN: case A_COS: {
        Atom x; x.k = A_SIN; x.a = A.a; x.lo = -1; x.hi = 1; Atom y = x; y.k = A_COS; AtomId si = T.atom(x), ci = T.atom(y);
        s.add(ZZ->atomE(si) * ZZ->atomE(si) + ZZ->atomE(ci) * ZZ->atomE(ci) == 1); break; }
      default: break;
    }
    if (negs.count(a)) s.add(ZZ->invE(a) * e == 1);
  }
  (void)c;
}
static void collectNeg(PolyId p, std::set<AtomId> &n, std::set<PolyId> &seen) {
  if (!seen.insert(p).second) return;
  auto t = T.polys[p].t; for (auto &x : t) for (auto &f : T.monos[x.m].f) { if (f.second < 0) n.insert(f.first); auto A = T.atoms[f.first]; if (A.k == A_SQRT || A.k == A_INV || A.k == A_ITE) { collectNeg(A.a, n, seen); if (A.k == A_ITE) { collectNeg(A.b, n, seen); collectNeg(A.cond, n, seen); } } }
}
static int nl_level = 0;
static Res nlCheck(const std::vector<Con> &cs, std::optional<z3::model> *mo, unsigned rl) {
  double t0 = now(); z3::check_result r = z3::unknown;
  ++nl_level;
  try {
    std::vector<AtomId> at; std::set<AtomId> negs; std::set<PolyId> seen;
    for (auto &c : cs) { addSup(at, support(c.p).at); collectNeg(c.p, negs, seen); }
    for (int stage = 0; stage < 2 && r == z3::unknown; ++stage) {
      z3::solver s = stage == 0 ? z3::tactic(ZZ->c, "qfnra-nlsat").mk_solver() : z3::solver(ZZ->c, "QF_NRA");
      z3::params pr(ZZ->c); pr.set("rlimit", rl); pr.set("timeout", (unsigned)OPT_NLMS); s.set(pr);
      for (auto &c : cs) s.add(ZZ->maskE(ZZ->polyE(c.p), c.m));
      addAxioms(s, at, negs);
      try { r = s.check(); } catch (z3::exception &e) { r = z3::unknown; }
      if (r == z3::sat && mo) *mo = s.get_model();
    }
  } catch (z3::exception &e) { note(std::string("z3-nl: ") + e.msg()); r = z3::unknown; }
  --nl_level;
  ST.t_nl += now() - t0; ST.q_nl++;
  if (r == z3::sat) { ST.q_sat++; return SAT; } if (r == z3::unsat) { ST.q_unsat++; return UNSAT; } ST.unknown++; return UNK;
}
static bool anyHard(const std::vector<Con> &cs) { for (auto &c : cs) if (support(c.p).hard) return true; return false; }

// is the current path condition plus sign(p) in m satisfiable?
static Res feasible(PolyId p, int m, bool want_model) {
  if (!m) return UNSAT;
  std::vector<Con> cs; slice(p, cs); cs.push_back({p, m});
  bool hard = anyHard(cs);
  if (!support(p).hard) {
    zpush(); declareAtoms(p); ZZ->inc.add(ZZ->maskE(ZZ->polyE(p), m)); Res r = incCheck(want_model && !hard); zpop();
    if (r == UNSAT) return UNSAT; if (!hard) return r;
  }
  if (f_havoc) { ST.havoc++; return UNK; }
  return nlCheck(cs, nullptr, OPT_RLIMIT);
}
// exact evaluation under the current model; returns false if not evaluable
static bool evalModel(PolyId p, Rat &r);
static bool evalAtom(AtomId a, Rat &r) {
  auto &A = T.atoms[a];
  if (A.k == A_ITE) { Rat c; if (!evalModel(A.cond, c)) return false; int s = c.sign(); int b = s < 0 ? NEG : s > 0 ? POS : ZER; return evalModel((A.mask & b) ? A.a : A.b, r); }
  if (A.k == A_SQRT || A.k == A_INV || A.k == A_SIN || A.k == A_COS) return false;
  auto it = ZZ->model.find(a); if (it != ZZ->model.end()) { r = it->second; return true; }
  double lo = A.lo, hi = A.hi;
  if (A.k == A_LOG || A.k == A_EXP) { auto sv = refined; refined.clear(); auto si = ivcache; ivcache.clear(); Itv q = atomItv(a); refined.swap(sv); ivcache.swap(si); lo = std::max(lo, q.lo); hi = std::min(hi, q.hi); }
  double v = std::min(std::max(0.0, lo), hi); r = Rat::fromDouble(v); ZZ->model[a] = r; return true;
}
static bool evalModel(PolyId p, Rat &r) {
  r = Rat(0); auto &t = T.polys[p].t;
  for (auto &x : t) { Rat m = x.c; for (auto &f : T.monos[x.m].f) { if (f.second < 0) return false; Rat v; if (!evalAtom(f.first, v)) return false; for (int i = 0; i < f.second; ++i) m = m * v; } r = r + m; }
  return true;
}

// numeric evaluation from input values
static std::unordered_map<AtomId, double> numv; static std::unordered_map<PolyId, double> numc;
static double num(PolyId p);
static double numAtom(AtomId a) {
  auto A = T.atoms[a];
  switch (A.k) {
    case A_VAR: { auto it = numv.find(a); return it == numv.end() ? std::min(std::max(0.0, A.lo), A.hi) : it->second; }
    case A_SQRT: return std::sqrt(num(A.a)); case A_INV: return 1 / num(A.a);
    case A_ITE: { double c = num(A.cond); int b = c < 0 ? NEG : c > 0 ? POS : ZER; return (A.mask & b) ? num(A.a) : num(A.b); }
    case A_EXP: return std::exp(num(A.a) / A.den); case A_LOG: return std::log(num(A.a)); case A_SIN: return std::sin(num(A.a)); case A_COS: return std::cos(num(A.a));
    case A_ATAN2: return std::atan2(num(A.a), num(A.b));
    case A_FN: { double x = num(A.a); if (A.name == "tan") return tan(x); if (A.name == "asin") return asin(x); if (A.name == "acos") return acos(x); if (A.name == "erf") return erf(x); return NAN; }
  }
  return NAN;
}
static double num(PolyId p) {
  auto it = numc.find(p); if (it != numc.end()) return it->second;
  long double r = 0; auto t = T.polys[p].t;
  for (auto &x : t) { long double m = x.c.toDouble(); for (auto &f : T.monos[x.m].f) { double v = numAtom(f.first); for (int i = 0; i < std::abs(f.second); ++i) m = f.second > 0 ? m * v : m / v; } r += m; }
  numc[p] = (double)r; return (double)r;
}

// ------------------------------------------------------------------ recording knowledge
static void learn(PolyId q, int m) {  // q canonical
  auto it = known.find(q); if (it == known.end()) known[q] = m; else it->second &= m;
  cons.push_back({q, m});
  auto &t = T.polys[q].t; Rat c0(0), c1(0); AtomId a = 0; bool ok = true, have = false;
  for (auto &x : t) { auto &f = T.monos[x.m].f; if (f.empty()) c0 = x.c; else if (f.size() == 1 && f[0].second == 1 && !have) { have = true; a = f[0].first; c1 = x.c; } else ok = false; }
  if (ok && have) {  // c1*a + c0 in m
    double b = (-c0 / c1).toDouble(); int mm = c1.sign() < 0 ? flipmask(m) : m; Itv r{-INFINITY, INFINITY}; auto j = refined.find(a); if (j != refined.end()) r = j->second;
    if (!(mm & POS)) r.hi = std::min(r.hi, up(b)); if (!(mm & NEG)) r.lo = std::max(r.lo, dn(b));
    if (mm == ZER || !(mm & POS)) { if ((-c0 / c1) == Rat::fromDouble(b)) r.hi = std::min(r.hi, b); }
    if (mm == ZER || !(mm & NEG)) { if ((-c0 / c1) == Rat::fromDouble(b)) r.lo = std::max(r.lo, b); }
    refined[a] = r; ivcache.clear();
  }
}

static std::string pstr(PolyId p, int depth = 0);
static std::string astr(AtomId a, int depth) {
  auto A = T.atoms[a]; if (A.k == A_VAR) return A.name; static const char *K[] = {"var", "sqrt", "inv", "ite", "exp", "log", "sin", "cos", "atan2", "fn"};
  if (depth > 3) return std::string(K[A.k]) + "(..)"; std::string r = std::string(K[A.k]) + A.name + "(" + pstr(A.a, depth + 1); if (A.k == A_ITE || A.k == A_ATAN2) r += "," + pstr(A.b, depth + 1); return r + ")";
}
static std::string pstr(PolyId p, int depth) {
  std::string r; auto t = T.polys[p].t; int n = 0; for (auto &x : t) { if (++n > 12) { r += "+..." + std::to_string(t.size()); break; } if (!r.empty()) r += " + "; char b[40]; snprintf(b, 40, "%.6g", x.c.toDouble()); r += b; for (auto &f : T.monos[x.m].f) { r += "*" + astr(f.first, depth); if (f.second != 1) r += "^" + std::to_string(f.second); } }
  return r.empty() ? "0" : r;
}
static bool TRACE = getenv("NS_TRACE") != nullptr;
static void donate();
// the sign of a sum of logarithms is the sign of a difference of products
static Rat snap(double v) {   // a simple fraction within rounding of v, else v
  double x = v; i64 p0 = 0, q0 = 1, p1 = 1, q1 = 0;
  for (int i = 0; i < 24; ++i) { double f = std::floor(x); if (std::fabs(f) > 1e9) break; i64 p2 = (i64)f * p1 + p0, q2 = (i64)f * q1 + q0; if (std::llabs(p2) > 1000000000LL || q2 > 1000000LL) break; p0 = p1; q0 = q1; p1 = p2; q1 = q2; if (q1 && std::fabs((double)p1 / (double)q1 - v) <= 4e-15 * std::fabs(v)) return Rat::make(p1, q1); if (x == f) break; x = 1 / (x - f); }
  return Rat::fromDouble(v);
}
static PolyId unlog(PolyId p) {
  auto t = T.polys[p].t; double c0 = 0; PolyId a = T.cst(1), b = T.cst(1); int deg = 0; bool any = false;
  for (auto &x : t) {
    if (!x.m) { c0 = x.c.toDouble(); continue; }
    auto f = T.monos[x.m].f; if (f.size() != 1 || f[0].second != 1 || T.atoms[f[0].first].k != A_LOG || !x.c.isInt() || x.c.b || std::llabs(x.c.n) > 3) return p;
    deg += std::llabs(x.c.n); any = true; if (deg > 8) return p;
  }
  if (!any || std::fabs(c0) > 300) return p;
  for (auto &x : t) if (x.m) { int n = (int)x.c.n; PolyId g = T.powi(T.atoms[T.monos[x.m].f[0].first].a, std::abs(n)); PolyId &h = n > 0 ? a : b; h = T.mul(h, g); if (T.polys[h].t.size() > 60) return p; }
  return c0 <= 0 ? T.sub(T.scale(a, snap(std::exp(c0))), b) : T.sub(a, T.scale(b, snap(std::exp(-c0))));
}
// decide whether sign(p) is in mask m, forking when both are possible
static bool branchOn(PolyId p0, int m0) {
  p0 = unlog(p0);
  if (T.isConst(p0)) { int s = T.constOf(p0).sign(); return m0 & (s < 0 ? NEG : s > 0 ? POS : ZER); }
  int s; PolyId p = signForm(p0, s); int m = s < 0 ? flipmask(m0) : m0;
  if (T.isConst(p)) { int z = T.constOf(p).sign(); return m & (z < 0 ? NEG : z > 0 ? POS : ZER); }
  Rat c; PolyId q = T.canon(p, c); if (c.sign() < 0) m = flipmask(m);
  int k = quickMask(q);
  if (!(k & ~m)) return true; if (!(k & m)) return false;
  // a genuine decision point
  if (TRACE) fprintf(stderr, "[%ld] dec %zu: %s in %d\n", (long)path_no, pos, pstr(q).c_str(), m);
  u32 h = (u32)(T.polys[q].h ^ (T.polys[q].h >> 32)) ^ (u32)(m * 2654435761u);
  if ((int)pos >= OPT_MAXDEC) { note("decision limit per path reached"); ST.incomplete++; endPath(E_LIMIT); }
  ST.branches++;
  if (pos < decs.size()) {  // replay of the prefix
    Dec &d = decs[pos];
    if (d.h != h) { if (TRACE) fprintf(stderr, "NONDET %ld dec %zu: %s in %d\n", (long)path_no, pos, pstr(q).c_str(), m); note("nondeterministic replay (engine)"); ST.incomplete++; endPath(E_UNSUP); }
    int mm = d.out ? (k & m) : (k & ~m);
    if (!d.asserted) { d.asserted = true; zpush(); if (!support(q).hard) { declareAtoms(q); ZZ->inc.add(ZZ->maskE(ZZ->polyE(q), mm)); } ZZ->have_model = false; }
    ++pos; learn(q, mm); return d.out;
  }
  if (timeUp()) { ST.incomplete++; note("time budget exhausted"); SH->stop = 1; endPath(E_STOP); }
  int tm = k & m, fm = k & ~m; Dec d; d.h = h; d.asserted = true; d.alt = false;
  bool haveA = false; int outA = 0;
  bool hard = support(q).hard;
  if (!hard) {
    if (!ZZ->have_model) { Res r = incCheck(true); if (r == UNSAT) { ST.pruned++; endPath(E_ASSUME); } }
    if (ZZ->have_model) { Rat v; if (evalModel(q, v)) { int b = v.sign() < 0 ? NEG : v.sign() > 0 ? POS : ZER; if (tm & b) { haveA = true; outA = 1; } else if (fm & b) { haveA = true; outA = 0; } } }
    if (haveA) { std::vector<Con> cs; slice(q, cs); if (anyHard(cs)) haveA = false; }
  }
  if (!haveA) {
    auto sv = ZZ->have_model; Res rt = feasible(q, tm, false); (void)sv;
    if (rt == UNSAT) { haveA = true; outA = 0; d.alt = false; }
    else { outA = 1; Res rf = feasible(q, fm, false); if (rf != UNSAT) d.alt = true; }
  } else { Res ro = feasible(q, outA ? fm : tm, false); d.alt = ro != UNSAT; }
  d.out = outA; int mm = outA ? tm : fm;
  zpush(); if (!hard && d.alt) { declareAtoms(q); ZZ->inc.add(ZZ->maskE(ZZ->polyE(q), mm)); }
  if (!d.alt) ST.forced++;
  decs.push_back(d); ++pos; if (pos > ST.maxdepth) ST.maxdepth = pos;
  learn(q, mm);
  if (d.alt && SH->idle > 0) donate();
  return outA;
}
static void donate() {
  if (SH->nq >= Shared::QCAP) return;
  size_t i = 0; for (; i < decs.size(); ++i) if (decs[i].alt) break; if (i >= decs.size() || i + 1 >= (size_t)Shared::PCAP) return;
  pthread_mutex_lock(&SH->mu);
  if (SH->nq < Shared::QCAP && SH->nq < SH->idle + 4) {
    int s = SH->nq++; for (size_t j = 0; j <= i; ++j) { SH->q[s][j].h = decs[j].h; SH->q[s][j].o = decs[j].out; } SH->q[s][i].o = !decs[i].out; SH->qlen[s] = i + 1; decs[i].alt = false; pthread_cond_signal(&SH->cv);
  }
  pthread_mutex_unlock(&SH->mu);
}

// ------------------------------------------------------------------ arithmetic entry points
static double symOp(int op, double a, double b) {
  Eng e;
  bool sa = isSym(a), sb = isSym(b);
  if ((!sa && !std::isfinite(a)) || (!sb && !std::isfinite(b))) {  // infinities and NaN
    double c = sa ? b : a; PolyId p = sa ? idOf(a) : idOf(b);
    if (std::isnan(c)) return c;
    switch (op) {
      case '+': return c; case '-': return sa ? -c : c;
      case '*': if (branchOn(p, POS)) return c; if (branchOn(p, NEG)) return -c; return NAN;
      case '/': if (sa) return 0.0; if (branchOn(p, NEG)) return -c; return c;
    }
  }
  PolyId x = polyOf(a), y = polyOf(b), r = 0;
  switch (op) {
    case '+': r = T.add(x, y); break; case '-': r = T.sub(x, y); break; case '*': r = T.mul(x, y); break;
    case '/': {
      if (!T.isConst(y) && branchOn(y, ZER)) { if (branchOn(x, ZER)) return NAN; return branchOn(x, POS) ? INFINITY : -INFINITY; }
      if (T.isConst(y)) { if (!y) { if (branchOn(x, ZER)) return NAN; return (branchOn(x, POS) != std::signbit(b)) ? INFINITY : -INFINITY; } r = T.scale(x, T.constOf(y).inv()); break; }
      if (T.polys[y].t.size() > 1) { PolyId q; if (T.divide(x, y, q)) { r = q; break; } 
        PolyId ys = T.ratsimp(y); if (T.isConst(ys)) { r = T.scale(x, T.constOf(ys).inv()); break; } y = ys; }
      r = T.mul(x, T.inv(y)); break; }
  }
  if (T.polys[r].t.size() > 20000) { note("term too large"); ST.incomplete++; endPath(E_UNSUP); }
  return box(r);
}
API double __ns_add(double a, double b) { if (!isSym(a) && !isSym(b)) return a + b; return symOp('+', a, b); }
API double __ns_sub(double a, double b) { if (!isSym(a) && !isSym(b)) return a - b; return symOp('-', a, b); }
API double __ns_mul(double a, double b) { if (!isSym(a) && !isSym(b)) return a * b; return symOp('*', a, b); }
API double __ns_div(double a, double b) { if (!isSym(a) && !isSym(b)) return a / b; return symOp('/', a, b); }
API double __ns_neg(double a) { if (!isSym(a)) return -a; Eng e; return box(T.neg(idOf(a))); }

// LLVM predicates
static int predMask(int p) { int m = 0; if (p & 4) m |= NEG; if (p & 2) m |= POS; if (p & 1) m |= ZER; return m; }
API int __ns_fcmp(int pred, double a, double b) {
  bool sa = isSym(a), sb = isSym(b);
  if (!sa && !sb) {
    bool un = std::isnan(a) || std::isnan(b); if (un) return (pred & 8) != 0; int m = predMask(pred);
    return (m & (a < b ? NEG : a > b ? POS : ZER)) != 0;
  }
  int m = predMask(pred & 7);
  if (!sa && !std::isfinite(a)) { if (std::isnan(a)) return (pred & 8) != 0; return (m & (a < 0 ? NEG : POS)) != 0; }
  if (!sb && !std::isfinite(b)) { if (std::isnan(b)) return (pred & 8) != 0; return (m & (b > 0 ? NEG : POS)) != 0; }
  if (m == 0) return 0; if (m == ALLS) return 1;
  Eng e; return branchOn(T.sub(polyOf(a), polyOf(b)), m);
}
API int __ns_fpclass(double a, int mask) {
  if (!isSym(a)) {
    int c; bool s = std::signbit(a);
    if (std::isnan(a)) c = 3; else if (std::isinf(a)) c = s ? 4 : 0x200; else if (a == 0) c = s ? 0x20 : 0x40; else c = s ? 8 : 0x100;
    if (c == 8 && std::fpclassify(a) == FP_SUBNORMAL) c = 0x10; if (c == 0x100 && std::fpclassify(a) == FP_SUBNORMAL) c = 0x80;
    return (c & mask) != 0;
  }
  int fin = mask & 0x1F8; if (!fin) return 0; if (fin == 0x1F8) return 1;
  int m = 0; if (fin & 8) m |= NEG; if (fin & 0x100) m |= POS; if (fin & 0x60) m |= ZER; if (!m) return 0; if (m == ALLS) return 1;
  Eng e; return branchOn(idOf(a), m);
}
API double __ns_concrete(double a) { if (!isSym(a)) return a; note("symbolic value reached a non-double operation"); ST.incomplete++; endPath(E_UNSUP); }

static double modelGuess(PolyId p) { Rat v; if (ZZ->have_model && evalModel(p, v)) return v.toDouble(); Itv r = polyItv(p); if (std::isfinite(r.lo) && std::isfinite(r.hi)) return (r.lo + r.hi) / 2; if (std::isfinite(r.lo)) return r.lo; if (std::isfinite(r.hi)) return r.hi; return 0; }
// enumerate the integer k with k <= p < k+1
static double floorSym(PolyId p) {
  Itv r = polyItv(p);
  if (std::isfinite(r.lo) && std::isfinite(r.hi) && r.hi - r.lo < 64) { // deterministic order
    for (double k = std::floor(r.lo);; k += 1) { if (k > r.hi + 1) break; if (branchOn(T.sub(p, T.cst(Rat::fromDouble(k + 1))), NEG)) return k; }
  }
  for (double k = 0; k < 64; k += 1) { if (branchOn(T.sub(p, T.cst(Rat::fromDouble(k + 1))), NEG)) { if (k > 0 || branchOn(p, POS | ZER)) return k; break; } }
  if (branchOn(p, NEG)) for (double k = -1; k > -64; k -= 1) if (branchOn(T.sub(p, T.cst(Rat::fromDouble(k))), POS | ZER)) return k;
  note("floor outside enumeration range"); ST.incomplete++; endPath(E_UNSUP);
}
static bool integralPoly(PolyId) { return false; }
API double __ns_m_floor(double a) { if (!isSym(a)) return std::floor(a); Eng e; return floorSym(idOf(a)); }
API double __ns_m_ceil(double a) { if (!isSym(a)) return std::ceil(a); Eng e; return -floorSym(T.neg(idOf(a))); }
API double __ns_m_trunc(double a) { if (!isSym(a)) return std::trunc(a); Eng e; PolyId p = idOf(a); if (branchOn(p, POS | ZER)) return floorSym(p); return -floorSym(T.neg(p)); }
API double __ns_m_round(double a) { if (!isSym(a)) return std::round(a); Eng e; PolyId p = idOf(a); PolyId h = T.cst(Rat::make(1, 2)); if (branchOn(p, POS | ZER)) return floorSym(T.add(p, h)); return -floorSym(T.add(T.neg(p), h)); }
API double __ns_m_rint(double a) { if (!isSym(a)) return std::rint(a); return __ns_m_round(a); }
API double __ns_m_nearbyint(double a) { return __ns_m_rint(a); }
API i64 __ns_fptosi(double a) { if (!isSym(a)) return (i64)a; return (i64)__ns_m_trunc(a); }
API i64 __ns_fptoui(double a) { if (!isSym(a)) return a >= 9223372036854775808.0 ? (i64)(u64)a : (i64)a; return (i64)__ns_m_trunc(a); }

static PolyId mkIte(PolyId cond, int mask, PolyId a, PolyId b) {
  if (a == b) return a; Rat c; int s; PolyId p = signForm(cond, s); if (s < 0) mask = flipmask(mask); PolyId q = T.canon(p, c); if (c.sign() < 0) mask = flipmask(mask);
  int k = quickMask(q); if (!(k & ~mask)) return a; if (!(k & mask)) return b;
  Atom A; A.k = A_ITE; A.a = a; A.b = b; A.cond = q; A.mask = mask; return T.patom(T.atom(A));
}
API double __ns_m_fabs(double a) {
  if (!isSym(a)) return std::fabs(a); Eng e; PolyId p = idOf(a);
  if (f_itemin) return box(mkIte(p, NEG, T.neg(p), p));
  return branchOn(p, NEG) ? box(T.neg(p)) : a;
}
static double sqrtPoly(PolyId p) {
  p = T.ratsimp(p);
  if (T.isConst(p)) return std::sqrt(T.constOf(p).toDouble());
  if (branchOn(p, NEG)) return NAN;
  PolyId q;
  if (T.psqrt(p, q)) return branchOn(q, NEG) ? box(T.neg(q)) : box(q);
  // inverse square factors: sqrt(N/D^2)
  { AtomId a; int k; PolyId n = p, d = T.cst(1); int g = 0; while (T.clearStep(n, a, k) && g++ < 16) { if (k % 2) ++k; n = T.clearBy(n, a, k); d = T.mul(d, T.powi(T.baseOf(a), k / 2)); }
    if (g && T.psqrt(n, q)) { PolyId r = T.mul(q, T.inv(d)); return branchOn(r, NEG) ? box(T.neg(r)) : box(r); } }
  // pull out square content of the coefficients and even monomial factors
  Rat c, sc; PolyId z = T.canon(p, c); Rat cc = c.sign() < 0 ? -c : c; if (c.sign() < 0) z = T.neg(z);
  PolyId mult = T.cst(1);
  if (Terms::ratSqrt(cc, sc)) { mult = T.cst(sc); } else z = T.scale(z, cc);
  if (T.polys[z].t.size() == 1) {  // c * prod a^e : extract even powers
    auto t = T.polys[z].t[0]; std::vector<std::pair<AtomId, int>> in, outp; for (auto &f : T.monos[t.m].f) { int odd = ((f.second % 2) + 2) % 2, ev = (f.second - odd) / 2; if (odd) in.push_back({f.first, 1}); if (ev) outp.push_back({f.first, ev}); }
    if (!outp.empty()) { PolyId o = T.reduce(T.mono(outp)); if (branchOn(o, NEG)) o = T.neg(o); mult = T.mul(mult, o); z = T.pmono(T.mono(in), t.c); }
  }
  Atom A; A.k = A_SQRT; A.a = z; A.lo = 0; PolyId r = T.mul(mult, T.patom(T.atom(A)));
  return box(r);
}
API double __ns_m_sqrt(double a) { if (!isSym(a)) return std::sqrt(a); Eng e; return sqrtPoly(idOf(a)); }

static PolyId expPoly(PolyId p, bool &ok) {
  PolyId r = T.cst(1); ok = true; auto t = T.polys[p].t;
  for (auto &x : t) {
    if (!x.m) { r = T.scale(r, Rat::fromDouble(std::exp(x.c.toDouble()))); continue; }
    auto f = T.monos[x.m].f;
    if (f.size() == 1 && f[0].second == 1 && T.atoms[f[0].first].k == A_LOG && x.c.isInt() && !x.c.b && std::llabs(x.c.n) < 64) { r = T.mul(r, T.powi(T.atoms[f[0].first].a, (int)x.c.n)); continue; }
    i64 k = 1, d = 1; PolyId arg = T.pmono(x.m);
    if (!x.c.b && std::llabs(x.c.n) < 64 && x.c.d < (1LL << 40)) { k = x.c.n; d = x.c.d; } else arg = T.pmono(x.m, x.c);
    Atom A; A.k = A_EXP; A.a = arg; A.den = d; A.lo = 0; r = T.mul(r, T.patom(T.atom(A), (int)k));
  }
  return r;
}
API double __ns_m_exp(double a) {
  if (!isSym(a)) return std::exp(a); Eng e; PolyId p = idOf(a); bool ok;
  Itv r = polyItv(p);
  if (r.lo < -745.2 && branchOn(T.add(p, T.cst(Rat::make(7452, 10))), NEG)) return 0.0;
  if (r.hi > 709.7 && branchOn(T.sub(p, T.cst(Rat::make(7098, 10))), POS)) return INFINITY;
  return box(expPoly(p, ok));
}
static PolyId logPoly(PolyId p) {  // p > 0
  p = T.ratsimp(p);
  auto t = T.polys[p].t; PolyId r = 0;
  if (t.size() == 1) {
    auto f = T.monos[t[0].m].f; std::vector<std::pair<AtomId, int>> rest; bool neg = t[0].c.sign() < 0; 
    if (!neg && !t[0].c.one()) r = T.cst(Rat::fromDouble(std::log(t[0].c.toDouble())));
    for (auto &x : f) {
      auto A = T.atoms[x.first];
      if (!neg && A.k == A_EXP) { r = T.add(r, T.scale(A.a, Rat::make(x.second, A.den))); continue; }
      if (!neg && A.k == A_INV && signOf(A.a) == POS) { r = T.add(r, T.scale(logPoly(A.a), Rat(-x.second))); continue; }
      if (!neg && signOf(T.patom(x.first)) == POS) { Atom L; L.k = A_LOG; L.a = T.patom(x.first); r = T.add(r, T.scale(T.patom(T.atom(L)), Rat(x.second))); continue; }
      rest.push_back(x);
    }
    if (rest.empty()) return r;
    if (neg) r = 0;
    Atom L; L.k = A_LOG; L.a = T.pmono(T.mono(rest), neg ? t[0].c : Rat(1)); return T.add(r, T.patom(T.atom(L)));
  }
  // polynomial: split off a positive monomial factor
  std::vector<std::pair<AtomId, int>> g = T.monos[t[0].m].f;
  for (size_t i = 1; i < t.size() && !g.empty(); ++i) { auto &f = T.monos[t[i].m].f; std::vector<std::pair<AtomId, int>> h; for (auto &x : g) for (auto &y : f) if (x.first == y.first && x.second == y.second) h.push_back(x); g = h; }
  PolyId m = T.cst(1); for (auto &x : g) if (signOf(T.patom(x.first)) == POS) m = T.mul(m, T.pmono(T.mono({x})));
  if (!T.isConst(m)) { PolyId q = T.mul(p, T.inv(m)); return T.add(logPoly(m), logPoly(q)); }
  Atom L; L.k = A_LOG; L.a = p; return T.patom(T.atom(L));
}
API double __ns_m_log(double a) {
  if (!isSym(a)) return std::log(a); Eng e; PolyId p = idOf(a);
  if (branchOn(p, POS)) return box(logPoly(p)); if (branchOn(p, ZER)) return -INFINITY; return NAN;
}
API double __ns_m_log1p(double a) { if (!isSym(a)) return std::log1p(a); return __ns_m_log(__ns_add(1.0, a)); }
API double __ns_m_expm1(double a) { if (!isSym(a)) return std::expm1(a); return __ns_sub(__ns_m_exp(a), 1.0); }
API double __ns_m_log2(double a) { if (!isSym(a)) return std::log2(a); return __ns_div(__ns_m_log(a), std::log(2.0)); }
API double __ns_m_log10(double a) { if (!isSym(a)) return std::log10(a); return __ns_div(__ns_m_log(a), std::log(10.0)); }
API double __ns_m_exp2(double a) { if (!isSym(a)) return std::exp2(a); return __ns_m_exp(__ns_mul(a, std::log(2.0))); }
API double __ns_m_pow(double a, double b) {
  if (!isSym(a) && !isSym(b)) return std::pow(a, b);
  if (!isSym(b)) {
    if (b == 0) return 1; if (b == 1) return a; if (b == 0.5) return __ns_m_sqrt(a); if (b == -1) return __ns_div(1.0, a); if (b == -0.5) return __ns_div(1.0, __ns_m_sqrt(a));
    if (b == std::floor(b) && std::fabs(b) <= 16) { double r = 1; for (int i = 0; i < (int)std::fabs(b); ++i) r = __ns_mul(r, a); return b < 0 ? __ns_div(1.0, r) : r; }
    if (std::isinf(b)) { note("pow with infinite exponent"); ST.incomplete++; endPath(E_UNSUP); }
    { Eng e; PolyId p = idOf(a); if (branchOn(p, ZER)) return b > 0 ? 0.0 : INFINITY; if (branchOn(p, NEG)) return NAN; double n = std::round(1 / b); if (n >= 3 && n <= 16 && 1 / n == b) { bool ok; return box(expPoly(T.scale(logPoly(p), Rat::make(1, (i64)n)), ok)); } }
    return __ns_m_exp(__ns_mul(b, __ns_m_log(a)));
  }
  if (!isSym(a)) { if (a == 1) return 1; if (a == 0) { Eng e; PolyId p = idOf(b); if (branchOn(p, POS)) return 0.0; if (branchOn(p, ZER)) return 1.0; return INFINITY; } if (a < 0) return NAN; return __ns_m_exp(__ns_mul(b, std::log(a))); }
  { Eng e; PolyId p = idOf(a), q = idOf(b); if (branchOn(p, ZER)) { if (branchOn(q, POS)) return 0.0; if (branchOn(q, ZER)) return 1.0; return INFINITY; } if (branchOn(p, NEG)) return NAN; }
  return __ns_m_exp(__ns_mul(b, __ns_m_log(a)));
}
API double __ns_powi(double a, int k) { return __ns_m_pow(a, (double)k); }

// ---- trigonometry: sin/cos of sums are expanded; multiples of pi/2 recognised
static PolyId trigAtom(bool sine, PolyId arg) {
  Rat c; PolyId q = T.canon(arg, c); bool neg = false; PolyId use = arg; if (c.sign() < 0) { use = T.neg(arg); neg = true; } (void)q;
  // atan2 composition
  if (T.polys[use].t.size() == 1) { auto t = T.polys[use].t[0]; auto &f = T.monos[t.m].f;
    if (t.c.one() && f.size() == 1 && f[0].second == 1) { auto A = T.atoms[f[0].first];
      if (A.k == A_ATAN2) { PolyId y = A.a, x = A.b; double rr = sqrtPoly(T.add(T.mul(x, x), T.mul(y, y))); PolyId r = polyOf(rr); PolyId v = T.mul(sine ? y : x, T.inv(r)); return (sine && neg) ? T.neg(v) : v; }
      if (A.k == A_FN && (A.name == "asin" || A.name == "acos")) { bool direct = (A.name == "asin") == sine; PolyId v; if (direct) v = A.a; else v = polyOf(sqrtPoly(T.sub(T.cst(1), T.mul(A.a, A.a)))); return (sine && neg) ? T.neg(v) : v; } } }
  Atom A; A.k = sine ? A_SIN : A_COS; A.a = use; A.lo = -1; A.hi = 1; PolyId r = T.patom(T.atom(A)); return (sine && neg) ? T.neg(r) : r;
}
static PolyId trig(bool sine, PolyId p) {
  auto t = T.polys[p].t;
  if (t.empty()) return sine ? 0 : T.cst(1);
  if (t.size() == 1) {
    if (t[0].m) return trigAtom(sine, p);
    double v = t[0].c.toDouble(); double k = v / M_PI_2; double rk = std::round(k);
    if (std::fabs(k - rk) < 1e-15 * std::max(1.0, std::fabs(k))) { int q = (((i64)rk % 4) + 4) % 4; static const int S[4] = {0, 1, 0, -1}; return T.cst(S[sine ? q : (q + 1) % 4]); }
    return T.cst(Rat::fromDouble(sine ? std::sin(v) : std::cos(v)));
  }
  // sin(x+y), x = first term (constant or monomial)
  PolyId x = T.poly({t[0]}), y = T.poly(std::vector<Term>(t.begin() + 1, t.end()));
  PolyId sx = trig(true, x), cx = trig(false, x), sy = trig(true, y), cy = trig(false, y);
  return sine ? T.add(T.mul(sx, cy), T.mul(cx, sy)) : T.sub(T.mul(cx, cy), T.mul(sx, sy));
}
API double __ns_m_sin(double a) { if (!isSym(a)) return std::sin(a); Eng e; return box(trig(true, idOf(a))); }
API double __ns_m_cos(double a) { if (!isSym(a)) return std::cos(a); Eng e; return box(trig(false, idOf(a))); }
API double __ns_m_tan(double a) { if (!isSym(a)) return std::tan(a); return __ns_div(__ns_m_sin(a), __ns_m_cos(a)); }
static double fnAtom(const char *n, PolyId a, double lo, double hi) { Atom A; A.k = A_FN; A.name = n; A.a = T.ratsimp(a); A.lo = lo; A.hi = hi; return box(T.patom(T.atom(A))); }
API double __ns_m_asin(double a) { if (!isSym(a)) return std::asin(a); Eng e; if (branchOn(T.sub(idOf(a), T.cst(1)), POS)) return NAN; if (branchOn(T.add(idOf(a), T.cst(1)), NEG)) return NAN; return fnAtom("asin", idOf(a), -1.5707963267948968, 1.5707963267948968); }
API double __ns_m_acos(double a) { if (!isSym(a)) return std::acos(a); Eng e; if (branchOn(T.sub(idOf(a), T.cst(1)), POS)) return NAN; if (branchOn(T.add(idOf(a), T.cst(1)), NEG)) return NAN; return fnAtom("acos", idOf(a), 0, 3.1415926535897936); }
API double __ns_m_atan2(double y, double x) {
  if (!isSym(y) && !isSym(x)) return std::atan2(y, x); Eng e; 
  PolyId py = T.ratsimp(polyOf(y)), px = T.ratsimp(polyOf(x));
  // y = w*sin(t), x = w*cos(t), w > 0, t within (-pi, pi]
  for (auto &ty : T.polys[py].t) { bool done = false;
    for (auto &f : T.monos[ty.m].f) if (T.atoms[f.first].k == A_SIN && f.second == 1) {
      PolyId arg = T.atoms[f.first].a; Itv r = polyItv(arg); if (!(r.lo >= -3.14159265358979312 - 1e-15 && r.hi <= 3.14159265358979312 + 1e-15)) continue;
      // w = py / sin
      PolyId w = T.mul(py, T.patom(f.first, -1)); bool clean = true; for (auto &z : T.polys[w].t) for (auto &g : T.monos[z.m].f) if (g.second < 0 && g.first == f.first) clean = false; if (!clean) continue;
      Atom c; c.k = A_COS; c.a = arg; c.lo = -1; c.hi = 1; PolyId xc = T.mul(w, T.patom(T.atom(c)));
      if (T.sub(xc, px) == 0) { if (branchOn(w, POS)) return box(arg); }
      done = true; break; }
    if (done) break; }
  if (!px && isSym(y)) { if (branchOn(py, POS)) return M_PI_2; if (branchOn(py, NEG)) return -M_PI_2; return 0; }
  if (!py && isSym(x)) { if (branchOn(px, NEG)) return M_PI; return 0; }
  Atom A; A.k = A_ATAN2; A.a = py; A.b = px; A.lo = -3.1415926535897936; A.hi = 3.1415926535897936; return box(T.patom(T.atom(A)));
}
API double __ns_m_atan(double a) { if (!isSym(a)) return std::atan(a); return __ns_m_atan2(a, 1.0); }
API double __ns_m_hypot(double a, double b) { if (!isSym(a) && !isSym(b)) return std::hypot(a, b); return __ns_m_sqrt(__ns_add(__ns_mul(a, a), __ns_mul(b, b))); }
API double __ns_m_fmin(double a, double b) { if (!isSym(a) && !isSym(b)) return std::fmin(a, b); if (!isSym(a) && std::isnan(a)) return b; if (!isSym(b) && std::isnan(b)) return a; return __ns_fcmp(4, b, a) ? b : a; }
API double __ns_m_fmax(double a, double b) { if (!isSym(a) && !isSym(b)) return std::fmax(a, b); if (!isSym(a) && std::isnan(a)) return b; if (!isSym(b) && std::isnan(b)) return a; return __ns_fcmp(4, a, b) ? b : a; }
API double __ns_m_copysign(double a, double b) { if (!isSym(a) && !isSym(b)) return std::copysign(a, b); double m = __ns_m_fabs(a); return __ns_fcmp(4, b, 0.0) ? __ns_neg(m) : m; }
API double __ns_m_fmod(double a, double b) {
  if (!isSym(a) && !isSym(b)) return std::fmod(a, b); double q = __ns_div(a, b); double k = isSym(q) ? __ns_m_trunc(q) : std::trunc(q); return __ns_sub(a, __ns_mul(k, b)); }
API double __ns_m_remainder(double a, double b) { if (!isSym(a) && !isSym(b)) return std::remainder(a, b); double q = __ns_div(a, b); double k = __ns_m_round(q); return __ns_sub(a, __ns_mul(k, b)); }
#define UNF(N) API double __ns_m_##N(double a) { if (!isSym(a)) return std::N(a); note("unsupported function " #N); ST.incomplete++; endPath(E_UNSUP); }
UNF(cbrt) UNF(tanh) UNF(sinh) UNF(cosh) UNF(erf) UNF(erfc)
API const double *__ns_stdmin(const double *a, const double *b) {
  if (f_itemin && (isSym(*a) || isSym(*b)) && (isSym(*a) || std::isfinite(*a)) && (isSym(*b) || std::isfinite(*b))) { Eng e; PolyId x = polyOf(*a), y = polyOf(*b);
    double *r = (double *)aalloc(8, 16); *r = box(mkIte(T.sub(y, x), NEG, y, x)); return r; }
  return __ns_fcmp(4, *b, *a) ? b : a;
}
API const double *__ns_stdmax(const double *a, const double *b) {
  if (f_itemin && (isSym(*a) || isSym(*b)) && (isSym(*a) || std::isfinite(*a)) && (isSym(*b) || std::isfinite(*b))) { Eng e; PolyId x = polyOf(*a), y = polyOf(*b);
    double *r = (double *)aalloc(8, 16); *r = box(mkIte(T.sub(x, y), NEG, y, x)); return r; }
  return __ns_fcmp(4, *a, *b) ? b : a;
}

// ------------------------------------------------------------------ concretisation of a path
// returns candidate input vectors
static bool numHolds(const std::vector<Con> &cs, double slack) {
  numc.clear();
  for (auto &c : cs) { double v = num(c.p); if (std::isnan(v)) return false; if (std::fabs(v) <= slack) { if (c.m & ZER) continue; if (slack > 0) continue; return false; } int b = v < 0 ? NEG : POS; if (!(c.m & b)) return false; }
  return true;
}
static void loadInputs(const std::vector<double> &v) { numv.clear(); numc.clear(); for (size_t i = 0; i < inputs.size(); ++i) numv[inputs[i].a] = v[i]; }
static double snapBounds(double v, const Input &in) { return std::min(std::max(v, in.lo), in.hi); }
static std::vector<std::vector<double>> concretise(const std::vector<Con> &cs, int want) {
  std::vector<std::vector<double>> res; bool hard = anyHard(cs); z3::context &c = ZZ->c;
  auto add = [&](std::vector<double> v) { for (auto &r : res) if (r == v) return; res.push_back(v); };
  std::vector<AtomId> at; std::set<AtomId> negs; std::set<PolyId> seen; for (auto &k : cs) { addSup(at, support(k.p).at); collectNeg(k.p, negs, seen); }
  for (auto &in : inputs) addSup(at, {in.a});
  auto grab = [&](z3::model m) {
    std::vector<double> v;
    for (auto &in : inputs) {
      z3::expr e = m.eval(ZZ->atomE(in.a), true); double x = 0;
      if (e.is_numeral()) { mpq_class q; if (q.set_str(Z3_get_numeral_string(c, e), 10) == 0) x = Rat::big(q).toDouble(); }
      else if (e.is_algebraic()) x = atof(e.get_decimal_string(20).c_str());
      v.push_back(snapBounds(in.isint ? std::round(x) : x, in));
    }
    return v;
  };
  if (!hard) {
    for (int sh : {0, 6, 16}) {
      try {
        z3::solver s(c); z3::params pr(c); pr.set("rlimit", 20000000u); pr.set("timeout", 2000u); s.set(pr);
        for (auto &k : cs) s.add(ZZ->maskE(ZZ->polyE(k.p), k.m));
        for (AtomId a : at) { auto &A = T.atoms[a]; z3::expr e = ZZ->atomE(a); if (A.lo > -INFINITY) s.add(e >= ZZ->num(Rat::fromDouble(A.lo))); if (A.hi < INFINITY) s.add(e <= ZZ->num(Rat::fromDouble(A.hi)));
          if (A.k == A_VAR) { z3::expr z = c.int_const(("z" + std::to_string(a)).c_str()); s.add(e * (int)(1 << sh) == z3::to_real(z)); } }
        if (s.check() == z3::sat) { add(grab(s.get_model())); if ((int)res.size() >= want) return res; if (sh == 0 && want == 1) return res; }
      } catch (z3::exception &) {}
      if (!res.empty() && want == 1) return res;
    }
  }
  { std::optional<z3::model> m; if (nlCheck(cs, &m, OPT_RLIMIT) == SAT && m) { auto v = grab(*m); add(v); 
      for (double g : {1.0, 1024.0}) { auto w = v; for (size_t i = 0; i < w.size(); ++i) if (!inputs[i].isint) w[i] = snapBounds(std::round(w[i] * g) / g, inputs[i]); add(w); }
      // logs of plain inputs: make the input follow the log
      auto w = v; bool ch = false; for (size_t i = 0; i < inputs.size(); ++i) { Atom L; L.k = A_LOG; L.a = T.patom(inputs[i].a); AtomId la = T.atom(L); if (std::binary_search(at.begin(), at.end(), la)) { z3::expr e = m->eval(ZZ->atomE(la), true); double x = 0; 
          if (e.is_numeral()) { mpq_class q; if (q.set_str(Z3_get_numeral_string(c, e), 10) == 0) x = Rat::big(q).toDouble(); } else if (e.is_algebraic()) x = atof(e.get_decimal_string(20).c_str()); w[i] = snapBounds(std::exp(x), inputs[i]); ch = true; } }
      if (ch) res.insert(res.begin(), w);
      // sines and cosines of multiples of plain inputs: make the input follow the angle
      w = v; ch = false; for (AtomId a : at) { if (T.atoms[a].k != A_SIN && T.atoms[a].k != A_COS) continue; auto &t = T.polys[T.atoms[a].a].t; if (t.size() != 1) continue; auto &f = T.monos[t[0].m].f; if (f.size() != 1 || f[0].second != 1) continue;
        Atom x; x.k = A_SIN; x.a = T.atoms[a].a; x.lo = -1; x.hi = 1; Atom y = x; y.k = A_COS; auto val = [&](Atom z) { z3::expr e = m->eval(ZZ->atomE(T.atom(z)), true); double q = 0; if (e.is_numeral()) { mpq_class k; if (k.set_str(Z3_get_numeral_string(c, e), 10) == 0) q = Rat::big(k).toDouble(); } else if (e.is_algebraic()) q = atof(e.get_decimal_string(20).c_str()); return q; };
        for (size_t i = 0; i < inputs.size(); ++i) if (inputs[i].a == f[0].first) { w[i] = snapBounds(std::atan2(val(x), val(y)) / t[0].c.toDouble(), inputs[i]); ch = true; } }
      if (ch) res.insert(res.begin(), w); } }
  bool hardTrig = false; for (AtomId a : at) if (T.atoms[a].k == A_SIN || T.atoms[a].k == A_COS) hardTrig = true;
  // order: those satisfying all constraints numerically first
  std::stable_sort(res.begin(), res.end(), [&](auto &x, auto &y) { loadInputs(x); bool a = numHolds(cs, 0); loadInputs(y); bool b = numHolds(cs, 0); return a > b; });
  bool good = false; if (!res.empty()) { loadInputs(res[0]); good = numHolds(cs, 0) || (cs.size() && !hardTrig && numHolds(cs, 1e-12)); }
  if (!good || want >= 3) {  // search for consistent points among random inputs (only to make a counterexample concrete)
    std::mt19937_64 g(12345); std::vector<std::pair<double, std::vector<double>>> more; double t0 = now();
    for (int it = 0; it < 40000 && more.size() < (want >= 3 ? 24 : 1) && (it < 2000 || now() - t0 < 2); ++it) { std::vector<double> v; for (size_t i = 0; i < inputs.size(); ++i) { auto &in = inputs[i]; double lo = std::max(in.lo, -1000.0), hi = std::min(in.hi, 1000.0); double u = std::uniform_real_distribution<>(0, 1)(g);
        double x; int mode = it % 4; if (mode == 0 && !res.empty()) { x = res[0][i] + (u - 0.5) * (hi - lo) * 0.1; } else if (mode == 1) x = lo + u * (hi - lo); else if (mode == 2) x = lo + (hi - lo) * std::pow(u, 6); else { static const double sp[5] = {0, 1, 0.5, 0.25, 0.75}; x = lo + (hi - lo) * sp[(int)(u * 4.999)]; }
        if (in.isint) x = !res.empty() && it % 8 < 6 ? res[0][i] : std::round(x); v.push_back(snapBounds(x, in)); }
      loadInputs(v); if (numHolds(cs, 0)) more.push_back({cs.empty() ? 0 : -std::fabs(num(cs.back().p)), v}); }
    if (!good && !more.empty()) res.insert(res.begin(), more[0].second);
    std::stable_sort(more.begin(), more.end(), [](auto &x, auto &y) { return x.first < y.first; });   // the clearest violations
    if (want >= 3) for (size_t i = 0; i < more.size() && i < 3; ++i) res.insert(res.begin() + std::min<size_t>(res.size(), 1 + 2 * i), more[i].second);
  }
  return res;
}
static std::string esc(const std::string &s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r.push_back('\\'); r.push_back(c); } else if ((unsigned char)c < 32) r.push_back(' '); else r.push_back(c); } return r; }
static void emitCand(const std::string &msg, const std::vector<std::vector<double>> &cand);
// numeric search for an input on this path where q has a sign in mask bad, clearly
static bool witness(PolyId q, int bad, std::vector<double> &w) {
  std::mt19937_64 g(777); double t0 = now();
  for (int it = 0; it < 20000 && now() - t0 < 2; ++it) { std::vector<double> v; for (auto &in : inputs) { double u = std::uniform_real_distribution<>(0, 1)(g), lo = in.lo, hi = in.hi; double x = it % 3 == 0 ? lo + u * (hi - lo) : it % 3 == 1 ? std::min(std::max(0.0, lo), hi) + (u - 0.5) * (hi - lo) * std::pow(10.0, -4 * std::uniform_real_distribution<>(0, 1)(g)) : std::round(lo + u * (hi - lo)); if (in.isint) x = std::round(x); v.push_back(snapBounds(x, in)); }
    loadInputs(v); if (!numHolds(cons, 0)) continue; double mag = 0; for (auto &x : T.polys[q].t) { double m = std::fabs(x.c.toDouble()); for (auto &f : T.monos[x.m].f) m *= std::pow(std::fabs(numAtom(f.first)), f.second); mag += m; } double r = num(q); if (std::isnan(r) || std::fabs(r) <= 1e-7 * mag) continue; if ((r < 0 ? NEG : POS) & bad) { w = v; return true; } }
  return false;
}
static void emitViolation(const std::string &msg, const std::vector<Con> &cs) {
  if (violcount[msg] >= OPT_MAXVIOL) { ST.viol++; __sync_fetch_and_add(&SH->viol, 1); violcount[msg]++; return; }
  emitCand(msg, concretise(cs, 3));
}
static void emitCand(const std::string &msg, const std::vector<std::vector<double>> &cand) {
  ST.viol++; __sync_fetch_and_add(&SH->viol, 1); violcount[msg]++;
  fprintf(out, "{\"t\":\"viol\",\"msg\":\"%s\",\"names\":[", esc(msg).c_str()); for (size_t i = 0; i < inputs.size(); ++i) fprintf(out, "%s\"%s\"", i ? "," : "", esc(inputs[i].name).c_str());
  fprintf(out, "],\"cands\":["); for (size_t k = 0; k < cand.size() && k < 8; ++k) { fprintf(out, "%s[", k ? "," : ""); for (size_t i = 0; i < cand[k].size(); ++i) fprintf(out, "%s\"%a\"", i ? "," : "", cand[k][i]); fprintf(out, "]"); }
  fprintf(out, "]}\n"); fflush(out);
  if (SH->viol > 200) SH->stop = 1;
}
[[noreturn]] static void violation(const std::string &msg) { { Eng e; std::string m = msg; auto cs = cons; emitViolation(m, cs); } endPath(E_VIOL); }

// ------------------------------------------------------------------ harness API
// printing: a symbolic value becomes a token that ns_parse reads back
API std::ostream *__ns_print(std::ostream *o, double v) { if (!isSym(v)) return &(*o << v); char b[32]; u64 x; memcpy(&x, &v, 8); snprintf(b, sizeof b, "#%016llx", (unsigned long long)x); return &(*o << b); }
API double ns_parse(const char *s, const char **end) { if (*s == '#') { char b[17] = {0}; memcpy(b, s + 1, strnlen(s + 1, 16)); u64 x = strtoull(b, nullptr, 16); double v; memcpy(&v, &x, 8); if (end) *end = s + 1 + strlen(b); return v; } char *e; double v = strtod(s, &e); if (end) *end = e; return v; }
API int ns_symbolic() { return 1; }
API int ns_issym(double a) { return isSym(a); }
API void ns_unsupported(const char *m) { Eng e; note(m); ST.incomplete++; endPath(E_UNSUP); }
static double newInput(const char *name, double lo, double hi, bool grid, bool isint) {
  Eng e; std::string nm = std::string(name) + "#" + std::to_string(inputs.size()); Atom A; A.k = A_VAR; A.name = nm; A.lo = lo; A.hi = hi; AtomId a = T.atom(A); inputs.push_back({name, a, lo, hi, grid, isint}); return box(T.patom(a));
}
API double ns_real(const char *n, double lo, double hi) { return newInput(n, lo, hi, false, false); }
API double ns_grid(const char *n, double lo, double hi) { return newInput(n, lo, hi, true, false); }
API int ns_int(const char *n, int lo, int hi) {
  double v = newInput(n, lo, hi, true, true); Eng e; PolyId p = idOf(v);
  for (int k = lo; k < hi; ++k) if (branchOn(T.sub(p, T.cst(Rat::make(2 * k + 1, 2))), NEG)) return k;  // value = nearest integer
  return hi;
}
API void ns_assume(int c) { if (!c) { ST.pruned++; ST.assume_false++; endPath(E_ASSUME); } }
API void ns_flag(const char *n, int v) { if (!strcmp(n, "itemin")) f_itemin = v; else if (!strcmp(n, "havoc")) f_havoc = v; }
API void ns_reach(const char *l) { Eng e; reached.insert(l); }
API void ns_observe(const char *n, double v) { Eng e; obs.push_back({n, v}); }
API void ns_check(int c, const char *msg) {
  ++n_checks_path; ST.chk++; { Eng e; chkcount[msg]++; }
  if (c) { ST.chk_conc++; return; }
  violation(msg);
}
static bool checkMask(PolyId p0, int m0, const char *msg) {  // must hold: sign(p0) in m0
  Eng e;
  int s; PolyId p = signForm(p0, s); int m = s < 0 ? flipmask(m0) : m0;
  if (T.isConst(p)) { int z = T.constOf(p).sign(); if (m & (z < 0 ? NEG : z > 0 ? POS : ZER)) { ST.chk_norm++; return true; } emitViolation(msg, cons); return false; }
  Rat c; PolyId q = T.canon(p, c); if (c.sign() < 0) m = flipmask(m);
  int k = quickMask(q); if (!(k & ~m)) { ST.chk_norm++; return true; }
  int bad = k & ~m; bool unk = false;
  for (int b : {NEG, POS, ZER}) {
    if (!(bad & b)) continue;
    Res r; bool hv = f_havoc; f_havoc = false; 
    bool polyhard = support(q).hard;
    // prefer a counterexample with a margin, then any
    if (b != ZER && !polyhard) { Rat mg = Rat(1); PolyId qq = b == POS ? T.sub(q, T.cst(mg)) : T.add(q, T.cst(mg)); r = T.isConst(qq) ? UNSAT : feasible(qq, b, false); if (r == SAT) { auto cs = cons; cs.push_back({qq, b}); emitViolation(msg, cs); f_havoc = hv; return false; } }
    r = feasible(q, b, false); f_havoc = hv;
    if (r == UNSAT) continue;
    if (r == UNK) { unk = true; // try to find a witness numerically anyway
      continue; }
    auto cs = cons; cs.push_back({q, b}); emitViolation(msg, cs); return false;
  }
  if (unk) {  // no answer from the solver: look for a concrete witness (it counts only when the native build reproduces it)
    std::vector<double> w; if (violcount[msg] < OPT_MAXVIOL && witness(q, bad, w)) { emitCand(msg, {w}); return false; }
    ST.chk_unknown++; note(std::string("solver gave no answer for: ") + msg); return true; }
  ST.chk_solver++;
  // remember the proven fact on this path (not a decision, it is implied)
  auto it = known.find(q); if (it == known.end()) known[q] = k & m; else if (it->second & m) it->second &= m;
  return true;
}
// |N/D| <= tol for the fraction in lowest form the term layer knows, by interval bounds of N and D
static bool nearZero(PolyId p, double tol) {
  Itv D{1, 1}; AtomId a; int k, g = 0;
  while (T.clearStep(p, a, k) && g++ < 16) { D = imul(D, ipow(polyItv(T.baseOf(a)), k)); p = T.clearBy(p, a, k); }
  double m = D.lo > 0 ? D.lo : D.hi < 0 ? -D.hi : 0; Itv N = polyItv(p); return m > 0 && N.lo >= -tol * m && N.hi <= tol * m;
}
static bool concTol(double a, double b, double tol) { return std::fabs(a - b) <= tol * std::max(1.0, std::max(std::fabs(a), std::fabs(b))); }
API void ns_check_eq(double a, double b, double tol, const char *msg) {
  ++n_checks_path; ST.chk++; { Eng e; chkcount[msg]++; }
  bool sa = isSym(a), sb = isSym(b);
  if (!sa && !sb) { bool ok = a == b || concTol(a, b, tol); if (std::isnan(a) || std::isnan(b)) ok = false; if (ok) { ST.chk_conc++; return; } violation(msg); }
  if ((!sa && !std::isfinite(a)) || (!sb && !std::isfinite(b))) violation(msg);
  bool ok; { Eng e; PolyId d = T.sub(polyOf(a), polyOf(b)); Itv r = polyItv(d); if ((r.lo >= -tol && r.hi <= tol) || nearZero(d, tol)) { ST.chk_norm++; ok = true; } else ok = checkMask(d, ZER, msg); }
  if (!ok) endPath(E_VIOL);
}
API void ns_check_le(double a, double b, double tol, const char *msg) {
  ++n_checks_path; ST.chk++; { Eng e; chkcount[msg]++; }
  bool sa = isSym(a), sb = isSym(b);
  if (!sa && !sb) { bool ok = a <= b || concTol(a, b, tol); if (ok) { ST.chk_conc++; return; } violation(msg); }
  if (!sa && !std::isfinite(a)) { if (a == -INFINITY) return; violation(msg); }
  if (!sb && !std::isfinite(b)) { if (b == INFINITY) return; violation(msg); }
  bool ok; { Eng e; ok = checkMask(T.sub(polyOf(a), polyOf(b)), NEG | ZER, msg); }
  if (!ok) endPath(E_VIOL);
}
API void ns_must_eq0(double a) { int c = __ns_fcmp(1, a, 0.0); ns_assume(c); }

API void __assert_fail(const char *x, const char *f, unsigned l, const char *) {
  std::string s = std::string("assertion failed: ") + x + " at " + (strrchr(f, '/') ? strrchr(f, '/') + 1 : f) + ":" + std::to_string(l);
  if (!in_path || in_engine) { fprintf(stderr, "%s\n", s.c_str()); _exit(99); }
  violation(s);
}

// ------------------------------------------------------------------ memory events (race detection), filled in by race.cpp hooks
static void (*mem_hook)(void *, i64, int) = nullptr;
API void __ns_set_memhook(void (*h)(void *, i64, int)) { mem_hook = h; }
API void __ns_load(void *p, i64 n) { if (mem_hook && in_path && !in_engine) mem_hook(p, n, 0); }
API void __ns_store(void *p, i64 n) { if (mem_hook && in_path && !in_engine) mem_hook(p, n, 1); }
API void __ns_violation(const char *m) { violation(m); }
API int __ns_inpath() { return in_path && !in_engine; }

// ------------------------------------------------------------------ paths
static std::vector<char> gsnap; static char *stack_hi;
static void snapGlobals() { size_t n = 0; for (auto &g : globs()) n += g.n; gsnap.resize(n); size_t o = 0; for (auto &g : globs()) { memcpy(&gsnap[o], g.p, g.n); o += g.n; } }
static void restoreGlobals() { size_t o = 0; for (auto &g : globs()) { memcpy(g.p, &gsnap[o], g.n); o += g.n; } }
static volatile u64 tick_path = ~0ULL; static volatile int tick_n = 0;
static void onSig(int s) {
  if (s == SIGALRM) {
    if (!in_path) return; if (tick_path != path_no) { tick_path = path_no; tick_n = 0; return; }
    if (in_engine) return; if (++tick_n < 12) return;
    sigset_t ss; sigemptyset(&ss); sigaddset(&ss, SIGALRM); sigprocmask(SIG_UNBLOCK, &ss, 0); violation("does not terminate");
  }
  sigset_t ss; sigemptyset(&ss); sigaddset(&ss, s); sigprocmask(SIG_UNBLOCK, &ss, 0);
  if (in_path && !in_engine) violation(s == SIGSEGV || s == SIGBUS ? "crash: invalid memory access" : s == SIGFPE ? "crash: arithmetic exception" : "crash: abort");
  char buf[64]; int n = snprintf(buf, 64, "engine crash: signal %d\n", s); (void)!write(2, buf, n); _exit(98);
}
static void writePathSample(EndKind k) {
  Eng e; auto cs = cons; auto cand = concretise(cs, 1); if (cand.empty()) return; loadInputs(cand[0]); bool good = numHolds(cs, 0);
  fprintf(out, "{\"t\":\"path\",\"good\":%d,\"end\":%d,\"names\":[", (int)good, (int)k); for (size_t i = 0; i < inputs.size(); ++i) fprintf(out, "%s\"%s\"", i ? "," : "", esc(inputs[i].name).c_str());
  fprintf(out, "],\"in\":["); for (size_t i = 0; i < cand[0].size(); ++i) fprintf(out, "%s\"%a\"", i ? "," : "", cand[0][i]); fprintf(out, "],\"obs\":[");
  for (size_t i = 0; i < obs.size(); ++i) { double v = isSym(obs[i].v) ? num(idOf(obs[i].v)) : obs[i].v; fprintf(out, "%s[\"%s\",\"%a\"]", i ? "," : "", esc(obs[i].name).c_str(), v); }
  fprintf(out, "]}\n"); fflush(out);
}
static int samples_done = 0;
static void runPath(void (*h)()) {
  ++path_no; pos = 0; cons.clear(); known.clear(); refined.clear(); ivcache.clear(); inputs.clear(); obs.clear(); reached.clear(); f_itemin = f_havoc = false; n_checks_path = 0; arp = 4096;
  restoreGlobals(); in_engine = 0; path_end = E_OK; 
  if (sigsetjmp(path_jb, 1) == 0) {
    in_path = 1;
    try { h(); } catch (const std::exception &ex) { std::string m = "exception: "; m += ex.what(); violation(m); } catch (...) { violation("exception"); }
  }
  in_path = 0; in_engine = 0; ST.paths++;
  switch (path_end) { case E_OK: ST.ok++; if (n_checks_path) ST.checked_paths++; for (auto &r : reached) reachcount[r]++; break; case E_UNSUP: ST.unsup++; break; case E_LIMIT: ST.limit++; break; default: break; }
  if (path_end == E_OK && samples_done < OPT_SAMPLES) { u64 hsh = 0; for (auto &d : decs) hsh = mix(hsh, d.out); if (samples_done < 3 || path_no < 20 || mix(hsh, path_no) % 64 == 0) { ++samples_done; writePathSample(path_end); } }
}
static void resetTerms() {  // bound memory: drop all terms and the solver; prefixes are replayed from outcomes only
  delete ZZ; T.clear(); supc.clear(); known.clear(); refined.clear(); ivcache.clear(); numc.clear(); numv.clear(); ZZ = new Z(); for (auto &d : decs) d.asserted = false;
}
static bool nextLocal() {  // backtrack to the deepest pending alternative
  while (!decs.empty() && !decs.back().alt) { if (decs.back().asserted) zpop(); decs.pop_back(); }
  if (decs.empty()) return false;
  Dec &d = decs.back(); if (d.asserted) zpop(); d.asserted = false; d.out = !d.out; d.alt = false; ZZ->have_model = false; return true;
}
static void worker(void (*h)(), bool first) {
  bool have = first; u64 cnt = 0;
  for (;;) {
    if (!have) {
      pthread_mutex_lock(&SH->mu); SH->idle++;
      while (SH->nq == 0 && !SH->done) { if (SH->idle == SH->total) { SH->done = 1; pthread_cond_broadcast(&SH->cv); break; } timespec ts; clock_gettime(CLOCK_REALTIME, &ts); ts.tv_sec += 1; pthread_cond_timedwait(&SH->cv, &SH->mu, &ts); }
      if (SH->nq == 0) { pthread_mutex_unlock(&SH->mu); return; }
      int s = --SH->nq; zpop(ZZ->level); decs.clear(); for (int j = 0; j < SH->qlen[s]; ++j) decs.push_back({SH->q[s][j].o, false, SH->q[s][j].h, false}); SH->idle--;
      pthread_mutex_unlock(&SH->mu); ZZ->have_model = false; have = true;
    }
    if (SH->stop) { if (!decs.empty() || cnt == 0) ST.incomplete++; decs.clear(); have = false; zpop(ZZ->level); if (timeUp()) { // drain
        pthread_mutex_lock(&SH->mu); SH->nq = 0; pthread_mutex_unlock(&SH->mu); } continue; }
    runPath(h); ++cnt;
    if (T.polys.size() > 3000000 || T.monos.size() > 1500000 || (cnt % 4096 == 0 && T.polys.size() > 1000000)) { size_t n = decs.size(); (void)n; resetTerms(); }
    if (!nextLocal()) have = false;
    if (SH->idle > 0 && have) donate();
  }
}
static void report() {
  std::set<std::string> fns; for (auto &c : covs()) for (size_t i = 0; i < c.names.size(); ++i) if (c.p[i]) fns.insert(c.names[i]);
  fprintf(out, "{\"t\":\"stats\"");
#define S(x) fprintf(out, ",\"" #x "\":%.6g", ST.x);
  S(paths) S(ok) S(pruned) S(viol) S(unsup) S(limit) S(branches) S(forced) S(q_lin) S(q_nl) S(unknown) S(q_sat) S(q_unsat) S(t_lin) S(t_nl) S(chk) S(chk_norm) S(chk_solver) S(chk_conc) S(chk_unknown) S(havoc) S(maxdepth) S(incomplete) S(checked_paths)
  fprintf(out, ",\"terms\":%zu,\"fns\":[", T.polys.size()); bool f = true; for (auto &s : fns) { fprintf(out, "%s\"%s\"", f ? "" : ",", esc(s).c_str()); f = false; }
  fprintf(out, "],\"reach\":{"); f = true; for (auto &s : reachcount) { fprintf(out, "%s\"%s\":%ld", f ? "" : ",", esc(s.first).c_str(), s.second); f = false; }
  fprintf(out, "},\"checks\":{"); f = true; for (auto &s : chkcount) { fprintf(out, "%s\"%s\":%ld", f ? "" : ",", esc(s.first).c_str(), s.second); f = false; }
  fprintf(out, "},\"notes\":["); f = true; for (auto &s : notes) { fprintf(out, "%s\"%s\"", f ? "" : ",", esc(s).c_str()); f = false; }
  fprintf(out, "]}\n"); fflush(out);
}
API int ns_main(int argc, char **argv) {
  for (int i = 1; i < argc; ++i) { std::string a = argv[i]; auto v = [&] { return std::string(argv[++i]); };
    if (a == "--time") OPT_TIME = atof(v().c_str()); else if (a == "--workers") OPT_WORKERS = atoi(v().c_str()); else if (a == "--samples") OPT_SAMPLES = atoi(v().c_str());
    else if (a == "--out") OPT_OUT = v(); else if (a == "--rlimit") OPT_RLIMIT = atoi(v().c_str()); else if (a == "--nlms") OPT_NLMS = atoi(v().c_str()); else if (a == "--list") { for (auto &r : regs()) puts(r.n.c_str()); return 0; } else OPT_HARNESS = a; }
  void (*h)() = nullptr; for (auto &r : regs()) if (r.n == OPT_HARNESS) h = r.f; if (!h) { fprintf(stderr, "no harness %s\n", OPT_HARNESS.c_str()); return 2; }
  SH = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  pthread_mutexattr_t ma; pthread_mutexattr_init(&ma); pthread_mutexattr_setpshared(&ma, PTHREAD_PROCESS_SHARED); pthread_mutex_init(&SH->mu, &ma);
  pthread_condattr_t ca; pthread_condattr_init(&ca); pthread_condattr_setpshared(&ca, PTHREAD_PROCESS_SHARED); pthread_cond_init(&SH->cv, &ca);
  SH->total = OPT_WORKERS; SH->idle = 0;
  AR = (char *)mmap((void *)0x100000000000ULL, ARN, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (AR == MAP_FAILED) { fprintf(stderr, "arena\n"); return 2; }
  stack_t ss; ss.ss_sp = malloc(1 << 18); ss.ss_size = 1 << 18; ss.ss_flags = 0;
  snapGlobals(); t_start = now(); std::vector<pid_t> kids;
  for (int w = 0; w < OPT_WORKERS; ++w) {
    pid_t p = fork();
    if (p == 0) {
      wid = w; std::string fn = OPT_OUT + "." + std::to_string(w); out = fopen(fn.c_str(), "w"); if (!out) _exit(3);
      sigaltstack(&ss, 0); struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onSig; sa.sa_flags = SA_ONSTACK; for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGABRT}) sigaction(s, &sa, 0);
      sa.sa_flags = SA_RESTART; sigaction(SIGALRM, &sa, 0); itimerval it; it.it_interval.tv_sec = 1; it.it_interval.tv_usec = 0; it.it_value = it.it_interval; setitimer(ITIMER_REAL, &it, 0);
      ZZ = new Z(); worker(h, w == 0); report(); fclose(out); _exit(0);
    }
    kids.push_back(p);
  }
  int bad = 0, live = kids.size();
  while (live > 0) { int st; pid_t p = waitpid(-1, &st, 0); if (p < 0) break; --live;
    if (!WIFEXITED(st) || WEXITSTATUS(st)) { ++bad; fprintf(stderr, "worker %d ended abnormally (status %x)\n", p, st); SH->stop = 1; SH->done = 1; pthread_cond_broadcast(&SH->cv); SH->total--; 
      static bool armed = false; if (!armed) { armed = true; sleep(2); for (auto k : kids) if (k != p) kill(k, 0); } } }
  return bad ? 4 : 0;
}
