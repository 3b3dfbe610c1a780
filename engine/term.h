// Exact term layer of the symbolic runtime: polynomials with rational coefficients over hash-consed atoms.
#pragma once
#include <gmpxx.h>
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <deque>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>

using i64 = int64_t; using u64 = uint64_t; using u32 = uint32_t; using i128 = __int128;

struct Rat {
  i64 n = 0, d = 1;
  std::shared_ptr<const mpq_class> b;
  Rat() {}
  Rat(i64 v) : n(v) {}
  static i128 gcd(i128 a, i128 b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { i128 t = a % b; a = b; b = t; } return a; }
  static bool fits(i128 v) { return v <= std::numeric_limits<i64>::max() && v > std::numeric_limits<i64>::min(); }
  static Rat big(const mpq_class &q_) {
    mpq_class q(q_); q.canonicalize(); Rat r;
    if (q.get_num().fits_slong_p() && q.get_den().fits_slong_p() && q.get_num() != std::numeric_limits<long>::min()) {
      r.n = q.get_num().get_si(); r.d = q.get_den().get_si();
    } else r.b = std::make_shared<const mpq_class>(q);
    return r;
  }
  static mpz_class z128(i128 v) {
    bool neg = v < 0; unsigned __int128 u = neg ? -(unsigned __int128)v : v;
    mpz_class hi = (unsigned long)(u >> 64), lo = (unsigned long)(u & ~0ULL); mpz_class r = (hi << 64) + lo; return neg ? mpz_class(-r) : r;
  }
  static Rat make(i128 n, i128 d) {
    if (d < 0) { n = -n; d = -d; }
    i128 g = gcd(n, d); if (g > 1) { n /= g; d /= g; }
    if (fits(n) && fits(d)) { Rat r; r.n = (i64)n; r.d = (i64)d; return r; }
    return big(mpq_class(z128(n), z128(d)));
  }
  mpq_class q() const { return b ? *b : mpq_class(mpz_class((long)n), mpz_class((long)d)); }
  bool zero() const { return !b && n == 0; }
  bool one() const { return !b && n == 1 && d == 1; }
  bool isInt() const { return b ? b->get_den() == 1 : d == 1; }
  int sign() const { return b ? sgn(*b) : (n > 0) - (n < 0); }
  Rat operator-() const { if (b) return big(-*b); Rat r; r.n = -n; r.d = d; return r; }
  friend Rat operator+(const Rat &x, const Rat &y) {
    if (!x.b && !y.b) {
      if (x.d == 1 && y.d == 1) { i128 s = (i128)x.n + y.n; if (fits(s)) { Rat r; r.n = (i64)s; return r; } return make(s, 1); }
      i128 g = gcd(x.d, y.d), yd = y.d / g, xd = x.d / g, a, c, s, dd;
      if (!__builtin_mul_overflow((i128)x.n, yd, &a) && !__builtin_mul_overflow((i128)y.n, xd, &c) &&
          !__builtin_add_overflow(a, c, &s) && !__builtin_mul_overflow((i128)x.d, yd, &dd)) return make(s, dd);
    }
    return big(x.q() + y.q());
  }
  friend Rat operator-(const Rat &x, const Rat &y) { return x + (-y); }
  friend Rat operator*(const Rat &x, const Rat &y) {
    if (!x.b && !y.b) { if (x.one()) return y; if (y.one()) return x; return make((i128)x.n * y.n, (i128)x.d * y.d); }
    return big(x.q() * y.q());
  }
  Rat inv() const { if (!b) return make(d, n); return big(1 / *b); }
  friend Rat operator/(const Rat &x, const Rat &y) { return x * y.inv(); }
  friend bool operator==(const Rat &x, const Rat &y) { return x.b || y.b ? (x.b && y.b && *x.b == *y.b) : x.n == y.n && x.d == y.d; }
  friend bool operator<(const Rat &x, const Rat &y) { return (x - y).sign() < 0; }
  static Rat fromDouble(double v) {
    if (v == 0) return Rat(0);
    int e; double m = frexp(v, &e); i64 k = (i64)ldexp(m, 53); e -= 53;
    while (!(k & 1)) { k >>= 1; ++e; }
    if (e >= 0) { if (e < 62) return make((i128)k << e, 1); }
    else if (-e <= 62) return make(k, (i128)1 << -e);
    mpq_class q; mpz_class z((long)k), p; mpz_ui_pow_ui(p.get_mpz_t(), 2, std::abs(e));
    if (e >= 0) q = z * p; else q = mpq_class(z, p);
    return big(q);
  }
  double toDouble() const {
    if (!b) { if (d == 1) return (double)n; return (double)((long double)n / (long double)d); }
    // round to nearest: truncate to a bit more precision
    mpf_class f(*b, 200); 
    double t = f.get_d(); mpf_class r = f - mpf_class(t, 200);
    double t2 = std::nextafter(t, r > 0 ? INFINITY : -INFINITY);
    if (r != 0) { mpf_class r2 = mpf_class(t2, 200) - f; if (abs(r2) < abs(r)) return t2; }
    return t;
  }
  std::string str() const { return b ? b->get_str() : d == 1 ? std::to_string(n) : std::to_string(n) + "/" + std::to_string(d); }
  u64 hash() const { if (!b) return (u64)n * 0x9E3779B97F4A7C15ULL ^ ((u64)d * 0xC2B2AE3D27D4EB4FULL + 0x1234567); return std::hash<std::string>()(b->get_str()); }
};

inline u64 mix(u64 h, u64 v) { h ^= v + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; h ^= h >> 33; return h; }

enum AKind : uint8_t { A_VAR, A_SQRT, A_INV, A_ITE, A_EXP, A_LOG, A_SIN, A_COS, A_ATAN2, A_FN };
using PolyId = u32; using MonoId = u32; using AtomId = u32;
struct Term { MonoId m; Rat c; };
struct Atom {
  AKind k; PolyId a = 0, b = 0, cond = 0; int mask = 0; i64 den = 1; double lo = -INFINITY, hi = INFINITY; std::string name; u64 h = 0;
};
struct MonoS { std::vector<std::pair<AtomId, int>> f; u64 h; };
struct PolyS { std::vector<Term> t; u64 h; };
enum { NEG = 1, ZER = 2, POS = 4, ALLS = 7 };
inline int flipmask(int m) { return (m & ZER) | ((m & NEG) ? POS : 0) | ((m & POS) ? NEG : 0); }
struct Itv { double lo, hi; };
inline double dn(double x) { return std::nextafter(x, -INFINITY); }
inline double up(double x) { return std::nextafter(x, INFINITY); }
inline Itv iadd(Itv a, Itv b) { return {dn(a.lo + b.lo), up(a.hi + b.hi)}; }
inline double mulz(double a, double b) { return (a == 0 || b == 0) ? 0 : a * b; }
inline Itv imul(Itv a, Itv b) {
  double p[4] = {mulz(a.lo, b.lo), mulz(a.lo, b.hi), mulz(a.hi, b.lo), mulz(a.hi, b.hi)};
  double l = *std::min_element(p, p + 4), h = *std::max_element(p, p + 4);
  return {l == 0 ? 0 : dn(l), h == 0 ? 0 : up(h)};
}

struct Terms {
  std::deque<Atom> atoms; std::deque<MonoS> monos; std::deque<PolyS> polys;
  std::unordered_multimap<u64, u32> amap, mmap, pmap;
  std::unordered_map<u64, PolyId> addc, mulc; std::unordered_map<u32, PolyId> redc;
  std::unordered_map<u64, MonoId> mmulc;
  Terms() { clear(); }
  void clear() {
    atoms.clear(); monos.clear(); polys.clear(); amap.clear(); mmap.clear(); pmap.clear(); addc.clear(); mulc.clear(); redc.clear(); mmulc.clear();
    mono({}); poly({});  // MonoId 0 = 1 ; PolyId 0 = zero polynomial
  }
  AtomId atom(const Atom &a0) {
    Atom a = a0; u64 h = mix(a.k, 77);
    h = mix(h, polys.size() > a.a ? polys[a.a].h : 0); h = mix(h, polys.size() > a.b ? polys[a.b].h : 0);
    h = mix(h, polys[a.cond].h); h = mix(h, a.mask); h = mix(h, a.den); h = mix(h, std::hash<std::string>()(a.name));
    a.h = h;
    auto r = amap.equal_range(h);
    for (auto it = r.first; it != r.second; ++it) {
      auto &x = atoms[it->second];
      if (x.k == a.k && x.a == a.a && x.b == a.b && x.cond == a.cond && x.mask == a.mask && x.den == a.den && x.name == a.name) {
        x.lo = a.lo; x.hi = a.hi; return it->second; }
    }
    atoms.push_back(a); amap.emplace(h, atoms.size() - 1); return atoms.size() - 1;
  }
  MonoId mono(std::vector<std::pair<AtomId, int>> f) {
    u64 h = 11; for (auto &x : f) h += mix(mix(atoms[x.first].h, (u64)x.second), 17) * 0x9E3779B97F4A7C15ULL;
    auto r = mmap.equal_range(h);
    for (auto it = r.first; it != r.second; ++it) if (monos[it->second].f == f) return it->second;
    monos.push_back({std::move(f), h}); mmap.emplace(h, monos.size() - 1); return monos.size() - 1;
  }
  // terms must be sorted by MonoId and nonzero
  PolyId poly(std::vector<Term> t) {
    u64 h = 5; for (auto &x : t) h += mix(monos[x.m].h, x.c.hash()) * 0x9E3779B97F4A7C15ULL;
    h = mix(h, t.size());
    auto r = pmap.equal_range(h);
    for (auto it = r.first; it != r.second; ++it) {
      auto &o = polys[it->second].t; if (o.size() != t.size()) continue;
      bool eq = true; for (size_t i = 0; i < t.size() && eq; ++i) eq = o[i].m == t[i].m && o[i].c == t[i].c;
      if (eq) return it->second;
    }
    polys.push_back({std::move(t), h}); pmap.emplace(h, polys.size() - 1); return polys.size() - 1;
  }
  PolyId cst(const Rat &r) { if (r.zero()) return 0; return poly({{0, r}}); }
  PolyId pmono(MonoId m, const Rat &c = Rat(1)) { if (c.zero()) return 0; return poly({{m, c}}); }
  PolyId patom(AtomId a, int e = 1) { return reduce(mono({{a, e}})); }
  bool isConst(PolyId p) { auto &t = polys[p].t; return t.empty() || (t.size() == 1 && t[0].m == 0); }
  Rat constOf(PolyId p) { auto &t = polys[p].t; return t.empty() ? Rat(0) : t[0].c; }
  PolyId add(PolyId a, PolyId b, bool cache = true) {
    if (!a) return b; if (!b) return a;
    if (a > b) std::swap(a, b);
    u64 key = ((u64)a << 32) | b;
    if (cache) { auto it = addc.find(key); if (it != addc.end()) return it->second; }
    const auto &x = polys[a].t; const auto &y = polys[b].t; std::vector<Term> r; r.reserve(x.size() + y.size());
    size_t i = 0, j = 0;
    while (i < x.size() || j < y.size()) {
      if (j == y.size() || (i < x.size() && x[i].m < y[j].m)) r.push_back(x[i++]);
      else if (i == x.size() || y[j].m < x[i].m) r.push_back(y[j++]);
      else { Rat c = x[i].c + y[j].c; if (!c.zero()) r.push_back({x[i].m, c}); ++i; ++j; }
    }
    PolyId p = poly(std::move(r)); if (cache) addc.emplace(key, p); return p;
  }
  PolyId scale(PolyId a, const Rat &c) {
    if (c.zero()) return 0; if (c.one()) return a;
    auto t = polys[a].t; for (auto &x : t) x.c = x.c * c; return poly(std::move(t));
  }
  PolyId neg(PolyId a) { return scale(a, Rat(-1)); }
  PolyId sub(PolyId a, PolyId b) { return a == b ? 0 : add(a, neg(b)); }
  MonoId mmul(MonoId a, MonoId b) {
    if (!a) return b; if (!b) return a; if (a > b) std::swap(a, b);
    u64 key = ((u64)a << 32) | b; auto it = mmulc.find(key); if (it != mmulc.end()) return it->second;
    std::vector<std::pair<AtomId, int>> r; auto &x = monos[a].f; auto &y = monos[b].f; size_t i = 0, j = 0;
    while (i < x.size() || j < y.size()) {
      if (j == y.size() || (i < x.size() && x[i].first < y[j].first)) r.push_back(x[i++]);
      else if (i == x.size() || y[j].first < x[i].first) r.push_back(y[j++]);
      else { int e = x[i].second + y[j].second; if (e) r.push_back({x[i].first, e}); ++i; ++j; }
    }
    MonoId m = mono(std::move(r)); mmulc.emplace(key, m); return m;
  }
  bool reducible(MonoId m) {
    for (auto &x : monos[m].f) switch (atoms[x.first].k) {
      case A_SQRT: if (x.second != 1) return true; break;
      case A_SIN: if (x.second >= 2) return true; break;
      case A_INV: if (x.second < 0) return true; break;
      case A_EXP: if (rootPower(x.first, x.second)) return true; break;
      default: break;
    }
    return false;
  }
  // the n-th root of a, kept as exp(log(a)/n): its powers from n on reduce
  bool rootPower(AtomId id, int e) { auto &a = atoms[id]; if (a.k != A_EXP || a.den < 2 || std::abs(e) < a.den || polys[a.a].t.size() != 1) return false; auto &t = polys[a.a].t[0]; if (!t.c.one()) return false; auto &f = monos[t.m].f; return f.size() == 1 && f[0].second == 1 && atoms[f[0].first].k == A_LOG; }
  PolyId reduce(MonoId m) {
    if (!reducible(m)) return pmono(m);
    auto it = redc.find(m); if (it != redc.end()) return it->second;
    auto f = monos[m].f; PolyId r = 0; size_t k = 0;
    for (; k < f.size(); ++k) { AKind kk = atoms[f[k].first].k; int e = f[k].second;
      if ((kk == A_SQRT && e != 1) || (kk == A_SIN && e >= 2) || (kk == A_INV && e < 0) || (kk == A_EXP && rootPower(f[k].first, e))) break; }
    auto rest = f; rest.erase(rest.begin() + k); Atom a = atoms[f[k].first]; int e = f[k].second; PolyId rp = reduce(mono(rest)), ex = 0;
    if (a.k == A_SQRT) { int odd = ((e % 2) + 2) % 2; ex = powi(a.a, (e - odd) / 2); if (odd) ex = mul(ex, pmono(mono({{f[k].first, 1}}))); }
    else if (a.k == A_SIN) {
      Atom c; c.k = A_COS; c.a = a.a; c.lo = -1; c.hi = 1; AtomId ca = atom(c);
      PolyId s2 = sub(cst(1), pmono(mono({{ca, 2}}))); ex = powi(s2, e / 2); if (e % 2) ex = mul(ex, pmono(mono({{f[k].first, 1}})));
    } else if (a.k == A_EXP) { int q = e / (int)a.den, o = e % (int)a.den; ex = powi(atoms[monos[polys[a.a].t[0].m].f[0].first].a, q); if (o) ex = mul(ex, pmono(mono({{f[k].first, o}}))); }
    else ex = powi(a.a, -e);
    r = mul(rp, ex); redc[m] = r; return r;
  }
  PolyId mul(PolyId a, PolyId b) {
    if (!a || !b) return 0; if (a > b) std::swap(a, b);
    if (isConst(a)) return scale(b, constOf(a)); if (isConst(b)) return scale(a, constOf(b));
    u64 key = ((u64)a << 32) | b; auto it = mulc.find(key); if (it != mulc.end()) return it->second;
    std::map<MonoId, Rat> acc; std::vector<std::pair<PolyId, Rat>> extra;
    auto x = polys[a].t; auto y = polys[b].t;
    for (auto &s : x) for (auto &t : y) {
      MonoId m = mmul(s.m, t.m); Rat c = s.c * t.c;
      if (reducible(m)) { PolyId q = reduce(m); for (auto &z : std::vector<Term>(polys[q].t)) { auto &v = acc[z.m]; v = v + z.c * c; } }
      else { auto &v = acc[m]; v = v + c; }
    }
    std::vector<Term> r; for (auto &z : acc) if (!z.second.zero()) r.push_back({z.first, z.second});
    PolyId p = poly(std::move(r)); mulc.emplace(key, p); return p;
  }
  PolyId powi(PolyId a, int e) { if (e < 0) return powi(inv(a), -e); PolyId r = cst(1); for (int i = 0; i < e; ++i) r = mul(r, a); return r; }
  // primitive part with positive leading coefficient; content returned in c
  PolyId canon(PolyId p, Rat &c) {
    auto &t = polys[p].t; if (t.empty()) { c = Rat(1); return p; }
    // leading = term whose monomial hash is greatest (stable across replays)
    size_t best = 0; for (size_t i = 1; i < t.size(); ++i) if (monos[t[i].m].h > monos[t[best].m].h) best = i;
    c = t[best].c; if (c.one()) return p; return scale(p, c.inv());
  }
  PolyId inv(PolyId p) {  // p != 0
    auto &t = polys[p].t;
    if (t.size() == 1) { auto f = monos[t[0].m].f; Rat c = t[0].c; for (auto &x : f) x.second = -x.second; return scale(reduce(mono(f)), c.inv()); }
    PolyId q = ratsimp(p); if (q != p) return inv(q);
    Rat c; q = canon(p, c); Atom a; a.k = A_INV; a.a = q; return scale(patom(atom(a)), c.inv());
  }
  // ---- monomial order (deg-lex on atom ids) for division and square roots
  bool mless(MonoId a, MonoId b) {
    auto &x = monos[a].f; auto &y = monos[b].f; int dx = 0, dy = 0; for (auto &z : x) dx += z.second; for (auto &z : y) dy += z.second;
    if (dx != dy) return dx < dy;
    size_t i = 0, j = 0;
    while (i < x.size() && j < y.size()) {
      if (x[i].first != y[j].first) return x[i].first > y[j].first ? y[j].second > 0 : x[i].second < 0;
      if (x[i].second != y[j].second) return x[i].second < y[j].second; ++i; ++j;
    }
    if (j < y.size()) return y[j].second > 0; if (i < x.size()) return x[i].second < 0; return false;
  }
  Term lead(PolyId p) { auto &t = polys[p].t; size_t b = 0; for (size_t i = 1; i < t.size(); ++i) if (mless(t[b].m, t[i].m)) b = i; return t[b]; }
  bool mdiv(MonoId a, MonoId b, MonoId &r) {  // a/b with nonnegative exponents
    std::vector<std::pair<AtomId, int>> f; auto &x = monos[a].f; auto &y = monos[b].f; size_t j = 0;
    for (auto &z : x) { int e = z.second; while (j < y.size() && y[j].first < z.first) return false;
      if (j < y.size() && y[j].first == z.first) { e -= y[j].second; ++j; } if (e < 0) return false; if (e) f.push_back({z.first, e}); }
    if (j < y.size()) return false; r = mono(f); return true;
  }
  bool divide(PolyId a, PolyId b, PolyId &q) {
    q = 0; Term lb = lead(b); int steps = 0;
    while (a) { if (++steps > 200) return false; Term la = lead(a); MonoId m; if (!mdiv(la.m, lb.m, m) || reducible(m)) return false;
      PolyId t = pmono(m, la.c / lb.c); q = add(q, t); a = sub(a, mul(t, b)); }
    return true;
  }
  static bool ratSqrt(const Rat &r, Rat &s) {
    if (r.sign() < 0) return false; mpq_class q = r.q(); mpz_class n = sqrt(q.get_num()), d = sqrt(q.get_den());
    if (n * n != q.get_num() || d * d != q.get_den()) return false; s = Rat::big(mpq_class(n, d)); return true;
  }
  bool psqrt(PolyId p, PolyId &q) {
    if (!p) { q = 0; return true; }
    Term l = lead(p); Rat c; if (!ratSqrt(l.c, c)) return false; auto f = monos[l.m].f; for (auto &x : f) { if (x.second % 2) return false; x.second /= 2; }
    q = pmono(mono(f), c); if (polys[p].t.size() == 1) return true;
    Term lq = lead(q); PolyId r = sub(p, mul(q, q));
    for (int s = 0; r; ++s) { if (s > 24) return false; Term lr = lead(r); MonoId m; if (!mdiv(lr.m, lq.m, m)) return false;
      if (!mless(m, lq.m)) return false;
      PolyId t = pmono(m, lr.c / (lq.c * Rat(2))); q = add(q, t); r = sub(p, mul(q, q)); }
    return true;
  }
  bool hasInv(PolyId p) { for (auto &t : polys[p].t) for (auto &f : monos[t.m].f) if (f.second < 0 || atoms[f.first].k == A_INV) return true; return false; }
  // multiply out one inverse (the most recent atom): returns the base poly and power used
  bool clearStep(PolyId p, AtomId &which, int &k) {
    bool any = false; which = 0; k = 0;
    for (auto &t : polys[p].t) for (auto &f : monos[t.m].f) {
      bool inv = atoms[f.first].k == A_INV; if (!inv && f.second >= 0) continue;
      int e = inv ? f.second : -f.second;
      if (!any || f.first > which) { any = true; which = f.first; k = e; } else if (f.first == which) k = std::max(k, e);
    }
    return any;
  }
  PolyId baseOf(AtomId a) { return atoms[a].k == A_INV ? atoms[a].a : patom(a); }
  PolyId clearBy(PolyId p, AtomId a, int k) {  // p * base^k with exact cancellation of the inverse atom
    bool inv = atoms[a].k == A_INV; PolyId base = baseOf(a), r = 0; auto ts = polys[p].t;
    for (auto &t : ts) {
      auto f = monos[t.m].f; int e = 0; for (size_t i = 0; i < f.size(); ++i) if (f[i].first == a) { e = f[i].second; f.erase(f.begin() + i); break; }
      int have = inv ? e : -e;  // power of the inverse present
      PolyId m = pmono(mono(f), t.c); r = add(r, mul(m, powi(base, k - have)), false);
    }
    return r;
  }
  PolyId clearAll(PolyId p) { AtomId a; int k; int guard = 0; while (clearStep(p, a, k) && guard++ < 64) p = clearBy(p, a, k); return p; }
  // simplify a rational function: common denominator, exact division where possible
  PolyId ratsimp(PolyId p) {
    bool any = false; for (auto &t : polys[p].t) for (auto &f : monos[t.m].f) if (atoms[f.first].k == A_INV) any = true;
    if (!any) return p;
    PolyId n = p; AtomId a; int k; std::vector<std::pair<AtomId, int>> den; int guard = 0;
    while (guard++ < 32) {
      bool found = false; a = 0; k = 0;
      for (auto &t : polys[n].t) for (auto &f : monos[t.m].f) if (atoms[f.first].k == A_INV) {
        if (!found || f.first > a) { found = true; a = f.first; k = f.second; } else if (f.first == a) k = std::max(k, f.second); }
      if (!found) break; n = clearBy(n, a, k); den.push_back({a, k});
    }
    if (!n) return 0;
    PolyId r = n, d = cst(1);
    for (auto &x : den) { int e = x.second; PolyId q; while (e > 0 && divide(r, atoms[x.first].a, q)) { r = q; --e; } if (e) d = mul(d, pmono(mono({{x.first, e}}))); }
    // inverse bases that divide one another's numerators were handled; assemble
    return mul(r, d);
  }
};
