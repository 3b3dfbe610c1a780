// P02: what the printed form of a tracker, its targets, reports and boxes says
#include <sstream>
#include <map>
#include <memory>
#include "tools.h"
#include "gm.hpp"
#include "pf.hpp"
#include "lmb.hpp"
#include "models.hpp"
using namespace Eigen; using namespace lmb; using Mix = GM<4, 3>; using T = SILMB<Mix>;
// a reader of JSON texts
struct J { char k = 0; double n = 0; std::string s; std::vector<J> a; std::vector<std::pair<std::string, J>> o;
  const J &operator[](const char *key) const { static const J none; const J *r = &none; int c = 0; for (auto &x : o) if (x.first == key) { r = &x.second; ++c; } ns_check(c == 1, "a text names each quantity once"); return *r; } };
struct Reader { const char *p; bool good = true; J fail() { good = false; return J(); }
  bool is(char c) { while (*p == ' ' || *p == '\n') ++p; if (*p != c) return false; ++p; return true; }
  std::string str() { std::string r; if (!is('"')) { good = false; return r; } while (*p && *p != '"') { if (*p == '\\' || (unsigned char)*p < 32) { good = false; return r; } r += *p++; } if (*p != '"') good = false; else ++p; return r; }
  J value() { while (*p == ' ' || *p == '\n') ++p; J r; if (*p == '{') { r.k = 'o'; ++p; if (is('}')) return r; do { std::string key = str(); if (!good || !is(':')) return fail(); r.o.emplace_back(key, value()); if (!good) return r; } while (is(',')); return is('}') ? r : fail(); }
    if (*p == '[') { r.k = 'a'; ++p; if (is(']')) return r; do { r.a.push_back(value()); if (!good) return r; } while (is(',')); return is(']') ? r : fail(); }
    if (*p == '"') { r.k = 's'; r.s = str(); return r; }
    if (*p != '-' && *p != '#' && !(*p >= '0' && *p <= '9')) return fail(); const char *e = p; r.k = 'n'; r.n = ns_parse(p, &e); if (e == p) return fail(); p = e; return r; } };
template <class X> static J read(const X &x) { static std::string t; t = print(x); Reader r{t.c_str()}; J j = r.value(); while (*r.p == ' ' || *r.p == '\n') ++r.p; ns_check(r.good && !*r.p, "the text is well-formed"); if (!r.good) exit(0); ns_reach("read"); return j; }
static const double DIG = 2e-5;   // scalars are printed with six significant digits, matrices in full
static void number(const J &j, double v, double tol, const char *m) { ns_check(j.k == 'n', "a number is printed as a number"); if (j.k == 'n') ns_check_eq(j.n, v, tol, m); }
template <class M> static void matrix(const J &j, const M &m, const char *t) { ns_check(j.k == 'a' && (int)j.a.size() == m.rows(), "a matrix is printed row by row"); if (j.k != 'a' || (int)j.a.size() != m.rows()) return; for (int r = 0; r < m.rows(); ++r) { auto &q = j.a[r]; ns_check(q.k == 'a' && (int)q.a.size() == m.cols(), "a matrix is printed row by row"); if (q.k != 'a' || (int)q.a.size() != m.cols()) return; for (int c = 0; c < m.cols(); ++c) number(q.a[c], m(r, c), 1e-14, t); } }
static void whole(const J &j, unsigned v, const char *m) { ns_check(j.k == 'n' && j.n == (double)v, m); }
static void type(const J &j, const char *t) { ns_check(j["type"].k == 's' && j["type"].s == t, "a text says what it describes"); }
template <int S> static Matrix<double, S, S> cov(const char *n) { Matrix<double, S, S> P; for (int i = 0; i < S; ++i) for (int j = 0; j < S; ++j) P(i, j) = i == j ? hs::grid(n, 1, 100) : i * S + j == 1 ? hs::grid(n, -1, 1) : 0.125 * (i - j); return P; }
template <class G> static void component(const J &j, const G &g) { type(j, "G"); number(j["w"], g.w, DIG, "the weight of a component"); matrix(j["x"], g.x, "the mean of a component"); matrix(j["P"], g.P, "the covariance of a component"); }
NS_HARNESS(gaussian) { Gaussian_<4> g(hs::vec<4>("x", -1000, 1000), cov<4>("P"), hs::real("w", 0, 1)); component(read(g), g); }
NS_HARNESS(gaussian2) { Gaussian_<2> g(hs::vec<2>("x", -1000, 1000), cov<2>("P"), hs::real("w", 0, 1)); component(read(g), g); }
NS_HARNESS(mixture) { Params p; Mix m(&p); int n = ns_int("components", 0, 3); for (int i = 0; i < n; ++i) m.c.emplace_back(hs::vec<4>("x", -1000, 1000), Matrix4d::Identity() * (i + 1), hs::real("w", 0, 1)); J j = read(m); type(j, "GM"); auto &c = j["c"]; ns_check(c.k == 'a' && (int)c.a.size() == n, "every component is listed"); for (size_t i = 0; i < c.a.size() && (int)i < n; ++i) component(c.a[i], m.c[i]); }
NS_HARNESS(summary) { TargetSummary_<4> t(hs::vec<4>("x", -1000, 1000), cov<4>("P"), hs::real("r", 0, 1), ns_int("id", 0, 3) * 1431655765u, 7); J j = read(t); type(j, "T"); whole(j["id"], t.id, "the identity of a target"); number(j["w"], t.r, DIG, "the existence of a target"); matrix(j["x"], t.x, "the mean of a target"); matrix(j["P"], t.P, "the covariance of a target"); }
static void isreport(const J &j, const GaussianReport_<2> &r) { type(j, "GR"); matrix(j["x"], r.x, "the position of a report"); matrix(j["P"], r.P, "the covariance of a report"); }
NS_HARNESS(report) { GaussianReport_<2> r(hs::vec<2>("x", -1000, 1000), cov<2>("P"), hs::real("kappa", 1e-9, 1e6)); r.rB = 0; isreport(read(r), r); }
struct Wrap { const std::vector<GaussianReport_<2>> &v; void repr(std::ostream &o) const { o << v; } };
NS_HARNESS(scan) { std::vector<GaussianReport_<2>> s; int n = ns_int("reports", 0, 3); for (int i = 0; i < n; ++i) s.emplace_back(hs::vec<2>("x", -1000, 1000), cov<2>("P"), 1.0); J j = read(Wrap{s}); ns_check(j.k == 'a' && (int)j.a.size() == n, "every report is listed"); for (size_t i = 0; i < j.a.size() && (int)i < n; ++i) isreport(j.a[i], s[i]); }
NS_HARNESS(box) { BBox b; for (int i = 0; i < 8; ++i) b.corners(i / 4, i % 4) = hs::grid("corner", -1000, 1000); J j = read(b); type(j, "BBox"); matrix(j["c"], b.corners, "the corners of a box"); }
NS_HARNESS(aabox) { AABBox b(hs::grid("x", -1000, 1000), hs::grid("y", -1000, 1000), hs::grid("x", -1000, 1000), hs::grid("y", -1000, 1000)); std::string t = print(b); ns_check(t.rfind("AABBox", 0) == 0, "a text says what it describes"); Reader r{t.c_str() + (t.size() < 6 ? 0 : 6)}; J j = r.value(); ns_check(r.good && !*r.p && j.k == 'a' && j.a.size() == 2, "the text is well-formed"); if (!r.good || j.a.size() != 2) return; ns_reach("read"); for (int d = 0; d < 2; ++d) { ns_check(j.a[d].a.size() == 2, "the limits of a box"); if (j.a[d].a.size() == 2) { number(j.a[d].a[0], b.min[d], DIG, "the limits of a box"); number(j.a[d].a[1], b.max[d], DIG, "the limits of a box"); } } }
// a whole tracker: after creation, a prediction and an update
static void target(const J &j, const Target_<Mix> &t) { whole(j["id"], t.id, "the identity of a target"); whole(j["cid"], t.cid, "the group of a target"); number(j["r"], t.r, DIG, "the existence of a target"); auto &p = j["pdf"]; type(p, "GM"); auto &c = p["c"]; ns_check(c.a.size() == t.pdf.c.size(), "every component is listed"); for (size_t i = 0; i < c.a.size() && i < t.pdf.c.size(); ++i) component(c.a[i], t.pdf.c[i]); }
static void whole_tracker(const T &t, const char *act) { J j = read(t); auto &l = j["targets"]; ns_check(l.k == 'a' && l.a.size() == t.targettree.targets.size(), "every target is listed"); for (size_t i = 0; i < l.a.size() && i < t.targettree.targets.size(); ++i) { target(l.a[i], *t.targettree.targets[i]); ns_check(l.a[i]["la"].k == 's' && l.a[i]["la"].s == act, "a target tells what was done to it last"); } }
NS_HARNESS(tracker) { T t; t.params.r_lim = 0; t.params.cov_lim = 1e9; int n = ns_int("targets", 0, 3), did = ns_int("did", 0, 2); double r = hs::real("r", 0.1, 0.9), r2 = hs::real("r", 0.1, 0.9); Vector4d x = hs::vec<4>("x", -50, 50); for (int i = 0; i < n; ++i) { Mix m(&t.params, i ? Vector4d(i, 2, 3, 4) : x, Matrix4d::Identity()); t.targettree.new_target(i == 0 ? r : i == 1 ? r2 : 0.5, std::move(m), 0)->cid = 3 * i; }
  CV<T::Target> m(0.75, 1); if (did == 1) t.predict(m, 1.0, 0.0); else if (did == 2) { PositionSensor<T::Target> s; s.pD_ = 0.5; s.lambdaB = 0; s.fov.corners << 90, 90, -90, -90, 180, -180, -180, 180; PositionSensor<T::Target>::Scan scan; t.correct(s, scan, 1.0); } whole_tracker(t, did == 1 ? "u" : did == 2 ? "c" : "i"); }
NS_HARNESS(cloud) { Params p; PF<4, 3> c(&p); for (int i = 0; i < 3; ++i) { c.w[i] = hs::real("w", 0, 1); for (int k = 0; k < 4; ++k) c.x(k, i) = hs::grid("x", -1000, 1000); } J j = read(c); type(j, "PF"); matrix(j["w"], c.w, "the weights of the particles"); matrix(j["x"], c.x, "the particles"); }
NS_HARNESS(group) { Params p; using G = GaussianReport_<2>; using Tg = Target_<Mix>; int n = ns_int("reports", 0, 2), m = ns_int("targets", 0, 2); std::vector<std::unique_ptr<G>> rs; std::vector<std::unique_ptr<Tg>> ts; std::vector<G *> rp; std::vector<Tg *> tp;
  for (int i = 0; i < n; ++i) { rs.emplace_back(new G(hs::vec<2>("x", -1000, 1000), cov<2>("P"), 1.0)); rp.push_back(rs[i].get()); } for (int i = 0; i < m; ++i) { ts.emplace_back(new Tg(hs::real("r", 0, 1), Mix(&p, hs::vec<4>("x", -1000, 1000), Matrix4d::Identity()), &p, 0)); ts[i]->id = 5 + i; ts[i]->cid = 2; tp.push_back(ts[i].get()); }
  Cluster_<G, Tg> c(1, rp, tp, &p); J j = read(c); type(j, "CL"); auto &R = j["R"], &T_ = j["T"]; ns_check(R.k == 'a' && (int)R.a.size() == n && T_.k == 'a' && (int)T_.a.size() == m, "every member of a group is listed"); if ((int)R.a.size() == n) for (int i = 0; i < n; ++i) isreport(R.a[i], *rp[i]); if ((int)T_.a.size() == m) for (int i = 0; i < m; ++i) target(T_.a[i], *tp[i]); }
