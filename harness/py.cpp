// P01: what the Python module binds
#include <sstream>
#include <iostream>
#include <algorithm>
#include "tools.h"
#include "lmb/lmb.cpp"
using namespace Eigen; using py::object;
static py::module_ &mod() { static py::module_ m; static bool done = (pyfake_init_lmb(m), true); (void)done; return m; }
static py::cls &cl(const char *n) { auto &m = mod().classes; auto i = m.find(n); ns_check(i != m.end(), "the class is there"); if (i == m.end()) exit(0); return *i->second; }
template <class T> static object wrapref(T &x) { object o; o.v = &x; return o; }
static const unsigned U[5] = {0, 1, 7, 2147483648u, 4294967295u};
static unsigned uns(const char *n) { return U[ns_int(n, 0, 4)]; }
template <class V> static void same(const V &a, const V &b, const char *m) { if constexpr (std::is_floating_point_v<V>) ns_check_eq(a, b, 0, m); else if constexpr (std::is_integral_v<V>) ns_check(a == b, m); else if constexpr (std::is_same_v<V, std::array<double, 2>>) { for (int i = 0; i < 2; ++i) ns_check_eq(a[i], b[i], 0, m); } else if constexpr (std::is_same_v<V, std::vector<int>>) ns_check(a == b, m); else if constexpr (std::is_same_v<V, BBox>) hs::eq(a.corners, b.corners, 0, m); else hs::eq(a, b, 0, m); }
template <class V> static V value(const char *n) { if constexpr (std::is_floating_point_v<V>) return hs::grid(n, -100, 100); else if constexpr (std::is_integral_v<V>) return uns(n); else if constexpr (std::is_same_v<V, std::array<double, 2>>) { V v; for (auto &x : v) x = hs::grid(n, -100, 100); return v; } else if constexpr (std::is_same_v<V, std::vector<int>>) { V v(ns_int(n, 0, 2)); for (auto &x : v) x = ns_int(n, 0, 3); return v; } else if constexpr (std::is_same_v<V, BBox>) { BBox v; for (int i = 0; i < 8; ++i) v.corners(i) = hs::grid(n, -100, 100); return v; } else { V v; for (int i = 0; i < v.size(); ++i) v(i) = hs::grid(n, -100, 100); return v; } }
// an attribute reads, and where writable writes, the member it is named after
template <class T, class V> static void attr(py::cls &c, const char *n, T &x, V &member, bool writable) {
  auto i = c.props.find(n); ns_check(i != c.props.end(), "the attribute is there"); if (i == c.props.end()) return; V v = member; bool good = true; V got{}; try { got = i->second.get(wrapref(x)).template cast<V>(); } catch (std::exception &) { good = false; } ns_check(good, "the attribute has the type of the quantity"); if (good) same(got, v, "the attribute reads the quantity it is named after");
  ns_check((bool)i->second.set == writable, writable ? "the attribute is writable" : "the attribute is not writable"); if (!writable || !i->second.set) return;
  V w = value<V>("new"); i->second.set(&x, object::of(w)); same(member, w, "the attribute writes the quantity it is named after"); ns_reach("written"); }
// a restored copy holds the same values; states of another size are rejected
static object copy(py::cls &c, const object &o) { ns_check((bool)c.getstate && (bool)c.setstate, "the class can be pickled"); if (!c.getstate || !c.setstate) exit(0); py::tuple t = c.getstate(o); object r = c.setstate(t); ns_reach("restored"); return r; }
static void malformed(py::cls &c, const object &o) { py::tuple t = c.getstate(o); int n = t.size(), k = ns_int("size", 0, n + 2); if (k == n) return; py::tuple b; for (int i = 0; i < k; ++i) b.items.push_back(t[std::min(i, n - 1)]); bool threw = false; try { c.setstate(b); } catch (std::exception &) { threw = true; } ns_check(threw, "a malformed state is rejected"); ns_reach("rejected"); }
template <class T> static T &the(object &o) { return py::detail::holder<T>::get(o); }
NS_HARNESS(bbox) { auto &c = cl("BBox"); BBox b = value<BBox>("corner"); object o = copy(c, wrapref(b)); same(the<BBox>(o), b, "a restored box holds the same corners"); attr(c, "corners", b, b.corners, true); }
NS_HARNESS(bbox_bad) { BBox b; malformed(cl("BBox"), wrapref(b)); }
NS_HARNESS(aabbox) { auto &c = cl("AABBox"); AABBox b; b.min = value<std::array<double, 2>>("min"); b.max = value<std::array<double, 2>>("max"); object o = copy(c, wrapref(b)); same(the<AABBox>(o).min, b.min, "a restored box holds the same limits"); same(the<AABBox>(o).max, b.max, "a restored box holds the same limits"); auto old = b.max; attr(c, "min", b, b.min, true); same(b.max, old, "other quantities are kept"); attr(c, "max", b, b.max, true); }
NS_HARNESS(aabbox_bad) { AABBox b; malformed(cl("AABBox"), wrapref(b)); }
NS_HARNESS(target) { auto &c = cl("Target"); TargetSummary t(value<TargetSummary::State>("x"), value<TargetSummary::Covariance>("P"), hs::real("r", 0, 1), uns("id"), uns("cid")); object o = copy(c, wrapref(t)); auto &q = the<TargetSummary>(o); same(q.x, t.x, "a restored target holds the same state"); same(q.P, t.P, "a restored target holds the same covariance"); same(q.w, t.w, "a restored target holds the same existence"); same(q.r, t.r, "a restored target holds the same existence"); same(q.id, t.id, "a restored target holds the same identity"); same(q.cid, t.cid, "a restored target holds the same group"); attr(c, "x", t, t.x, false); attr(c, "P", t, t.P, false); attr(c, "r", t, t.w, false); attr(c, "id", t, t.id, false); attr(c, "cid", t, t.cid, false); }
NS_HARNESS(target_bad) { TargetSummary t(TargetSummary::State::Zero(), TargetSummary::Covariance::Zero(), 0.5, 1, 2); malformed(cl("Target"), wrapref(t)); }
NS_HARNESS(targets) {  // in a list, as the tracker returns them
  auto &c = cl("Target"); TargetSummaries_<4> l; int n = ns_int("n", 1, 4); std::vector<double> r; for (int i = 0; i < n; ++i) { r.push_back(hs::real("r", 0, 1)); l.emplace_back(TargetSummary::State::Constant(i), TargetSummary::Covariance::Identity(), r[i], i, 9 - i); } for (int i = 0; i < n; ++i) { attr(c, "r", l[i], r[i], false); unsigned id = i, g = 9 - i; attr(c, "id", l[i], id, false); attr(c, "cid", l[i], g, false); ns_check_eq(l[i].r, r[i], 0, "a summary in a list holds its existence"); } }
NS_HARNESS(report) { auto &c = cl("GaussianReport"); GaussianReport g(value<GaussianReport::State>("x"), value<GaussianReport::Covariance>("P"), hs::grid("kappa", 0.1, 100)); g.cid = uns("cid"); object o = copy(c, wrapref(g)); auto &q = the<GaussianReport>(o); same(q.x, g.x, "a restored report holds the same position"); same(q.P, g.P, "a restored report holds the same covariance"); same(q.kappa, g.kappa, "a restored report holds the same clutter intensity"); same(q.cid, g.cid, "a restored report holds the same group"); attr(c, "x", g, g.x, true); attr(c, "P", g, g.P, true); attr(c, "kappa", g, g.kappa, true); attr(c, "cid", g, g.cid, false); }
NS_HARNESS(report_bad) { GaussianReport g(GaussianReport::State::Zero(), GaussianReport::Covariance::Identity()); malformed(cl("GaussianReport"), wrapref(g)); }
NS_HARNESS(gaussian) { auto &c = cl("Gaussian"); Gaussian g(value<Gaussian::State>("m"), value<Gaussian::Covariance>("P"), hs::grid("w", 0, 1)); attr(c, "m", g, g.x, true); attr(c, "P", g, g.P, true); attr(c, "w", g, g.w, true); }
NS_HARNESS(params) { auto &c = cl("Params"); Params p; double *f[8] = {&p.w_lim, &p.r_lim, &p.nhyp_max, &p.rB_max, &p.nstd, &p.cw_lim, &p.cov_lim, &p.tscale}; const char *n[8] = {"w_lim", "r_lim", "nhyp_max", "rB_max", "nstd", "cw_lim", "cov_lim", "tscale"}; for (double *x : f) *x = hs::grid("value", -9, 9); int k = ns_int("which", 0, 7); double old[8]; for (int i = 0; i < 8; ++i) old[i] = *f[i]; attr(c, n[k], p, *f[k], true); for (int i = 0; i < 8; ++i) if (i != k) ns_check_eq(*f[i], old[i], 0, "other quantities are kept"); }
NS_HARNESS(sensor) { using S = PositionSensor<Tracker::Target>; auto &c = cl("PositionSensor"); S s; s.lambdaB = hs::grid("a", 0, 9); s.pD_ = hs::grid("b", 0, 1); s.kappa_ = hs::grid("c", 0, 9); attr(c, "fov", s, s.fov, true); attr(c, "lambdaB", s, s.lambdaB, true); attr(c, "pD", s, s.pD_, true); attr(c, "kappa", s, s.kappa_, true); attr(c, "pv", s, s.pv, true); }
NS_HARNESS(models) { NM<Tracker::Target> n(hs::grid("pS", 0, 1), value<Matrix4d>("Q")); auto &c = cl("NM"); attr(c, "pS", n, n.pS, true); attr(c, "Q", n, n.Q, true); CV<Tracker::Target> v(hs::grid("pS", 0, 1), hs::grid("q", 0, 9)); auto &d = cl("CV"); attr(d, "pS", v, v.pS, true); attr(d, "q", v, v.q, true); }
NS_HARNESS(tracker) { auto &c = cl("Tracker"); Tracker t; t.nof_clusters = uns("groups"); int k = ns_int("which", 0, 3); std::vector<int> *f[3] = {&t.cluster_ntargets, &t.cluster_nreports, &t.cluster_nhyps}; const char *n[3] = {"cluster_ntargets", "cluster_nreports", "cluster_nhyps"}; for (int i = 0; i < 3; ++i) *f[i] = {i + 1, ns_int("count", 0, 3), 5 - i}; if (k < 3) attr(c, n[k], t, *f[k], false); else attr(c, "nof_clusters", t, t.nof_clusters, false); auto i = c.props.find("params"); ns_check(i != c.props.end() && i->second.set, "the parameters can be read and written"); if (i != c.props.end() && i->second.set) { Params p; p.r_lim = hs::grid("r_lim", 0, 1); p.tscale = 3; i->second.set(&t, object::of(p)); ns_check_eq(t.params.r_lim, p.r_lim, 0, "the parameters can be written"); ns_check_eq(i->second.get(wrapref(t)).cast<Params>().r_lim, p.r_lim, 0, "the parameters can be read"); } }
// constructors take the values in the order of their names
static object build(py::cls &c, std::vector<object> a) { for (auto &f : c.inits) { std::vector<object> v = a; size_t d = f.n - v.size(); if (v.size() < f.n && f.named.size() == f.n) for (size_t k = f.n - d; k < f.n && f.has[k]; ++k) v.push_back(f.named[k].value); object r; if (v.size() == f.n && f.call(v, r)) return r; } ns_check(0, "the object can be created"); exit(0); }
NS_HARNESS(created) {
  Vector4d x = value<Vector4d>("x"); Matrix4d P = value<Matrix4d>("P"); Vector2d z = value<Vector2d>("z"); Matrix2d R = value<Matrix2d>("R"); double w = hs::grid("w", 0, 9), v = hs::grid("v", 0, 9);
  { object o = build(cl("Gaussian"), {object::of(x), object::of(P), object::of(w)}); auto &g = the<Gaussian>(o); same(g.x, x, "a created object holds its values"); same(g.P, P, "a created object holds its values"); same(g.w, w, "a created object holds its values"); o = build(cl("Gaussian"), {object::of(x), object::of(P)}); same(the<Gaussian>(o).w, 1.0, "a created object holds the default value"); }
  { object o = build(cl("GaussianReport"), {object::of(z), object::of(R), object::of(w)}); auto &g = the<GaussianReport>(o); same(g.x, z, "a created object holds its values"); same(g.P, R, "a created object holds its values"); same(g.kappa, w, "a created object holds its values"); o = build(cl("GaussianReport"), {object::of(z), object::of(R)}); same(the<GaussianReport>(o).kappa, 1.0, "a created object holds the default value"); PositionSensor<Tracker::Target> s; s.kappa_ = v; o = build(cl("GaussianReport"), {wrapref(s), object::of(z), object::of(R)}); same(the<GaussianReport>(o).kappa, v, "a created report has the clutter intensity of its sensor"); same(the<GaussianReport>(o).x, z, "a created object holds its values"); }
  { object o = build(cl("CV"), {object::of(w), object::of(v)}); same(the<CV<Tracker::Target>>(o).pS, w, "a created object holds its values"); same(the<CV<Tracker::Target>>(o).q, v, "a created object holds its values"); o = build(cl("NM"), {object::of(w), object::of(P)}); same(the<NM<Tracker::Target>>(o).pS, w, "a created object holds its values"); same(the<NM<Tracker::Target>>(o).Q, P, "a created object holds its values"); }
  { object o = build(cl("AABBox"), {object::of(w), object::of(v), object::of(w + 1), object::of(v + 2)}); auto &b = the<AABBox>(o); same(b.min[0], w, "a created object holds its values"); same(b.min[1], v, "a created object holds its values"); same(b.max[0], w + 1, "a created object holds its values"); same(b.max[1], v + 2, "a created object holds its values"); }
}
// methods do what they are named after
static object call(const char *cn, const char *n, std::vector<object> a) { auto &c = cl(cn); auto i = c.methods.find(n); ns_check(i != c.methods.end(), "the method is there"); if (i == c.methods.end()) exit(0); for (auto &f : i->second) { std::vector<object> v = a; for (size_t k = v.size(); k < f.n; ++k) { size_t j = k - (f.n - f.named.size()); if (f.named.size() + v.size() < f.n || j >= f.named.size() || !f.has[j]) break; v.push_back(f.named[j].value); } object r; if (v.size() == f.n && f.call(v, r)) return r; } ns_check(0, "the method can be called"); exit(0); }
NS_HARNESS(methods) {
  Tracker t; t.params.r_lim = -1; double r[2] = {hs::real("r", 0, 1), 0.75}, th = hs::real("threshold", 0, 1); for (int i = 0; i < 2; ++i) { GM<4> d(&t.params, Vector4d(2 * i, 0, 0, 0), Matrix4d::Identity()); t.targettree.new_target(r[i], std::move(d), 0); } AABBox w(-1, -1, 1, 1);
  same(call("Tracker", "enof_targets", {wrapref(t)}).cast<double>(), r[0] + r[1], "a method does what it is named after"); same(call("Tracker", "enof_targets", {wrapref(t), wrapref(w)}).cast<double>(), r[0], "a method does what it is named after");
  unsigned k = (r[0] >= th) + (r[1] >= th); same(call("Tracker", "nof_targets", {wrapref(t), object::of(th)}).cast<unsigned>(), k, "a method does what it is named after"); same(call("Tracker", "nof_targets", {wrapref(t), wrapref(w), object::of(th)}).cast<unsigned>(), (unsigned)(r[0] >= th), "a method does what it is named after"); same(call("Tracker", "nof_targets", {wrapref(t)}).cast<unsigned>(), (unsigned)((r[0] >= 0.7) + 1), "a method does what it is named after");
  auto l = call("Tracker", "get_targets", {wrapref(t)}).cast<TargetSummaries_<4>>(); ns_check(l.size() == 2, "a method does what it is named after"); auto lw = call("Tracker", "get_targets", {wrapref(t), wrapref(w)}).cast<TargetSummaries_<4>>(); ns_check(lw.size() == 1 && lw[0].id == 0, "a method does what it is named after");
  Tracker::TargetStates truth; truth.push_back(Vector4d(0, 0, 3, 4)); double c = hs::real("cutoff", 6, 9); double os = call("Tracker", "ospa", {wrapref(t), object::of(truth), object::of(c), object::of(1.0)}).cast<double>(), gs = call("Tracker", "gospa", {wrapref(t), object::of(truth), object::of(c), object::of(1.0)}).cast<double>(); ns_check_eq(os * 2, 5 + c, 1e-9, "a method does what it is named after"); ns_check_eq(gs, 5 + c / 2, 1e-9, "a method does what it is named after"); ns_reach("called"); }
NS_HARNESS(scans) {
  Tracker t; t.params.r_lim = 1e-9; t.params.cov_lim = 1e9; double r = hs::real("r", 0.1, 0.9), pS = hs::real("pS", 0.1, 1); GM<4> d(&t.params, Vector4d(0, 0, 64, 0), Matrix4d::Identity()); auto *x = t.targettree.new_target(r, std::move(d), 0); if (ns_int("model", 0, 1)) { NM<Tracker::Target> n(pS, Matrix4d::Zero()); call("Tracker", "predict", {wrapref(t), wrapref(n), object::of(1.0), object::of(0.0)}); hs::eq(x->pdf.mean(), Vector4d(0, 0, 64, 0), 1e-9, "a method does what it is named after"); } else { CV<Tracker::Target> v(pS, 0); call("Tracker", "predict", {wrapref(t), wrapref(v), object::of(1.0), object::of(0.0)}); hs::eq(x->pdf.mean(), Vector4d(1, 0, 64, 0), 1e-9, "a method does what it is named after"); } ns_check_eq(x->r, r * pS, 1e-9, "a method does what it is named after");
  PositionSensor<Tracker::Target> s; s.pD_ = 0; s.lambdaB = 0.5; std::vector<GaussianReport> scan; scan.emplace_back(Vector2d(40, 40), Matrix2d::Identity()); scan[0].cid = 99; object o = call("Tracker", "correct", {wrapref(t), wrapref(s), wrapref(scan), object::of(7.0)}); auto &back = py::detail::holder<std::vector<GaussianReport>>::get(o); ns_check(back.size() == 1 && back[0].cid < 99, "the scan comes back with its groups"); ns_check(t.targettree.targets.size() == 2, "a scan spawns a target"); ns_reach("called"); }
