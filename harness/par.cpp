// R01: parallel loops under every schedule
#include "dot.h"
#include "par.h"
#include "pf.hpp"
using namespace hd;
// ---- prediction and correction of several targets and groups, births
struct Row { unsigned id, cid; double r, x, y; int tag, joins, locals; std::vector<double> as; std::vector<int> asby; };
static std::vector<Row> rows(Tr &t) { std::vector<Row> v; for (auto *q : t.targettree.targets) { auto m = q->pdf.mean(); v.push_back({q->id, q->cid, q->r, m(0), m(1), q->pdf.tag, q->pdf.joins, q->pdf.locals, q->pdf.as, q->pdf.asby}); } return v; }
struct Case { Tr t; Sn s; std::vector<Rep> scan; };
static int side(double a, double b) { return a < b ? -1 : a > b ? 1 : 0; }
// the same targets, apart from the numbers of new ones
static void same(Case &a, Case &b, unsigned old) {
  auto x = rows(a.t), y = rows(b.t); ns_check(x.size() == y.size(), "the schedule does not change the number of targets"); if (x.size() != y.size()) return;
  std::set<unsigned> ids; std::vector<char> used(y.size(), 0);
  for (auto &p : x) { int k = -1; for (size_t j = 0; j < y.size(); ++j) if (!used[j] && (p.id < old ? y[j].id == p.id : y[j].id >= old && y[j].x == p.x && y[j].y == p.y)) { k = j; break; }
    ns_check(k >= 0, "the schedule does not change which targets there are"); if (k < 0) return; used[k] = 1; auto &q = y[k]; ids.insert(q.id);
    ns_check_eq(p.r, q.r, 1e-12, "the schedule does not change the existence of a target"); ns_check(p.cid == q.cid && p.tag == q.tag && p.joins == q.joins && p.locals == q.locals && p.asby == q.asby, "the schedule does not change a target"); ns_check_eq(p.x, q.x, 1e-12, "the schedule does not change the position of a target"); ns_check_eq(p.y, q.y, 1e-12, "the schedule does not change the position of a target"); for (size_t j = 0; j < p.as.size() && j < q.as.size(); ++j) ns_check_eq(p.as[j], q.as[j], 1e-12, "the schedule does not change a target"); }
  ns_check(ids.size() == x.size(), "targets keep numbers of their own");
  auto f = b.t.targettree.query(AABBox(-1e6, -1e6, 1e6, 1e6)); ns_check(f.size() == y.size(), "every target can be found");
  ns_check(a.t.cluster_ntargets == b.t.cluster_ntargets && a.t.cluster_nreports == b.t.cluster_nreports && a.t.cluster_nhyps == b.t.cluster_nhyps && a.t.nof_clusters == b.t.nof_clusters, "the schedule does not change the groups");
  for (size_t j = 0; j < a.scan.size(); ++j) { ns_check_eq(a.scan[j].rB, b.scan[j].rB, 1e-12, "the schedule does not change the reports"); ns_check(a.scan[j].cid == b.scan[j].cid, "the schedule does not change the reports"); } ns_reach("compared"); }
template <class F> static void both(const F &make, unsigned old) { Case a, b; make(a); make(b); nso_schedule(0); a.t.correct(a.s, a.scan, 1); nso_schedule(1); int n = nso_regions(); b.t.correct(b.s, b.scan, 1); if (nso_regions() > n) ns_reach("parallel"); nso_schedule(0); same(a, b, old); }
static const double RS[4] = {0.5, 0.25, 0.875, 0.625};
static void base(Case &c) { c.t.params = free_params(); c.t.params.r_lim = 0.0625; c.s.lambdaB = 2; }
// groups of one target and one report each, one target alone, one report alone
NS_HARNESS(groups) { double r = hs::real("r", 0, 1), l = hs::real("likelihood", 0.01, 8); both([&](Case &c) { base(c); c.s.L[0][0] = l; c.s.L[1][1] = 2; add(c.t, 0, r, 0, 0, 0.02); add(c.t, 1, 0.5, 10, 0, 0.02); report(c.scan, 0, 0); report(c.scan, 10, 0); }, 2); }
NS_HARNESS(mixed) { double r = hs::real("r", 0, 1); both([&](Case &c) { base(c); add(c.t, 0, r, 0, 0, 0.02); add(c.t, 1, 0.75, 10, 0, 0.02); report(c.scan, 10, 0); report(c.scan, 20, 0); }, 2); }
NS_HARNESS(joint) { double l = hs::real("likelihood", 0.01, 8); both([&](Case &c) { base(c); c.s.L[0][0] = l; c.s.L[1][0] = 1; c.s.L[1][1] = 3; add(c.t, 0, 0.5, 0, 0, 0.02); add(c.t, 1, 0.75, 0, 0, 0.02); report(c.scan, 0, 0); report(c.scan, 0.001, 0); report(c.scan, 10, 0); }, 2); }
NS_HARNESS(births) { double lb = hs::real("births", 0.1, 3); both([&](Case &c) { base(c); c.s.lambdaB = lb; report(c.scan, 0, 0); report(c.scan, 10, 0); report(c.scan, 20, 0); }, 0); }
NS_HARNESS(births_shared) { both([&](Case &c) { base(c); c.s.Q[0] = 1; add(c.t, 0, 0.5, 0, 0, 0.02); report(c.scan, 0, 0); report(c.scan, 0.001, 0); report(c.scan, 10, 0); }, 1); }
NS_HARNESS(dying) { double r[2] = {hs::real("r", 0, 1), hs::real("r", 0, 1)}; both([&](Case &c) { base(c); c.t.params.r_lim = 0.25; for (int i = 0; i < 2; ++i) { c.s.Q[i] = 0.25; add(c.t, i, r[i], 10 * i, 0, 0.02); } }, 2); }
// ---- prediction with real mixtures
template <int S> using Mix = GM<S, 3>; using MT = SILMB<Mix<4>>;
static void mixture(MT &t, double x, double r, int comps) { Mix<4> m(&t.params); for (int k = 0; k < comps; ++k) { Mix<4>::Gaussian g(Vector4d(x + 0.125 * k, 1, 2, 3), Matrix4d::Identity() * (1 + k), 1.0 / comps); m.c.push_back(g); } m.normalize(); m.transform_to_local(m.pos()); m.transform_to_global(); t.targettree.new_target(r, std::move(m), 0); }
static void alike(MT &a, MT &b) { auto x = a.get_targets(), y = b.get_targets(); ns_check(x.size() == y.size(), "the schedule does not change the number of targets"); for (size_t i = 0; i < x.size() && i < y.size(); ++i) { int k = -1; for (size_t j = 0; j < y.size(); ++j) if (y[j].id == x[i].id) k = j; ns_check(k >= 0, "the schedule does not change which targets there are"); if (k < 0) return; hs::eq(x[i].x, y[k].x, 1e-9, "the schedule does not change the mean of a target"); hs::eq(x[i].P, y[k].P, 1e-9, "the schedule does not change the covariance of a target"); ns_check_eq(x[i].w, y[k].w, 1e-9, "the schedule does not change the existence of a target"); } ns_reach("compared"); }
NS_HARNESS(predict_cv) { double r = hs::real("r", 0, 1), pS = hs::real("pS", 0, 1); MT a, b; for (MT *t : {&a, &b}) { t->params.r_lim = 0.0625; mixture(*t, 0, r, 2); mixture(*t, 3, 0.5, 1); mixture(*t, 6, 0.75, 2); } CV<MT::Target> m(pS, 1); nso_schedule(0); a.predict(m, 1.0, 0.0); nso_schedule(1); int n = nso_regions(); b.predict(m, 1.0, 0.0); if (nso_regions() > n) ns_reach("parallel"); alike(a, b); }
NS_HARNESS(predict_nm) { double r = hs::real("r", 0, 1); MT a, b; for (MT *t : {&a, &b}) { t->params.r_lim = 0.0625; mixture(*t, 0, r, 2); mixture(*t, 3, 0.5, 2); } NM<MT::Target> m(0.75, Matrix4d::Identity()); nso_schedule(0); a.predict(m, 1.0, 0.0); nso_schedule(1); b.predict(m, 1.0, 0.0); alike(a, b); }
// correction with real mixtures: two groups, two components, two reports
static void tracked(int n) { MT a, b; using S = PositionSensor<MT::Target>; double w = hs::real("kappa", 0.1, 9); S::Scan sc[2]; S s; s.pD_ = 0.5; s.lambdaB = 1; s.fov.corners << 90, 90, -90, -90, 180, -180, -180, 180; int q = 0; for (MT *t : {&a, &b}) { t->params.r_lim = 1e-6; t->params.cov_lim = 1e9; for (int i = 0; i < n; ++i) { mixture(*t, 4 * i, 0.5, 2); sc[q].emplace_back(Vector2d(4 * i + 0.0625, 1), Matrix2d::Identity(), i ? 1.0 : w); } nso_schedule(q); t->correct(s, sc[q], 1.0); ++q; } nso_schedule(0); ns_check(a.get_targets().size() == b.get_targets().size(), "the schedule does not change the number of targets"); for (int i = 0; i < n; ++i) ns_check_eq(sc[0][i].rB, sc[1][i].rB, 1e-9, "the schedule does not change the reports"); auto x = a.get_targets(), y = b.get_targets(); for (auto &p : x) if (p.id < (unsigned)n) for (auto &o : y) if (o.id == p.id) ns_check_eq(p.w, o.w, 1e-9, "the schedule does not change the existence of a target"); ns_reach("compared"); }
NS_HARNESS(correct_gm1) { tracked(1); } NS_HARNESS(correct_gm2) { tracked(2); }
// questions to the tracker take the lock once
NS_HARNESS(asks) { Case c; base(c); add(c.t, 0, 0.5, 0, 0, 0.02); AABBox w(-1, -1, 1, 1); Tr::TargetStates truth; truth.push_back(Vector4d(0, 0, 0, 0)); int k = ns_int("question", 0, 8);
  switch (k) { case 0: c.t.enof_targets(); break; case 1: c.t.enof_targets(w); break; case 2: c.t.nof_targets(0.5); break; case 3: c.t.nof_targets(w, 0.5); break; case 4: c.t.get_targets(); break; case 5: c.t.get_targets(w); break; case 6: c.t.ospa(truth, 1, 1); break; case 7: c.t.gospa(truth, 1, 1); break; case 8: c.s.get_targets(c.t.targettree); break; } ns_check(nso_sections() > 0, "a question to the tracker excludes its updates"); ns_reach("asked"); }
// ---- particle clouds
struct Seer { std::array<double, 4> d; template <class P> double pD(const P &p, const cf::LL &) const { return d[(int)p.p(0) & 3]; } template <class V> auto measurement(const V &x) const { return x.template head<2>(); } };
NS_HARNESS(cloud) { using Cl = PF<4, 4>; Params p; Cl c[2]; Seer s; int what = ns_int("what", 0, 2); for (int i = 0; i < 4; ++i) s.d[i] = hs::real("detection", 0.1, 1); for (int k = 0; k < 2; ++k) { Cl q(&p); for (int i = 0; i < 4; ++i) { q.x.col(i) << i, 2 * i, 1, 2; q.w[i] = 0.25; } c[k] = q; } int n = nso_regions();
  for (int k = 0; k < 2; ++k) { nso_schedule(k); if (what == 0) { Matrix4d F = Matrix4d::Identity(); F(0, 2) = 2; c[k].linear_update(F, F); } else if (what == 1) { GaussianReport_<2> z(Vector2d(1, 1), Matrix2d::Identity(), 2.0); struct U : Seer { using Report = GaussianReport_<2>; } u; u.d = s.d; c[k].correct(z, u); } else c[k].missed(s); } if (nso_regions() > n) ns_reach("parallel"); nso_schedule(0);
  for (int i = 0; i < 4; ++i) { ns_check_eq(c[0].w[i], c[1].w[i], 1e-12, "the schedule does not change a cloud"); for (int j = 0; j < 4; ++j) ns_check_eq(c[0].x(j, i), c[1].x(j, i), 1e-12, "the schedule does not change a cloud"); } }
