// T04, T06, T11: which targets and reports meet, and which targets are born
#include "dot.h"
using namespace hd;
// ---- T04
struct Part { std::vector<int> root; explicit Part(int n) : root(n) { for (int i = 0; i < n; ++i) root[i] = i; } int find(int i) { while (root[i] != i) i = root[i]; return i; } void join(int a, int b) { root[find(a)] = find(b); } };
static long hyps(int M, int N) { long n = 0; std::vector<char> used(N, 0); std::function<void(int)> go = [&](int i) { if (i == M) { ++n; return; } go(i + 1); go(i + 1); for (int j = 0; j < N; ++j) if (!used[j]) { used[j] = 1; go(i + 1); used[j] = 0; } }; go(0); return n; }
static void groups(const std::vector<std::array<double, 2>> &tp, const std::vector<std::array<double, 2>> &rp, const std::vector<double> &half) {
  int M = tp.size(), N = rp.size(); Tr t(free_params()); Sn s; s.lambdaB = 0; t.params.rB_max = 0.5; std::vector<Tg *> tg; std::vector<Rep> scan;
  for (int i = 0; i < M; ++i) { tg.push_back(add(t, i, 0.5, tp[i][0], tp[i][1], half[i])); tg[i]->cid = 77; } for (int j = 0; j < N; ++j) { report(scan, rp[j][0], rp[j][1], j % 2 ? 64 : 16); scan[j].cid = 99; }
  Part p(M + N); std::vector<char> met(M, 0);
  for (int j = 0; j < N; ++j) { AABBox b = scan[j].llaabbox(); for (int i = 0; i < M; ++i) { AABBox &a = tg[i]->pdf.aabbox; bool meet = b.min[0] <= a.max[0] && a.min[0] <= b.max[0] && b.min[1] <= a.max[1] && a.min[1] <= b.max[1]; if (meet) { p.join(i, M + j); met[i] = 1; } } }
  t.correct(s, scan, 2.0); std::vector<Tg *> alive = t.targettree.targets; for (auto *x : tg) ns_check(std::count(alive.begin(), alive.end(), x) == 1, "targets are kept");
  auto cid = [&](int k) { return k < M ? tg[k]->cid : scan[k - M].cid; }; std::map<int, int> label; std::set<unsigned> used; int n = 0;
  for (int a = 0; a < M + N; ++a) for (int b = 0; b < a; ++b) ns_check((p.find(a) == p.find(b)) == (cid(a) == cid(b)), a >= M && b >= M ? "reports share a group exactly when linked by targets" : a < M ? "targets share a group exactly when linked by reports" : "a target is in the group of the reports it meets");
  for (int k = 0; k < M + N; ++k) used.insert(cid(k)); n = used.size(); ns_check(t.nof_clusters == (unsigned)n, "the number of groups is exposed"); ns_check(*used.rbegin() == (unsigned)n - 1, "groups are numbered consecutively"); ns_observe("groups", n); ns_reach(n == 1 ? "one" : n == M + N ? "all" : "some");
  ns_check((int)t.cluster_ntargets.size() == n && (int)t.cluster_nreports.size() == n && (int)t.cluster_nhyps.size() == n, "one count for each group");
  for (unsigned c : used) { int nt = 0, nr = 0; for (int k = 0; k < M + N; ++k) if (cid(k) == c) ++(k < M ? nt : nr); if (c >= (unsigned)n) continue; ns_check(t.cluster_ntargets[c] == nt, "targets of a group are counted"); ns_check(t.cluster_nreports[c] == nr, "reports of a group are counted"); ns_check(t.cluster_nhyps[c] == (nt ? hyps(nt, nr) : 0), "hypotheses of a group are counted"); }
  for (int i = 0; i < M; ++i) { Dot &d = tg[i]->pdf; ns_check(d.joins == 1, "every target in view is updated once"); std::set<int> by(d.asby.begin(), d.asby.end()), want; want.insert(-1); for (int j = 0; j < N; ++j) if (p.find(i) == p.find(M + j)) want.insert(j); ns_check(by == want, "a target is updated with the reports of its group"); }
}
static std::vector<std::array<double, 2>> line(const char *n, int k, double y = 0) { std::vector<std::array<double, 2>> r; for (int i = 0; i < k; ++i) r.push_back({hs::grid(n, -10, 10), y}); return r; }
static std::vector<std::array<double, 2>> plane(const char *n, int k) { std::vector<std::array<double, 2>> r; for (int i = 0; i < k; ++i) { double a = hs::grid(n, -10, 10), b = hs::grid(n, -10, 10); r.push_back({a, b}); } return r; }
static std::vector<std::array<double, 2>> fixed(int k, double d, double off, double y = 0) { std::vector<std::array<double, 2>> r; for (int i = 0; i < k; ++i) r.push_back({off + d * i, y}); return r; }
NS_HARNESS(g11) { groups(plane("target", 1), plane("report", 1), {0.25}); }
NS_HARNESS(g12) { groups(line("target", 1), line("report", 2), {1}); }
NS_HARNESS(g21) { groups(line("target", 2), line("report", 1), {0.25, 1}); }
NS_HARNESS(g21p) { groups(plane("target", 2), fixed(1, 0, 0), {0.25, 1}); }
NS_HARNESS(g22) { groups(line("target", 2), line("report", 2), {0.25, 1}); }
NS_HARNESS(g13) { groups(fixed(1, 0, 0), line("report", 3), {1}); }
NS_HARNESS(g32) { groups(fixed(3, 1, -1), line("report", 2), {0.5, 0.25, 0.125}); }
NS_HARNESS(g23) { groups(line("target", 2), fixed(3, 1, -1), {0.5, 0.25}); }
NS_HARNESS(g33) { groups(fixed(3, 0.75, -1), line("report", 3), {0.5, 0.25, 0.125}); }
NS_HARNESS(g44) { auto r = fixed(4, 1, -2); r[ns_int("which", 0, 3)][0] = hs::grid("report", -10, 10); auto q = fixed(4, 1, -1.5); q[ns_int("other", 0, 3)][0] = hs::grid("target", -10, 10); groups(q, r, {0.25, 0.125, 0.0625, 0.375}); }
NS_HARNESS(g30) { groups(line("target", 3), {}, {0.25, 1, 0.5}); }
NS_HARNESS(g03) { groups({}, line("report", 3), {}); }
NS_HARNESS(again) {   // one scan after another: the groups of the first leave no trace
  Params p = free_params(); p.r_lim = 1e-6; Tr t(p); Sn s; s.lambdaB = 0; std::vector<Tg *> tg; for (int i = 0; i < 3; ++i) tg.push_back(add(t, i, 0.5, i, 0, 0.25)); std::vector<Rep> a; int n = ns_int("first", 0, 3); for (int j = 0; j < n; ++j) report(a, j + 0.5, 0, 64); t.correct(s, a, 1);
  std::vector<Rep> b; double x = hs::grid("x", -5, 5); report(b, x, 0, 16); t.correct(s, b, 2); AABBox q = b[0].llaabbox(); int met = 0; for (auto *g : tg) { bool m = q.min[0] <= g->pdf.aabbox.max[0] && g->pdf.aabbox.min[0] <= q.max[0]; met += m; ns_check((g->cid == b[0].cid) == m, "a target is in the group of the reports it meets"); ns_check(g->pdf.joins == 2, "every target in view is updated once"); } int want = 1 + 3 - met;
  ns_check(t.nof_clusters == (unsigned)want && (int)t.cluster_ntargets.size() == want && (int)t.cluster_nreports.size() == want && (int)t.cluster_nhyps.size() == want, "one count for each group"); ns_observe("groups", want); if (b[0].cid < (unsigned)want) ns_check(t.cluster_ntargets[b[0].cid] == met && t.cluster_nreports[b[0].cid] == 1, "the group of a report is counted"); ns_reach("done"); }
// ---- T06
struct Birth { Tr t; Sn s; std::vector<Rep> scan; std::vector<Tg *> old; std::set<unsigned> used; Birth(const Params &p) : t(p) {}
  void run(double time) {
    for (auto *x : t.targettree.targets) used.insert(x->id); std::set<Tg *> before(t.targettree.targets.begin(), t.targettree.targets.end()); std::vector<Vector2d> pos; for (auto &r : scan) pos.push_back(r.x); int N = scan.size();
    t.correct(s, scan, time); double sum = 0; for (auto &r : scan) sum = sum + r.rB; if (N == 3) for (int j = 0; j < N; ++j) if (sum > 0) { double u = scan[j].rB * s.lambdaB / sum; ns_assume(fabs(u - t.params.r_lim) > 1e-9 && fabs(u - t.params.rB_max) > 1e-9); }   /* thirds are rounded: exact ties only with one or two reports */ bool any = sum >= t.params.r_lim; std::vector<Tg *> born;
    for (auto *x : t.targettree.targets) if (!before.count(x)) born.push_back(x);
    std::vector<int> n(N, 0); for (auto *x : born) { ns_check(x->pdf.c.size() == 1, "a new target has one component"); auto &c = x->pdf.c[0]; int j = -1; for (int k = 0; k < N; ++k) if (fabs(c.P(0, 0) - scan[k].P(0, 0)) < 1e-9) j = k; ns_check(j >= 0, "a new target has the covariance of a report"); if (j < 0) continue; ++n[j];
      hs::eq(c.x.template head<2>(), pos[j], 1e-9, "a new target is centred on its report"); hs::eq(c.x.template tail<2>(), Vector2d(0, 0), 0, "a new target is at rest"); hs::eq(c.P.template topLeftCorner<2, 2>(), scan[j].P, 1e-9, "a new target has the covariance of its report"); hs::eq(c.P.template bottomRightCorner<2, 2>(), s.pv, 1e-9, "a new target has the configured velocity spread"); hs::eq(c.P.template topRightCorner<2, 2>(), Matrix2d::Zero(), 0, "position and velocity of a new target are uncorrelated"); hs::eq(c.P.template bottomLeftCorner<2, 2>(), Matrix2d::Zero(), 0, "position and velocity of a new target are uncorrelated");
      ns_check_eq(c.w, 1, 0, "a new target has weight one"); ns_check(x->cid == scan[j].cid, "a new target carries the group of its report"); ns_check(used.insert(x->id).second, "a new target has a fresh identity"); ns_check_eq(x->t0, time, 0, "a new target remembers when it was born"); double nr = scan[j].rB * s.lambdaB / sum; ns_check_eq(x->r, nr < t.params.rB_max ? nr : t.params.rB_max, 1e-9, "existence of a new target"); ns_observe("r", x->r);
      auto q = t.targettree.query(cf::LL(pos[j])); ns_check(std::count(q.begin(), q.end(), x) == 1, "a new target is found at its report"); }
    for (int j = 0; j < N; ++j) { bool want = false; if (any) want = scan[j].rB * s.lambdaB / sum >= t.params.r_lim; ns_check(n[j] == (want ? 1 : 0), want ? "a report with enough unexplained probability spawns a target" : "no target is born below the limit"); ns_reach(want ? "born" : "none"); }
    hs::eq(s.pv, s.pv, 0, ""); } };
static Params bp() { Params p = free_params(); p.rB_max = hs::real("cap", 1e-4, 1); p.r_lim = hs::real("limit", 0.001, 1); return p; }
static const double VAR[3] = {64, 16, 36};
NS_HARNESS(b_lone) { Birth b(bp()); b.s.lambdaB = hs::real("intensity", 0, 100); int n = ns_int("reports", 0, 3); for (int j = 0; j < n; ++j) report(b.scan, 3 * j, j, VAR[j]); b.run(4); }
NS_HARNESS(b_where) { Birth b(free_params()); b.t.params.r_lim = 0.01; b.s.lambdaB = 0.5; b.t.params.rB_max = 1; b.s.pv << hs::real("pv", 1e-4, 1e4), hs::real("pv", -1, 1), hs::real("pv", -1, 1), hs::real("pv", 1e-4, 1e4); report(b.scan, hs::grid("x", -50, 50), hs::grid("y", -50, 50), 64); report(b.scan, 0, 0, 16); b.scan[1].P << 16, 4, 4, 9; b.run(hs::real("time", 0, 1e9)); }
NS_HARNESS(b_close) { Birth b(bp()); b.s.lambdaB = hs::real("intensity", 0, 100); b.old.push_back(add(b.t, 0, 0.5, 0, 0, 0.1)); b.s.L[0][0] = hs::real("likelihood", 1e-4, 1e6); report(b.scan, 0, 0, 64); b.run(4); }
NS_HARNESS(b_mixed) { Birth b(bp()); b.s.lambdaB = 0.75; b.old.push_back(add(b.t, 0, 0.5, 0, 0, 0.1)); b.s.L[0][0] = hs::real("likelihood", 1e-4, 1e6); report(b.scan, 0, 0, 64); report(b.scan, 5, 5, 16); b.run(4); }
NS_HARNESS(b_pair) { Birth b(bp()); b.s.lambdaB = ns_int("high", 0, 1) ? 4 : 0.25; for (int i = 0; i < 2; ++i) b.old.push_back(add(b.t, i, 0.75, 0.1 * i, 0, 0.1)); b.s.L[0][0] = hs::real("likelihood", 1e-4, 1e6); b.s.L[1][1] = 3; for (int j = 0; j < 3; ++j) report(b.scan, 0.1 * j, 0, VAR[j]); b.run(4); }
NS_HARNESS(b_certain) {   // explained for certain: nothing unexplained at all
  Birth b(free_params()); b.t.params.r_lim = hs::real("limit", 0.0001, 1); b.t.params.rB_max = 1; b.s.lambdaB = hs::real("intensity", 0, 100); b.old.push_back(add(b.t, 0, 1, 0, 0, 0.1)); b.s.L[0][0] = 0.5; b.s.Q[0] = 0; report(b.scan, 0, 0, 64); b.run(4); }
NS_HARNESS(b_twice) {  // births of consecutive scans, also after erasures
  Birth b(bp()); b.s.lambdaB = 0.5; report(b.scan, 0, 0, 64); b.run(4); if (!b.t.targettree.targets.empty() && ns_int("erase", 0, 1)) { Tg *x = b.t.targettree.targets[0]; b.t.targettree.remove(x); b.t.targettree.erase(x); } b.scan.clear(); report(b.scan, 7, 7, 16); report(b.scan, -7, 7, 36); b.run(5); }
// ---- T11
static void view(const BBox &fov, const std::vector<BBox> &area, const std::vector<int> &in, bool reports) {   // in: 1 inside, 0 outside, -1 touching
  Tr t(free_params()); Sn s; s.lambdaB = 0; s.fov = fov; std::vector<Tg *> tg; for (size_t i = 0; i < area.size(); ++i) { tg.push_back(add(t, i, 0.5, 0, 0, 1)); Tg *x = tg.back(); t.targettree.remove(x); x->pdf.bbox = area[i]; x->pdf.aabbox = area[i].aabbox(); t.targettree.replace(x); x->cid = 1000 + i; }
  auto sel = s.get_targets(t.targettree); int n = 0; for (size_t i = 0; i < tg.size(); ++i) { long c = std::count(sel.begin(), sel.end(), tg[i]); n += c; if (in[i] >= 0) ns_check(c == in[i], in[i] ? "a target that overlaps the field of view is selected once" : "a target outside the field of view is not selected"); ns_reach(in[i] == 1 ? "inside" : "outside"); } ns_check((int)sel.size() == n, "nothing else is selected");
  std::vector<Rep> scan; if (reports) report(scan, 80, 80, 64); t.correct(s, scan, 1); for (size_t i = 0; i < tg.size(); ++i) { if (in[i] == 1) { ns_check(tg[i]->pdf.joins == 1 && tg[i]->cid < 1000, "a target in view is updated"); ns_check_eq(tg[i]->r * 1.5, 0.5, 1e-9, "a target in view is updated"); } else if (in[i] == 0) { ns_check(tg[i]->pdf.joins == 0 && tg[i]->cid == 1000 + i && tg[i]->r == 0.5 && tg[i]->pdf.locals == 0, "a target out of view is left untouched"); AABBox all; all.min = {-1e3, -1e3}; all.max = {1e3, 1e3}; auto q = t.targettree.query(all); ns_check(std::count(q.begin(), q.end(), tg[i]) == 1, "a target out of view stays"); } } }
static BBox rect(double x0, double y0, double x1, double y1) { BBox b; b.corners << x1, x1, x0, x0, y1, y0, y0, y1; return b; }
NS_HARNESS(v_axis) {   // arbitrary rectangles
  double f[4], a[4]; for (double &v : f) v = hs::grid("view", -10, 10); for (double &v : a) v = hs::grid("area", -10, 10); ns_assume(f[0] <= f[2] && f[1] <= f[3]); ns_assume(a[0] <= a[2] && a[1] <= a[3]); bool in = f[0] < a[2] && a[0] < f[2] && f[1] < a[3] && a[1] < f[3], out = f[0] > a[2] || a[0] > f[2] || f[1] > a[3] || a[1] > f[3]; view(rect(f[0], f[1], f[2], f[3]), {rect(a[0], a[1], a[2], a[3])}, {in ? 1 : out ? 0 : -1}, ns_int("reports", 0, 1)); }
NS_HARNESS(v_many) { std::vector<BBox> b; std::vector<int> in; double x = hs::grid("view", -12, 12); for (int i = 0; i < 8; ++i) { double lo = 2 * i - 10, hi = lo + 1 + (i % 3); b.push_back(rect(lo, 0, hi, 1)); in.push_back(x < hi && lo < x + 3 ? 1 : x > hi || lo > x + 3 ? 0 : -1); } view(rect(x, -1, x + 3, 2), b, in, true); }
NS_HARNESS(v_tilt) {   // field of view standing on a corner: its corners' own box is met by targets it does not overlap
  double x = hs::grid("x", -10, 10), y = hs::grid("y", -10, 10), h = ns_int("half", 1, 3); BBox f; int k = ns_int("from", 0, 3); double cx[4] = {4, 0, -4, 0}, cy[4] = {0, -4, 0, 4}; for (int i = 0; i < 4; ++i) { f.corners(0, i) = cx[(i + k) % 4]; f.corners(1, i) = cy[(i + k) % 4]; }
  auto gap = [&](double s, double t) { return s * x + t * y - 2 * h; };  /* distance of the square's nearest corner along a diagonal */ double g = gap(1, 1); for (double v : {gap(1, -1), gap(-1, 1), gap(-1, -1)}) if (v > g) g = v; bool far = x - h > 4 || -x - h > 4 || y - h > 4 || -y - h > 4, touch = x - h == 4 || -x - h == 4 || y - h == 4 || -y - h == 4; view(f, {rect(x - h, y - h, x + h, y + h)}, {g > 4 || far ? 0 : g < 4 && !touch ? 1 : -1}, false); }
