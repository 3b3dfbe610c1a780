// T12: whole tracking cycles with Gaussian targets against the exact recursion
#include "dot.h"
using namespace hd;
using Mix = GM<4, 32>; using MT = SILMB<Mix>; using MG = Target_<Mix>; using Rp = GaussianReport_<2>;
struct Cp { double w; Vector4d x; Matrix4d P; };
struct Est { double r; std::vector<Cp> c; };
struct Zr { Vector2d z; double v, kappa; };
static const double U = 64;   // local units per degree
static double density(const Vector2d &d, const Matrix2d &S) { double det = S(0, 0) * S(1, 1) - S(0, 1) * S(1, 0); return std::exp(-0.5 * (S(1, 1) * d[0] * d[0] - 2 * S(0, 1) * d[0] * d[1] + S(0, 0) * d[1] * d[1]) / det) / (2 * M_PI * std::sqrt(det)); }
static void foresee(std::vector<Est> &T, double d, double pS, double q) {
  for (auto &t : T) { t.r = t.r * std::pow(pS, d); for (auto &c : t.c) { Matrix4d F = Matrix4d::Identity(), Q = Matrix4d::Zero(); F(0, 2) = F(1, 3) = d; for (int k = 0; k < 2; ++k) { Q(k, k) = q * d * d * d / 3; Q(k, k + 2) = Q(k + 2, k) = q * d * d / 2; Q(k + 2, k + 2) = q * d; } c.x = F * c.x; c.P = F * c.P * F.transpose() + Q; } } }
// every consistent joint association of these targets and reports: absent, missed, or one report each
static void learn(std::vector<Est *> T, const std::vector<Zr> &Z, double pD, std::vector<double> &spare) {
  int M = T.size(), N = Z.size(); std::vector<std::vector<std::vector<double>>> l(M, std::vector<std::vector<double>>(N)); std::vector<std::vector<double>> L(M, std::vector<double>(N, 0.0)), b(M, std::vector<double>(N + 1, 0.0)); std::vector<std::vector<Matrix2d>> S(M);
  for (int i = 0; i < M; ++i) for (int j = 0; j < N; ++j) for (auto &c : T[i]->c) { Matrix2d s = c.P.topLeftCorner<2, 2>() + Z[j].v * Matrix2d::Identity(); double v = c.w * pD * density(Z[j].z - c.x.head<2>(), s) / Z[j].kappa; l[i][j].push_back(v); L[i][j] = L[i][j] + v; }
  double tot = 0; std::vector<int> a(M); std::function<void(int, int, double)> go = [&](int i, int used, double w) { if (i == M) { tot = tot + w; for (int k = 0; k < M; ++k) if (a[k] >= 0) b[k][a[k]] = b[k][a[k]] + w; return; }
    a[i] = -1; go(i + 1, used, w * (1 - T[i]->r)); a[i] = N; go(i + 1, used, w * T[i]->r * (1 - pD)); for (int j = 0; j < N; ++j) if (!(used >> j & 1)) { a[i] = j; go(i + 1, used | 1 << j, w * T[i]->r * L[i][j]); } }; go(0, 0, 1.0);
  spare.assign(N, 1.0); for (int j = 0; j < N; ++j) for (int i = 0; i < M; ++i) spare[j] = spare[j] - b[i][j] / tot;
  for (int i = 0; i < M; ++i) { double r = 0; for (double v : b[i]) r = r + v; std::vector<Cp> n; for (auto &c : T[i]->c) n.push_back({c.w * b[i][N] / r, c.x, c.P});
    for (int j = 0; j < N; ++j) for (size_t k = 0; k < T[i]->c.size(); ++k) { auto &c = T[i]->c[k]; Matrix2d s = c.P.topLeftCorner<2, 2>() + Z[j].v * Matrix2d::Identity(); Matrix<double, 4, 2> K = c.P.leftCols<2>() * s.inverse(); n.push_back({l[i][j][k] / L[i][j] * b[i][j] / r, c.x + K * (Z[j].z - c.x.head<2>()), c.P - K * c.P.topRows<2>()}); }
    T[i]->r = r / tot; T[i]->c = n; } }
static void same(const MG *t, const Est &e, bool spread) {
  hs::near(t->r, e.r, 1e-7, "existence follows the recursion"); Vector4d m = Vector4d::Zero(), g = m; Matrix4d C = Matrix4d::Zero(), D = C; for (auto &c : e.c) { m = m + c.w * c.x; C = C + c.w * (c.P + c.x * c.x.transpose()); }
  for (auto &c : t->pdf.c) { Vector4d x = c.x; x.head<2>() *= U; g = g + c.w * x; D = D + c.w * (c.P + x * x.transpose()); }
  for (int k = 0; k < 4; ++k) hs::near(g[k], m[k], 1e-6, "the mean follows the recursion"); if (spread) for (int k = 0; k < 4; ++k) for (int i = 0; i <= k; ++i) hs::near(D(k, i), C(k, i), 1e-4, "the spread follows the recursion"); }
// a history of steps; in one of them one quantity of the state or the step is arbitrary, and the history ends with that step
struct Run {
  int when, which, step = 0; bool over = false;
  bool here(int w) { return step == when && which == w; }
  void loose() { if (over) return; if (tg.empty() || step != when) return; MG *t = tg[0]; Est &e = ref[0]; if (which == 0) { e.r = t->r = hs::real("r", 0.0625, 0.9375); ns_reach("r"); } }
  void done(bool spread = true) { if (over) return; compare(spread); if (step == when) over = true; ++step; }
  MT t; std::vector<Est> ref; std::vector<MG *> tg; PositionSensor<MG> s; double pD = 0.75, births = 0, now = 0; std::vector<int> group;   // group: targets that can share reports
  static Params par() { Params p; p.w_lim = 0; p.nhyp_max = 1000; p.r_lim = 1e-5; p.rB_max = 0.75; p.cw_lim = 0; p.cov_lim = 1e9; p.nstd = 4; p.tscale = 2; return p; }
  Run(int steps, int first = 0) : when(ns_int("when", first, steps - 1)), which(ns_int("arbitrary", 0, 2)), t(par()) { s.fov.corners << 80, 80, -80, -80, 80, -80, -80, 80; s.pv = Matrix2d::Identity() * 9; }
  void target(double r, double x, double y, double vx, double vy, double var, int g = 0) { Matrix4d P = Matrix4d::Identity() * var; P(0, 2) = P(2, 0) = 0.25 * var; tg.push_back(t.targettree.new_target(r, Mix(&t.params, Vector4d(x / U, y / U, vx, vy), P), 0)); ref.push_back({r, {{1.0, Vector4d(x, y, vx, vy), P}}}); group.push_back(g); }
  void predict(double time, double pS, double q) { loose(); if (over) return; if (here(1)) { pS = hs::real("pS", 0.25, 1); ns_reach("pS"); } if (here(2)) { q = hs::real("q", 0, 4); ns_reach("q"); } CV<MG> m(pS, q); t.predict(m, time, now); foresee(ref, (time - now) / 2, pS, q); now = time; done(); }
  void scan(const std::vector<Zr> &Z_, const std::vector<int> &zg) {
    loose(); if (over) return; std::vector<Zr> Z = Z_; double pD = this->pD, births = this->births; if (here(1) && births > 0) { births = hs::real("births", 0.0625, 2); ns_reach("births"); }
    std::vector<Rp> z; for (auto &a : Z) z.emplace_back(Vector2d(a.z / U), Matrix2d(a.v * Matrix2d::Identity()), a.kappa); s.pD_ = pD; s.lambdaB = births; size_t n = tg.size(); t.correct(s, z, now);
    int ng = 0; for (int g : group) ng = std::max(ng, g + 1); for (int g : zg) ng = std::max(ng, g + 1); std::vector<double> spare(Z.size(), 1.0), sp; for (int g = 0; g < ng; ++g) { std::vector<Est *> T; std::vector<Zr> y; std::vector<int> id; for (size_t i = 0; i < ref.size(); ++i) if (group[i] == g) T.push_back(&ref[i]); for (size_t j = 0; j < Z.size(); ++j) if (zg[j] == g) { y.push_back(Z[j]); id.push_back(j); } learn(T, y, pD, sp); for (size_t j = 0; j < id.size(); ++j) spare[id[j]] = sp[j]; }
    double sum = 0; for (double v : spare) sum = sum + v; std::vector<Est> born; std::vector<int> bg; for (size_t j = 0; j < Z.size(); ++j) { hs::near(z[j].rB, spare[j], 1e-7, "what a report leaves unexplained follows the recursion"); double nr = spare[j] * births / sum; if (births > 0) { ns_assume(fabs(nr - 1e-5) > 1e-7); ns_assume(fabs(nr - 0.75) > 1e-7); if (nr >= 1e-5) { double v = Z[j].v; Matrix4d P = Vector4d(v, v, 9, 9).asDiagonal(); born.push_back({nr > 0.75 ? 0.75 : nr, {{1.0, (Vector4d() << Z[j].z, 0, 0).finished(), P}}}); bg.push_back(zg[j]); } } }
    auto &l = t.targettree.targets; for (auto *x : tg) ns_check(std::count(l.begin(), l.end(), x) == 1, "a target stays"); ns_check(l.size() == n + born.size(), "as many targets are born as the recursion says"); if (l.size() != n + born.size()) return;
    std::vector<MG *> fresh; for (auto *x : l) if (std::count(tg.begin(), tg.end(), x) == 0) fresh.push_back(x);   // newborn targets, told apart by place
    for (size_t b = 0; b < born.size(); ++b) { MG *y = nullptr; for (auto *x : fresh) if (x->pdf.c.size() == 1 && x->pdf.c[0].x[0] * U == born[b].c[0].x[0] && x->pdf.c[0].x[1] * U == born[b].c[0].x[1]) y = x; ns_check(y != nullptr, "a target is born at the report"); if (!y) return; tg.push_back(y); ref.push_back(born[b]); group.push_back(bg[b]); } done(); }
  void compare(bool spread = true) { for (size_t i = 0; i < tg.size(); ++i) same(tg[i], ref[i], spread); double e = 0; for (auto &x : ref) e = e + x.r; hs::near(t.enof_targets(), e, 1e-7, "the expected number of targets follows the recursion"); ns_reach("done"); }
};
// one target: reported, missed, reported twice
NS_HARNESS(alone) { Run u(6); u.target(0.5, 0, 0, 2, -1, 4); u.predict(2, 0.9375, 0.5); u.scan({{{3, -2}, 1, 0.0625}}, {0}); u.predict(5, 0.9375, 0.5); u.scan({}, {}); u.predict(6, 0.875, 0.25); u.scan({{{7, -4}, 2, 0.0625}, {{6, -6}, 1, 0.125}}, {0, 0}); }
// two targets that share their reports; the arbitrary quantity comes after that
NS_HARNESS(pair) { Run u(4, 3); u.target(0.5, 0, 0, 2, -1, 4); u.target(0.75, 3, 1, 0, 1, 2); u.scan({{{1, 0}, 1, 0.125}, {{3, 2}, 1, 0.0625}}, {0, 0}); u.predict(1, 0.875, 0.25); u.scan({{{2, 1}, 1, 0.25}}, {0}); u.predict(4, 0.9375, 0.5); }
// a target that starts from a report, is seen again, and missed
NS_HARNESS(born) { Run u(5); u.births = 0.5; u.scan({{{1, 1}, 2, 0.125}}, {0}); u.births = 0; u.predict(2, 0.875, 0.25); u.scan({{{2, 1}, 1, 0.125}}, {0}); u.predict(3, 0.875, 0.25); u.scan({}, {}); }
// two groups: neither knows of the other
NS_HARNESS(apart) { Run u(3); u.target(0.5, 0, 0, 1, 0, 4, 0); u.target(0.75, 600, -400, 0, 1, 2, 1); u.scan({{{1, 0}, 1, 0.0625}, {{601, -398}, 1, 0.125}, {{599, -401}, 2, 0.25}}, {0, 1, 1}); u.predict(2, 0.875, 0.25); u.scan({{{602, -399}, 1, 0.125}}, {1}); }
// births beside known targets, which then have to share
NS_HARNESS(mixed) { Run u(5); u.births = 0.75; u.target(0.5, 0, 0, 1, 0, 4, 0); u.scan({{{1, 0}, 1, 0.0625}, {{601, -398}, 1, 0.125}}, {0, 1}); u.births = 0; u.predict(2, 0.875, 0.25); u.scan({{{2, 0}, 1, 0.0625}, {{600, -398}, 1, 0.125}}, {0, 1}); u.predict(3, 0.875, 0.25); u.scan({{{3, 0}, 1, 0.0625}}, {0}); }
