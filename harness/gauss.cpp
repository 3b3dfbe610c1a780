// E01-E06: Gaussian and mixture
#include <algorithm>
#include <sstream>
#include <iostream>
#include "tools.h"
#include "gm.hpp"
#include "models.hpp"
#include "sensors.hpp"
#include "target.hpp"
using namespace Eigen; using namespace lmb;
using G4 = Gaussian_<4>; using Mix = GM<4, 3>; using T3 = Target_<Mix>; using Rep = GaussianReport_<2>;
struct Sen : PositionSensor<T3> {   // position sensor whose detection probability is chosen by the harness
  double p = 1; bool per = false;
  template <typename PDF> double pD(const PDF &g, const cf::LL &) const { return per ? g.x[3] : p; }
};
struct Flat : Rep { using Rep::Rep; template <typename A, typename B> double likelihood(const A &, const B &) const { return 0.5; } };   // report whose density is not of interest
struct SenF : Sen { using Report = Flat; };
static const cf::LL O0(0, 0);
// E01
static void posterior(const G4 &a, const Flat &z, const G4 &b, double tol) {
  Matrix2d S = a.P.topLeftCorner<2, 2>() + z.P; double det = S(0, 0) * S(1, 1) - S(0, 1) * S(1, 0); Vector2d d = z.x - a.x.head<2>();
  Matrix2d adj; adj << S(1, 1), -S(0, 1), -S(1, 0), S(0, 0); Matrix<double, 4, 2> PH = a.P.leftCols<2>();
  Vector4d dx = PH * (adj * d); Matrix4d dP = PH * adj * PH.transpose();
  for (int i = 0; i < 4; ++i) ns_check_eq((b.x[i] - a.x[i]) * det, dx[i], tol, "posterior mean");
  for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) ns_check_eq((a.P(i, j) - b.P(i, j)) * det, dP(i, j), tol, "posterior covariance");
  for (int i = 0; i < 4; ++i) for (int j = 0; j < i; ++j) ns_check_eq(b.P(i, j), b.P(j, i), tol, "posterior covariance is symmetric");
}
NS_HARNESS(post_any) {
  SenF s; s.p = 0.5; G4 g(hs::vec<4>("x", -1e6, 1e6), hs::sym<4>("P", 0.0009765625, 16384), 1); Flat z(hs::vec<2>("z", -1e6, 1e6), hs::sym<2>("R", 0.0009765625, 16384), 2.0); G4 a = g;
  Matrix2d S = g.P.topLeftCorner<2, 2>() + z.P; ns_assume(S(0, 0) > 1e-3); ns_assume(S(0, 0) * S(1, 1) - S(0, 1) * S(1, 0) > 1e-6);
  g.correct<SenF>(z, s, O0); posterior(a, z, g, 1e-6); ns_observe("x0", g.x[0]); ns_observe("P00", g.P(0, 0)); ns_reach("done");
}
NS_HARNESS(post_smaller) {   // v' (P - P') v is a sum of squares for a positive definite innovation covariance
  SenF s; G4 g(hs::vec<4>("x", -1e6, 1e6), hs::sym<4>("P", 0.0009765625, 16384), 1); Flat z(hs::vec<2>("z", -1e6, 1e6), hs::sym<2>("R", 0.0009765625, 16384), 1.0); G4 a = g; Vector4d v = hs::vec<4>("v", -10, 10);
  Matrix2d S = g.P.topLeftCorner<2, 2>() + z.P; double det = S(0, 0) * S(1, 1) - S(0, 1) * S(1, 0); ns_assume(S(0, 0) > 1e-3); ns_assume(det > 1e-6);
  g.correct<SenF>(z, s, O0); Vector2d y = (a.P * v).head<2>(); double q = v.dot((a.P - g.P) * v), k = S(0, 0) * y[1] - S(0, 1) * y[0];
  ns_check_eq(q * det * S(0, 0), k * k + det * y[0] * y[0], 1e-6, "posterior is not larger than the prior in any direction"); ns_reach("done");
}
NS_HARNESS(post_mixture) {   // each component of a mixture on its own; origin and report untouched
  Params p; Mix m(&p); m.origin = O0; SenF s; s.p = 0.5; Flat z(hs::vec<2>("z", -20, 20), hs::sym<2>("R", 1, 4), 1.5); Vector2d zx = z.x; Matrix2d zR = z.P; int n = ns_int("n", 1, 3);
  ns_assume(zR(0, 0) * zR(1, 1) - zR(0, 1) * zR(0, 1) > 0.1);
  static const double D[3][4] = {{4, 2, 1, 3}, {1, 1, 1, 1}, {9, 0.5, 4, 2}}; std::vector<G4> a;
  for (int i = 0; i < n; ++i) { Matrix4d P = Vector4d(D[i][0], D[i][1], D[i][2], D[i][3]).asDiagonal(); P(0, 2) = P(2, 0) = 0.5; P(0, 1) = P(1, 0) = i * 0.25; m.c.emplace_back(hs::vec<4>("x", -20, 20), P, 1.0 / n); a.push_back(m.c[i]); }
  double eta = m.correct<SenF>(z, s); ns_check(m.c.empty() ? eta <= 1e-8 : (int)m.c.size() == n, "components are kept"); 
  for (size_t i = 0; i < m.c.size(); ++i) posterior(a[i], z, m.c[i], 1e-6);
  hs::eq(z.x, zx, 0, "report is not changed"); hs::eq(z.P, zR, 0, "report is not changed"); ns_reach(m.c.empty() ? "void" : "done");
}
// E02
static const double COV[3][2][3] = {{{1, 0, 1}, {1, 0, 1}}, {{2, 1, 1}, {1, 0, 2}}, {{2, 1, 3}, {3, 1, 1}}};
NS_HARNESS(like) {
  int k = ns_int("cov", 0, 2); auto &c = COV[k]; Matrix4d P = Matrix4d::Identity(); P(0, 0) = c[0][0]; P(0, 1) = P(1, 0) = c[0][1]; P(1, 1) = c[0][2]; P(2, 0) = P(0, 2) = 0.25; Matrix2d R; R << c[1][0], c[1][1], c[1][1], c[1][2];
  Sen s; s.p = hs::real("pD", 0, 1); double w = hs::real("w", 0, 1), kap = hs::real("kappa", 1e-9, 1e6); G4 g(hs::vec<4>("x", -5, 5), P, w); Rep z(hs::vec<2>("z", -5, 5), R, kap); Vector2d d = z.x - g.x.head<2>();
  double out = g.correct<Sen>(z, s, O0); Matrix2d S = P.topLeftCorner<2, 2>() + R; double det = S(0, 0) * S(1, 1) - S(0, 1) * S(1, 0);
  double q = (S(1, 1) * d[0] * d[0] - 2 * S(0, 1) * d[0] * d[1] + S(0, 0) * d[1] * d[1]) / det; ns_observe("w", out);
  ns_check_eq(out, g.w, 0, "returned value is the new weight"); double e = w * s.p * std::exp(-0.5 * q) / (2 * M_PI * std::sqrt(det));
  ns_check_le(out * kap, e * (1 + 1e-9) + 1e-300, 0, "weight is scaled by detection, density and clutter"); ns_check_le(e * (1 - 1e-9) - 1e-300, out * kap, 0, "weight is scaled by detection, density and clutter"); ns_reach("done");
}
NS_HARNESS(like_cov) {  // arbitrary covariances, report at a fixed offset
  Matrix4d P = hs::sym<4>("P", 1, 4); Matrix2d R = hs::sym<2>("R", 1, 4); Matrix2d S = P.topLeftCorner<2, 2>() + R; double det = S(0, 0) * S(1, 1) - S(0, 1) * S(1, 0); ns_assume(det > 0.1);
  Sen s; s.p = hs::real("pD", 0.1, 1); double w = hs::real("w", 0.0009765625, 1); int k = ns_int("offset", 0, 2); static const double D[3][2] = {{0, 0}, {1, 0}, {1, -2}}; Vector2d d(D[k][0], D[k][1]); Vector4d x(3, 4, 1, 0.5); G4 g(x, P, w); Rep z(x.head<2>() + d, R, 1.0);
  double l = g.correct<Sen>(z, s, O0) / (w * s.p), q = (S(1, 1) * d[0] * d[0] - 2 * S(0, 1) * d[0] * d[1] + S(0, 0) * d[1] * d[1]) / det;
  double a = l * l * det * (4 * M_PI * M_PI), b = std::exp(-0.5 * q); b *= b; ns_check_le(a, b * (1 + 1e-9), 0, "density normalisation and exponent"); ns_check_le(b * (1 - 1e-9), a, 0, "density normalisation and exponent"); ns_reach("done");
}
NS_HARNESS(like_mixture) {
  Params p; Mix m(&p); m.origin = O0; Sen s; s.per = true; int n = ns_int("n", 1, 3); double w[3], e[3], sum = 0, kap = hs::real("kappa", 1e-6, 1000);
  for (int i = 0; i < n; ++i) { Vector4d x(i, 0, 0, hs::real("pD", 0.05, 1)); w[i] = hs::real("w", 0.0009765625, 1); m.c.emplace_back(x, Matrix4d::Identity() * (i + 1), w[i]); e[i] = w[i] * x[3] * std::exp(-0.5 * (1 - i) * (1 - i) / (i + 2)) / (2 * M_PI * (i + 2)); sum += e[i]; }
  ns_assume(sum > 2e-8 * kap); Rep z(Vector2d(1, 0), Matrix2d::Identity(), kap); double eta = m.correct<Sen>(z, s); ns_observe("eta", eta);
  hs::near(eta * kap, sum, 1e-9, "total likelihood is the sum over the components"); ns_check((int)m.c.size() == n, "components are kept");
  if ((int)m.c.size() == n) for (int i = 0; i < n; ++i) hs::near(m.c[i].w * sum, e[i], 1e-9, "relative weights follow the likelihoods"); ns_check_eq(m.eta, eta, 0, "reported total"); ns_reach("done");
}
NS_HARNESS(missed) {
  Params p; Mix m(&p); m.origin = O0; Sen s; s.per = true; int n = ns_int("n", 1, 3); double e = 0; std::vector<G4> a;
  for (int i = 0; i < n; ++i) { Vector4d x(i, 0, 0, hs::real("pD", 0, 1)); double w = hs::real("w", 0, 1); m.c.emplace_back(x, Matrix4d::Identity(), w); e += w * x[3]; a.push_back(m.c[i]); }
  double v = m.missed(s); ns_observe("missed", v); ns_check_eq(v, 1 - e, 1e-12, "missed value is one minus the weighted detection probability"); ns_check((int)m.c.size() == n, "components are kept");
  for (int i = 0; i < (int)m.c.size(); ++i) { hs::eq(m.c[i].x, a[i].x, 0, "a missed target keeps its state"); hs::eq(m.c[i].P, a[i].P, 0, "a missed target keeps its covariance"); ns_check_eq(m.c[i].w, a[i].w, 0, "a missed target keeps its weights"); } ns_reach("done");
}
static long nk; static const double LV[4] = {-1.5, -0.5, 0.25, 1.75};
static double levels() { return LV[(nk++ / 4) % 4]; }   // four equally frequent noise levels, the same in all coordinates
static double cap() { return std::abs(LV[3]); }
NS_HARNESS(detect) {   // detection probability of the position sensor: nominal value times the fraction inside
  PositionSensor<T3> s; s.pD_ = hs::real("pD", 0, 1); int t = ns_int("fov", 0, 2);
  if (t == 0) s.fov = BBox(AABBox(-1, -1, 1, 1)); else if (t == 1) s.fov = BBox((BBox::Corners() << 1, 0, -1, 0, 0, -1, 0, 1).finished()); else s.fov = BBox((BBox::Corners() << 2, 1, -2, -1, 1, -2, -1, 2).finished());
  Vector4d x; x << hs::grid("x", -1000, 1000), hs::grid("y", -1000, 1000), 0, 0; Vector4d dg(16, 1, 1, 1); Matrix4d P = dg.asDiagonal(); G4 g(x, P, 1); nsn::normal = levels; nk = 0; cf::LL o(0.5, -0.25);
  double v = s.pD(g, o); ns_observe("pD", v); ns_check_le(0, v, 0, "detection probability is not negative"); ns_check_le(v, s.pD_, 0, "detection probability is at most the nominal value");
  BBox ne = s.fov.nebbox(o); int in = 0; bool edge = false;   // samples lie at x + diag(4,1) * level (either sign of the axes)
  AABBox ref(x, Matrix2d(P.topLeftCorner<2, 2>()), 1.75); (void)ref;
  Vector2d cen = ne.corners.rowwise().mean(), e1 = (ne.corners.col(0) - ne.corners.col(1)), e2 = (ne.corners.col(1) - ne.corners.col(2));
  for (int k = 0; k < 4; ++k) { Vector2d q = x.head<2>() + Vector2d(4 * LV[k], LV[k]) - cen; double a = 2 * std::fabs(q.dot(e1)) - e1.squaredNorm(), b = 2 * std::fabs(q.dot(e2)) - e2.squaredNorm(); if (a < 0 && b < 0) ++in; else if (a <= 0 && b <= 0) edge = true; }
  if (!edge) ns_check_eq(v * 4, s.pD_ * in, 1e-9, "nominal value times the fraction of the state inside the field of view"); ns_reach(in == 4 ? "inside" : in == 0 ? "outside" : "part");
}
// E03
static Matrix4d spd4(int k) { Matrix4d P = Vector4d(4, 3, 2, 1).asDiagonal(); P(0, 2) = P(2, 0) = 0.5 * k; P(1, 3) = P(3, 1) = 0.25; P(0, 1) = P(1, 0) = -0.5; return P; }
NS_HARNESS(cv) {
  Params p; p.tscale = hs::real("tscale", 0.015625, 4096); int n = ns_int("n", 1, 2); Mix m(&p); std::vector<G4> a; 
  for (int i = 0; i < n; ++i) { m.c.emplace_back(hs::vec<4>("x", -1e6, 1e6), hs::sym<4>("P", 0.0009765625, 16384), i ? 0.25 : 0.75); a.push_back(m.c[i]); }
  double t0 = hs::real("last", 0, 1e6), t1 = hs::real("time", 0, 1e6), pS = hs::real("pS", 0.0009765625, 1), q = hs::real("q", 0, 1e4), r = hs::real("r", 0.0009765625, 1); ns_assume(t1 >= t0); ns_assume(t1 - t0 <= 1e5); double d = (t1 - t0) / p.tscale;
  T3 t(r, Mix(m), &p, 0); CV<T3> cv(pS, q); cv(&t, t1, t0); ns_check((int)t.pdf.c.size() == n, "components are kept");
  for (int i = 0; i < n; ++i) { auto &b = t.pdf.c[i]; for (int k = 0; k < 2; ++k) { ns_check_eq(b.x[k], a[i].x[k] + d * a[i].x[k + 2], 1e-9, "position moves with the velocity"); ns_check_eq(b.x[k + 2], a[i].x[k + 2], 1e-9, "velocity is kept"); }
    auto &A = a[i].P; for (int k = 0; k < 2; ++k) for (int l = 0; l < 2; ++l) { double qq = k == l ? q : 0;
      hs::near(b.P(k, l), A(k, l) + d * (A(k + 2, l) + A(k, l + 2)) + d * d * A(k + 2, l + 2) + qq * d * d * d / 3, 1e-6, "position covariance"); hs::near(b.P(k, l + 2), A(k, l + 2) + d * A(k + 2, l + 2) + qq * d * d / 2, 1e-6, "cross covariance"); hs::near(b.P(k + 2, l), A(k + 2, l) + d * A(k + 2, l + 2) + qq * d * d / 2, 1e-6, "cross covariance"); ns_check_eq(b.P(k + 2, l + 2), A(k + 2, l + 2) + qq * d, 1e-9, "velocity covariance"); }
    ns_check_eq(b.w, a[i].w, 0, "weights are kept"); }
  ns_observe("x", t.pdf.c[0].x[0]); ns_observe("P", t.pdf.c[0].P(0, 0)); ns_observe("r", t.r); ns_check_eq(t.r, r * std::pow(pS, d), 1e-9, "existence is multiplied by the survival probability per time unit"); ns_reach("done");
}
NS_HARNESS(cv_split) {
  Params p; p.tscale = hs::real("tscale", 0.015625, 4096); Mix m(&p); m.c.emplace_back(hs::vec<4>("x", -1e6, 1e6), hs::sym<4>("P", 0.0009765625, 16384), 1.0);
  double t0 = 0, d1 = hs::real("first", 0, 1e4), d2 = hs::real("second", 0, 1e4), pS = hs::real("pS", 0.1, 1), q = hs::real("q", 0, 1e4), r = hs::real("r", 0.0009765625, 1);
  ns_assume(d1 + d2 <= 200 * p.tscale);   // beyond, the survival probability underflows
  T3 t(r, Mix(m), &p, 0), u(r, Mix(m), &p, 0); CV<T3> cv(pS, q); cv(&t, t0 + d1 + d2, t0); cv(&u, t0 + d1, t0); cv(&u, t0 + d1 + d2, t0 + d1);
  hs::eq(t.pdf.c[0].x, u.pdf.c[0].x, 1e-9, "mean does not depend on the split"); for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) hs::near(t.pdf.c[0].P(i, j), u.pdf.c[0].P(i, j), 1e-6, "covariance does not depend on the split"); ns_check_eq(t.r, u.r, 1e-9, "existence does not depend on the split"); ns_reach("done");
}
NS_HARNESS(nm) {
  Params p; Mix m(&p); int n = ns_int("n", 1, 2); std::vector<G4> a; for (int i = 0; i < n; ++i) { m.c.emplace_back(hs::vec<4>("x", -1e6, 1e6), hs::sym<4>("P", 0.0009765625, 16384), i ? 0.25 : 0.75); a.push_back(m.c[i]); }
  double pS = hs::real("pS", 0.0009765625, 1), r = hs::real("r", 0.0009765625, 1); Matrix4d Q = hs::sym<4>("Q", 0.0009765625, 1e4); T3 t(r, Mix(m), &p, 0); NM<T3> nm(pS, Q); nm(&t, hs::real("time", 0, 1e5), hs::real("last", 0, 1e5)); ns_check((int)t.pdf.c.size() == n, "components are kept");
  for (int i = 0; i < n; ++i) { hs::eq(t.pdf.c[i].x, a[i].x, 0, "static model keeps the mean"); hs::eq(t.pdf.c[i].P, (a[i].P + Q).eval(), 1e-9, "static model adds its noise"); ns_check_eq(t.pdf.c[i].w, a[i].w, 0, "weights are kept"); } ns_check_eq(t.r, r * pS, 1e-9, "existence is multiplied by the survival probability"); ns_reach("done");
}
template <class MODEL> static void whole(MODEL &md, double f, Mix &m, Params &p) {  // Target::predict: model, then renormalisation
  std::vector<G4> a(m.c.begin(), m.c.end()); double s = 0; for (auto &g : a) s += g.w; double r = hs::real("r", 0.0009765625, 1); T3 t(r, Mix(m), &p, 0); t.predict(md, 3.0, 1.0);
  ns_check_eq(t.r, r * f * s, 1e-9, "existence is scaled by survival and total weight"); ns_check(t.last_action == ACTION_PREDICT, "last action"); for (size_t i = 0; i < a.size(); ++i) ns_check_eq(t.pdf.c[i].w * s, a[i].w, 1e-9, "weights keep their ratios"); ns_reach("done");
}
NS_HARNESS(target_predict) { Params p; Mix m(&p); int n = ns_int("n", 1, 3); for (int i = 0; i < n; ++i) m.c.emplace_back(Vector4d(i, 1, 2, 3), spd4(i), hs::real("w", 0.0009765625, 1)); CV<T3> cv(0.5, 1); NM<T3> nm(0.75, Matrix4d::Identity()); if (ns_int("model", 0, 1)) whole(cv, 0.25, m, p); else whole(nm, 0.75, m, p); }
NS_HARNESS(cv_mean) { Params p; Mix m(&p); Vector4d a = hs::vec<4>("x", -1e5, 1e5), b = hs::vec<4>("x", -1e5, 1e5); double w = hs::real("w", 0, 1), d = hs::real("dT", 0, 1e5); m.c.emplace_back(a, spd4(0), w); m.c.emplace_back(b, spd4(1), 1 - w); CV<T3> cv; Vector4d y = cv.predict(m, d); Vector4d x = w * a + (1 - w) * b;
  for (int k = 0; k < 2; ++k) { ns_check_eq(y[k], x[k] + d * x[k + 2], 1e-9, "predicted mean"); ns_check_eq(y[k + 2], x[k + 2], 1e-9, "predicted velocity"); } ns_reach("done"); }
// E04
NS_HARNESS(normalize) {
  Params p; Mix m(&p); int n = ns_int("n", 0, 4); std::vector<G4> a; double s = 0; for (int i = 0; i < n; ++i) { double w = hs::real("w", 0, 1000); m.c.emplace_back(Vector4d(i, i + 1, 2, 3), spd4(i % 3), w); a.push_back(m.c[i]); s += w; }
  m.normalize(); ns_observe("eta", m.eta);
  if (s > 1e-8) { ns_check_eq(m.eta, s, 1e-12, "previous total weight is reported"); ns_check((int)m.c.size() == n, "components are kept"); double u = 0; for (int i = 0; i < (int)m.c.size(); ++i) { ns_check_eq(m.c[i].w * s, a[i].w, 1e-9, "ratios of the weights are kept"); u += m.c[i].w; hs::eq(m.c[i].x, a[i].x, 0, "states are kept"); hs::eq(m.c[i].P, a[i].P, 0, "covariances are kept"); } ns_check_eq(u, 1, 1e-9, "weights sum to one"); ns_reach("normal"); }
  else { ns_check(m.c.empty(), "a mixture without weight becomes empty"); ns_check_eq(m.eta, 0, 0, "a mixture without weight has weight zero"); ns_reach("void"); }
}
NS_HARNESS(moments) {
  Params p; Mix m(&p); int n = ns_int("n", 1, 3); std::vector<G4> a; double rest = 1; for (int i = 0; i < n; ++i) { double w = i + 1 < n ? hs::real("w", 0, 0.5) : rest; rest -= w; m.c.emplace_back(hs::vec<4>("x", -1e5, 1e5), hs::sym<4>("P", 0.0009765625, 16384), w); a.push_back(m.c[i]); }
  Vector4d mu = m.mean(); Matrix4d C = m.cov(); Vector4d e = Vector4d::Zero(); Matrix4d S = Matrix4d::Zero(); for (auto &g : a) { e += g.w * g.x; S += g.w * (g.P + g.x * g.x.transpose()); } S -= e * e.transpose();
  hs::eq(mu, e, 1e-9, "mean is the weighted mean"); hs::eq(C, S, 1e-6, "covariance is the weighted spread plus the component covariances"); hs::eq(m.pos(), e.head<2>(), 1e-9, "position"); hs::eq(m.vel(), e.tail<2>(), 1e-9, "velocity"); hs::eq(m.poscov(), S.topLeftCorner<2, 2>(), 1e-6, "position covariance"); hs::eq(m.velcov(), S.bottomRightCorner<2, 2>(), 1e-6, "velocity covariance"); ns_observe("m", mu[0]); ns_observe("c", C(0, 1)); ns_reach("done");
}
NS_HARNESS(moments_raw) {  // weights that do not sum to one: second moment about any point
  Params p; Mix m(&p); Vector4d y = hs::vec<4>("about", -1e5, 1e5); Matrix4d S = Matrix4d::Zero(); for (int i = 0; i < 2; ++i) { m.c.emplace_back(hs::vec<4>("x", -1e5, 1e5), spd4(i), hs::real("w", 0, 2)); Vector4d d = m.c[i].x - y; S += m.c[i].w * (spd4(i) + d * d.transpose()); } hs::eq(m.cov(y), S, 1e-6, "second moment about a point"); ns_reach("done");
}
// E05
struct C_ { double w; int id; };
static void fill(Mix &m, int n, int id0, double lo, double hi, std::vector<C_> &all, double f) { for (int i = 0; i < n; ++i) { double w = hs::real("w", lo, hi); m.c.emplace_back(Vector4d(id0 + i, 1, 2, 3), Matrix4d::Identity() * (id0 + i + 1), w); all.push_back({w * f, id0 + i}); } }
static void reduced(const Mix &m, std::vector<C_> all, const std::vector<char> &may, size_t max, double s, bool ordered) {   // kept: which components, checked by the caller's rule
  std::vector<char> in(all.size(), 0); double u = 0, last = 0;
  for (size_t k = 0; k < m.c.size(); ++k) { int id = -1; for (size_t i = 0; i < all.size(); ++i) if (m.c[k].x[0] == (double)all[i].id) id = i; ns_check(id >= 0 && !in[id], "a kept component is one of the given, once"); if (id < 0) return; in[id] = 1;
    hs::eq(m.c[k].x, Vector4d(all[id].id, 1, 2, 3), 0, "kept states are untouched"); hs::eq(m.c[k].P, (Matrix4d::Identity() * (all[id].id + 1)).eval(), 0, "kept covariances are untouched");
    if (k) ns_check_le(m.c[k].w, last, 1e-12, "descending order of weight"); last = m.c[k].w; u += m.c[k].w; ns_check_eq(m.c[k].w * s, all[id].w, 1e-9, "kept ratios of the weights"); }
  if (!m.c.empty()) ns_check_eq(u, 1, 1e-9, "total weight is one");
  for (size_t i = 0; i < all.size(); ++i) for (size_t j = 0; j < all.size(); ++j) if (in[i] && !in[j]) ns_check_le(all[j].w, all[i].w, 1e-12, "no component is dropped while a lighter one is kept");
}
NS_HARNESS(prune) {
  Params p; p.cw_lim = hs::real("limit", 1e-6, 1); Mix m(&p); std::vector<C_> all; int n = ns_int("n", 1, 5); fill(m, n, 0, 0, 1, all, 1); m.prune();
  std::vector<double> ok; double s = 0; for (auto &c : all) if (c.w >= p.cw_lim) ok.push_back(c.w); std::sort(ok.rbegin(), ok.rend()); if (ok.size() > 3) ok.resize(3); for (double w : ok) s += w;
  ns_check(m.c.size() == ok.size(), "exactly the heaviest above the limit, up to the capacity, are kept"); if (m.c.size() == ok.size() && !ok.empty()) reduced(m, all, {}, 3, s, true); ns_reach(ok.size() == all.size() ? "all" : ok.empty() ? "none" : "some"); ns_observe("n", m.c.size());
}
NS_HARNESS(plus) {
  Params p; p.cw_lim = 0.05; Mix a(&p), b(&p); std::vector<C_> all; int n = ns_int("n", 0, 2), k = ns_int("m", 0, 2); fill(a, n, 0, 0, 1, all, 1); fill(b, k, n, 0, 1, all, 1); Mix r(&p); if (ns_int("inplace", 0, 1)) { a += b; r = a; } else { r = a + b; ns_check((int)a.c.size() == n && (int)b.c.size() == k, "operands are kept"); }
  std::vector<double> ok; double s = 0; for (auto &c : all) if (c.w >= p.cw_lim) ok.push_back(c.w); std::sort(ok.rbegin(), ok.rend()); if (ok.size() > 3) ok.resize(3); for (double w : ok) s += w;
  ns_check(r.c.size() == ok.size(), "exactly the heaviest above the limit, up to the capacity, are kept"); if (r.c.size() == ok.size() && !ok.empty()) reduced(r, all, {}, 3, s, true); ns_reach("done");
}
static void join(int nh, int maxc, double lim) {
  Params p; p.cw_lim = lim; std::vector<Mix> h(nh, Mix(&p)); Matrix<double, 1, Dynamic> w(1, nh); std::vector<C_> all; int id = 0; 
  for (int j = 0; j < nh; ++j) { w(0, j) = hs::real("hypothesis", 0, 1); int n = ns_int("n", 0, maxc); size_t k0 = all.size(); fill(h[j], n, id, 0, 1, all, w(0, j)); (void)k0; id += n; }
  Mix r(&p); r.c.emplace_back(Vector4d(99, 0, 0, 0), Matrix4d::Identity(), 1.0); double tot = 0; for (auto &c : all) tot += c.w; 
  Mix::join(r, w, h);
  std::vector<double> ws; for (auto &c : all) ws.push_back(c.w); std::sort(ws.rbegin(), ws.rend()); size_t keep = 0; double s = 0; while (keep < ws.size() && keep < 3) { if (ws[keep] < lim * (s + ws[keep])) break; s += ws[keep]; ++keep; }
  ns_observe("n", r.c.size()); ns_assume(s > 1e-6); ns_check(r.c.size() == keep, "exactly the heaviest above the relative limit, up to the capacity, are kept"); ns_check_eq(r.eta, s, 1e-9, "total weight is reported"); if (r.c.size() == keep) reduced(r, all, {}, 3, s, true); ns_reach(keep == all.size() ? "all" : "some");
}
NS_HARNESS(join2) { join(2, 2, 0.1); } NS_HARNESS(join3) { join(3, 1, 0.01); } NS_HARNESS(join4) { join(4, 1, 0.25); } NS_HARNESS(join_big) { join(2, 3, 0.1); }
NS_HARNESS(join_void) { Params p; std::vector<Mix> h(2, Mix(&p)); Matrix<double, 1, Dynamic> w(1, 2); w << 0.5, 0.5; Mix r(&p); r.c.emplace_back(Vector4d(99, 0, 0, 0), Matrix4d::Identity(), 1.0); Mix::join(r, w, h); ns_check(r.c.empty(), "nothing to join gives an empty mixture"); ns_check_eq(r.eta, 0, 0, "and weight zero"); ns_reach("done"); }
// E06
static double unit4() { long k = nk++; return k % 4 == (k / 4) % 4 ? 1 : 0; }
static double unit2() { long k = nk++; return k % 2 == (k / 2) % 2 ? 1 : 0; }
static double zero() { return 0; }
NS_HARNESS(sample_pos) {   // unit noise in one coordinate after the other: the draws are the columns of a square root of the covariance
  Matrix2d Q = nse::cov(1e-6, 1e4, -3.1, 3.1); Matrix4d P = Matrix4d::Identity() * 7; P.topLeftCorner<2, 2>() = Q; Vector4d x = hs::vec<4>("x", -1e5, 1e5); G4 g(x, P, 1); nsn::normal = unit2; nk = 0; Matrix<double, 2, Dynamic> r(2, 2); g.sample_pos(r);
  Matrix2d A; for (int k = 0; k < 2; ++k) A.col(k) = r.col(k) - x.head<2>(); Matrix2d AA = A * A.transpose(); hs::eq(AA, Q, 1e-9, "draws are the mean plus a square root of the covariance times the noise"); ns_check(nk == 4, "one unit of noise per coordinate and draw"); ns_observe("r", AA(0, 1)); ns_reach("done");
}
NS_HARNESS(sample_lin) {   // any noise: the draw depends linearly on it, with the same square root as for unit noise
  Matrix2d Q = nse::cov(1e-6, 1e4, -3.1, 3.1, false); Vector2d x = hs::vec<2>("x", -1e5, 1e5); Gaussian_<2> g(x, Q, 1); static double n[6]; nk = 0; n[0] = 1; n[1] = 0; n[2] = 0; n[3] = 1; n[4] = hs::real("noise", -100, 100); n[5] = hs::real("noise", -100, 100); nsn::normal = +[] { return n[nk++ % 6]; };
  Matrix<double, 2, Dynamic> r(2, 3); g.sample(r); Vector2d a = r.col(0) - x, b = r.col(1) - x; Vector2d e = x + n[4] * a + n[5] * b; hs::eq(r.col(2), e, 1e-9, "draw is linear in the noise"); Matrix2d AA = a * a.transpose() + b * b.transpose(); hs::eq(AA, Q, 1e-9, "square root of the covariance"); ns_reach("done");
}
NS_HARNESS(sample_full) {
  int t = ns_int("P", 0, 3); Matrix4d P; if (t < 2) P = spd4(t); else { P.setZero(); for (int i = 0; i < 4; ++i) P(i, i) = t == 2 ? i + 1.0 : hs::real("var", 1e-6, 1e4); } Vector4d x = hs::vec<4>("x", -1e5, 1e5); if (t < 2) { int k = ns_int("scale", 0, 2); P *= k == 1 ? 0.00006103515625 : k == 2 ? 1024 : 1; } G4 g(x, P, 1); nsn::normal = unit4; nk = 0; Matrix<double, 4, Dynamic> r(4, 4); g.sample(r);
  Matrix4d A; for (int k = 0; k < 4; ++k) A.col(k) = r.col(k) - x; Matrix4d AA = A * A.transpose(); for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) hs::near(AA(i, j), P(i, j), 1e-9, "draws are the mean plus a square root of the covariance times the noise"); ns_reach("done");
}
static void allot(int n, int cols, bool pos) {
  Params p; Mix m(&p); std::vector<double> w; double rest = 1; for (int i = 0; i < n; ++i) { double v = i + 1 < n ? hs::real("w", 0, 1) : rest; rest -= v; w.push_back(v); ns_assume(v >= 0); m.c.emplace_back(Vector4d(10 * (i + 1), i, 0, 0), Matrix4d::Identity(), v); }
  nsn::normal = zero; std::vector<int> cnt(n, 0); 
  auto tally = [&](double v) { int k = -1; for (int i = 0; i < n; ++i) if (v == 10.0 * (i + 1)) k = i; ns_check(k >= 0, "every sample is a draw from a component"); if (k >= 0) ++cnt[k]; };
  if (pos) { Array<double, 2, Dynamic> r(2, cols); r.setConstant(-777); m.sample_pos(r); for (int k = 0; k < cols; ++k) { tally(r(0, k)); } }
  else { Matrix<double, 4, Dynamic> r(4, cols); r.setConstant(-777); m.sample(r); for (int k = 0; k < cols; ++k) { tally(r(0, k)); } }
  for (int i = 0; i < n; ++i) { ns_check_le(cnt[i], w[i] * cols + 1, 1e-9, "draws per component match its weight"); ns_check_le(w[i] * cols - 1, cnt[i], 1e-9, "draws per component match its weight"); ns_observe("count", cnt[i]); } ns_reach("done");
}
NS_HARNESS(allot1) { allot(1, 5, ns_int("pos", 0, 1)); } NS_HARNESS(allot2) { allot(2, 7, ns_int("pos", 0, 1)); } NS_HARNESS(allot3) { allot(3, 6, ns_int("pos", 0, 1)); } NS_HARNESS(allot4) { allot(4, 5, 1); }
