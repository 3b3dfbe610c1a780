// E07: particle clouds
#include <algorithm>
#include <sstream>
#include <iostream>
#include "tools.h"
#include "pf.hpp"
#include "models.hpp"
#include "sensors.hpp"
#include "target.hpp"
using namespace Eigen; using namespace lmb;
template <unsigned N> using C_ = PF<4, N>;
template <unsigned N> struct Sen : PositionSensor<Target_<C_<N>>> {   // detection probability of a particle is stored in its last velocity
  template <typename PDF> double pD(const PDF &g, const cf::LL &) const { return g.p(3, 0); }
};
struct Soft : GaussianReport_<2> { using GaussianReport_<2>::GaussianReport_; template <typename A, typename B> double likelihood(const A &d, const B &Dinv) const { double q = d(0) * d(0) * Dinv(0, 0) + 2 * d(0) * d(1) * Dinv(0, 1) + d(1) * d(1) * Dinv(1, 1); return 1 + q; } };   // report whose likelihood is a polynomial of the offset
template <unsigned N> struct SenS : Sen<N> { using Report = Soft; };
template <unsigned N> static void fill(C_<N> &c, double lo, double hi, int id0 = 0) { for (unsigned i = 0; i < N; ++i) { c.w[i] = hs::real("w", lo, hi); c.x.col(i) = Vector4d(id0 + i, 2 * i, 1, 0.5); } }
template <unsigned N> static void placed(C_<N> &c, double r) { for (unsigned i = 0; i < N; ++i) for (int k = 0; k < 4; ++k) c.x(k, i) = hs::grid("x", -r, r); }
// what every operation owes: nonnegative weights with sum one, or marked void
template <unsigned N> static void lawful(const C_<N> &c) { if (c.eta == 0) { ns_check(!c.valid, "a cloud without weight is marked void"); return; } double s = 0; for (unsigned i = 0; i < N; ++i) { ns_check_le(0, c.w[i], 0, "weights are not negative"); s += c.w[i]; } ns_check_eq(s, 1, 1e-9, "weights sum to one"); }
NS_HARNESS(normalize) {
  Params p; C_<4> c(&p); fill(c, 0, 10); auto w = c.w; auto x = c.x; double s = w.sum(); c.normalize(); ns_observe("eta", c.eta); lawful(c); hs::eq(c.x, x, 0, "particles are kept");
  if (s > 1e-8) { ns_check_eq(c.eta, s, 1e-12, "total weight is reported"); for (int i = 0; i < 4; ++i) ns_check_eq(c.w[i] * s, w[i], 1e-9, "ratios of the weights are kept"); ns_reach("normal"); } else { ns_check_eq(c.eta, 0, 0, "a cloud with negligible weight has weight zero"); ns_reach("void"); }
}
NS_HARNESS(correct) {
  Params p; C_<3> c(&p); SenS<3> s; double rest = 1; placed(c, 1000); for (int i = 0; i < 3; ++i) { c.w[i] = i < 2 ? hs::real("w", 0, 0.5) : rest; rest -= c.w[i]; c.x(3, i) = hs::real("pD", 0, 1); }
  static const double RT[3][3] = {{1, 0, 1}, {2, 1, 1}, {4, -2, 2}}; int k = ns_int("R", 0, 2); Matrix2d R; R << RT[k][0], RT[k][1], RT[k][1], RT[k][2]; Soft z(hs::vec<2>("z", -1000, 1000), R, hs::real("kappa", 1e-6, 1000)); auto w = c.w; auto x = c.x; double eta = c.template correct<SenS<3>>(z, s); lawful(c); hs::eq(c.x, x, 0, "particles are kept"); ns_check_eq(eta, c.eta, 0, "total is returned");
  double det = R(0, 0) * R(1, 1) - R(0, 1) * R(0, 1), t = 0; double v[3];
  for (int i = 0; i < 3; ++i) { Vector2d d = z.x - x.col(i).head<2>().matrix(); v[i] = w[i] * x(3, i) * (1 + (R(1, 1) * d[0] * d[0] - 2 * R(0, 1) * d[0] * d[1] + R(0, 0) * d[1] * d[1]) / det) / z.kappa; t += v[i]; }
  if (c.eta == 0) { ns_check_le(t, 1.1e-8, 0, "void only without weight"); ns_reach("void"); return; } ns_observe("eta", eta);
  ns_check_eq(eta, t, 1e-9, "weight of the report"); for (int i = 0; i < 3; ++i) ns_check_eq(c.w[i] * eta, v[i], 1e-9, "weights are scaled by the likelihood"); ns_reach("done");
}
NS_HARNESS(correct_fov) {   // the position sensor's own detection probability: particles inside the field of view
  Params p; C_<2> c(&p); PositionSensor<Target_<C_<2>>> s; s.pD_ = hs::real("pD", 0, 1); AABBox b(0, 0, 1, 1); s.fov.corners << 0, 0, 1, 1, 1, 0, 0, 1; c.origin = cf::LL(0, 0); placed(c, 200); double q = hs::real("w", 0, 1); c.w << q, 1 - q; auto w = c.w; auto x = c.x; struct F : GaussianReport_<2> { using GaussianReport_<2>::GaussianReport_; };
  double eta = c.missed(s); lawful(c); hs::eq(c.x, x, 0, "particles are kept"); double in[2], t = 0; for (int i = 0; i < 2; ++i) { double u = x(0, i), v = x(1, i); ns_assume(u != 0 && u != 64 && v != 0 && v != 64); in[i] = u > 0 && u < 64 && v > 0 && v < 64; t += w[i] * in[i] * s.pD_; }
  hs::near(eta, 1 - t, 1.1e-8, "value of a missed detection"); if (c.eta == 0) { ns_reach("void"); return; } for (int i = 0; i < 2; ++i) ns_check_eq(c.w[i] * eta, w[i] * (1 - in[i] * s.pD_), 1e-9, "weights are scaled by the likelihood of a missed detection"); ns_reach(in[0] && in[1] ? "inside" : in[0] || in[1] ? "part" : "outside");
}
NS_HARNESS(missed) {
  Params p; C_<3> c(&p); Sen<3> s; double rest = 1; placed(c, 1000); for (int i = 0; i < 3; ++i) { c.w[i] = i < 2 ? hs::real("w", 0, 0.5) : rest; rest -= c.w[i]; c.x(3, i) = hs::real("pD", 0, 1); } auto w = c.w; auto x = c.x; double eta = c.missed(s); lawful(c); hs::eq(c.x, x, 0, "particles are kept"); double t = 0; for (int i = 0; i < 3; ++i) t += w[i] * (1 - x(3, i));
  if (c.eta == 0) { ns_check_le(t, 1.1e-8, 0, "void only without weight"); ns_reach("void"); return; } ns_check_eq(eta, t, 1e-9, "value of a missed detection"); for (int i = 0; i < 3; ++i) ns_check_eq(c.w[i] * t, w[i] * (1 - x(3, i)), 1e-9, "weights are scaled by the likelihood of a missed detection"); ns_reach("done");
}
template <unsigned N> static void join(int nh) {
  Params p; std::vector<C_<N>> h(nh, C_<N>(&p)); Matrix<double, 1, Dynamic> hw(1, nh); struct E { double w; int id; }; std::vector<E> all; nsn::uniform = nullptr;
  for (int j = 0; j < nh; ++j) { hw(0, j) = hs::real("hypothesis", 0, 1); fill(h[j], 0, 1, 10 * j); for (unsigned i = 0; i < N; ++i) all.push_back({hw(0, j) * h[j].w[i], 10 * j + (int)i}); }
  C_<N> r(&p); double s = 0; std::vector<double> ws; for (auto &e : all) ws.push_back(e.w); std::sort(ws.rbegin(), ws.rend()); for (unsigned i = 0; i < N; ++i) s += ws[i];
  C_<N> keep = r; r.valid = false; C_<N>::join(r, hw, h); ns_assume(s > 1e-6); lawful(r); ns_check_eq(r.eta, s, 1e-9, "total weight is reported");
  // after resampling the particles are repeats; each of the kept ones about in proportion to its weight, and no other
  std::vector<int> cnt(10 * nh + N, 0); for (unsigned i = 0; i < N; ++i) { int id = -1; for (auto &e : all) if (r.x(0, i) == (double)e.id) id = e.id; ns_check(id >= 0 && r.x(1, i) == 2.0 * (id % 10) && r.x(3, i) == 0.5, "every particle comes from a hypothesis"); if (id < 0) return; ++cnt[id]; ns_check_eq(r.w[i], 1.0 / N, 1e-12, "equal weights after resampling"); }
  for (auto &e : all) { if (e.w < ws[N - 1]) ns_check(cnt[e.id] == 0, "only the heaviest particles are kept"); else if (N == all.size() || e.w > ws[N]) { ns_check_le(cnt[e.id] * s, e.w * N + s * (1 + 1e-6), 1e-9, "repeats in proportion to the weight"); ns_check_le(e.w * N - s * (1 + 1e-6), cnt[e.id] * s, 1e-9, "repeats in proportion to the weight"); } }
  ns_reach("done");
}
NS_HARNESS(join1) { join<3>(1); } NS_HARNESS(join2) { join<2>(2); } NS_HARNESS(join3) { join<2>(3); } NS_HARNESS(join4) { join<4>(1); } NS_HARNESS(join23) { join<3>(2); }
NS_HARNESS(join_void) { Params p; std::vector<C_<2>> h(2, C_<2>(&p)); for (auto &c : h) { c.w.setZero(); c.normalize(); } Matrix<double, 1, Dynamic> w(1, 2); w << 0.5, 0.5; C_<2> r(&p); C_<2>::join(r, w, h); lawful(r); ns_check_eq(r.eta, 0, 0, "nothing to join gives a void cloud"); ns_reach("done"); }
NS_HARNESS(predict) {
  Params p; C_<3> c(&p); placed(c, 1000); c.w << 0.2, 0.3, 0.5; auto x = c.x; double d = hs::real("dT", 0, 1e5); Matrix4d F = Matrix4d::Identity(), Q = Matrix4d::Identity(); F(0, 2) = F(1, 3) = d; c.linear_update(F, Q);
  for (int i = 0; i < 3; ++i) for (int k = 0; k < 4; ++k) { ns_check_eq(c.x(k, i), k < 2 ? x(k, i) + d * x(k + 2, i) : x(k, i), 1e-9, "every particle follows the model"); ns_check_eq(c.w[i], i == 0 ? 0.2 : i == 1 ? 0.3 : 0.5, 0, "weights are kept"); } c.normalize(); lawful(c); ns_reach("done");
}
NS_HARNESS(moments) {
  Params p; C_<3> c(&p); placed(c, 1000); double rest = 1; for (int i = 0; i < 3; ++i) { c.w[i] = i < 2 ? hs::real("w", 0, 0.5) : rest; rest -= c.w[i]; } Vector4d m = c.mean(), e = Vector4d::Zero(); Matrix4d C = c.cov(), S = Matrix4d::Zero(); double q = 0;
  for (int i = 0; i < 3; ++i) { Vector4d v = c.x.col(i).matrix(); e += c.w[i] * v; S += c.w[i] * v * v.transpose(); q += c.w[i] * c.w[i]; } S -= e * e.transpose(); hs::eq(m, e, 1e-9, "mean is the weighted mean"); hs::eq(C, S, 1e-6, "covariance is the weighted second moment"); hs::eq(c.pos(), e.head<2>(), 1e-9, "position"); hs::eq(c.poscov(), S.topLeftCorner<2, 2>(), 1e-6, "position covariance"); ns_check_eq(c.neff() * q, 1, 1e-9, "effective number of particles"); ns_reach("done");
}
static double u0; static double un() { return u0; }
template <unsigned N> static void resample() {
  Params p; C_<N> c(&p); double rest = 1; std::vector<double> w; for (unsigned i = 0; i < N; ++i) { double v = i + 1 < N ? hs::real("w", 0, 1) : rest; rest -= v; ns_assume(v >= 0); w.push_back(v); c.w[i] = v; c.x.col(i) = Vector4d(10 * (i + 1), i, 3, 4); } c.valid = true; c.eta = 1; u0 = hs::real("u", 0, 1); ns_assume(u0 < 1); nsn::uniform = un; c.resample(); lawful(c);
  std::vector<int> cnt(N, 0); for (unsigned k = 0; k < N; ++k) { int id = -1; for (unsigned i = 0; i < N; ++i) if (c.x(0, k) == 10.0 * (i + 1)) id = i; ns_check(id >= 0 && c.x(1, k) == id && c.x(2, k) == 3 && c.x(3, k) == 4, "resampling repeats existing particles"); if (id < 0) return; ++cnt[id]; ns_check_eq(c.w[k], 1.0 / N, 1e-12, "equal weights after resampling"); }
  for (unsigned i = 0; i < N; ++i) { ns_check_le(cnt[i], w[i] * N + 1 + 1e-6, 1e-9, "repeats in proportion to the weight"); ns_check_le(w[i] * N - 1 - 1e-6, cnt[i], 1e-9, "repeats in proportion to the weight"); ns_observe("count", cnt[i]); } ns_reach("done");
}
NS_HARNESS(resample2) { resample<2>(); } NS_HARNESS(resample3) { resample<3>(); } NS_HARNESS(resample4) { resample<4>(); } NS_HARNESS(resample8) { resample<8>(); }
static long nk; static double nz; static double same() { ++nk; return nz; }
NS_HARNESS(init) {   // the same noise in every coordinate: every coordinate is off by its standard deviation times the noise
  Params p; nsn::normal = same; nk = 0; nz = hs::real("noise", -100, 100); Vector4d m = hs::vec<4>("x", -50, 50); Matrix4d P = Vector4d(4, 1, 9, 16).asDiagonal(); C_<4> c(&p, m, P); C_<2> v(&p); ns_check(v.eta == 0 && !v.valid, "an empty cloud is void"); lawful(c); ns_check(c.valid, "a new cloud is valid"); ns_check((int)nk == 16, "one unit of noise per coordinate and particle");
  for (int i = 0; i < 4; ++i) { ns_check_eq(c.w[i], 0.25, 0, "equal weights"); for (int k = 0; k < 4; ++k) { double d = c.x(k, i) - m[k]; ns_check_eq(d * d, P(k, k) * nz * nz, 1e-6, "particles are drawn from the Gaussian"); } } ns_reach("done");
}
// one particle per direction of noise: together they show the covariance they are drawn from, however it is factored
static long nth; static double unit_() { long k = nth++; return k / 4 == k % 4 ? 1 : 0; }
static void drawn(const Matrix4d &P) {
  Params p; nsn::normal = unit_; nth = 0; Vector4d m = hs::vec<4>("x", -50, 50); C_<4> c(&p, m, P); lawful(c); Matrix4d S = Matrix4d::Zero(); for (int i = 0; i < 4; ++i) { Vector4d d = c.x.col(i).matrix() - m; S += d * d.transpose(); } hs::eq(S, P, 1e-8, "particles are drawn from the Gaussian"); ns_reach("done"); }
NS_HARNESS(init_any) { double s = 1; for (int k = ns_int("size", 0, 8); k > 0; --k) s *= 0.125; s *= 256; static const double O[3][6] = {{0, 0, 0, 0, 0, 0}, {2, 0, 0, 0, 0, 1}, {1, -1, 0.5, 0.25, 2, -3}}; int k = ns_int("shape", 0, 2); Matrix4d P = Vector4d(4, 3, 9, 16).asDiagonal(); for (int i = 0, n = 0; i < 4; ++i) for (int j = i + 1; j < 4; ++j, ++n) P(i, j) = P(j, i) = O[k][n]; drawn(s * P); }
NS_HARNESS(init_scales) { Matrix4d P = Matrix4d::Zero(); for (int i = 0; i < 4; ++i) { double d = i < 2 ? hs::real("deviation", 0.0001, 1000) : i; P(i, i) = d * d; } drawn(P); }
