// E08: the area a density is indexed by; E09: densities on a grid; G04: boxes between map and local coordinates
#include "dot.h"
#include "pf.hpp"
using namespace hd;
using Mix = GM<4, 3>;
static Matrix4d cov4(const Matrix2d &A) { Matrix4d P = Matrix4d::Identity(); P.topLeftCorner<2, 2>() = A; P(2, 0) = P(0, 2) = 0.5; return P; }
static Matrix2d m2(double a, double b, double c) { Matrix2d P; P << a, b, b, c; return P; }
// the rectangle of a Gaussian with this mean and covariance, at so many standard deviations, around the origin
static void rectangle(const BBox &b, const Vector2d &o, const Vector2d &m, const Matrix2d &P, double n) {
  double k = nsf::per_degree(o); Matrix<double, 2, 4> c; for (int i = 0; i < 4; ++i) c.col(i) = k * (b.corners.col(i) - o); Vector2d mid = (c.col(0) + c.col(2)) / 2, mi2 = (c.col(1) + c.col(3)) / 2;
  for (int d = 0; d < 2; ++d) { ns_check_eq(mid[d], m[d], 1e-7, "the oriented area is centred on the mean"); ns_check_eq(mi2[d], m[d], 1e-7, "the oriented area is centred on the mean"); }
  Vector2d e = (c.col(0) - c.col(1)) / 2, f = (c.col(1) - c.col(2)) / 2; ns_check_eq(e.dot(f), 0, 1e-6, "the oriented area is a rectangle");
  Matrix2d S = e * e.transpose() + f * f.transpose(); for (int i = 0; i < 2; ++i) for (int j = 0; j <= i; ++j) ns_check_eq(S(i, j), n * n * P(i, j), 1e-6, "the oriented area has the spread of the density"); }
// limits of the indexed area: the outermost of the given local ones, in degrees
template <class D> static void limits(D &d, const Vector2d &o, const std::vector<std::array<double, 4>> &part, bool meet) {
  double k = nsf::per_degree(o); AABBox q = d.llaabbox(); const double e = 1e-8; for (int i = 0; i < 2; ++i) { bool lo = false, hi = false; for (auto &a : part) { double l = a[i] / k + o[i], h = a[2 + i] / k + o[i]; ns_check_le(q.min[i], l + e, 0, "the indexed area reaches every part (lower)"); ns_check_le(h - e, q.max[i], 0, "the indexed area reaches every part (upper)"); if (!lo && q.min[i] >= l - e) lo = true; if (!hi && q.max[i] <= h + e) hi = true; } ns_check(lo, "the indexed area is tight (lower)"); ns_check(hi, "the indexed area is tight (upper)"); }
  if (meet) for (int i = 0; i < 2; ++i) { Vector2d in(0.5 * (q.min[0] + q.max[0]), 0.5 * (q.min[1] + q.max[1])), out = in; in[i] = 0.25 * q.min[i] + 0.75 * q.max[i]; out[i] = q.max[i] + 1e-6; AABBox a(in[0], in[1], in[0] + 1, in[1] + 1), b(out[0], out[1], out[0], out[1]); ns_check(d.intersects(a) && !d.intersects(b), "areas that meet the indexed area are met"); } ns_reach("covered"); }
// a mixture taken to local coordinates and back
static double sigmas() { static const double S[3] = {2, 1, 3.5}; return S[ns_int("sigmas", 0, 2)]; }
static void mixture(int n, int own, unsigned sym, bool anycov) {   // sym: 1 weight, 2 latitude, 4 longitude of the last component
  Params p; p.nstd = anycov ? hs::real("sigmas", 0.5, 5) : sigmas(); nsf::bend = 0.125; Mix m(&p); double left = 1; static const double A[3] = {4, 9, 16}, B[3] = {0, 2, -3}, C[3] = {25, 3, 1};
  for (int i = 0; i < n; ++i) { double w = i == n - 1 ? left : i == 0 ? (sym & 1 ? hs::real("w", 0.125, 0.5) : 0.375) : 0.25; left = left - w; Vector4d x(0.5 * i, 0.25 * i * i - 1, 3, 4); if (i == n - 1) { if (sym & 2) x[0] = hs::grid("lat", -2, 2); if (sym & 4) x[1] = hs::grid("lon", -2, 2); } m.c.emplace_back(x, cov4(i == 0 && anycov ? nse::cov(1, 100, -1.5, 1.5, false) : m2(A[i], B[i], C[i])), w); }
  Mix was(m); Vector2d mean(0, 0); for (auto &g : was.c) mean = mean + g.w * g.x.head<2>(); Vector2d o = mean; if (own) { cf::LL q = m.transform_to_local(); o = q; for (int d = 0; d < 2; ++d) ns_check_eq(q[d], mean[d], 1e-9, "a mixture is taken to its own mean"); } else { o = Vector2d(1, -1); m.transform_to_local(cf::LL(o)); }
  double k = nsf::per_degree(o); std::vector<std::array<double, 4>> part; Vector2d lm(0, 0); Matrix2d P = Matrix2d::Zero(); for (int i = 0; i < n; ++i) { Vector2d x = k * (was.c[i].x.head<2>() - o); lm = lm + was.c[i].w * x; for (int d = 0; d < 2; ++d) { ns_check_eq(m.c[i].x[d], x[d], 1e-7, "a component in local coordinates"); } double s = p.nstd * std::sqrt(was.c[i].P(0, 0)), t = p.nstd * std::sqrt(was.c[i].P(1, 1)); part.push_back({x[0] - s, x[1] - t, x[0] + s, x[1] + t}); }
  for (int i = 0; i < n; ++i) { Vector2d x = k * (was.c[i].x.head<2>() - o) - lm; P = P + was.c[i].w * (was.c[i].P.topLeftCorner<2, 2>() + x * x.transpose()); }
  m.transform_to_global(); ns_check((int)m.c.size() == n, "components are kept"); for (int i = 0; i < n; ++i) { hs::eq(m.c[i].x, was.c[i].x, 1e-9, "a component is restored"); hs::eq(m.c[i].P, was.c[i].P, 0, "the covariance is kept"); ns_check_eq(m.c[i].w, was.c[i].w, 0, "the weight is kept"); }
  limits(m, o, part, true); rectangle(m.bbox, o, lm, P, p.nstd); nsf::bend = 0; }
NS_HARNESS(mix1) { mixture(1, ns_int("own", 0, 1), 6, false); }
NS_HARNESS(mix1c) { mixture(1, ns_int("own", 0, 1), 0, true); }
NS_HARNESS(mix2w) { mixture(2, ns_int("own", 0, 1), 1, false); }
NS_HARNESS(mix2a) { mixture(2, ns_int("own", 0, 1), 2, false); }
NS_HARNESS(mix2b) { mixture(2, ns_int("own", 0, 1), 4, false); }
NS_HARNESS(mix3) { mixture(3, ns_int("own", 0, 1), 1u << ns_int("what", 0, 2), false); }
NS_HARNESS(made) {   // a new mixture knows its area
  Params p; p.nstd = sigmas(); nsf::bend = 0.125; Vector4d x(hs::grid("lat", -2, 2), hs::grid("lon", -2, 2), 1, 2); Matrix4d P = cov4(ns_int("cov", 0, 1) ? m2(9, 2, 3) : m2(4, 0, 25)); Mix m(&p, x, P); ns_check(m.c.size() == 1, "a new mixture has one component"); hs::eq(m.c[0].x, x, 1e-9, "mean of a new mixture"); hs::eq(m.c[0].P, P, 0, "covariance of a new mixture"); ns_check_eq(m.c[0].w, 1, 0, "weight of a new mixture");
  Vector2d o = x.head<2>(); double a = p.nstd * std::sqrt(P(0, 0)), b = p.nstd * std::sqrt(P(1, 1)); limits(m, o, {{-a, -b, a, b}}, true); rectangle(m.bbox, o, Vector2d(0, 0), P.topLeftCorner<2, 2>(), p.nstd); nsf::bend = 0; }
// clouds
template <unsigned N> static void cloud(unsigned sym, int own) {
  Params p; p.nstd = hs::real("sigmas", 0.5, 5); nsf::bend = 0.125; PF<4, N> c(&p); static const double X[4] = {0, 1, -0.5, 0.25}, Y[4] = {0, 0.5, 1, -1}; double left = 1; for (unsigned i = 0; i < N; ++i) { double w = i == N - 1 ? left : i == 0 ? 0.375 : 0.125; left = left - w; c.w[i] = w; c.x.col(i) << X[i], Y[i], i, 1; if (i == N - 1 && !(sym & 8)) { if (sym & 2) c.x(0, i) = hs::grid("lat", -2, 2); if (sym & 4) c.x(1, i) = hs::grid("lon", -2, 2); } } if (sym & 8) { double w = sym & 1 ? hs::real("w", 0.125, 0.5) : 0.25, u = sym & 2 ? hs::grid("a", 0.25, 2) : 0.5, v = sym & 4 ? hs::grid("b", 0.25, 2) : 1; for (int i = 0; i < 4; ++i) { double g = i % 2 ? -1 : 1, q = i < 2 ? u : 0, r = i < 2 ? 0 : v; if (sym & 16) { q = i < 2 ? u : v; r = i < 2 ? u : -v; ns_assume(std::fabs(w * u * u - (1 - w) * v * v) > 0.01); } c.w[i] = i < 2 ? w / 2 : (1 - w) / 2; c.x(0, i) = 0.25 + g * q; c.x(1, i) = -0.5 + g * r; } } c.normalize();
  auto was = c.x; auto w = c.w; Vector2d mean(0, 0); for (unsigned i = 0; i < N; ++i) mean = mean + w[i] * was.col(i).template head<2>().matrix(); Vector2d o = mean; if (own) { cf::LL q = c.transform_to_local(); for (int d = 0; d < 2; ++d) ns_check_eq(q[d], mean[d], 1e-9, "a cloud is taken to its own mean"); } else { o = Vector2d(1, -1); c.transform_to_local(cf::LL(o)); }
  double k = nsf::per_degree(o); Vector2d lm = k * (mean - o); Matrix2d P = Matrix2d::Zero(); for (unsigned i = 0; i < N; ++i) { Vector2d x = k * (was.col(i).template head<2>().matrix() - o); for (int d = 0; d < 2; ++d) ns_check_eq(c.x(d, i), x[d], 1e-7, "a particle in local coordinates"); P = P + w[i] * ((x - lm) * (x - lm).transpose()); }
  c.transform_to_global(); hs::eq(c.x, was, 1e-9, "a particle is restored"); hs::eq(c.w, w, 0, "the weight is kept"); std::vector<std::array<double, 4>> part; for (int i = 0; i < 4; ++i) { Vector2d v = k * (c.bbox.corners.col(i) - o); part.push_back({v[0], v[1], v[0], v[1]}); } limits(c, o, part, !(sym & 16) && N > 2); rectangle(c.bbox, o, lm, P, p.nstd); nsf::bend = 0; }
NS_HARNESS(cloud2) { cloud<2>(6, ns_int("own", 0, 1)); }
NS_HARNESS(cloud3n) { cloud<3>(0, ns_int("own", 0, 1)); }
NS_HARNESS(cloud4n) { cloud<4>(0, ns_int("own", 0, 1)); }
NS_HARNESS(cloud4) { cloud<4>(8 | ns_int("what", 1, 7), ns_int("own", 0, 1)); }
NS_HARNESS(cloud4d) { cloud<4>(25, ns_int("own", 0, 1)); }
// ---- G04
static AABBox anyaa(double R) { return AABBox(hs::grid("x", -R, R), hs::grid("y", -R, R), hs::grid("x", -R, R), hs::grid("y", -R, R)); }
NS_HARNESS(frames_box) { nsf::bend = hs::real("bend", 0, 0.0078125); Vector2d o(hs::grid("lat", -60, 60), hs::grid("lon", -170, 170)); BBox b; for (int i = 0; i < 8; ++i) b.corners(i % 2, i / 2) = hs::grid("corner", -5000, 5000); double k = nsf::per_degree(o); BBox g = b.llbbox(o); for (int c = 0; c < 4; ++c) for (int d = 0; d < 2; ++d) ns_check_eq(g.corners(d, c), b.corners(d, c) / k + o[d], 1e-9, "each corner is converted to degrees"); BBox l = g.nebbox(o); hs::eq(l.corners, b.corners, 1e-7, "a box converted forth and back is the same"); nsf::bend = 0; ns_reach("converted"); }
NS_HARNESS(frames_aabox) { nsf::bend = hs::real("bend", 0, 0.0078125); Vector2d o(hs::grid("lat", -60, 60), hs::grid("lon", -170, 170)); AABBox b = anyaa(5000); double k = nsf::per_degree(o); AABBox g = b.llaabbox(o), l = g.neaabbox(o); for (int d = 0; d < 2; ++d) { ns_check_eq(g.min[d], b.min[d] / k + o[d], 1e-9, "each limit is converted to degrees"); ns_check_eq(g.max[d], b.max[d] / k + o[d], 1e-9, "each limit is converted to degrees"); ns_check_le(g.min[d], g.max[d], 0, "limits stay in order"); ns_check_eq(l.min[d], b.min[d], 1e-7, "limits converted forth and back are the same"); ns_check_eq(l.max[d], b.max[d], 1e-7, "limits converted forth and back are the same"); } nsf::bend = 0; ns_reach("converted"); }
NS_HARNESS(frames_gauss) { nsf::bend = 0.0078125; Vector2d o(hs::grid("lat", -60, 60), hs::grid("lon", -170, 170)); double n = hs::real("sigmas", 0.5, 5); Vector4d x(hs::grid("x", -60, 60), hs::grid("y", -170, 170), 0, 0); Gaussian_<4> g(x, cov4(m2(9, 2, 3)), 1); BBox b = g.nebbox(cf::LL(o), n); nsf::bend = 0; BBox c = g.bbox(n); double k = 64 * (1 + 0.0078125 * o[0]); for (int i = 0; i < 4; ++i) for (int d = 0; d < 2; ++d) ns_check_eq(b.corners(d, i) - k * (x[d] - o[d]), c.corners(d, i) - x[d], 1e-6, "the area of a component in local coordinates"); ns_reach("converted"); }
// ---- E09
using G2 = Gaussian_<4>; using TM = Target_<Mix>;
struct Grid { Array<double, 2, Dynamic> p; Array<double, 1, Dynamic> r; std::vector<double> was; Grid(int n) : p(2, n), r(1, n) {} };
static Grid grid(int n, double dx, double dy) { Grid g(n); for (int i = 0; i < n; ++i) { g.p(0, i) = dx + (i % 3) - 1; g.p(1, i) = dy + 0.5 * (i / 3); double b = i == n - 1 ? hs::real("before", 0, 4) : 0.25 * i; g.r[i] = b; g.was.push_back(b); } return g; }
static double bell(const Vector2d &d, const Matrix2d &P) { double det = P(0, 0) * P(1, 1) - P(0, 1) * P(1, 0), q = (P(1, 1) * d[0] * d[0] - 2 * P(0, 1) * d[0] * d[1] + P(0, 0) * d[1] * d[1]) / det; return std::exp(-0.5 * q) / (2 * M_PI * std::sqrt(det)); }
static const double PA[3] = {1, 4, 2}, PB[3] = {0, 1, -1}, PC[3] = {1, 2, 4};
static double part(const Grid &g, int k, const Vector2d &m, const Matrix2d &P) { double s = 0; for (int i = 0; i < g.p.cols(); ++i) s = s + bell(Vector2d(g.p(0, i), g.p(1, i)) - m, P); return s > 1e-7 ? bell(Vector2d(g.p(0, k), g.p(1, k)) - m, P) / s : 0; }
// known geometry: each point gets its share of the weight
NS_HARNESS(grid_one) { int n = ns_int("points", 1, 6), c = ns_int("cov", 0, 2), far = ns_int("far", 0, 4); static const double F[5] = {0, 3, 40, 4.5, 6}; Grid g = grid(n, F[far], 0.5); Matrix2d P = m2(PA[c], PB[c], PC[c]); G2 x(Vector4d(0.25, -0.5, 1, 1), cov4(P), 0.5); double s = hs::real("scale", 0, 2); x.sampled_pos_pdf(g.p, g.r, s); for (int i = 0; i < n; ++i) ns_check_eq(g.r[i], g.was[i] + s * part(g, i, Vector2d(0.25, -0.5), P), 1e-9, "a point gets its share"); ns_reach(far != 2 ? "near" : "far"); }
NS_HARNESS(grid_default) { Grid g = grid(4, 0, 0); Matrix2d P = m2(4, 1, 2); G2 x(Vector4d(0.25, -0.5, 1, 1), cov4(P), hs::real("w", 0, 1)); x.sampled_pos_pdf(g.p, g.r); for (int i = 0; i < 4; ++i) ns_check_eq(g.r[i], g.was[i] + part(g, i, Vector2d(0.25, -0.5), P), 1e-9, "a point gets its share"); ns_reach("near"); }
// any geometry: what is added is the weight, shared in proportion to the density
static void gridany(double R, bool close) { int n = ns_int("points", 1, 4), c = ns_int("cov", 0, 2); Grid g = grid(n, 0, 0); Matrix2d P = m2(PA[c], PB[c], PC[c]); Vector2d m(hs::grid("x", -R, R), hs::grid("y", -R, R)); G2 x(Vector4d(m[0], m[1], 1, 1), cov4(P), 0.5); double s = hs::real("scale", 0, 2); x.sampled_pos_pdf(g.p, g.r, s); double sum = 0; for (int i = 0; i < n; ++i) { ns_check_le(g.was[i], g.r[i] + 1e-12, 0, "nothing is taken away"); sum = sum + g.r[i] - g.was[i]; } bool all = std::fabs(sum - s) <= 1e-9, none = std::fabs(sum) <= 1e-9; ns_check(all || none, "all of the weight is added, or nothing"); if (close) ns_check(all, "all of the weight is added close to the grid"); ns_reach(all ? "near" : "far"); }
NS_HARNESS(grid_any) { gridany(60, false); }
NS_HARNESS(grid_close) { gridany(1, true); }
NS_HARNESS(grid_mixture) { int n = ns_int("components", 0, 3); Params p; Mix m(&p); for (int i = 0; i < n; ++i) m.c.emplace_back(Vector4d(i - 0.5, 0.25 * i, 1, 1), cov4(m2(PA[i], PB[i], PC[i])), hs::real("w", 0, 1)); double r = hs::real("r", 0, 1); int how = ns_int("how", 0, 2); Grid g = grid(5, how == 2 ? 0.5 : 0, 0); std::vector<double> w; for (auto &c : m.c) w.push_back(c.w); std::vector<double> x(5); for (int k = 0; k < 5; ++k) { double v = g.was[k]; for (int i = 0; i < n; ++i) v = v + (how == 1 ? 1 : r) * w[i] * part(g, k, Vector2d(i - 0.5, 0.25 * i), m2(PA[i], PB[i], PC[i])); x[k] = v; }
  if (how == 0) { TM t(r, std::move(m), &p, 0); t.is_new = ns_int("new", 0, 1); t.pos_phd(g.p, g.r); } else if (how == 1) m.sampled_pos_pdf(g.p, g.r); else m.sampled_pos_pdf(g.p, g.r, r); for (int k = 0; k < 5; ++k) ns_check_eq(g.r[k], x[k], 1e-9, "a point gets the share of every component"); ns_reach("near"); }
