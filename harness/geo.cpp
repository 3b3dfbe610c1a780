// G01-G03: axis-aligned and oriented boxes
#include <array>
#include <iostream>
#include "ns.h"
#include "eig.h"
#include "bbox.hpp"
using namespace lmb;
using Eigen::Vector2d; using Eigen::Matrix2d;

static AABBox anybox(double R) { double a = ns_grid("x1", -R, R), b = ns_grid("y1", -R, R), c = ns_grid("x2", -R, R), d = ns_grid("y2", -R, R); return AABBox(a, b, c, d); }
NS_HARNESS(aabb_point) {
  double R = 20000; double a = ns_grid("x1", -R, R), b = ns_grid("y1", -R, R), c = ns_grid("x2", -R, R), d = ns_grid("y2", -R, R), px = ns_grid("px", -R, R), py = ns_grid("py", -R, R);
  AABBox B(a, b, c, d); double lx = a < c ? a : c, hx = a < c ? c : a, ly = b < d ? b : d, hy = b < d ? d : b;
  ns_check_eq(B.min[0], lx, 0, "lower x limit"); ns_check_eq(B.max[0], hx, 0, "upper x limit"); ns_check_eq(B.min[1], ly, 0, "lower y limit"); ns_check_eq(B.max[1], hy, 0, "upper y limit");
  bool in = lx <= px && px <= hx && ly <= py && py <= hy; bool w = B.within(Vector2d(px, py));
  ns_observe("w", w); ns_check(w == in, "membership"); ns_reach(in ? "in" : "out");
  AABBox D; ns_check(D.within(Vector2d(px, py)), "the default box contains everything"); AABBox C2(B), E2; E2 = B;
  ns_check(C2.within(Vector2d(px, py)) == in && E2.within(Vector2d(px, py)) == in, "copies are the same box");
}
NS_HARNESS(aabb_pair) {
  AABBox A = anybox(10000), B = anybox(10000);
  bool meet = A.min[0] <= B.max[0] && B.min[0] <= A.max[0] && A.min[1] <= B.max[1] && B.min[1] <= A.max[1];
  bool i = A.intersects(B), j = B.intersects(A); ns_observe("i", i);
  ns_check(i == meet, "intersects exactly when the boxes share a point"); ns_check(i == j, "intersection is symmetric"); ns_reach(i ? "meet" : "apart");
}
template <int N> static void points() {
  Eigen::Matrix<double, 2, Eigen::Dynamic> p(2, N); for (int i = 0; i < N; ++i) { p(0, i) = ns_grid("x", -10000, 10000); p(1, i) = ns_grid("y", -10000, 10000); }
  AABBox B; B.from_points(p);
  for (int d = 0; d < 2; ++d) { bool lo = false, hi = false;
    for (int i = 0; i < N; ++i) { ns_check_le(B.min[d], p(d, i), 0, "points inside (lower)"); ns_check_le(p(d, i), B.max[d], 0, "points inside (upper)"); lo = lo || p(d, i) == B.min[d]; hi = hi || p(d, i) == B.max[d]; }
    ns_check(lo && hi, "limits are attained"); }
  ns_observe("m", B.min[0]); ns_reach("done");
}
NS_HARNESS(aabb_points1) { points<1>(); } NS_HARNESS(aabb_points3) { points<3>(); } NS_HARNESS(aabb_points4) { points<4>(); }

// oriented rectangle: centre, direction (rational, or arbitrary), half sizes
struct Rect { Vector2d c, u, v; double a, b, n; BBox box; };  // u, v perpendicular of length sqrt(n); half sides a*u, b*v
static void direction(int set, double &x, double &y) {
  static const double D[12][2] = {{1, 0}, {0, 1}, {3, 4}, {4, -3}, {7, 24}, {-3, 4}, {-1, 0}, {0, -1}, {-4, -3}, {24, -7}, {3, -4}, {-7, 24}};
  int k = ns_int("dir", 0, set - 1); x = D[k][0]; y = D[k][1];
}
static Rect rect(int set, double R, double S, bool centred) {
  Rect r; double x, y; direction(set, x, y); r.u << x, y; r.v << -y, x; r.n = x * x + y * y; if (centred) r.c << 0, 0; else r.c << ns_grid("cx", -R, R), ns_grid("cy", -R, R);
  r.a = ns_grid("a", 0.015625, S); r.b = ns_grid("b", 0.015625, S);
  BBox::Corners k; k << r.c + r.a * r.u + r.b * r.v, r.c - r.a * r.u + r.b * r.v, r.c - r.a * r.u - r.b * r.v, r.c + r.a * r.u - r.b * r.v;
  r.box = BBox(k); return r;
}
static void member(const Rect &r, double R) {
  Vector2d p(ns_grid("px", -R, R), ns_grid("py", -R, R)); double du = (p - r.c).dot(r.u), dv = (p - r.c).dot(r.v);
  bool w = r.box.within(p); ns_observe("w", w);
  double A = r.a * r.n, B = r.b * r.n; bool in = -A < du && du < A && -B < dv && dv < B, outside = du < -A || A < du || dv < -B || B < dv;
  if (in) { ns_reach("in"); ns_check(w, "an interior point is inside"); } else if (outside) { ns_reach("out"); ns_check(!w, "an exterior point is outside"); } else ns_reach("edge");
}
NS_HARNESS(bbox_point) { Rect r = rect(6, 100, 50, false); member(r, 200); }
NS_HARNESS(bbox_point12) { Rect r = rect(12, 1000, 500, false); member(r, 2000); }
NS_HARNESS(bbox_point_any) {  // arbitrary direction (p, q) and ratio of sides
  double p = ns_real("p", -8, 8), q = ns_real("q", -8, 8), k = ns_real("k", 0.125, 8); ns_assume(p * p + q * q > 0.01);
  Vector2d u(p, q), v(-q * k, p * k); BBox::Corners c; c << u + v, v - u, -u - v, u - v; BBox B(c);
  Vector2d x(ns_real("x", -20, 20), ns_real("y", -20, 20)); double n = p * p + q * q, du = x.dot(u), dv = x.dot(v);
  bool in = -n < du && du < n && -n * k * k < dv && dv < n * k * k, out = du < -n || n < du || dv < -n * k * k || n * k * k < dv;
  bool w = B.within(x); if (in) { ns_check(w, "an interior point is inside"); ns_reach("in"); } else if (out) { ns_check(!w, "an exterior point is outside"); ns_reach("out"); }
}
static void tight(const Rect &r) {
  AABBox b = r.box.aabbox(); double ex = 0, ey = 0; double ux = std::fabs(r.u[0]), uy = std::fabs(r.u[1]); ex = r.a * ux + r.b * uy; ey = r.a * uy + r.b * ux;
  ns_check_eq(b.min[0], r.c[0] - ex, 1e-9, "tight box x"); ns_check_eq(b.max[0], r.c[0] + ex, 1e-9, "tight box x"); ns_check_eq(b.min[1], r.c[1] - ey, 1e-9, "tight box y"); ns_check_eq(b.max[1], r.c[1] + ey, 1e-9, "tight box y"); ns_reach("tight");
}
NS_HARNESS(bbox_tight) { Rect r = rect(12, 1000, 500, false); tight(r); }
NS_HARNESS(bbox_conv) {  // axis-aligned box as an oriented one
  AABBox A = anybox(1000); BBox B(A); AABBox C = B.aabbox();
  for (int d = 0; d < 2; ++d) { ns_check_eq(A.min[d], C.min[d], 0, "conversion keeps the limits"); ns_check_eq(A.max[d], C.max[d], 0, "conversion keeps the limits"); }
  AABBox D = anybox(1000); ns_check(B.intersects(D) == A.intersects(D), "oriented against axis-aligned intersection"); ns_reach("done");
}
static double absd(double x) { return x < 0 ? -x : x; }
static void pairrect(const Rect &r, const Rect &q) {
  bool i = r.box.intersects(q.box), j = q.box.intersects(r.box); ns_observe("i", i);
  Vector2d d = q.c - r.c; bool sep = false, touch = false;
  for (int k = 0; k < 4; ++k) { Vector2d n = k == 0 ? r.u : k == 1 ? r.v : k == 2 ? q.u : q.v;
    double s = absd(d.dot(n)), e = r.a * std::fabs(r.u.dot(n)) + r.b * std::fabs(r.v.dot(n)) + q.a * std::fabs(q.u.dot(n)) + q.b * std::fabs(q.v.dot(n));
    if (s > e + 1e-9) { sep = true; break; } if (s >= e - 1e-9) touch = true; }
  ns_check(i == j || (touch && !sep), "intersection is symmetric");
  if (sep) { ns_reach("apart"); ns_check(!i, "disjoint rectangles do not intersect"); } else if (!touch) { ns_reach("overlap"); ns_check(i, "overlapping rectangles intersect"); }
}
NS_HARNESS(bbox_pair_axis) { Rect r = rect(2, 0, 40, true), q = rect(2, 60, 40, false); pairrect(r, q); }
NS_HARNESS(bbox_pair) { Rect r = rect(3, 0, 40, true), q = rect(4, 60, 40, false); pairrect(r, q); }
NS_HARNESS(bbox_pair_full) { Rect r = rect(6, 50, 40, false), q = rect(6, 60, 40, false); pairrect(r, q); }

// boxes of Gaussians
NS_HARNESS(gauss_aabb) {
  Matrix2d P = nse::cov(1e-5, 1e6, -3.1, 3.1); Vector2d x(ns_real("mx", -1e5, 1e5), ns_real("my", -1e5, 1e5)); double n = ns_real("nstd", 0.01, 100);
  AABBox B(x, P, n); double hx = (B.max[0] - B.min[0]) / 2, hy = (B.max[1] - B.min[1]) / 2;
  ns_check_eq(B.max[0] + B.min[0], 2 * x[0], 1e-9, "centred on the mean (x)"); ns_check_eq(B.max[1] + B.min[1], 2 * x[1], 1e-9, "centred on the mean (y)");
  ns_check_le(0, hx, 0, "ordered limits"); ns_check_le(0, hy, 0, "ordered limits");
  ns_check_eq(hx * hx, n * n * P(0, 0), 1e-9, "half width is nstd standard deviations (x)"); ns_check_eq(hy * hy, n * n * P(1, 1), 1e-9, "half width is nstd standard deviations (y)");
  ns_observe("hx", hx); ns_observe("hy", hy); ns_reach("done");
}
NS_HARNESS(gauss_aabb_cov) {
  Matrix2d P = nse::cov(1e-5, 1e6, -3.1, 3.1); AABBox B(P); 
  ns_check_eq(B.max[0] + B.min[0], 0, 1e-9, "centred on the origin"); ns_check_eq(B.max[1] * B.max[1], 4 * P(1, 1), 1e-9, "two standard deviations by default"); ns_check_eq(B.max[0] * B.max[0], 4 * P(0, 0), 1e-9, "two standard deviations by default"); ns_reach("done");
}
NS_HARNESS(gauss_bbox) {
  Matrix2d P = nse::cov(1e-5, 1e6, -3.1, 3.1); Vector2d x(ns_real("mx", -1e5, 1e5), ns_real("my", -1e5, 1e5)); double n = ns_real("nstd", 0.01, 100);
  BBox B(x, P, n); Vector2d m = (B.corners.col(0) + B.corners.col(1) + B.corners.col(2) + B.corners.col(3)) / 4;
  ns_check_eq(m[0], x[0], 1e-9, "centred on the mean"); ns_check_eq(m[1], x[1], 1e-9, "centred on the mean");
  Vector2d e1 = (B.corners.col(0) - B.corners.col(1)) / 2, e2 = (B.corners.col(1) - B.corners.col(2)) / 2, e3 = (B.corners.col(3) - B.corners.col(2)) / 2;
  ns_check_eq(e1[0], e3[0], 1e-9, "opposite sides are parallel"); ns_check_eq(e1[1], e3[1], 1e-9, "opposite sides are parallel"); ns_check_eq(e1.dot(e2), 0, 1e-6, "sides are perpendicular");
  // half sides w are principal axes: P w = (|w|^2 / n^2) w, and the two cover the whole spread
  for (auto &w : {e1, e2}) { Vector2d z = n * n * (P * w) - w.squaredNorm() * w; ns_check_eq(z[0], 0, 1e-4, "aligned with a principal axis of that size"); ns_check_eq(z[1], 0, 1e-4, "aligned with a principal axis of that size"); }
  ns_check_eq(e1.squaredNorm() + e2.squaredNorm(), n * n * (P(0, 0) + P(1, 1)), 1e-9, "half lengths are nstd principal standard deviations");
  ns_check_eq(e1.squaredNorm() * e2.squaredNorm(), n * n * n * n * (P(0, 0) * P(1, 1) - P(0, 1) * P(1, 0)), 1e-6, "half lengths are nstd principal standard deviations (area)"); ns_reach("done");
}
