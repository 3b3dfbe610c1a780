// K01-K03: coordinate frames
#include <array>
#include <cmath>
#include "ns.h"
#include "cf.hpp"
using namespace cf; using Eigen::Vector2d; using Eigen::Vector3d;
static const double A = 6378137.0, E2 = 6.6943799901377997e-3;
static double LAT(const char *n = "lat") { return ns_real(n, -90, 90); }
static double LON(const char *n = "lon") { return ns_real(n, -180, 180); }
static Vector3d any(const char *a, const char *b, const char *c, double R) { return Vector3d(ns_real(a, -R, R), ns_real(b, -R, R), ns_real(c, -R, R)); }
static void same(const Vector3d &a, const Vector3d &b, double tol, const char *m) { for (int i = 0; i < 3; ++i) ns_check_eq(a[i], b[i], tol, m); }
static void same2(const Vector2d &a, const Vector2d &b, double tol, const char *m) { for (int i = 0; i < 2; ++i) ns_check_eq(a[i], b[i], tol, m); }
NS_HARNESS(rotation) {
  Vector3d o(LAT(), LON(), ns_real("alt", -1e4, 1e5)); Eigen::Matrix3d R = nedrot(o); Eigen::Matrix3d I = R * R.transpose();
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { ns_check_eq(I(i, j), i == j, 1e-9, "rotation is orthonormal"); ns_observe("R", R(i, j)); }
  ns_check_eq(R(0, 0) * (R(1, 1) * R(2, 2) - R(1, 2) * R(2, 1)) - R(0, 1) * (R(1, 0) * R(2, 2) - R(1, 2) * R(2, 0)) + R(0, 2) * (R(1, 0) * R(2, 1) - R(1, 1) * R(2, 0)), 1, 1e-9, "rotation is right handed");
  Eigen::Matrix<double, 2, 3> Q = nerot(Vector2d(o[0], o[1])); for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) ns_check_eq(Q(i, j), R(i, j), 1e-12, "planar rotation is the upper part of the full one"); 
  // axes: north points to higher latitude, east to higher longitude, down into the earth along the normal of the ellipsoid
  double sa = sind(o[0]), ca = cosd(o[0]), so = sind(o[1]), co = cosd(o[1]);
  ns_check_eq(R(0, 0), -sa * co, 1e-9, "north axis"); ns_check_eq(R(0, 1), -sa * so, 1e-9, "north axis"); ns_check_eq(R(0, 2), ca, 1e-9, "north axis"); ns_check_eq(R(1, 0), -so, 1e-9, "east axis"); ns_check_eq(R(1, 1), co, 1e-9, "east axis"); ns_check_eq(R(1, 2), 0, 1e-9, "east axis"); ns_check_eq(R(2, 0), -ca * co, 1e-9, "down axis"); ns_check_eq(R(2, 1), -ca * so, 1e-9, "down axis"); ns_check_eq(R(2, 2), -sa, 1e-9, "down axis"); ns_reach("done");
}
NS_HARNESS(degrees) {  // sine and cosine of degrees
  static const double d[8] = {-180, -90, 0, 30, 60, 90, 180, 45}; static const double s[8] = {0, -1, 0, .5, 0.86602540378443865, 1, 0, 0.70710678118654752}, c[8] = {-1, 0, 1, 0.86602540378443865, .5, 0, -1, 0.70710678118654752}; int k = ns_int("k", 0, 7);
  ns_check_eq(sind(d[k]), s[k], 1e-12, "sine of degrees"); ns_check_eq(cosd(d[k]), c[k], 1e-12, "cosine of degrees"); double x = LON("x"), y = LON("y");
  ns_check_eq(sind(x) * sind(x) + cosd(x) * cosd(x), 1, 1e-12, "unit circle"); ns_check_eq(sind(x + y), sind(x) * cosd(y) + cosd(x) * sind(y), 1e-12, "addition"); ns_check_eq(sind(-x), -sind(x), 1e-12, "odd"); ns_check_eq(cosd(-x), cosd(x), 1e-12, "even"); ns_check_eq(std::sin(x * M_PI / 180), sind(x), 1e-12, "scale"); ns_reach("done");
}
NS_HARNESS(roundtrip_ned) { Vector3d o(LAT(), LON(), ns_real("alt", -1e4, 1e5)), x = any("x", "y", "z", 1e7); Vector3d n = ecef2ned(x, o), y = ned2ecef(n, o); same(x, y, 1e-7, "earth-centred to local and back"); ns_observe("n", n[0]); ns_reach("done"); }
NS_HARNESS(roundtrip_ecef) { Vector3d o(LAT(), LON(), ns_real("alt", -1e4, 1e5)), n = any("n", "e", "d", 1e6); Vector3d m = ecef2ned(ned2ecef(n, o), o); same(n, m, 1e-6, "local to earth-centred and back"); ns_reach("done"); }
NS_HARNESS(origin) { Vector3d o(LAT(), LON(), ns_real("alt", -1e4, 1e5)); same(ecef2ned(lla2ecef(o), o), Vector3d::Zero(), 1e-6, "the origin maps to zero"); same(lla2ned(o, o), Vector3d::Zero(), 1e-6, "the origin maps to zero"); same(ned2ecef(Vector3d(0, 0, 0), o), lla2ecef(o), 1e-6, "zero maps to the origin"); Vector2d p(o[0], o[1]); same2(ll2ne(p, p), Vector2d::Zero(), 1e-6, "the origin maps to zero"); same2(ecef2ne(ll2ecef(p), p), Vector2d::Zero(), 1e-6, "the origin maps to zero"); ns_reach("done"); }
NS_HARNESS(distance) { Vector3d o(LAT(), LON(), ns_real("alt", -1e4, 1e5)), x = any("x", "y", "z", 1e7), y = any("x2", "y2", "z2", 1e7); Vector3d a = ecef2ned(x, o), b = ecef2ned(y, o); ns_check_eq((a - b).squaredNorm(), (x - y).squaredNorm(), 1e-9, "distances are preserved"); ns_check_eq(a.squaredNorm(), (x - lla2ecef(o)).squaredNorm(), 1e-9, "distance from the origin is preserved"); ns_reach("done"); }
NS_HARNESS(local_points) {  // the same for geodetic points
  Vector3d o(LAT(), LON(), ns_real("alt", -1e4, 1e5)), p(LAT("lat2"), LON("lon2"), ns_real("alt2", -1e4, 1e5)); Vector3d n = lla2ned(p, o); ns_check_eq(n.squaredNorm(), (lla2ecef(p) - lla2ecef(o)).squaredNorm(), 1e-9, "distances are preserved"); same(ned2ecef(n, o), lla2ecef(p), 1e-7, "local point denotes the same place"); ns_reach("done"); }

NS_HARNESS(ellipsoid) {
  double lat = LAT(), lon = LON(); Vector3d x = ll2ecef(Vector2d(lat, lon)), y = lla2ecef(Vector3d(lat, lon, 0)); double b2 = A * A * (1 - E2);
  double q = (x[0] * x[0] + x[1] * x[1]) / (A * A) + x[2] * x[2] / b2; ns_check_le(q, 1 + 1e-12, 1e-10, "a point at zero altitude lies on the reference ellipsoid"); ns_check_le(1 - 1e-12, q, 1e-10, "a point at zero altitude lies on the reference ellipsoid"); same(x, y, 1e-9, "planar conversion is the full one at zero altitude");
  // the normal of the ellipsoid there has the given latitude and longitude
  double gx = x[0] / (A * A), gy = x[1] / (A * A), gz = x[2] / b2; ns_check_eq(gx * cosd(lat) * sind(lon), gy * cosd(lat) * cosd(lon), 1e-12, "longitude of the normal"); ns_check_eq(gz * cosd(lat), (gx * cosd(lon) + gy * sind(lon)) * sind(lat), 1e-12, "latitude of the normal");
  ns_check_le(0, gx * cosd(lat) * cosd(lon) + gy * cosd(lat) * sind(lon) + gz * sind(lat), 0, "the normal points outwards"); ns_observe("x", x[0]); ns_observe("z", x[2]); ns_reach("done");
}
NS_HARNESS(altitude) { double lat = LAT(), lon = LON(), h = ns_real("alt", -1e4, 1e5); Vector3d x = lla2ecef(Vector3d(lat, lon, h)), y = lla2ecef(Vector3d(lat, lon, 0)); Vector3d d = nedrot(Vector2d(lat, lon)).row(2); same(x, y - h * d, 1e-8, "altitude moves along the down axis by that amount"); ns_check_eq((x - y).squaredNorm(), h * h, 1e-6, "altitude moves along the down axis by that amount"); ns_reach("done"); }
NS_HARNESS(symmetry) {
  double lat = LAT(), lon = LON(), h = ns_real("alt", -1e4, 1e5), d = LON("turn"); Vector3d x = lla2ecef(Vector3d(lat, lon, h)), y = lla2ecef(Vector3d(-lat, lon, h)), z = lla2ecef(Vector3d(lat, lon + d, h));
  same(y, Vector3d(x[0], x[1], -x[2]), 1e-9, "mirrored latitude gives the mirrored point"); same(z, Vector3d(x[0] * cosd(d) - x[1] * sind(d), x[0] * sind(d) + x[1] * cosd(d), x[2]), 1e-8, "turned longitude gives the turned point");
  Vector3d u = ll2ecef(Vector2d(lat, lon)), v = ll2ecef(Vector2d(-lat, lon)), w = ll2ecef(Vector2d(lat, lon + d)); same(v, Vector3d(u[0], u[1], -u[2]), 1e-9, "mirrored latitude gives the mirrored point"); same(w, Vector3d(u[0] * cosd(d) - u[1] * sind(d), u[0] * sind(d) + u[1] * cosd(d), u[2]), 1e-8, "turned longitude gives the turned point"); ns_reach("done");
}
NS_HARNESS(planar_ne) { double lat = LAT(), lon = LON(), a = LAT("lat2"), b = LON("lon2"); Vector2d n = ll2ne(Vector2d(a, b), Vector2d(lat, lon)); Vector3d m = lla2ned(Vector3d(a, b, 0), Vector3d(lat, lon, 0)); same2(n, m.head<2>(), 1e-7, "planar local point is the full one at zero altitude"); Eigen::Vector4d s(a, b, 3, 4); ll2ne_i(s, Vector2d(lat, lon)); same2(s.head<2>(), n, 1e-9, "in-place conversion"); ns_check(s[2] == 3 && s[3] == 4, "in-place conversion keeps the rest"); ns_reach("done"); }
static void invsame(int zone) { static const double W[4] = {4.5e6, 5e6, 6e6, 6.4e6};  // zone 0: moderate latitudes, 1: around the poles
  double w = zone == 1 ? ns_real("w", 1, 3e6) : zone == 2 ? W[ns_int("k", 0, 3)] : ns_real("w", 4.3e6, 8e6), lon = ns_real("lon", -179.9, 179.9), z = zone == 1 ? ns_real("z", 6.2e6, 6.5e6) : ns_real("z", 1, 5e6); bool south = ns_int("south", 0, 1);
  Vector3d x(w * cosd(lon), w * sind(lon), south ? -z : z); Vector3d a = ecef2lla(x); Vector2d b = ecef2ll(x);
  for (int i = 0; i < 2; ++i) if (std::isnan(a[i]) || std::isnan(b[i])) { ns_check(std::isnan(a[i]) && std::isnan(b[i]), "planar inverse is the full one"); return; }
  ns_check_eq(b[1], lon, 1e-9, "inverse recovers the longitude"); same2(a.head<2>(), b, 1e-9, "planar inverse is the full one"); Vector2d m = ecef2ll(Vector3d(x[0], x[1], -x[2])); if (!std::isnan(m[0])) ns_check_eq(m[0], -b[0], 1e-9, "the mirrored point has the mirrored latitude"); ns_observe("lat", a[0]); ns_reach(south ? "south" : "north");
}
NS_HARNESS(inverse_mid) { invsame(0); } NS_HARNESS(inverse_pole) { invsame(1); }
NS_HARNESS(inverse_midw) { invsame(2); }
NS_HARNESS(local_table) {  // planar local to global: finite table of origins and offsets (the nested inverse is out of the solver's reach)
  static const double O[8][2] = {{0, 0}, {10, 20}, {-35, 150}, {58.4, 15.6}, {80, -60}, {-80, 100}, {-12, -170}, {89, 45}}, D[9][2] = {{0, 0}, {1000, 0}, {0, 1000}, {-300, 700}, {5e4, -2e4}, {-4e4, -4e4}, {1, 2}, {20000, 30000}, {-7, 9000}};
  int k = ns_int("origin", 0, 7), j = ns_int("offset", 0, 8); Vector2d o(O[k][0], O[k][1]), ne(D[j][0], D[j][1]); Vector3d a = ne2ecef(ne, o); Vector3d g = ned2lla(Vector3d(ne[0], ne[1], 0), Vector3d(o[0], o[1], 0)), b = ll2ecef(Vector2d(g[0], g[1]));
  same(a, b, 1e-9, "planar local point denotes the place of the full one at zero altitude"); Vector2d ll = ne2ll(ne, o); same2(ll, g.head<2>(), 1e-9, "planar global point is the full one without altitude"); Eigen::Vector4d s(ne[0], ne[1], 5, 6); ne2ll_i(s, o); same2(s.head<2>(), ll, 1e-12, "in-place conversion"); ns_check(s[2] == 5 && s[3] == 6, "in-place conversion keeps the rest");
  Vector3d q = ned2ecef(Vector3d(ne[0], ne[1], 0), Vector3d(o[0], o[1], 0)); Vector3d up = -nedrot(g).row(2); same(b + g[2] * up, q, 1e-9, "the altitude of the tangent plane point"); ns_reach("done");
}
// K03: the inverse conversion undoes the direct one, for every longitude, on a net of latitudes and altitudes
static void undone(double lat, double h) {
  double lon = ns_real("lon", -179.999, 179.999); Vector3d p(lat, lon, h), g = ecef2lla(lla2ecef(p)); ns_check_eq(g[0], lat, 1e-10, "the inverse recovers the latitude"); ns_check_eq(g[1], lon, 1e-9, "the inverse recovers the longitude"); ns_check_eq(g[2], h, 1e-6, "the inverse recovers the altitude"); ns_observe("lat", g[0]); ns_observe("alt", g[2]);
  if (h == 0) { Vector2d q(lat, lon), b = ecef2ll(ll2ecef(q)); ns_check_eq(b[0], lat, 1e-10, "the planar inverse recovers the latitude"); ns_check_eq(b[1], lon, 1e-9, "the planar inverse recovers the longitude"); }
  ns_reach(lat < 0 ? "south" : lat > 0 ? "north" : "equator"); }
static const double HS[10] = {0, -10000, -500, 100, 1000, 2500, 8848, 3e4, 1e5, 4e5};
NS_HARNESS(undo_low) { int k = ns_int("lat", -224, 224); undone(k / 4., HS[ns_int("alt", 0, 9)]); }
NS_HARNESS(undo_high) { int k = ns_int("lat", 57 * 4, 89 * 4); int s = ns_int("south", 0, 1) ? -1 : 1; undone(s * k / 4., HS[ns_int("alt", 0, 9)]); }
NS_HARNESS(undo_switch) { int k = ns_int("lat", 0, 32); int s = ns_int("south", 0, 1) ? -1 : 1; undone(s * (56.5 + k / 32.), HS[ns_int("alt", 0, 9)]); }
NS_HARNESS(undo_pole) { static const double D[6] = {89.5, 89.75, 89.9375, 0.5, 0.0625, 1. / 1024}; int k = ns_int("lat", 0, 5); int s = ns_int("south", 0, 1) ? -1 : 1; undone(s * D[k], HS[ns_int("alt", 0, 9)]); }
NS_HARNESS(undo_local) {   // through the local frame of an arbitrary origin
  static const double S[12] = {-89, -63, -56, -30, -1, 0, 12, 45, 56.5, 57, 75, 89.5}; double lat = S[ns_int("lat", 0, 11)], h = HS[ns_int("alt", 0, 9)], lon = ns_real("lon", -179.999, 179.999); Vector3d p(lat, lon, h), o(LAT("lat0"), LON("lon0"), ns_real("alt0", -1e4, 1e5)); Vector3d g = ned2lla(lla2ned(p, o), o);
  ns_check_eq(g[0], lat, 1e-9, "the local frame and back recovers the latitude"); ns_check_eq(g[1], lon, 1e-9, "the local frame and back recovers the longitude"); ns_check_eq(g[2], h, 1e-6, "the local frame and back recovers the altitude"); ns_reach("done"); }
