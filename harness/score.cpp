// T08, T09: OSPA and GOSPA
#include "dot.h"
using namespace hd;
using Mix = GM<4, 3>; using MT = SILMB<Mix>; using MG = Target_<Mix>;
static double power(double v, int p) { double r = 1; for (int i = 0; i < p; ++i) r = r * v; return r; }
// least total over all matchings, by the definition
static double least(int M, int N, const std::function<double(int, int)> &pair, const std::function<double(int)> &single) {   // single(+i) target unmatched; cardinality handled by the caller
  double best = 0; bool any = false; std::vector<char> used(N, 0); std::function<void(int, double, int)> go = [&](int i, double s, int m) { if (i == M) { s = s + single(m); if (!any || s < best) best = s; any = true; return; } go(i + 1, s, m); for (int j = 0; j < N; ++j) if (!used[j]) { used[j] = 1; go(i + 1, s + pair(i, j), m + 1); used[j] = 0; } }; go(0, 0, 0); return best; }
// everything lies along the line (1, 2, 2, 4) of positions and velocities, so that distances are five times the difference of the parameters
struct Scene { MT t; MT::TargetStates truth; std::vector<double> x, y; cf::LL o; double k; Scene() : k(1) { o << 0, 0; }
  Vector4d at(double v) { return Vector4d(v / 64, 3 + v / 32, 2 * v, 4 * v); }
  void target(double v) { x.push_back(5 * v); Mix m(&t.params, at(v), Matrix4d::Identity()); if (x.size() % 2 == 0) { m.c.push_back(m.c[0]); m.c[0].w = 0.25; m.c[1].w = 0.75; m.c[0].x += Vector4d(0.75, 0, 3, -6); m.c[1].x -= Vector4d(0.25, 0, 1, -2); } static const double R[4] = {1, 0.03125, 0.5, 1}; t.targettree.new_target(R[x.size() & 3], std::move(m), 0); } void real(double v) { y.push_back(5 * v); truth.push_back(at(v)); } };
static void ospa(Scene &s, double c, int p, bool own = false) {
  int M = s.x.size(), N = s.y.size(), n = std::max(M, N); double v = own ? s.t.ospa(s.truth, c, p) : s.t.ospa(s.truth, s.o, c, p); ns_observe("ospa", v); if (!n) { ns_check_eq(v, 0, 0, "the score of nothing against nothing is zero"); ns_reach("empty"); return; }
  double cp = power(c, p); double want = least(M, N, [&](int i, int j) { double d = s.k * fabs(s.x[i] - s.y[j]); return d < c ? power(d, p) : cp; }, [&](int m) { return (n - m) * cp; });
  ns_check_eq(power(v, p) * n, want, 1e-6, "the score equals its definition"); ns_check_le(0, v, 0, "the score is not negative"); ns_check_le(power(v, p), cp * (1 + 1e-9), 0, "the score does not exceed the cut-off"); ns_reach("scored"); }
static void gospa(Scene &s, double c, int p, bool own = false) {
  int M = s.x.size(), N = s.y.size(); double v = own ? s.t.gospa(s.truth, c, p) : s.t.gospa(s.truth, s.o, c, p); ns_observe("gospa", v); double cp = power(c, p); if (M + N == 0) { ns_check_eq(v, 0, 0, "the score of nothing against nothing is zero"); ns_reach("empty"); return; }
  double want = least(M, N, [&](int i, int j) { double d = s.k * fabs(s.x[i] - s.y[j]); return d < c ? power(d, p) : cp; }, [&](int m) { return (M + N - 2 * m) * (cp / 2); });
  ns_check_eq(power(v, p), want, 1e-6, "the score equals its definition"); ns_check_le(0, v, 0, "the score is not negative"); ns_reach("scored"); }
static const double XS[4] = {0, 3, -2, 7}, YS[4] = {1, 2.5, -4, 0};
static void sets(Scene &s, int M, int N, unsigned sym) { for (int i = 0; i < M; ++i) s.target(sym >> i & 1 ? hs::grid("target", -10, 10) : XS[i]); for (int j = 0; j < N; ++j) s.real(sym >> (M + j) & 1 ? hs::grid("truth", -10, 10) : YS[j]); }
#define BOTH(NAME, M, N, SYM, C, PLO, PHI) NS_HARNESS(o##NAME) { Scene s; sets(s, M, N, SYM); int p = ns_int("p", PLO, PHI); ospa(s, C, p); } NS_HARNESS(g##NAME) { Scene s; sets(s, M, N, SYM); int p = ns_int("p", PLO, PHI); gospa(s, C, p); }
BOTH(00, 0, 0, 0, hs::real("c", 0.01, 200), 1, 3) BOTH(10, 1, 0, 1, hs::real("c", 0.01, 200), 1, 3) BOTH(01, 0, 1, 1, hs::real("c", 0.01, 200), 1, 3) BOTH(11, 1, 1, 3, hs::real("c", 0.01, 200), 1, 3)
BOTH(12, 1, 2, 7, 25, 1, 2) BOTH(21, 2, 1, 7, 25, 1, 2) BOTH(22a, 2, 2, 1u << ns_int("which", 0, 3), hs::real("c", 0.01, 200), 1, 2) BOTH(22, 2, 2, 15, 25, 1, 1) BOTH(33, 3, 3, 1u << ns_int("which", 0, 5), 25, 1, 2) BOTH(31, 3, 1, 15, 25, 1, 1)

// on a map whose scale depends on the latitude of the origin: distances are measured around the given origin, or around the mean of all positions
static void bent(Scene &s, int M, int N, bool own) { nsf::bend = 0.125; s.t.params.nstd = 2; static const double A[2] = {0.5, -1.5}, B[2] = {-0.25, 1}; Vector2d q(0, 0); auto at = [&](double v) { Vector4d x(3 * v / 16, 3 + v / 4, 1, 1); q = q + x.head<2>(); return x; };   // distances along (3, 4): five sixteenths of a step
  for (int i = 0; i < M; ++i) { double v = i ? A[i] : hs::grid("target", -8, 8); s.x.push_back(v); s.t.targettree.new_target(0.5, Mix(&s.t.params, at(v), Matrix4d::Identity()), 0); } for (int j = 0; j < N; ++j) { double v = j || M > 1 ? B[j] : hs::grid("truth", -8, 8); s.y.push_back(v); s.truth.push_back(at(v)); }
  if (own) s.o = q / (M + N); else s.o = Vector2d(hs::grid("origin", -2, 2), 1); s.k = nsf::per_degree(s.o) * 5 / 16; }
#define BENT(NAME, M, N, OWN) NS_HARNESS(ob##NAME) { Scene s; bent(s, M, N, OWN); int p = ns_int("p", 1, M + N < 3 ? 2 : 1); ospa(s, 100, p, OWN); nsf::bend = 0; } NS_HARNESS(gb##NAME) { Scene s; bent(s, M, N, OWN); int p = ns_int("p", 1, M + N < 3 ? 2 : 1); gospa(s, 100, p, OWN); nsf::bend = 0; }
BENT(11, 1, 1, false) BENT(11o, 1, 1, true) BENT(21o, 2, 1, true) BENT(12o, 1, 2, true)
// after real scans: the score is about the current estimates, not about any of the hypotheses that led to them
struct Sense : PositionSensor<MG> { Sense() { lambdaB = 0; pD_ = 0.75; fov.corners << 90, 90, -90, -90, 180, -180, -180, 180; } };
static void after(Scene &s, bool g, int p) {
  Sense z; z.kappa_ = 0.125; for (double v : {0., 1.}) { s.target(v); } std::vector<Sense::Report> scan; for (double v : {0.5, 1.25}) { Vector4d x = s.at(v); scan.emplace_back(Vector2d(x[0], x[1]), Matrix2d::Identity() * 16); } s.t.correct(z, scan, 1); if (ns_int("again", 0, 1)) { std::vector<Sense::Report> none; s.t.correct(z, none, 2); }
  auto now = s.t.get_targets(); int M = now.size(); ns_check(M == 2, "both targets survive"); if (M != 2) return; Vector4d m0 = now[0].x, d; double v = hs::grid("truth", -10, 10); for (int i = 0; i < 2; ++i) m0[i] += v * (i + 1) / 64; m0[2] += 2 * v; m0[3] += 4 * v; s.truth.push_back(m0); double c = 25, cp = power(c, p);
  std::vector<double> dist; for (int i = 0; i < 2; ++i) { d = m0 - Vector4d(now[i].x); d.head<2>() *= 64; dist.push_back(i ? d.norm() : fabs(5 * v)); } double best = 0; for (int i = 0; i < 2; ++i) { double q = dist[i] < c ? power(dist[i], p) : cp; if (!i || q < best) best = q; }
  double want = g ? best + cp / 2 : (best + cp) / 2, got = g ? s.t.gospa(s.truth, s.o, c, p) : s.t.ospa(s.truth, s.o, c, p); ns_observe("score", got); if (g && 3 * cp / 2 < want) want = 3 * cp / 2; ns_check_eq(power(got, p), want, 1e-6, "the score is that of the current estimates"); ns_reach("scored"); }
NS_HARNESS(oscan) { Scene s; s.t.params = free_params(); s.t.params.r_lim = 1e-6; int p = ns_int("p", 1, 2); after(s, false, p); } NS_HARNESS(gscan) { Scene s; s.t.params = free_params(); s.t.params.r_lim = 1e-6; int p = ns_int("p", 1, 2); after(s, true, p); }
