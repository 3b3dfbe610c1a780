// A01-A03: assignment solver and ranked enumeration
#include "ns.h"
#include "murty.hpp"
#include <set>
#include <functional>
#include <algorithm>
#include <numeric>

static lap::CostMatrix problem(int n, int m, bool forb, double lo, double hi, int maxforb = 99) {
  lap::CostMatrix C(n, m); int nf = 0;
  for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) {
    bool f = forb && nf < maxforb && ns_int("forbidden", 0, 1); if (f) ++nf;
    C(i, j) = f ? lap::inf : ns_grid("c", lo, hi);
  }
  return C;
}
static void complete(const lap::CostMatrix &C, const std::function<void(const std::vector<int> &)> &f) {  // all complete assignments over allowed pairs
  int n = C.rows(), m = C.cols(); std::vector<int> a(n, -1); std::vector<char> used(m, 0);
  std::function<void(int)> rec = [&](int i) { if (i == n) { f(a); return; }
    for (int j = 0; j < m; ++j) if (!used[j] && !std::isinf(C(i, j))) { used[j] = 1; a[i] = j; rec(i + 1); used[j] = 0; } };
  rec(0);
}
static double total(const lap::CostMatrix &C, const std::vector<int> &a) { double s = 0; for (size_t i = 0; i < a.size(); ++i) s += C(i, a[i]); return s; }

static void solver(const lap::CostMatrix &C) {
  int n = C.rows(), m = C.cols();
  lap::Assignment x(n); lap::Dual u(n), v(m); lap::CostMatrix K = C;
  bool ok = lap::lap(K, x, u, v);
  bool feasible = false; complete(C, [&](const std::vector<int> &) { feasible = true; });
  ns_observe("ok", ok);
  ns_check(ok == feasible, "solver reports failure exactly when no complete assignment exists");
  if (!ok) { ns_reach("infeasible"); return; }
  ns_reach("feasible");
  std::vector<int> a(n); std::set<int> cols;
  for (int i = 0; i < n; ++i) { a[i] = x[i]; ns_check(a[i] >= 0 && a[i] < m, "assigned column in range"); ns_check(!std::isinf(C(i, a[i])), "assigned pair is allowed"); cols.insert(a[i]); }
  ns_check((int)cols.size() == n, "columns are distinct");
  double c = total(C, a); ns_observe("cost", c);
  complete(C, [&](const std::vector<int> &b) { ns_check_le(c, total(C, b), 1e-9, "assignment has least total cost"); });
  lap::Assignment y = lap::lap(K); std::vector<int> b(n); for (int i = 0; i < n; ++i) b[i] = y[i];
  ns_check_eq(total(C, b), c, 1e-9, "both entry points agree");
}
enum { ORDER = 1, SET = 2 };
static void ranked(const lap::CostMatrix &C, int what) {
  int n = C.rows(); lap::Murty mu(C);
  size_t N = 0; complete(C, [&](const std::vector<int> &) { ++N; });
  if (!N) ns_reach("none");
  std::set<std::vector<int>> seen; double last = 0;
  for (size_t k = 0;; ++k) {
    lap::Assignment s; double cost = 0; bool ok = mu.draw(s, cost);
    if (!ok) { if (what & SET) ns_check(k == N, "exhaustion is reported exactly after the last assignment"); break; }
    if (k >= N) { if (what & SET) ns_check(0, "a draw after the last assignment"); break; }
    std::vector<int> a(n); std::set<int> cols; bool good = s.rows() == n;
    for (int i = 0; i < n && good; ++i) { a[i] = s[i]; good = a[i] >= 0 && a[i] < C.cols() && !std::isinf(C(i, a[i])); cols.insert(a[i]); }
    good = good && (int)cols.size() == n;
    if (what & SET) { ns_check(good, "draw is a complete assignment over allowed pairs"); ns_check(seen.insert(a).second, "draw repeats an earlier assignment"); }
    if (!good) break;
    if (what & ORDER) {
      ns_check_eq(cost, total(C, a), 1e-9, "reported cost equals the sum of the selected entries");
      if (k) ns_check_le(last, cost, 1e-9, "costs come in nondecreasing order"); last = cost; ns_observe("cost", cost);
    }
    ns_reach(k ? "next" : "first");
  }
}
// three and more rows: one row (or one column) arbitrary, the others from fixed tables (with ties, negatives and forbidden pairs)
static lap::CostMatrix around(int n, int m, int nsym, bool neg) {
  static const double B[3][4][4] = {{{1, 4, 2, 7}, {3, 1, 5, 2}, {2, 6, 1, 3}, {5, 2, 4, 1}}, {{1, 1, 2, 2}, {1, 2, 1, 2}, {2, 1, 1, 1}, {1, 1, 1, 1}}, {{0, 3, -1, 5}, {2, -1, -1, 0}, {-1, 4, 0, 3}, {1, 0, -1, 2}}};
  int b = ns_int("table", 0, 2); lap::CostMatrix C(n, m);
  for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) C(i, j) = b == 2 && B[b][i][j] < 0 ? lap::inf : B[b][i][j];
  if (neg && b == 1) C.array() -= 2;
  int r = ns_int("row", 0, n - 1), col = ns_int("column", 0, m - 1), k = 0;
  for (int d = 0; d < m && k < nsym; ++d, ++k) { int j = (col + d) % m; C(r, j) = ns_grid("c", neg ? -1e6 : 0, 1e6); }
  return C;
}
#define SOLVE(N, n, m, f, lo, hi, mf) NS_HARNESS(solve_##N) { solver(problem(n, m, f, lo, hi, mf)); }
SOLVE(1x1, 1, 1, true, -1e6, 1e6, 99) SOLVE(1x2, 1, 2, true, -1e6, 1e6, 99) SOLVE(1x3, 1, 3, true, -1e6, 1e6, 99) SOLVE(2x2, 2, 2, true, -1e6, 1e6, 99) SOLVE(2x3, 2, 3, true, -1e6, 1e6, 99) SOLVE(2x4, 2, 4, true, -1e6, 1e6, 99)
SOLVE(3x3, 3, 3, true, -1e6, 1e6, 99) SOLVE(3x3f, 3, 3, false, -1e6, 1e6, 99) SOLVE(3x4f, 3, 4, false, -1e6, 1e6, 99) SOLVE(3x4, 3, 4, true, -1e6, 1e6, 2) SOLVE(4x4f, 4, 4, false, -1e6, 1e6, 99) SOLVE(3x5f, 3, 5, false, -1e6, 1e6, 99)
#define RANK(N, n, m, f, lo, hi, mf) NS_HARNESS(order_##N) { ranked(problem(n, m, f, lo, hi, mf), ORDER); } NS_HARNESS(set_##N) { ranked(problem(n, m, f, lo, hi, mf), SET); }
RANK(1x1, 1, 1, true, -1e6, 1e6, 99) RANK(1x2, 1, 2, true, -1e6, 1e6, 99) RANK(1x3, 1, 3, true, -1e6, 1e6, 99) RANK(2x2, 2, 2, true, -1e6, 1e6, 99) RANK(2x3, 2, 3, true, -1e6, 1e6, 99) RANK(2x3p, 2, 3, true, 0, 1e6, 99) RANK(2x4p, 2, 4, true, 0, 1e6, 99)
RANK(3x3p, 3, 3, true, 0, 1e6, 99) RANK(3x3f, 3, 3, false, 0, 1e6, 99) RANK(3x4p, 3, 4, true, 0, 1e6, 3)

#define RANKA(N, n, m, k, neg) NS_HARNESS(order_##N) { ranked(around(n, m, k, neg), ORDER); } NS_HARNESS(set_##N) { ranked(around(n, m, k, neg), SET); }
RANKA(3x3a, 3, 3, 2, true) RANKA(3x3b, 3, 3, 3, true) RANKA(3x4a, 3, 4, 1, true) RANKA(3x4b, 3, 4, 2, false) RANKA(4x4a, 4, 4, 1, true)
// many rows, as in a crowded group: a first column open to all rows, and one column of its own for each row
static void crowd(int n, bool ok) {
  lap::CostMatrix C(n, n + 1); C.setConstant(lap::inf); for (int i = 0; i < n; ++i) { C(i, 0) = 1 + 0.0078125 * i; C(i, 1 + i) = 5 + ((i * 7) % n) * 0.125; }
  C(n / 2, 0) = ns_grid("c", -1e6, 1e6); if (!ok) { C(3, 0) = lap::inf; C(3, 4) = lap::inf; C(5, 4) = 1; }
  lap::Assignment x(n); lap::Dual u(n), v(n + 1); bool got = lap::lap(C, x, u, v); ns_check(got == ok, "solver reports failure exactly when no complete assignment exists"); if (!got) { ns_reach("infeasible"); return; }
  double c = 0, own = 0; std::set<int> cols; for (int i = 0; i < n; ++i) { ns_check(x[i] >= 0 && x[i] <= n && (x[i] == 0 || x[i] == i + 1), "assigned pair is allowed"); cols.insert(x[i]); c += C(i, x[i]); own += C(i, 1 + i); } ns_check((int)cols.size() == n, "columns are distinct");
  ns_check_le(c, own, 1e-9, "assignment has least total cost"); for (int i = 0; i < n; ++i) ns_check_le(c, own - C(i, 1 + i) + C(i, 0), 1e-9, "assignment has least total cost"); ns_observe("cost", c); ns_reach("feasible");
}
NS_HARNESS(solve_many) { crowd(ns_int("rows", 0, 1) ? 33 : 20, ns_int("possible", 0, 1)); }
// a matrix stored column by column is the same problem
static void columns(const lap::CostMatrix &C) {
  int n = C.rows(), m = C.cols(); Eigen::MatrixXd K = C; lap::Assignment x(n); lap::Dual u(n), v(m); bool ok = lap::lap(K, x, u, v), feasible = false; complete(C, [&](const std::vector<int> &) { feasible = true; });
  ns_check(ok == feasible, "solver reports failure exactly when no complete assignment exists"); if (!ok) { ns_reach("infeasible"); return; } ns_reach("feasible");
  std::vector<int> a(n); std::set<int> cols; for (int i = 0; i < n; ++i) { a[i] = x[i]; ns_check(a[i] >= 0 && a[i] < m && !std::isinf(C(i, a[i])), "assigned pair is allowed"); cols.insert(a[i]); } ns_check((int)cols.size() == n, "columns are distinct");
  double c = total(C, a); complete(C, [&](const std::vector<int> &b) { ns_check_le(c, total(C, b), 1e-9, "assignment has least total cost"); }); lap::Assignment y = lap::lap(K); for (int i = 0; i < n; ++i) a[i] = y[i]; ns_check_eq(total(C, a), c, 1e-9, "both entry points agree"); }
NS_HARNESS(solve_cols2) { columns(problem(2, 2, true, -1e6, 1e6)); } NS_HARNESS(solve_cols3) { columns(problem(2, 3, true, -1e6, 1e6)); }
// more rows than the two passes of row reduction can settle: several augmenting paths, one after another
static lap::CostMatrix steep(int n, int seed) {
  unsigned g = 12345 + 977 * seed; auto rnd = [&](int m) { g = g * 1103515245u + 12345u; return (int)((g >> 16) % m); }; lap::CostMatrix C(n, n); int a[8], b[8]; for (int i = 0; i < n; ++i) { a[i] = rnd(6); b[i] = rnd(6); }
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) C(i, j) = (seed % 3 == 0 ? (i + 1) * (j + 1) : seed % 3 == 1 ? (n - i) * (j + 1) : a[i] * b[j]) + rnd(2); return C; }
static void augmented(int n, int seed, int nsym) {
  lap::CostMatrix C = steep(n, seed); int si[3], sj[3]; for (int k = 0; k < nsym; ++k) { si[k] = (seed + 2 * k) % n; sj[k] = (2 * seed + 3 * k + 1) % n; }
  std::vector<double> least(1 << nsym, 0.0); std::vector<char> any(1 << nsym, 0); std::vector<int> p(n); std::iota(p.begin(), p.end(), 0); do { int mask = 0; double s = 0; for (int i = 0; i < n; ++i) { bool sym = false; for (int k = 0; k < nsym; ++k) if (si[k] == i && sj[k] == p[i]) { mask |= 1 << k; sym = true; } if (!sym) s += C(i, p[i]); } if (!any[mask] || s < least[mask]) { least[mask] = s; any[mask] = 1; } } while (std::next_permutation(p.begin(), p.end()));
  double v[3]; for (int k = 0; k < nsym; ++k) C(si[k], sj[k]) = v[k] = ns_grid("c", -10, 40); lap::Assignment x(n); lap::Dual u(n), w(n); lap::CostMatrix K = C; ns_check(lap::lap(K, x, u, w), "solver reports failure exactly when no complete assignment exists");
  std::set<int> cols; double c = 0; for (int i = 0; i < n; ++i) { ns_check(x[i] >= 0 && x[i] < n, "assigned column in range"); cols.insert(x[i]); c += C(i, x[i]); } ns_check((int)cols.size() == n, "columns are distinct"); ns_observe("cost", c);
  for (int m = 0; m < 1 << nsym; ++m) if (any[m]) { double s = least[m]; for (int k = 0; k < nsym; ++k) if (m >> k & 1) s += v[k]; ns_check_le(c, s, 1e-9, "assignment has least total cost"); } ns_reach("feasible"); }
NS_HARNESS(solve_steep4) { augmented(4, ns_int("seed", 0, 39), 2); } NS_HARNESS(solve_steep5) { augmented(5, ns_int("seed", 0, 59), 2); } NS_HARNESS(solve_steep5c) { augmented(5, ns_int("seed", 0, 5), 3); } NS_HARNESS(solve_steep6) { augmented(6, ns_int("seed", 0, 199), 1); } NS_HARNESS(solve_steep6b) { augmented(6, ns_int("seed", 0, 39), 2); } NS_HARNESS(solve_steep7) { augmented(7, ns_int("seed", 0, 59), 1); }
// ranked enumeration of larger problems with many near ties
static void ranks(int n, int m, int seed, int nsym, int what, int forb) {
  lap::CostMatrix S = steep(std::max(n, m), seed), C = S.topLeftCorner(n, m); for (int k = 0; k < forb; ++k) C((3 * k + seed) % n, (k + 2 * seed) % m) = lap::inf; for (int k = 0; k < nsym; ++k) C((seed + 2 * k) % n, (2 * seed + 3 * k + 1) % m) = ns_grid("c", seed & 1 ? -10 : 0, 40); ranked(C, what); }
#define RANKS(NAME, n, m, seeds, k, forb) NS_HARNESS(order_##NAME) { ranks(n, m, ns_int("seed", 0, seeds - 1), k, ORDER, forb); } NS_HARNESS(set_##NAME) { ranks(n, m, ns_int("seed", 0, seeds - 1), k, SET, forb); }
RANKS(steep4, 4, 4, 12, 1, 0) RANKS(steep4f, 4, 4, 12, 1, 4) RANKS(steep35, 3, 5, 6, 1, 2) RANKS(steep45, 4, 5, 6, 1, 6) RANKS(steep5, 5, 5, 6, 1, 8)
