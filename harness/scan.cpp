// T01, T02, T06: what a scan does to existence, association weights and births
#include "dot.h"
using namespace hd;
static const double RT[8] = {0.5, 0.875, 0.0625, 1, 0.25, 1 - 1. / 16384, 1. / 1024, 0};
// T01: all hypotheses kept
static void marginals(int M, int N, unsigned sym, unsigned zero, int r0, double range = 100) {   // sym: which likelihoods are arbitrary, zero: which may be impossible
  Tr t(free_params()); Sn s; s.lambdaB = 0; t.params.rB_max = 0.8; std::vector<Tg *> tg; std::vector<Rep> scan; std::vector<double> r0s; static const double D[9] = {0.5, 2, 0.125, 4, 1, 0.25, 8, 0.0625, 3};
  for (int i = 0; i < M; ++i) { double r = r0 < 0 && i == 0 ? hs::real("r", 0.01, 0.99) : RT[(r0 + i + 8) % 8]; r0s.push_back(r); tg.push_back(add(t, i, r, i * 0.01, 0, 1)); }
  int b = 0; for (int i = 0; i < M; ++i) { for (int j = 0; j < N; ++j, ++b) s.L[i][j] = (zero >> b & 1) && ns_int("impossible", 0, 1) ? 0 : (sym >> b & 1) ? hs::real("likelihood", 1 / range, range) : D[b % 9]; s.Q[i] = (zero >> b & 1) && ns_int("certain", 0, 1) ? 0 : (sym >> b & 1) ? hs::real("missed", 0.01, 1) : 0.25 + 0.125 * i; ++b; }
  for (int j = 0; j < N; ++j) report(scan, 0.5 * j, 0.1);
  auto f = [&](int i, int j) { return j == -2 ? 1 - r0s[i] : j == -1 ? r0s[i] * s.Q[i] : r0s[i] * s.L[i][j]; }; Exact e(M, N, f); bool none = !ns_issym(e.tot) && e.tot == 0;
  t.correct(s, scan, 1.0);
  ns_check(t.targettree.targets.size() >= (size_t)M, "targets are kept"); double tot = 0; (void)tot;
  for (int i = 0; i < M; ++i) { Dot &d = tg[i]->pdf;
    if (none) { ns_check_eq(tg[i]->r, r0s[i], 0, "no consistent association: existence is kept"); continue; }
    if (d.joins == 0) { ns_check_eq(tg[i]->r, 0, 0, "negligible existence is dropped"); ns_check_le(e.ex[i], 1.1e-6 * e.tot, 0, "existence is dropped only when negligible"); ns_reach("negligible"); continue; }
    ns_check_eq(tg[i]->r * e.tot, e.ex[i], 1e-6, "existence is the exact marginal"); ns_check(d.joins == 1 && d.as.size() == (size_t)N + 1, "one update with all associations"); ns_observe("r", tg[i]->r);
    std::vector<char> seen(N + 1, 0); for (size_t k = 0; k < d.as.size(); ++k) { int j = d.asby[k]; ns_check(j >= -1 && j < N && !seen[j + 1], "each association once"); seen[j + 1] = 1; ns_check_eq(d.as[k] * e.tot, j < 0 ? e.miss[i] : e.a[i][j], 1e-6, j < 0 ? "weight of a missed detection is the exact marginal" : "weight of an association is the exact marginal"); } }
  for (int j = 0; j < N; ++j) { double u = e.tot; for (int i = 0; i < M; ++i) u -= e.a[i][j]; if (none) ns_check_eq(scan[j].rB, 1, 0, "no consistent association: the report is unexplained"); else { ns_check_eq(scan[j].rB * e.tot, u, 1e-6, "the remainder is the exact probability of no known target"); } ns_observe("rB", scan[j].rB); }
  ns_reach(none ? "none" : "some");
}
NS_HARNESS(m10) { marginals(1, 0, ~0u, 1, ns_int("r", -1, 7)); }
NS_HARNESS(m11) { marginals(1, 1, ~0u, 3, ns_int("r", -1, 7)); }
NS_HARNESS(m11w) { marginals(1, 1, ~0u, 0, ns_int("r", 0, 7), 1e9); }
NS_HARNESS(m12) { marginals(1, 2, ~0u, 7, ns_int("r", 0, 7)); }
NS_HARNESS(m13) { marginals(1, 3, ~0u, 0, ns_int("r", 0, 1)); }
NS_HARNESS(m20) { marginals(2, 0, ~0u, 0, 0); }   // two groups
NS_HARNESS(m21) { marginals(2, 1, ~0u, 0, ns_int("r", 0, 7)); }
NS_HARNESS(m21z) { marginals(2, 1, 1, 15, ns_int("r", 0, 7)); }
NS_HARNESS(m21r) { marginals(2, 1, 0, 0, -1); }
NS_HARNESS(m22r) { marginals(2, 2, 0, 0, -1); }
NS_HARNESS(m22) { marginals(2, 2, 1u << ns_int("which", 0, 5), 0, ns_int("r", 0, 7)); }
NS_HARNESS(m22z) { marginals(2, 2, 1, 63, ns_int("r", 0, 7)); }
NS_HARNESS(m22s) { marginals(2, 2, 011, 0, ns_int("r", 0, 2)); }
NS_HARNESS(m31) { marginals(3, 1, 5, 0, 0); }
NS_HARNESS(m32) { marginals(3, 2, 1u << ns_int("which", 0, 8), 0, ns_int("r", 0, 1)); }
// T02: hypothesis limits that cut
static void conserved(int M, int N, unsigned sym, unsigned zero, int r0, double wlim, int nmax, double kap = 1) {
  Params p = free_params(); p.w_lim = wlim; p.nhyp_max = nmax; Tr t(p); Sn s; s.lambdaB = 0; std::vector<Tg *> tg; std::vector<Rep> scan; static const double D[9] = {0.5, 2, 0.125, 4, 1, 0.25, 8, 0.0625, 3};
  for (int i = 0; i < M; ++i) tg.push_back(add(t, i, RT[(r0 + i) % 8], i * 0.01, 0, 1));
  int b = 0; for (int i = 0; i < M; ++i) { for (int j = 0; j < N; ++j, ++b) s.L[i][j] = (zero >> b & 1) && ns_int("impossible", 0, 1) ? 0 : (sym >> b & 1) ? hs::real("likelihood", 0.01, 100) * kap : D[b % 9] * kap; s.Q[i] = (zero >> b & 1) && ns_int("certain", 0, 1) ? 0 : (sym >> b & 1) ? hs::real("missed", 0.01, 1) : 0.25 + 0.125 * i; ++b; }
  for (int j = 0; j < N; ++j) report(scan, 0.5 * j, 0.1);
  report(scan, 40, 40); int far = N;   // no target near it
  t.correct(s, scan, 1.0); ns_check(t.targettree.targets.size() >= (size_t)M, "targets are kept");
  for (int i = 0; i < M; ++i) { double r = tg[i]->r; Dot &d = tg[i]->pdf; ns_check_le(-1e-12, r, 0, "existence is not negative"); ns_check_le(r, 1 + 1e-9, 0, "existence is at most one"); ns_observe("r", r); if (d.joins) { double u = 0; for (double v : d.as) { ns_check_le(-1e-12, v, 0, "association weights are not negative"); u += v; } ns_check_eq(u, r, 1e-9, "association weights add up to the existence"); } }
  for (int j = 0; j < N; ++j) { double u = scan[j].rB, n = 0; ns_check_le(-1e-9, u, 0, "the remainder is not negative"); ns_check_le(u, 1 + 1e-9, 0, "the remainder is at most one"); ns_observe("rB", u);
    bool lost = false; for (int i = 0; i < M; ++i) { Dot &d = tg[i]->pdf; if (!d.joins) { lost = true; continue; } for (size_t k = 0; k < d.as.size(); ++k) if (d.asby[k] == j) { u += d.as[k]; ++n; } }
    if (!lost) ns_check_eq(u, 1, 1e-9, "association probabilities and remainder of a report add up to one"); else { ns_check_le(u, 1 + 1e-9, 0, "association probabilities and remainder of a report add up to one"); ns_check_le(1, u + 3e-6, 0, "association probabilities and remainder of a report add up to one"); } }
  ns_check_eq(scan[far].rB, 1, 0, "a report with no target near it is unexplained"); ns_check(t.cluster_nhyps.size() >= 1, "groups are counted"); for (int n : t.cluster_nhyps) ns_check(n <= nmax, "the number of hypotheses is limited"); ns_reach("done");
}
// T02: the hypotheses kept are the most likely ones, and the update is exact over them
static void kept(int M, int N, unsigned sym, int r0, double wlim, int nmax) {
  Params p = free_params(); p.w_lim = wlim; p.nhyp_max = nmax; Tr t(p); Sn s; s.lambdaB = 0; std::vector<Tg *> tg; std::vector<Rep> scan; std::vector<double> r0s; static const double D[9] = {0.5, 2, 0.125, 4, 1, 0.25, 8, 0.0625, 3};
  for (int i = 0; i < M; ++i) { double r = RT[(r0 + i) % 8]; r0s.push_back(r); tg.push_back(add(t, i, r, i * 0.01, 0, 1)); }
  int b = 0; for (int i = 0; i < M; ++i) { for (int j = 0; j < N; ++j, ++b) s.L[i][j] = (sym >> b & 1) ? hs::real("likelihood", 0.01, 100) : D[b % 9] + i * 0.0625; s.Q[i] = (sym >> b & 1) ? hs::real("missed", 0.01, 1) : 0.25 + 0.125 * i; ++b; }
  for (int j = 0; j < N; ++j) report(scan, 0.5 * j, 0.1);
  struct H { double w; std::vector<int> c; }; std::vector<H> h; std::vector<int> c(M, -2);
  std::function<void(int, unsigned, double)> go = [&](int i, unsigned used, double w) { if (i == M) { h.push_back({w, c}); return; } for (int j = -2; j < N; ++j) { if (j >= 0 && (used >> j & 1)) continue; double v = j == -2 ? 1 - r0s[i] : j == -1 ? r0s[i] * s.Q[i] : r0s[i] * s.L[i][j]; if (!ns_issym(v) && v == 0) continue; c[i] = j; go(i + 1, j >= 0 ? used | 1u << j : used, w * v); } };
  go(0, 0, 1); t.correct(s, scan, 1.0); ns_check(t.cluster_nhyps.size() == 1, "one group"); size_t n = t.cluster_nhyps.empty() ? 0 : t.cluster_nhyps[0]; ns_check(n >= 1 && (int)n <= nmax && n <= h.size(), "the number of hypotheses is limited"); if (n < 1 || n > h.size()) return;
  // the n most likely ones; a tie at the cut, or a share equal to the limit, is left open
  for (size_t k = 0; k <= n && k < h.size(); ++k) { size_t m = k; for (size_t l = k + 1; l < h.size(); ++l) if (h[l].w > h[m].w) m = l; std::swap(h[k], h[m]); }
  if (n < h.size()) ns_assume(h[n - 1].w > h[n].w * 1.000001);
  double tot = 0; for (size_t k = 0; k < n; ++k) { tot += h[k].w; bool last = k + 1 == n; if (!last) ns_check_le(wlim * tot, h[k].w * 1.000001, 0, "hypotheses are drawn until one falls below the weight limit"); }
  if ((int)n < nmax && n < h.size()) ns_check_le(h[n - 1].w, wlim * tot * 1.000001, 0, "hypotheses are drawn until one falls below the weight limit");
  for (int i = 0; i < M; ++i) { Dot &d = tg[i]->pdf; double ex = 0, miss = 0; std::vector<double> a(N, 0.0); for (size_t k = 0; k < n; ++k) { int j = h[k].c[i]; if (j >= -1) ex += h[k].w; if (j == -1) miss += h[k].w; if (j >= 0) a[j] += h[k].w; }
    if (d.joins == 0) { ns_check_le(ex, 1.1e-6 * tot, 0, "existence is dropped only when negligible"); continue; }
    ns_check_eq(tg[i]->r * tot, ex, 1e-6, "existence is the exact marginal over the most likely hypotheses"); ns_observe("r", tg[i]->r);
    for (size_t k = 0; k < d.as.size(); ++k) { int j = d.asby[k]; if (j < -1 || j >= N) continue; ns_check_eq(d.as[k] * tot, j < 0 ? miss : a[j], 1e-6, "association weights are the exact marginals over the most likely hypotheses"); } }
  for (int j = 0; j < N; ++j) { double u = tot; for (size_t k = 0; k < n; ++k) for (int i = 0; i < M; ++i) if (h[k].c[i] == j) u -= h[k].w; ns_check_eq(scan[j].rB * tot, u, 1e-6, "the remainder is exact over the most likely hypotheses"); }
  ns_reach(n < h.size() ? "cut" : "all");
}
static const double WL[3] = {0, 0.25, 0.75};
NS_HARNESS(c11) { conserved(1, 1, ~0u, 3, ns_int("r", 0, 4), WL[ns_int("limit", 0, 2)], ns_int("hypotheses", 1, 3)); }
NS_HARNESS(c12) { conserved(1, 2, ~0u, 7, ns_int("r", 0, 4), WL[ns_int("limit", 0, 2)], ns_int("hypotheses", 1, 3)); }
NS_HARNESS(c21) { conserved(2, 1, ~0u, 0, ns_int("r", 0, 4), WL[ns_int("limit", 0, 2)], ns_int("hypotheses", 1, 3)); }
NS_HARNESS(c21z) { conserved(2, 1, 5, 15, ns_int("r", 0, 4), WL[ns_int("limit", 0, 2)], ns_int("hypotheses", 1, 3)); }
NS_HARNESS(c22) { conserved(2, 2, 1u << ns_int("which", 0, 5), 0, ns_int("r", 0, 4), WL[ns_int("limit", 0, 2)], ns_int("hypotheses", 1, 6)); }
NS_HARNESS(c22s) { conserved(2, 2, 033, 0, ns_int("r", 0, 4), WL[ns_int("limit", 1, 2)], ns_int("hypotheses", 1, 3)); }
NS_HARNESS(c22z) { conserved(2, 2, 1, 63, ns_int("r", 0, 4), WL[ns_int("limit", 0, 2)], ns_int("hypotheses", 1, 3)); }
NS_HARNESS(c32) { conserved(3, 2, 1u << ns_int("which", 0, 8), 0, ns_int("r", 0, 4), WL[ns_int("limit", 0, 2)], ns_int("hypotheses", 1, 4)); }
NS_HARNESS(k11) { kept(1, 1, 3, ns_int("r", 0, 4), WL[ns_int("limit", 0, 2)], ns_int("hypotheses", 1, 3)); }
NS_HARNESS(k12) { kept(1, 2, 7, ns_int("r", 0, 1), WL[ns_int("limit", 0, 2)], ns_int("hypotheses", 1, 4)); }
NS_HARNESS(k21) { kept(2, 1, 1u << ns_int("which", 0, 3), ns_int("r", 0, 4), WL[ns_int("limit", 0, 2)], ns_int("hypotheses", 1, 5)); }
NS_HARNESS(k22) { kept(2, 2, 1u << ns_int("which", 0, 5), 0, WL[ns_int("limit", 0, 2)], ns_int("hypotheses", 1, 7)); }
NS_HARNESS(k32) { kept(3, 2, 1u << ns_int("which", 0, 8), ns_int("r", 0, 1), ns_int("limit", 0, 1) ? 0.0625 : 0, ns_int("hypotheses", 2, 5) * 4); }
NS_HARNESS(scaled) { static const double K[2] = {1e-250, 1e250}; conserved(2, 2, 1, 0, 0, 0, 20, K[ns_int("scale", 0, 1)]); }
NS_HARNESS(crowd) {   // many targets: every hypothesis is improbable
  Params p = free_params(); p.nhyp_max = 3; Tr t(p); Sn s; s.lambdaB = 0; std::vector<Rep> scan; int n = 46; std::vector<Tg *> tg; double q = hs::real("missed", 1e-8, 3e-8); for (int i = 0; i < n; ++i) tg.push_back(add(t, 0, 1, i * 0.001, 0, 1)); s.Q[0] = q; s.L[0][0] = 0.5; report(scan, 0, 0.1); t.correct(s, scan, 1.0);
  for (auto *x : tg) { ns_check_le(0, x->r, 0, "existence is not negative"); ns_check_eq(x->r, 1, 1e-9, "certain targets stay certain"); } ns_check_le(-1e-9, scan[0].rB, 0, "the remainder is not negative"); ns_check_le(scan[0].rB, 1 + 1e-9, 0, "the remainder is at most one"); ns_observe("rB", scan[0].rB); ns_reach("done"); }
