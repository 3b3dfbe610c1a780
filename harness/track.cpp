// T03, T07, T10: life cycle of targets, and questions asked of the tracker
#include "dot.h"
using namespace hd;
using Mix = GM<4, 3>; using MT = SILMB<Mix>; using MG = Target_<Mix>;
static AABBox box(double x0, double y0, double x1, double y1) { AABBox b; b.min = {x0, y0}; b.max = {x1, y1}; return b; }
static const AABBox ALL = box(-1e4, -1e4, 1e4, 1e4);
static Matrix4d diag(double a, double b) { Matrix4d P = Matrix4d::Identity(); P(0, 0) = a; P(1, 1) = b; return P; }
template <class TR> static bool found(TR &t, const void *x, const AABBox &b) { auto q = t.targettree.query(b); long n = 0; for (auto *y : q) n += (const void *)y == x; ns_check(n <= 1, "a target is found once"); return n == 1; }
// exactly the expected targets survive, with their identities, in lists and area queries
template <class TR, class TT> static void survivors(TR &t, const std::vector<TT *> &tg, const std::vector<unsigned> &id, const std::vector<char> &lives) {
  auto &l = t.targettree.targets; size_t n = 0; auto q = t.targettree.query(ALL); for (size_t i = 0; i < tg.size(); ++i) { n += lives[i]; ns_check(std::count(l.begin(), l.end(), tg[i]) == (lives[i] ? 1 : 0), lives[i] ? "a viable target stays" : "a target that is not viable disappears"); ns_check(std::count(q.begin(), q.end(), tg[i]) == (lives[i] ? 1 : 0), lives[i] ? "a viable target is found by area" : "a target that is not viable is not found by area"); if (lives[i]) ns_check(tg[i]->id == id[i], "identity is kept"); ns_reach(lives[i] ? "lives" : "dies"); } ns_check(l.size() == n && q.size() == n, "nothing else is listed or found"); }
// ---- T03
static void predicts(int n, unsigned sym) {
  Params p; p.r_lim = hs::real("limit", 0.001, 1); p.cov_lim = hs::real("spread", 0.5, 40); MT t(p); std::vector<MG *> tg; std::vector<unsigned> id; std::vector<double> r; static const double R[3] = {0.5, 0.25, 0.75}, PA[3] = {2, 5, 0.5}, PB[3] = {3, 11, 0.5}, NR[3] = {5, 13.416407864998739, 2.1213203435596424};
  for (int i = 0; i < n; ++i) { r.push_back(sym >> i & 1 ? hs::real("r", 0.01, 1) : R[i]); tg.push_back(t.targettree.new_target(r[i], Mix(&t.params, Vector4d(i, 0, 0, 0), diag(PA[i], PB[i])), 0)); id.push_back(tg[i]->id); }
  double pS = hs::real("survival", 0.001, 1); NM<MG> m(pS, Matrix4d::Identity()); int steps = ns_int("steps", 1, 2); std::vector<char> lives(n, 1);
  for (int s = 1; s <= steps; ++s) { t.predict(m, s, s - 1); for (int i = 0; i < n; ++i) { r[i] = r[i] * pS; double a = PA[i] + s, b = PB[i] + s, nr = sqrt(a * a + b * b); (void)NR; if (lives[i]) { bool ok = r[i] >= p.r_lim, tight = nr <= p.cov_lim; lives[i] = ok && tight; } } survivors(t, tg, id, lives); for (int i = 0; i < n; ++i) if (lives[i]) { ns_check_eq(tg[i]->r, r[i], 1e-9, "existence after a prediction"); ns_observe("r", tg[i]->r); } } }
NS_HARNESS(predict1) { predicts(1, 1); }
NS_HARNESS(predict2) { predicts(2, 3); }
NS_HARNESS(predict3) { predicts(3, 1u << ns_int("which", 0, 2)); }
NS_HARNESS(predict_many) {   // a population of which some die
  Params p; p.r_lim = hs::real("limit", 0, 1); MT t(p); std::vector<MG *> tg; std::vector<unsigned> id; int n = ns_int("n", 1, 12); for (int i = 0; i < n; ++i) { tg.push_back(t.targettree.new_target(((i * 5) % 12 + 1) / 16.0, Mix(&t.params, Vector4d(3 * (i % 4), 2 * i, 0, 0), diag(2, 3)), 0)); id.push_back(tg[i]->id); } NM<MG> m(0.5, Matrix4d::Zero()); t.predict(m, 1, 0); std::vector<char> lives; for (int i = 0; i < n; ++i) lives.push_back(((i * 5) % 12 + 1) / 32.0 >= p.r_lim); survivors(t, tg, id, lives); }
// the index follows the target: found where it is, not where it was
static void located(MT &t, MG *x, double lat, double lon, double sa, double sb, const char *m) { const double e = 1e-6; double a = 1.9 * sa / 64, b = 1.9 * sb / 64; ns_check(found(t, x, box(lat, lon, lat, lon)), m); ns_check(found(t, x, box(lat + a - e, lon + b - e, lat + a - e, lon + b - e)) && found(t, x, box(lat - a + e, lon - b + e, lat - a + e, lon - b + e)), m); ns_check(!found(t, x, box(lat + a + e, lon - 1, lat + a + 1, lon + 1)) && !found(t, x, box(lat - a - 1, lon - 1, lat - a - e, lon + 1)) && !found(t, x, box(lat - 1, lon + b + e, lat + 1, lon + b + 1)) && !found(t, x, box(lat - 1, lon - b - 1, lat + 1, lon - b - e)), m); ns_reach("located"); }
NS_HARNESS(moves) { Params p; p.cov_lim = 1e9; MT t(p); double vx = hs::grid("vx", -64, 64), vy = hs::grid("vy", -64, 64); MG *x = t.targettree.new_target(0.5, Mix(&t.params, Vector4d(1, 2, vx, vy), diag(3, 8)), 0); MG *y = t.targettree.new_target(0.75, Mix(&t.params, Vector4d(0, 0, 0, 0), diag(1, 1)), 0); located(t, x, 1, 2, sqrt(3.0), sqrt(8.0), "a new target is found at its location"); CV<MG> m(1, 0); t.predict(m, 1, 0); located(t, x, 1 + vx / 64, 2 + vy / 64, 2, 3, "a predicted target is found at its location"); located(t, y, 0, 0, sqrt(2.0), sqrt(2.0), "a predicted target is found at its location"); }
NS_HARNESS(updates_at) {   // certain detection: the location is that of the linear-Gaussian posterior
  Params p; p.r_lim = 1e-12; p.cov_lim = 1e9; MT t(p); double zx = hs::grid("zx", -16, 16), zy = hs::grid("zy", -16, 16); MG *x = t.targettree.new_target(0.5, Mix(&t.params, Vector4d(0, 0, 0, 0), diag(12, 27)), 0); MG *y = t.targettree.new_target(0.75, Mix(&t.params, Vector4d(40, 40, 0, 0), diag(1, 1)), 0); PositionSensor<MG> s; s.lambdaB = 0; s.fov.corners << 30, 30, -30, -30, 30, -30, -30, 30; std::vector<GaussianReport_<2>> scan; scan.emplace_back(Vector2d(zx / 64, zy / 64), Matrix2d((Matrix2d() << 4, 0, 0, 9).finished())); double dx = fabs(zx) , dy = fabs(zy); ns_assume(dx <= 8 && dy <= 8); t.correct(s, scan, 1); double kx = 12 / 16.0, ky = 27 / 36.0; located(t, x, kx * zx / 64, ky * zy / 64, sqrt(3.0), sqrt(6.75), "an updated target is found at its location"); located(t, y, 40, 40, 1, 1, "an untouched target is found at its location"); }
static void corrects(int M, int N, unsigned sym, bool spread) {
  Params p = free_params(); p.r_lim = hs::real("limit", 0.0001, 1); if (spread) p.cov_lim = hs::real("spread", 0.5, 40); Tr t(p); t.params.rB_max = 0; Sn s; s.lambdaB = 0; std::vector<Tg *> tg; std::vector<unsigned> id; std::vector<Rep> scan; static const double D[6] = {0.5, 2, 0.125, 4, 1, 0.25}, R[3] = {0.5, 0.875, 0.0625}; std::vector<double> nr;
  for (int i = 0; i < M; ++i) { tg.push_back(add(t, i, R[i], 0.01 * i, 0, 1)); tg[i]->pdf.c[0].P = diag(3 * (i + 1), 4 * (i + 1)); nr.push_back(5 * (i + 1)); id.push_back(tg[i]->id); } int b = 0; for (int i = 0; i < M; ++i) { for (int j = 0; j < N; ++j, ++b) s.L[i][j] = sym >> b & 1 ? hs::real("likelihood", 1e-4, 1e6) : D[b % 6]; s.Q[i] = sym >> b & 1 ? hs::real("missed", 0.001, 1) : 0.25 + 0.25 * i; ++b; } for (int j = 0; j < N; ++j) report(scan, 0.05 * j, 0, 64);
  auto f = [&](int i, int j) { return j == -2 ? 1 - R[i] : j == -1 ? R[i] * s.Q[i] : R[i] * s.L[i][j]; }; Exact e(M, N, f); t.correct(s, scan, 1); std::vector<char> lives; for (int i = 0; i < M; ++i) { bool ok = e.ex[i] >= p.r_lim * e.tot, tight = nr[i] <= p.cov_lim; ns_assume(fabs(e.ex[i] - p.r_lim * e.tot) > 1e-6 * e.tot); lives.push_back(ok && tight); } survivors(t, tg, id, lives); }
NS_HARNESS(correct10) { corrects(1, 0, 1, true); }
NS_HARNESS(correct11) { corrects(1, 1, 3, true); }
NS_HARNESS(correct20) { corrects(2, 0, 3, true); }
NS_HARNESS(correct21) { corrects(2, 1, 1u << ns_int("which", 0, 3), true); }
NS_HARNESS(correct32) { corrects(3, 2, 1u << ns_int("which", 0, 8), false); }
NS_HARNESS(fades) {   // an undetected target: r(1-pD)/(1-r pD), until it dies
  Params p; p.r_lim = hs::real("limit", 0.001, 1); p.cov_lim = 1e9; MT t(p); double r = hs::real("r", 0.01, 0.99), pD = hs::real("pD", 0, 0.99); MG *x = t.targettree.new_target(r, Mix(&t.params, Vector4d(0, 0, 0, 0), diag(1, 1)), 0); unsigned id = x->id; PositionSensor<MG> s; s.pD_ = pD; s.lambdaB = 0; s.fov.corners << 30, 30, -30, -30, 30, -30, -30, 30; std::vector<GaussianReport_<2>> scan; t.correct(s, scan, 1); double num = r * (1 - pD), den = 1 - r * pD; bool lives = num >= p.r_lim * den; survivors(t, std::vector<MG *>{x}, {id}, {(char)lives}); if (lives) { ns_check_eq(x->r * den, num, 1e-9, "existence of an undetected target"); ns_observe("r", x->r); } }
// ---- T07
static Params any_params() { Params p = free_params(); p.r_lim = hs::real("limit", 0, 1); p.cov_lim = hs::real("spread", 0, 100); p.w_lim = 0.01; p.rB_max = 0.5; return p; }   // no limit has a say in counts
NS_HARNESS(counts) { Tr t(any_params()); int n = ns_int("n", 0, 3); std::vector<double> r; double lim = hs::real("threshold", 0, 1); for (int i = 0; i < n; ++i) { r.push_back(hs::real("r", 0, 1)); add(t, i, r[i], i, 0, 0.25); } double sum = 0; unsigned k = 0, k7 = 0; for (double v : r) { sum = sum + v; k += v >= lim; k7 += v >= 0.7; } ns_check_eq(t.enof_targets(), sum, 1e-9, "expected number of targets"); ns_check(t.nof_targets(lim) == k, "number of targets that reach the threshold"); ns_check(t.nof_targets() == k7, "number of targets that reach the default threshold"); ns_observe("n", k); ns_reach(k ? "some" : "none"); }
static void windows(Tr &t, std::vector<Tg *> &tg, const AABBox &w) {
  double lim = hs::real("threshold", 0, 1), sum = 0; unsigned k = 0, k7 = 0; std::vector<char> in; for (auto *x : tg) { auto &a = x->pdf.aabbox; bool m = a.min[0] <= w.max[0] && w.min[0] <= a.max[0] && a.min[1] <= w.max[1] && w.min[1] <= a.max[1]; in.push_back(m); if (m) { sum = sum + x->r; k += x->r >= lim; k7 += x->r >= 0.7; } ns_reach(m ? "in" : "out"); }
  ns_check_eq(t.enof_targets(w), sum, 1e-9, "expected number of targets in a window"); ns_check(t.nof_targets(w, lim) == k, "number of targets in a window that reach the threshold"); ns_check(t.nof_targets(w) == k7, "number of targets in a window that reach the default threshold"); ns_observe("n", k);
  for (int whole = 0; whole < 2; ++whole) { auto l = whole ? t.get_targets() : t.get_targets(w); size_t n = 0; for (size_t i = 0; i < tg.size(); ++i) { if (!whole && !in[i]) { for (auto &q : l) ns_check(q.id != tg[i]->id, "a target outside the window is not summarised"); continue; } ++n; int c = 0; for (auto &q : l) if (q.id == tg[i]->id) { ++c; auto &g = tg[i]->pdf.c[0]; hs::eq(q.x, g.x, 1e-9, "summary mean"); hs::eq(q.P, g.P, 1e-9, "summary covariance"); ns_check_eq(q.r, tg[i]->r, 0, "summary existence"); ns_check_eq(q.w, tg[i]->r, 0, "summary existence"); ns_check(q.cid == tg[i]->cid, "summary group"); } ns_check(c == 1, "a target is summarised once"); } ns_check(l.size() == n, "nothing else is summarised"); } }
NS_HARNESS(window_any) { Tr t(any_params()); std::vector<Tg *> tg; for (int i = 0; i < 2; ++i) { tg.push_back(add(t, i, hs::real("r", 0, 1), i, 0.5 * i, 0.25)); tg[i]->cid = 40 + i; } double a = hs::grid("w", -5, 5), b = hs::grid("w", -5, 5), c = hs::grid("w", -5, 5), d = hs::grid("w", -5, 5); ns_assume(a <= c && b <= d); windows(t, tg, box(a, b, c, d)); }
NS_HARNESS(window_state) { Tr t(any_params()); std::vector<Tg *> tg; for (int i = 0; i < 2; ++i) { tg.push_back(add(t, i, 0.5 + 0.25 * i, i, 0, 0.25)); auto &g = tg[i]->pdf.c[0]; g.x = hs::vec<4>("x", -10, 10); g.P = hs::sym<4>("P", 0.5, 10); } windows(t, tg, box(-1, -1, hs::grid("w", -0.5, 3), 1)); }
NS_HARNESS(window_many) { Tr t(any_params()); std::vector<Tg *> tg; int n = ns_int("n", 3, 14); for (int i = 0; i < n; ++i) tg.push_back(add(t, i % 8, ((i * 5) % 14 + 1) / 16.0, (i * 3) % 8, (i * 5) % 7, 0.5)); double a = hs::grid("w", -2, 10); windows(t, tg, box(a, 1, a + 2, 4)); }
NS_HARNESS(window_moved) { Params p; p.cov_lim = 1e9; MT t(p); double v = hs::grid("v", -64, 64); MG *x = t.targettree.new_target(0.5, Mix(&t.params, Vector4d(0, 0, v, 0), diag(1, 1)), 0); (void)x; CV<MG> m(1, 0); t.predict(m, 1, 0); double e = t.enof_targets(box(-2, -1, 0.25, 1)), half = 1.9 * sqrt(2.0) / 64, lo = v / 64 - half; if (lo < 0.25 - 1e-6) ns_check_eq(e, 0.5, 1e-9, "expected number of targets in a window"); else if (lo > 0.25 + 1e-6) ns_check_eq(e, 0, 0, "expected number of targets in a window"); ns_observe("e", e); ns_reach(e > 0 ? "in" : "out"); }
// ---- T10
struct Look { std::vector<MG *> l; std::vector<Mix> pdf; std::vector<double> r, t0; std::vector<unsigned> id, cid; std::vector<char> act, fresh;
  explicit Look(MT &t) { for (auto *x : t.targettree.targets) { l.push_back(x); pdf.push_back(x->pdf); r.push_back(x->r); t0.push_back(x->t0); id.push_back(x->id); cid.push_back(x->cid); act.push_back(x->last_action); fresh.push_back(x->is_new); } }
  void same(MT &t) { ns_check(t.targettree.targets == l, "questions keep the list of targets"); if (t.targettree.targets != l) return; for (size_t i = 0; i < l.size(); ++i) { Mix &a = l[i]->pdf, &b = pdf[i]; ns_check(a.c.size() == b.c.size(), "questions keep the components"); if (a.c.size() != b.c.size()) continue; for (size_t k = 0; k < a.c.size(); ++k) { hs::eq(a.c[k].x, b.c[k].x, 1e-9, "questions keep the state"); hs::eq(a.c[k].P, b.c[k].P, 1e-9, "questions keep the covariance"); ns_check_eq(a.c[k].w, b.c[k].w, 0, "questions keep the weights"); } ns_check_eq(l[i]->r, r[i], 0, "questions keep the existence"); ns_check(l[i]->id == id[i] && l[i]->cid == cid[i] && l[i]->last_action == act[i] && l[i]->is_new == (bool)fresh[i] && l[i]->t0 == t0[i], "questions keep identities and history"); hs::eq(a.bbox.corners, b.bbox.corners, 1e-9, "questions keep the area"); for (int d = 0; d < 2; ++d) { ns_check_eq(a.aabbox.min[d], b.aabbox.min[d], 1e-9, "questions keep the indexed area"); ns_check_eq(a.aabbox.max[d], b.aabbox.max[d], 1e-9, "questions keep the indexed area"); } } } };
static void ask(MT &t, int q, double u) {
  MT::TargetStates truth; truth.push_back(Vector4d(5, u, 0, 0)); truth.push_back(Vector4d(1, 2, 3, 4)); cf::LL o; o << 11, u; std::ostringstream os;
  switch (q) { case 0: ns_observe("ospa", t.ospa(truth, o, 10, 1)); break; case 1: ns_observe("gospa", t.gospa(truth, o, 10, 1)); break; case 2: { auto m = t.pos_phd(box(-20, u - 1, 24, u + 1), Array2i(2, 2)); ns_observe("map", m(0, 0)); break; } case 3: t.enof_targets(); t.enof_targets(box(-1, u, 1, u + 2)); break; case 4: t.nof_targets(); t.nof_targets(box(-1, u, 1, u + 2), 0.5); break; case 5: t.get_targets(); t.get_targets(box(-1, u, 1, u + 2)); break; case 6: { MT::TargetStates none; t.ospa(truth, 10, 2); t.gospa(truth, 10, 2); t.ospa(none, o, 10, 1); t.gospa(none, o, 10, 1); break; } } }
static void questions(int n, int many) {
  nsf::bend = 0.0078125; Params p; p.cov_lim = 1e9; MT t(p); std::vector<MG *> tg; for (int i = 0; i < n; ++i) { tg.push_back(t.targettree.new_target(0.5 + 0.125 * i, Mix(&t.params, Vector4d(8 * i - 4, i, 1, -1), diag(16 * (i + 1), 9)), i)); tg[i]->cid = 3 + i; }
  Look a(t); double u = many > 1 ? 0.5 : hs::grid("u", -10, 10); bool deep = ns_int("then", 0, 1); for (int k = 0; k < many; ++k) ask(t, ns_int("question", 0, 6), u); a.same(t); if (deep) { double lo = hs::grid("w", -30, 30); auto q = t.targettree.query(box(lo, -50, lo + 1, 50)); for (size_t i = 0; i < a.l.size(); ++i) { auto &x = a.pdf[i].aabbox; bool m = x.min[0] <= lo + 1 && lo <= x.max[0]; ns_check(std::count(q.begin(), q.end(), a.l[i]) == m, "area queries answer as before"); } return; }
  NM<MG> m(0.5, Matrix4d::Zero()); PositionSensor<MG> s; s.lambdaB = 0; s.pD_ = 0.5; std::vector<GaussianReport_<2>> scan; t.correct(s, scan, 1); auto q = t.targettree.query(ALL); ns_check(q.size() == (size_t)n, "later updates find every target once"); t.predict(m, 2, 1); q = t.targettree.query(ALL); ns_check(q.size() == (size_t)n, "later predictions find every target once"); ns_reach("later"); }
NS_HARNESS(asked1) { questions(ns_int("n", 0, 3), 1); }
NS_HARNESS(asked2) { questions(2, 2); }
NS_HARNESS(asked3) { questions(1, 3); }
static double dn[4]; static int dk; static double cyc() { return dn[dk++ & 3]; }
NS_HARNESS(map_one) {   // one target anywhere, all samples at one place
  MT t; double x = hs::grid("x", -3, 3), y = hs::grid("y", -3, 3), r = hs::real("r", 0, 1); Mix d(&t.params, Vector4d(x, y, 0, 0), diag(16, 16)); t.targettree.new_target(r, std::move(d), 0); int a = ns_int("rows", 1, 2), b = ns_int("columns", 1, 3); auto m = t.pos_phd(box(-1, -2, 1, 1), Array2i(a, b)); ns_check(m.rows() == a && m.cols() == b, "size of the map"); double sum = 0; for (int i = 0; i < a; ++i) for (int j = 0; j < b; ++j) { double lo = -1 + 2.0 * i / a, hi = -1 + 2.0 * (i + 1) / a, l2 = -2 + 3.0 * j / b, h2 = -2 + 3.0 * (j + 1) / b; const double e = 1e-9; bool in = x > lo + e && x < hi - e && y > l2 + e && y < h2 - e, out = x < lo - e || x > hi + e || y < l2 - e || y > h2 + e; if (in) ns_check_eq(m(i, j), r, 1e-9, "a cell holds the existence of the samples inside"); else if (out) ns_check_eq(m(i, j), 0, 1e-9, "a cell holds nothing else"); sum = sum + m(i, j); } ns_check_le(sum, r + 1e-9, 0, "a target contributes at most its existence"); ns_observe("sum", sum); ns_reach(sum > 0 ? "inside" : "outside"); }
NS_HARNESS(map_spread) {  // samples at up to two places, and two targets
  MT t; for (double &v : dn) v = 0; dn[0] = hs::grid("noise", -40, 40); dn[1] = 0.5; dn[2] = hs::grid("noise", -40, 40); dn[3] = 0.5; double r = hs::real("r", 0, 1); t.targettree.new_target(r, Mix(&t.params, Vector4d(0, 0, 0, 0), diag(16, 16)), 0); t.targettree.new_target(0.5, Mix(&t.params, Vector4d(0, 50, 0, 0), diag(16, 16)), 0); dk = 0; nsn::normal = cyc; auto m = t.pos_phd(box(-1, -1, 1, 1), Array2i(1, 2)); nsn::normal = nullptr; double sum = m(0, 0) + m(0, 1), want = 0; bool edge = false; for (int k = 0; k < 4; k += 2) { double px = 4 * dn[k] / 64; if (px > -1 + 1e-9 && px < 1 - 1e-9) want = want + r / 2; else if (!(px < -1 - 1e-9 || px > 1 + 1e-9)) edge = true; } if (!edge) ns_check_eq(sum, want, 1e-9, "the map adds up to the existence of the samples inside"); ns_observe("sum", sum); ns_reach(sum > 0 ? "inside" : "outside"); }
// T11 with Gaussian targets: the oriented area of a target is the ellipse's rectangle, wherever it lies and has moved to
static void seen(bool moved, bool turned, int n) {
  Params p; p.cov_lim = 1e9; MT t(p); double dx[4] = {0.6, 0.8, 0, 0}, dy[4] = {0.8, -0.6, 1, 0}; int k = ns_int("direction", 0, 3); if (k == 3) { dx[3] = 5. / 13; dy[3] = 12. / 13; } if (k == 2) { dx[2] = 1; dy[2] = 0; } Vector2d u(dx[k], dy[k]), v(-dy[k], dx[k]); Matrix4d P = Matrix4d::Zero(); P.topLeftCorner<2, 2>() = 64 * u * u.transpose() + 4 * v * v.transpose();
  MG *x; Mix mix(&t.params); if (n == 1) mix = Mix(&t.params, Vector4d(0, 0, 16, -8), P); else { Matrix4d Q = P; for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) Q(i, j) = P(i, j) - 9 * u[i] * u[j]; for (int s = -1; s <= 1; s += 2) mix.c.emplace_back((Vector4d() << s * 3 * u / 64, 16, -8).finished(), Q, 0.5); mix.transform_to_local(); mix.transform_to_global(); }
  x = t.targettree.new_target(0.5, std::move(mix), 0); Vector2d at(0, 0); if (moved) { CV<MG> m(1, 0); t.predict(m, 1, 0); at = Vector2d(0.25, -0.125); }
  Vector2d c(hs::grid("view", -1, 1), hs::grid("view", -1, 1)), e(1, 0), f(0, 1); if (turned) { e = Vector2d(12. / 13, -5. / 13); f = Vector2d(5. / 13, 12. / 13); } double a = 0.125, b = 0.0625, A = p.nstd * 8 / 64, B = p.nstd * 2 / 64;
  PositionSensor<MG> s; s.fov.corners.col(0) = c + a * e + b * f; s.fov.corners.col(1) = c + a * e - b * f; s.fov.corners.col(2) = c - a * e - b * f; s.fov.corners.col(3) = c - a * e + b * f; bool in = true, out = false; Vector2d d = c - at;
  for (int i = 0; i < 4; ++i) { Vector2d q = i == 0 ? u : i == 1 ? v : i == 2 ? e : f; double gap = fabs(q.dot(d)) - A * fabs(q.dot(u)) - B * fabs(q.dot(v)) - a * fabs(q.dot(e)) - b * fabs(q.dot(f)); if (gap > -1e-7) in = false; if (gap > 1e-7) out = true; }
  for (int i = 0; i < 2; ++i) { double gap = fabs(d[i]) - t.params.nstd * sqrt(P(i, i)) / 64 - a * fabs(e[i]) - b * fabs(f[i]); if (gap > -1e-7) in = false; }   // the ellipse's own limits are the indexed area
  auto sel = s.get_targets(t.targettree); bool got = std::count(sel.begin(), sel.end(), x) == 1; if (in) { ns_check(got, "a target that overlaps the field of view is selected once"); ns_reach("inside"); } if (out) { ns_check(sel.empty(), "a target outside the field of view is not selected"); ns_reach("outside"); } }
NS_HARNESS(seen_new) { seen(false, false, 1); } NS_HARNESS(seen_moved) { seen(true, false, 1); } NS_HARNESS(seen_turned) { seen(false, true, 1); } NS_HARNESS(seen_mixture) { seen(false, false, 2); } NS_HARNESS(seen_all) { seen(true, true, 2); }
