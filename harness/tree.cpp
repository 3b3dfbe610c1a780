// S03: target store
#include <algorithm>
#include <sstream>
#include <iostream>
#include "tools.h"
#include "gm.hpp"
#include "target.hpp"
#include "targettree.hpp"
using namespace Eigen; using namespace lmb;
using Mix = GM<4, 3>; using Tree = TargetTree_<Mix>; using T3 = Target_<Mix>;
struct Box { double lo[2], hi[2]; };
// shadow of the store: what was created, what is stored, what is in the index and where
struct World {
  Params p; Tree t; struct R { T3 *t; unsigned id; bool alive, in; Box b; double r; }; std::vector<R> e; std::vector<unsigned> ids;
  World() : t(&p) {}
  static void put(T3 *x, const Box &b) { for (int d = 0; d < 2; ++d) { x->pdf.aabbox.min[d] = b.lo[d]; x->pdf.aabbox.max[d] = b.hi[d]; } }
  Mix pdf(const Box &b) { Mix m(&p); m.c.emplace_back(Vector4d((b.lo[0] + b.hi[0]) / 2, (b.lo[1] + b.hi[1]) / 2, 0, 0), Matrix4d::Identity(), 1.0); for (int d = 0; d < 2; ++d) { m.aabbox.min[d] = b.lo[d]; m.aabbox.max[d] = b.hi[d]; } return m; }
  void create(const Box &b) { double r = 0.1 + 0.01 * e.size(); T3 *x = t.new_target(r, pdf(b), 5.0 + e.size()); ns_check(x != nullptr, "creation gives a target"); ns_check(std::count(ids.begin(), ids.end(), x->id) == 0, "identities are never reused"); ns_check(x->r == r && x->t0 == 5.0 + e.size() && x->params == &p, "a new target has the given existence, time and parameters"); ns_check(x->pdf.c.size() == 1, "a new target has the given state"); hs::eq(x->pdf.c[0].x.head<2>(), Vector2d((b.lo[0] + b.hi[0]) / 2, (b.lo[1] + b.hi[1]) / 2), 0, "a new target has the given state"); ids.push_back(x->id); e.push_back({x, x->id, true, true, b, r}); }
  void out(size_t k) { if (e[k].alive && e[k].in) { t.remove(e[k].t); e[k].in = false; } }
  void back(size_t k, const Box *b) { if (e[k].alive && !e[k].in) { if (b) { e[k].b = *b; put(e[k].t, *b); } t.replace(e[k].t); e[k].in = true; } }
  void erase(size_t k) { if (!e[k].alive) return; out(k); t.erase(e[k].t); e[k].alive = false; }
  void all_out() { t.remove_all(); for (auto &x : e) x.in = false; }
  void compare(const Tree::Targets &r, const double *lo, const double *hi) {
    size_t want = 0; for (auto &x : e) { bool meet = x.alive && x.in && x.b.lo[0] <= hi[0] && lo[0] <= x.b.hi[0] && x.b.lo[1] <= hi[1] && lo[1] <= x.b.hi[1]; want += meet; long c = 0; for (auto *q : r) c += q == x.t && x.alive; ns_check(c == (meet ? 1 : 0), meet ? "a target that meets the area is found once" : "a target that does not meet the area is not found"); }
    ns_check(r.size() == want, "nothing else is found"); ns_observe("found", want); ns_reach(want ? "hit" : "miss"); }
  void listed() { size_t n = 0; for (auto &x : e) { long c = std::count(t.targets.begin(), t.targets.end(), x.t); if (x.alive) { ++n; ns_check(c == 1, "a stored target is listed once"); ns_check(x.t->id == x.id, "identities are kept"); ns_check(x.t->r == x.r, "existence is kept"); } } ns_check(t.targets.size() == n, "erased targets are not listed"); }
  void point() { cf::LL q; q << hs::grid("qx", -5, 110), hs::grid("qy", -5, 110); auto r = t.query(q); compare(r, q.data(), q.data()); listed(); }
  void area() { AABBox a; for (int d = 0; d < 2; ++d) { a.min[d] = hs::grid("q1", -5, 110); a.max[d] = hs::grid("q2", -5, 110); ns_assume(a.min[d] <= a.max[d]); } auto r = t.query(a); compare(r, a.min.data(), a.max.data()); listed(); }
  void strip() { int k = ns_int("axis", 0, 1); AABBox a; for (int d = 0; d < 2; ++d) { a.min[d] = -1e6; a.max[d] = 1e6; } a.min[k] = hs::grid("q1", -5, 110); a.max[k] = hs::grid("q2", -5, 110); ns_assume(a.min[k] <= a.max[k]); auto r = t.query(a); compare(r, a.min.data(), a.max.data()); listed(); }
};
static Box at(int i) { static const int px[24] = {0, 50, 7, 31, 90, 64, 12, 45, 77, 23, 58, 3, 83, 36, 70, 18, 95, 27, 52, 66, 9, 41, 88, 15}, py[24] = {0, 40, 80, 15, 60, 5, 33, 92, 21, 70, 48, 55, 88, 9, 37, 76, 12, 63, 29, 84, 44, 2, 97, 50}; Box b; b.lo[0] = px[i % 24]; b.lo[1] = py[i % 24]; b.hi[0] = b.lo[0] + 1 + i % 7; b.hi[1] = b.lo[1] + 2 + i % 5; return b; }
static void steps(World &w, int n, int first) {   // any sequence of n operations
  int made = first; for (int i = 0; i < n; ++i) {
    int op = ns_int("op", 0, 5), k = op == 0 || op == 5 || w.e.empty() ? -1 : ns_int("which", 0, (int)w.e.size() - 1);
    if (op == 0) w.create(at(made++)); else if (op == 5) w.all_out(); else if (k >= 0) { if (op == 1) w.out(k); else if (op == 2) w.back(k, nullptr); else if (op == 3) { Box b = at(made++); w.back(k, &b); } else w.erase(k); } } }
NS_HARNESS(ops_strip4) { World w; steps(w, 4, 0); w.strip(); }
NS_HARNESS(ops_strip) { World w; steps(w, 3, 0); w.strip(); }
NS_HARNESS(ops_point) { World w; w.create(at(3)); w.create(at(4)); steps(w, 2, 5); w.point(); }
NS_HARNESS(ops_area) { World w; w.create(at(3)); steps(w, 2, 4); w.area(); }
NS_HARNESS(ops_list) { World w; w.create(at(0)); w.create(at(1)); steps(w, 4, 2); AABBox a; for (int d = 0; d < 2; ++d) { a.min[d] = -1e6; a.max[d] = 1e6; } auto r = w.t.query(a); w.compare(r, a.min.data(), a.max.data()); w.listed(); }
NS_HARNESS(moved) {   // targets taken out, moved anywhere and put back
  World w; for (int i = 0; i < 3; ++i) w.create(at(i)); Box b; int k = ns_int("which", 0, 2); for (int d = 0; d < 2; ++d) { b.lo[d] = hs::grid("to", 0, 100); b.hi[d] = b.lo[d] + 3; } w.out(k); w.back(k, &b); cf::LL q; q << 50, hs::grid("q", 0, 110); auto r = w.t.query(q); w.compare(r, q.data(), q.data()); w.erase((k + 1) % 3); w.create(at(9)); w.strip(); }
NS_HARNESS(placed) {  // stored with any area
  World w; w.create(at(0)); Box b; for (int d = 0; d < 2; ++d) { b.lo[d] = hs::grid("lo", 0, 100); b.hi[d] = hs::grid("hi", 0, 100); ns_assume(b.lo[d] <= b.hi[d]); } w.create(b); w.create(at(1)); w.point(); }
NS_HARNESS(many) { World w; int n = ns_int("n", 8, 12); for (int i = 0; i < n; ++i) w.create(at(i)); int k = ns_int("erase", 0, n - 1); w.erase(k); int j = ns_int("out", 0, n - 1); w.out(j); w.create(at(20)); if (ns_int("back", 0, 1)) w.back(j, nullptr); w.strip(); }
NS_HARNESS(cycle) {  // the whole population taken out and put back, some erased, as a prediction does
  World w; int n = ns_int("n", 1, 22); for (int i = 0; i < n; ++i) w.create(at(i)); for (int c = 0; c < 2; ++c) { w.all_out(); int drop = ns_int("drop", 0, 3); for (int i = 0; i < n; ++i) if (i % 4 == drop) w.erase(i); else { Box b = at(i + 5 * c + 1); w.back(i, &b); } w.create(at(n + c)); } w.strip(); }
