// S01, S02: spatial index
#include <algorithm>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
#include <unistd.h>
#include "ns.h"
#ifndef __cdecl
#define __cdecl
#endif
#include "RTree.h"

struct Entry { double lo[2], hi[2]; long id; bool live; };
// layouts: scattered, clustered, collinear with equal coordinates, nested
static void layout(int kind, int i, double *lo, double *hi) {
  static const int px[24] = {0, 50, 7, 31, 90, 64, 12, 45, 77, 23, 58, 3, 83, 36, 70, 18, 95, 27, 52, 66, 9, 41, 88, 15}, py[24] = {0, 40, 80, 15, 60, 5, 33, 92, 21, 70, 48, 55, 88, 9, 37, 76, 12, 63, 29, 84, 44, 2, 97, 51};
  switch (kind) {
    case 0: lo[0] = px[i]; lo[1] = py[i]; hi[0] = px[i] + 1 + i % 7; hi[1] = py[i] + 2 + i % 5; break;
    case 1: lo[0] = (i % 3) * 40 + i % 5; lo[1] = (i % 3) * 30 + i % 4; hi[0] = lo[0] + 2; hi[1] = lo[1] + 2; break;
    case 2: lo[0] = hi[0] = 5 * (i / 2); lo[1] = hi[1] = 3; break;
    case 4: { unsigned a = (i * 37u + 11u) % 101u, b = (i * i * 13u + i * 29u + 5u) % 103u; lo[0] = a; lo[1] = b; hi[0] = a + i % 3; hi[1] = b + i % 4; break; }
    default: lo[0] = lo[1] = 3 * i; hi[0] = hi[1] = 100 - 2 * i; break;
  }
}
template <class Tree> struct World {
  Tree t; std::vector<Entry> e;
  void add(const double *lo, const double *hi) { Entry x; for (int d = 0; d < 2; ++d) { x.lo[d] = lo[d]; x.hi[d] = hi[d]; } x.id = 100 + (long)e.size(); x.live = true; t.Insert(x.lo, x.hi, x.id); e.push_back(x); }
  void add(int kind, int i) { double lo[2], hi[2]; layout(kind, i, lo, hi); add(lo, hi); }
  void addsym(int dims, double R) { double lo[2] = {20, 20}, hi[2] = {25, 30}; lo[0] = ns_grid("sx", 0, R); hi[0] = lo[0] + 3; if (dims > 1) { lo[1] = ns_grid("sy", 0, R); hi[1] = lo[1] + 4; } add(lo, hi); }
  void rem(size_t k) { if (!e[k].live) return; e[k].live = false; t.Remove(e[k].lo, e[k].hi, e[k].id); }
  void clear() { t.RemoveAll(); for (auto &x : e) x.live = false; }
  static bool cb(long id, void *c) { ((std::vector<long> *)c)->push_back(id); return true; }
  template <class T2> void ask(T2 &tr, const double *lo, const double *hi) {
    std::vector<long> r; int n = tr.Search(lo, hi, cb, &r); ns_check(n == (int)r.size(), "number of hits is what was reported");
    size_t want = 0;
    for (auto &x : e) { bool meet = x.live && x.lo[0] <= hi[0] && lo[0] <= x.hi[0] && x.lo[1] <= hi[1] && lo[1] <= x.hi[1]; long c = std::count(r.begin(), r.end(), x.id); want += meet;
      ns_check(c == (meet ? 1 : 0), meet ? "an entry that meets the query is reported once" : "an entry that does not meet the query is not reported"); }
    ns_check(r.size() == want, "nothing else is reported"); ns_observe("hits", (double)r.size()); ns_reach(want ? "hit" : "miss");
  }
  void point(double R) { double p[2] = {ns_grid("qx", -5, R), ns_grid("qy", -5, R)}; ask(t, p, p); }
  template <class T2> void strip(T2 &tr, double R) {  // arbitrary interval in one coordinate, everything in the other
    int d = ns_int("axis", 0, 1); double lo[2] = {-1e6, -1e6}, hi[2] = {1e6, 1e6}; lo[d] = ns_grid("q1", -5, R); hi[d] = ns_grid("q2", -5, R); ns_assume(lo[d] <= hi[d]); ask(tr, lo, hi); }
  void rect(double R) { double lo[2] = {ns_grid("qx1", -5, R), ns_grid("qy1", -5, R)}, hi[2] = {ns_grid("qx2", -5, R), ns_grid("qy2", -5, R)}; ns_assume(lo[0] <= hi[0]); ns_assume(lo[1] <= hi[1]); ask(t, lo, hi); }
  size_t live() { size_t n = 0; for (auto &x : e) n += x.live; return n; }
  template <class T2> void iterate(T2 &tr) {
    ns_check(tr.Count() == (int)live(), "count equals the number of stored entries");
    std::vector<long> seen; typename T2::Iterator it; int guard = 0; tr.GetFirst(it);
    while (!tr.IsNull(it) && guard++ < 200) { long id = tr.GetAt(it); seen.push_back(id); double lo[2], hi[2]; it.GetBounds(lo, hi);
      if (id >= 100 && id < 100 + (long)e.size()) { auto &x = e[id - 100]; for (int d = 0; d < 2; ++d) { ns_check_eq(lo[d], x.lo[d], 0, "iteration gives the stored rectangle"); ns_check_eq(hi[d], x.hi[d], 0, "iteration gives the stored rectangle"); } }
      tr.GetNext(it); }
    for (auto &x : e) ns_check(std::count(seen.begin(), seen.end(), x.id) == (x.live ? 1 : 0), "iteration visits exactly the stored entries once");
    ns_check(seen.size() == live(), "iteration visits nothing else"); ns_observe("n", (double)seen.size()); ns_reach(seen.empty() ? "empty" : "full");
  }
  void reload(double R) {
    char f[64]; std::snprintf(f, sizeof f, "/tmp/nsrtree-%ld", (long)getpid()); ns_check(t.Save(f), "save succeeds");
    Tree u; u.Insert(e[0].lo, e[0].hi, 7); bool ok = u.Load(f); std::remove(f);
    ns_check(ok, "load succeeds"); iterate(u); strip(u, R); u.RemoveAll(); ns_check(u.Count() == 0, "cleared"); iterate(t);
  }
};
using Small = RTree<long, double, 2, double, 4, 2>; using Tiny = RTree<long, double, 2, double, 3, 1>; using Used = RTree<long, double, 2>;

// history: n insertions, up to r removals of any entries, then insertions again
template <class Tree> static void history(World<Tree> &w, int kind, int n, int r, int again) {
  int m = ns_int("inserted", n - 1, n); for (int i = 0; i < m; ++i) w.add(kind, i);
  for (int i = 0; i < r; ++i) { int k = ns_int("remove", -1, m - 1); if (k < 0) break; w.rem(k); }
  for (int i = 0; i < again; ++i) w.add(kind, 23 - i);
}
template <class Tree> static void runs(int n, int r, int again, int q) {
  World<Tree> w; int kind = ns_int("layout", 0, 3); history(w, kind, n, r, again);
  if (q == 0) w.point(110); else if (q == 1) w.strip(w.t, 110); else if (q == 2) w.rect(110); else if (q == 3) w.iterate(w.t); else w.reload(110);
}
NS_HARNESS(used_small_rect) { World<Used> w; int kind = ns_int("layout", 0, 3), n = ns_int("n", 0, 4); for (int i = 0; i < n; ++i) w.add(kind, i); w.rect(110); }
NS_HARNESS(used_point) { runs<Used>(11, 1, 0, 0); }
NS_HARNESS(used_strip) { runs<Used>(12, 2, 1, 1); }
NS_HARNESS(used_deep) { runs<Used>(22, 1, 1, 1); }
NS_HARNESS(small_point) { runs<Small>(8, 1, 1, 0); }
NS_HARNESS(small_strip) { runs<Small>(9, 2, 1, 1); }
NS_HARNESS(small_deep) { runs<Small>(20, 2, 0, 1); }
NS_HARNESS(tiny_strip) { runs<Tiny>(8, 2, 1, 1); }
NS_HARNESS(small_drain) {  // remove everything in an arbitrary rotation, asking after each step
  World<Small> w; int kind = ns_int("layout", 0, 3); int n = 9; for (int i = 0; i < n; ++i) w.add(kind, i); int s = ns_int("start", 0, n - 1), st = ns_int("step", 0, 2); static const int steps[3] = {1, 2, 4};
  int left = ns_int("left", 0, n - 1); for (int i = 0; i < n - left; ++i) w.rem((s + i * steps[st]) % n); w.strip(w.t, 110);
}
NS_HARNESS(used_drain) {
  World<Used> w; int kind = ns_int("layout", 0, 3); int n = 19; for (int i = 0; i < n; ++i) w.add(kind, i); int s = ns_int("start", 0, n - 1), st = ns_int("step", 0, 2); static const int steps[3] = {1, 2, 7};
  int left = ns_int("left", 0, 12); for (int i = 0; i < n - left; ++i) w.rem((s + i * steps[st]) % n); w.strip(w.t, 110);
}
NS_HARNESS(clear_again) { World<Small> w; int n = ns_int("n", 0, 7); for (int i = 0; i < n; ++i) w.add(0, i); w.clear(); int m = ns_int("m", 0, 5); for (int i = 0; i < m; ++i) w.add(1, i); w.iterate(w.t); w.strip(w.t, 110); }
// one rectangle is arbitrary: every way it can steer the split heuristics
template <class Tree> static void symbolic(int kind, int n, int dims, bool remove) {
  World<Tree> w; int at = ns_int("at", 0, n - 1); for (int i = 0; i < n; ++i) if (i == at) w.addsym(dims, 100); else w.add(kind, i);
  if (remove) { w.rem(ns_int("remove", 0, n - 1)); }
  double p[2] = {ns_grid("qx", -5, 110), ns_grid("qy", -5, 110)}; w.ask(w.t, p, p);
}
NS_HARNESS(sym_small) { symbolic<Small>(0, 6, 1, false); } NS_HARNESS(sym_small2) { symbolic<Small>(1, 5, 2, false); } NS_HARNESS(sym_used) { symbolic<Used>(0, 9, 1, false); } NS_HARNESS(sym_rem) { symbolic<Small>(0, 6, 1, true); }
NS_HARNESS(sym_own) {  // the arbitrary rectangle is found by a query around it
  World<Small> w; int at = ns_int("at", 0, 6); for (int i = 0; i < 7; ++i) if (i == at) w.addsym(2, 100); else w.add(2, i); auto &x = w.e[at]; double q[2] = {x.lo[0] - 1, x.lo[1]}, r[2] = {x.lo[0], x.hi[1]}; std::vector<long> h; w.t.Search(q, r, World<Small>::cb, &h); ns_check(std::count(h.begin(), h.end(), x.id) == 1, "an entry is found by a query that touches it"); w.rem(at); h.clear(); w.t.Search(q, r, World<Small>::cb, &h); ns_check(std::count(h.begin(), h.end(), x.id) == 0, "a removed entry is not found"); ns_check(w.t.Count() == 6, "only that entry is removed"); ns_reach("hit");
}
NS_HARNESS(iter_used) { runs<Used>(20, 2, 1, 3); } NS_HARNESS(iter_small) { runs<Small>(14, 2, 1, 3); } NS_HARNESS(iter_tiny) { runs<Tiny>(9, 2, 1, 3); }
NS_HARNESS(load_used) { runs<Used>(12, 1, 0, 4); } NS_HARNESS(load_small) { runs<Small>(9, 1, 0, 4); }
NS_HARNESS(load_sym) { World<Small> w; for (int i = 0; i < 3; ++i) w.add(0, i); w.addsym(2, 100); w.reload(110); }
// deep trees: drained in an arbitrary rotation down to an arbitrary size, partly refilled
template <class Tree> static void drain(int kind, int n, int maxleft, bool it) {
  World<Tree> w; for (int i = 0; i < n; ++i) w.add(kind, i); static const int steps[4] = {1, 3, 7, 11};
  int s = ns_int("start", 0, n - 1), st = ns_int("step", 0, 3), left = ns_int("left", 0, maxleft); for (int i = 0; i < n - left; ++i) w.rem((s + i * steps[st]) % n);
  int more = ns_int("more", 0, 1); for (int i = 0; i < 4 * more; ++i) w.add(kind, n + i);
  if (it) w.iterate(w.t); else w.strip(w.t, 110);
}
NS_HARNESS(small_drain3) { drain<Small>(4, 31, 16, false); } NS_HARNESS(used_drain3) { drain<Used>(4, 73, 8, false); } NS_HARNESS(tiny_drain3) { drain<Tiny>(4, 31, 12, false); }
NS_HARNESS(iter_drain3) { drain<Small>(4, 31, 30, true); } NS_HARNESS(iter_used3) { drain<Used>(4, 73, 72, true); }
// arbitrary histories of single operations
template <class Tree> static void ops(int kind, int pre, int steps, bool it) {
  World<Tree> w; int nx = 0; for (; nx < pre; ++nx) w.add(kind, nx);
  for (int i = 0; i < steps; ++i) { int k = ns_int("op", -2, (int)w.e.size() - 1); if (k == -2) w.clear(); else if (k == -1) w.add(kind, nx++); else { ns_assume(w.e[k].live); w.rem(k); } }
  if (it) w.iterate(w.t); else w.strip(w.t, 110);
}
NS_HARNESS(ops_tiny) { ops<Tiny>(0, 5, 3, false); } NS_HARNESS(ops_small) { ops<Small>(4, 7, 3, false); } NS_HARNESS(ops_used) { ops<Used>(4, 10, 2, false); } NS_HARNESS(ops_iter) { ops<Small>(4, 6, 3, true); } NS_HARNESS(ops_tiny4) { ops<Tiny>(4, 7, 4, false); }
NS_HARNESS(load_bad) {  // wrong or missing files are refused
  World<Small> w; int n = ns_int("n", 0, 6); for (int i = 0; i < n; ++i) w.add(0, i); char f[64]; std::snprintf(f, sizeof f, "/tmp/nsrtreeb-%ld", (long)getpid()); ns_check(w.t.Save(f), "save succeeds");
  Used u; ns_check(!u.Load(f), "a file of another kind of index is refused"); ns_check(u.Count() == 0, "nothing is loaded from a refused file"); std::remove(f);
  Small v; ns_check(!v.Load(f), "a missing file is refused"); ns_check(v.Count() == 0, "nothing is loaded from a missing file"); ns_reach("full");
}
NS_HARNESS(load_deep) { World<Small> w; int n = ns_int("n", 17, 31); for (int i = 0; i < n; ++i) w.add(4, i); w.reload(110); }
NS_HARNESS(load_deep_used) { World<Used> w; int n = ns_int("n", 66, 73); for (int i = 0; i < n; ++i) w.add(4, i); w.reload(110); }
