// T05: connected components
#include <algorithm>
#include <vector>
#include "ns.h"
#include "connectedcomponents.hpp"
// arbitrary undirected graph on N nodes; how: which of the two ends announces an edge is given by the caller (the tracker announces both)
template <int N> static void graph(bool self, bool split) {
  static int node[N]; bool adj[N][N]; lmb::ConnectedComponents<int> cc;
  for (int i = 0; i < N; ++i) for (int j = i + 1; j < N; ++j) adj[i][j] = adj[j][i] = ns_int("edge", 0, 1);
  for (int i = 0; i < N; ++i) adj[i][i] = self;
  for (int i = 0; i < N; ++i) { cc.init(node + i); std::vector<int *> l; for (int j = 0; j < N; ++j) if (adj[i][j]) { l.push_back(node + j); if (split) cc.connect(node + i, {node + j, node + j}); } if (!split && !l.empty()) cc.connect(node + i, l); }
  bool reach[N][N]; for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) reach[i][j] = i == j || adj[i][j];
  for (int k = 0; k < N; ++k) for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) if (reach[i][k] && reach[k][j]) reach[i][j] = true;
  int want = 0; for (int i = 0; i < N; ++i) { bool first = true; for (int j = 0; j < i; ++j) if (reach[i][j]) first = false; want += first; }
  int comp[N], seen[N] = {0}; std::vector<int *> r; r.push_back(node); int c = 0;
  while (c <= N + 1 && cc.get_component(r)) { ns_check(!r.empty(), "a component has a node"); for (int *p : r) { long i = p - node; if (i < 0 || i >= N) { ns_check(0, "a component holds only nodes of the graph"); continue; } ++seen[i]; comp[i] = c; } ++c; }
  ns_check(r.empty(), "nothing is returned after the last component"); ns_check(c == want, "number of components");
  for (int i = 0; i < N; ++i) ns_check(seen[i] == 1, "each node is returned exactly once");
  for (int i = 0; i < N; ++i) for (int j = 0; j < i; ++j) if (seen[i] && seen[j]) ns_check((comp[i] == comp[j]) == reach[i][j], "same component exactly when connected");
  ns_check(!cc.get_component(r) && r.empty(), "extraction stays at its end"); ns_observe("components", c); ns_reach(c == 1 ? "one" : c == N ? "all" : "some");
}
NS_HARNESS(graph1) { graph<1>(true, false); } NS_HARNESS(graph3) { graph<3>(false, false); } NS_HARNESS(graph4) { graph<4>(true, true); } NS_HARNESS(graph5) { graph<5>(true, false); } NS_HARNESS(graph5s) { graph<5>(false, true); } NS_HARNESS(graph6) { graph<6>(true, false); } NS_HARNESS(graph7) { graph<7>(false, false); }
NS_HARNESS(none) { lmb::ConnectedComponents<int> cc; std::vector<int *> r; ns_check(!cc.get_component(r) && r.empty(), "an empty graph has no component"); ns_reach("one"); }
NS_HARNESS(reuse) {  // used again after extraction, components interleaved with additions
  static int node[6]; lmb::ConnectedComponents<int> cc; std::vector<int *> r; for (int i = 0; i < 3; ++i) cc.init(node + i); int e = ns_int("edge", 0, 1); if (e) { cc.connect(node, {node + 2}); cc.connect(node + 2, {node}); }
  int c = 0; while (cc.get_component(r)) ++c; ns_check(c == (e ? 2 : 3), "number of components"); int f = ns_int("edge", 0, 1); cc.init(node + 4); cc.init(node + 5); if (f) { cc.connect(node + 5, {node + 4}); cc.connect(node + 4, {node + 5}); }
  c = 0; size_t n = 0; while (cc.get_component(r)) { ++c; n += r.size(); } ns_check(c == (f ? 1 : 2) && n == 2, "a second use starts afresh"); ns_reach("one");
}
