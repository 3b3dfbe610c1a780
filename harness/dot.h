// A tracker whose density remembers what the tracker told it, so that association weights can be read off.
// Existence, grouping, hypotheses, births and bookkeeping are the real code; what the density itself does is decided by E01-E06.
#pragma once
#include <algorithm>
#include <array>
#include <functional>
#include <sstream>
#include <iostream>
#include <map>
#include <set>
#include "tools.h"
#include "gm.hpp"
#include "lmb.hpp"
#include "models.hpp"
namespace hd {
using namespace Eigen; using namespace lmb;
struct Rep : GaussianReport_<2> { int j = -1; using GaussianReport_<2>::GaussianReport_; };
struct Dot : GM<4, 3> {
  using Self = Dot; using Base = GM<4, 3>;
  int tag = -1, by = -2, joins = 0, locals = 0; std::vector<double> as; std::vector<int> asby; double mass = 1;   // association weights of the last update, and which report each belongs to (-1: missed)
  Dot() { eta = 1; } explicit Dot(Params *p) : Base(p) { eta = 1; } Dot(Params *p, const State &x, const Covariance &P) : Base(p, x, P) { eta = 1; }
  void normalize() { eta = mass; }
  template <typename Sensor> double correct(const typename Sensor::Report &z, const Sensor &s) { by = z.j; eta = tag < 0 ? 0.5 : s.L[tag][z.j]; return eta; }
  template <typename Sensor> double missed(const Sensor &s) { by = -1; eta = tag < 0 ? 0.5 : s.Q[tag]; return eta; }
  void transform_to_local(const cf::LL &o) { origin = o; ++locals; } cf::LL transform_to_local() { transform_to_local(pos()); return origin; } void transform_to_global() { --locals; }
  template <typename W> static void join(Dot &pdf, const W &w, std::vector<Dot> &h) { ++pdf.joins; pdf.as.clear(); pdf.asby.clear(); ns_check((size_t)w.cols() == h.size(), "one weight for each association"); for (int j = 0; j < (int)w.cols(); ++j) { pdf.as.push_back(w(0, j)); pdf.asby.push_back(h[j].by); } }
};
using Tr = SILMB<Dot>; using Tg = Target_<Dot>;
struct Sn : PositionSensor<Tg> { using Report = Rep; using Scan = std::vector<Rep>; double L[8][8], Q[8]; Sn() { for (auto &q : L) for (double &v : q) v = 0.5; for (double &v : Q) v = 0.5; fov.corners << 90, 90, -90, -90, 180, -180, -180, 180; } };
inline Tg *add(Tr &t, int tag, double r, double x, double y, double h) {
  Dot d(&t.params, Vector4d(x, y, 0, 0), Matrix4d::Identity()); d.tag = tag; for (int k = 0; k < 2; ++k) { d.aabbox.min[k] = (k ? y : x) - h; d.aabbox.max[k] = (k ? y : x) + h; }
  d.bbox.corners << x - h, x - h, x + h, x + h, y + h, y - h, y - h, y + h; return t.targettree.new_target(r, std::move(d), 0); }
inline void report(std::vector<Rep> &s, double x, double y, double var = 64) { Rep r(Vector2d(x, y), Matrix2d::Identity() * var); r.j = s.size(); r.rB = -7; s.push_back(r); }
inline Params free_params() { Params p; p.w_lim = 0; p.nhyp_max = 100000; p.r_lim = -INFINITY; p.cov_lim = INFINITY; return p; }
// weights of all consistent joint associations of M targets and N reports: absent, missed, or one report each
struct Exact { int M, N; double tot = 0; std::vector<std::vector<double>> a; std::vector<double> miss, ex;
  template <class F> void go(int i, unsigned used, double w, std::vector<int> &c, const F &f) { if (i == M) { tot += w; for (int k = 0; k < M; ++k) if (c[k] >= -1) { ex[k] += w; if (c[k] >= 0) a[k][c[k]] += w; else miss[k] += w; } return; } for (int j = -2; j < N; ++j) { if (j >= 0 && (used >> j & 1)) continue; double v = f(i, j); if (!ns_issym(v) && v == 0) continue; c[i] = j; go(i + 1, j >= 0 ? used | 1u << j : used, w * v, c, f); } }
  template <class F> Exact(int M_, int N_, const F &f) : M(M_), N(N_), a(M_, std::vector<double>(N_, 0.0)), miss(M_, 0.0), ex(M_, 0.0) { std::vector<int> c(M, -2); go(0, 0, 1, c, f); } };
}
