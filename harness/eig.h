// Contract of Eigen's self-adjoint eigen solver for symbolic 2x2 and 4x4 matrices (symbolic build only; the native build uses Eigen's).
// A harness registers the decomposition it built a covariance from; a matrix without symbolic entries goes to Eigen's solver;
// any other 2x2 matrix gets the closed form, a diagonal 4x4 matrix its own axes.
#pragma once
#include <Eigen/Core>
#include <Eigen/Eigenvalues>
#include <cmath>
#include <cstring>
#include "ns.h"
namespace nse {
struct Dec { int n; double P[16], l[4], E[16]; };
struct Tab { int n; Dec d[16]; };
inline Tab &tab() { static Tab t = {}; return t; }
inline bool same(double a, double b) { return std::memcmp(&a, &b, 8) == 0; }
template <int N> inline void reg(const Eigen::Matrix<double, N, N> &P, const Eigen::Matrix<double, N, 1> &l, const Eigen::Matrix<double, N, N> &E) { Tab &t = tab(); if (t.n < 16) { Dec &d = t.d[t.n++]; d.n = N; for (int i = 0; i < N * N; ++i) { d.P[i] = P.data()[i]; d.E[i] = E.data()[i]; } for (int i = 0; i < N; ++i) d.l[i] = l[i]; } }
template <int N> inline bool find(const Eigen::Matrix<double, N, N> &P, Eigen::Matrix<double, N, 1> &l, Eigen::Matrix<double, N, N> &E) {
  Tab &t = tab(); for (int k = 0; k < t.n; ++k) { Dec &d = t.d[k]; if (d.n != N) continue; bool ok = true; for (int i = 0; i < N; ++i) for (int j = 0; j <= i && ok; ++j) ok = same(P(i, j), d.P[i + N * j]);
    if (ok) { for (int i = 0; i < N * N; ++i) E.data()[i] = d.E[i]; for (int i = 0; i < N; ++i) l[i] = d.l[i]; return true; } } return false; }
// positive definite covariance with axes at angle t and principal variances a <= b; every sign choice of the axes
inline Eigen::Matrix2d cov(double lo, double hi, double tlo, double thi, bool signs = true) {
  double t = ns_real("angle", tlo, thi), a = ns_real("var1", lo, hi), b = ns_real("var2", lo, hi); ns_assume(a <= b);
  double c = std::cos(t), s = std::sin(t); Eigen::Matrix2d E, P; E << c, -s, s, c;
  double sg1 = signs && ns_int("sign", 0, 1) ? -1 : 1, sg2 = signs && ns_int("sign", 0, 1) ? -1 : 1;
  P << c * c * a + s * s * b, c * s * (a - b), c * s * (a - b), s * s * a + c * c * b;
  Eigen::Matrix2d F; F << E(0, 0) * sg1, E(0, 1) * sg2, E(1, 0) * sg1, E(1, 1) * sg2;
  reg<2>(P, Eigen::Vector2d(a, b), F); return P;
}
}
#ifdef NS_SYM
namespace nse {
template <int N> struct Solver {
  using M_ = Eigen::Matrix<double, N, N>; using V_ = Eigen::Matrix<double, N, 1>; V_ l; M_ E;
  void solve(const M_ &P) {
    if (find<N>(P, l, E)) return;
    bool sym = false, diag = true; for (int i = 0; i < N; ++i) for (int j = 0; j <= i; ++j) if (ns_issym(P(i, j))) { sym = true; if (i != j) diag = false; } else if (i != j && P(i, j) != 0) diag = false;
    if (!sym) { Eigen::SelfAdjointEigenSolver<Eigen::Matrix<double, N, N, Eigen::RowMajor>> s(P); l = s.eigenvalues(); E = s.eigenvectors(); return; }
    if (N == 2) {
      double a = P(0, 0), b = P(1, 0), d = P(1, 1); E.setZero();
      if (b == 0) { if (a <= d) { l[0] = a; l[1] = d; E(0, 0) = E(1, 1) = 1; } else { l[0] = d; l[1] = a; E(1, 0) = E(0, 1) = 1; } return; }
      double h = (a - d) / 2, q = std::sqrt(h * h + b * b); l[0] = (a + d) / 2 - q; l[1] = (a + d) / 2 + q;
      double x = h + q, y = b, n = std::sqrt(x * x + y * y); E(0, 0) = -y / n; E(0, 1) = x / n; E(1, 0) = x / n; E(1, 1) = y / n; return;  // eigenvector of the larger value in column 1
    }
    if (!diag) ns_unsupported("eigen decomposition of a symbolic matrix");
    E.setIdentity(); for (int i = 0; i < N; ++i) l[i] = P(i, i);
  }
};
}
namespace Eigen {
#define NSE_SPEC(T, N) template <> class SelfAdjointEigenSolver<T> { nse::Solver<N> s; \
 public: SelfAdjointEigenSolver() {} template <typename M> explicit SelfAdjointEigenSolver(const M &m, int = ComputeEigenvectors) { compute(m); } \
  template <typename M> SelfAdjointEigenSolver &compute(const M &m, int = ComputeEigenvectors) { T P = m; s.solve(P); return *this; } \
  template <typename M> SelfAdjointEigenSolver &computeDirect(const M &m, int o = ComputeEigenvectors) { return compute(m, o); } \
  const Matrix<double, N, 1> &eigenvalues() const { return s.l; } const T &eigenvectors() const { return s.E; } ComputationInfo info() const { return Success; } \
  T operatorSqrt() const { return s.E * s.l.cwiseSqrt().asDiagonal() * s.E.transpose(); } };
NSE_SPEC(Matrix2d, 2) NSE_SPEC(Matrix4d, 4)
}
#endif
