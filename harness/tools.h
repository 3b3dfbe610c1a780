// Shared helpers of the estimation and tracking harnesses
#pragma once
#include <Eigen/Core>
#include <cstdio>
#include <string>
#include <vector>
#include "ns.h"
#include "eig.h"
namespace hs {
inline double grid(const char *n, double lo, double hi) { return ns_grid(n, lo, hi); }
inline double real(const char *n, double lo, double hi) { return ns_real(n, lo, hi); }
template <int N> Eigen::Matrix<double, N, 1> vec(const char *n, double lo, double hi) { Eigen::Matrix<double, N, 1> r; for (int i = 0; i < N; ++i) r[i] = ns_grid(n, lo, hi); return r; }
// arbitrary symmetric matrix
template <int N> Eigen::Matrix<double, N, N> sym(const char *n, double lo, double hi) { Eigen::Matrix<double, N, N> r; for (int i = 0; i < N; ++i) for (int j = 0; j <= i; ++j) r(i, j) = r(j, i) = ns_grid(n, i == j ? (lo > 0 ? lo : 0.5) : -hi / 4, hi); return r; }
// arbitrary positive definite matrix, by its Cholesky factor
template <int N> Eigen::Matrix<double, N, N> spd(const char *n, double lo, double hi) { Eigen::Matrix<double, N, N> L; L.setZero(); for (int i = 0; i < N; ++i) for (int j = 0; j <= i; ++j) L(i, j) = ns_grid(n, i == j ? lo : -hi, hi); return L * L.transpose(); }
template <typename A, typename B> void eq(const A &a, const B &b, double tol, const char *m) { for (int i = 0; i < a.rows(); ++i) for (int j = 0; j < a.cols(); ++j) ns_check_eq(a(i, j), b(i, j), tol, m); }
inline void near(double a, double b, double rel, const char *m) { ns_check_le(a, b + rel, 0, m); ns_check_le(b, a + rel, 0, m); }
}
