// Symbolic matrices and reference computations written with plain loops.
#pragma once
#include <Eigen/Dense>
#include <memory>
#include <stdexcept>
#include <vector>

#include "sx.h"

using Eigen::MatrixXd;
using Eigen::VectorXd;
#define ENTRY extern "C" __attribute__((noinline, used)) void

inline MatrixXd SymM(const char* n, int r, int c) {
  MatrixXd m(r, c);
  for (int j = 0; j < c; j++)
    for (int i = 0; i < r; i++) m(i, j) = sx_real(n);
  return m;
}
inline VectorXd SymV(const char* n, int r) {
  VectorXd m(r);
  for (int i = 0; i < r; i++) m(i) = sx_real(n);
  return m;
}
// Symmetric, arbitrary entries.
inline MatrixXd SymS(const char* n, int r) {
  MatrixXd m(r, r);
  for (int j = 0; j < r; j++)
    for (int i = 0; i <= j; i++) m(i, j) = m(j, i) = sx_real(n);
  return m;
}
// Symmetric positive semidefinite, all of them up to size 2: L L'.
inline MatrixXd SymPSD(const char* n, int r) {
  MatrixXd l = MatrixXd::Zero(r, r), m(r, r);
  for (int j = 0; j < r; j++)
    for (int i = j; i < r; i++) l(i, j) = sx_real(n);
  for (int i = 0; i < r; i++)
    for (int j = 0; j < r; j++) {
      double s = 0;
      for (int k = 0; k < r; k++) s += l(i, k) * l(j, k);
      m(i, j) = s;
    }
  return m;
}
// Plain-loop products.
inline std::vector<double> MulR(const MatrixXd& A, const VectorXd& x) {
  std::vector<double> y(A.rows(), 0.0);
  for (int i = 0; i < A.rows(); i++)
    for (int j = 0; j < A.cols(); j++) y[i] += A(i, j) * x(j);
  return y;
}
inline std::vector<double> MulT(const MatrixXd& A, const VectorXd& x) {
  std::vector<double> y(A.cols(), 0.0);
  for (int i = 0; i < A.rows(); i++)
    for (int j = 0; j < A.cols(); j++) y[j] += A(i, j) * x(i);
  return y;
}
inline double Dot(const VectorXd& a, const VectorXd& b) {
  double s = 0;
  for (int i = 0; i < a.size(); i++) s += a(i) * b(i);
  return s;
}
inline double Max0(double a) { return a > 0 ? a : 0; }
inline double Min(double a, double b) { return a < b ? a : b; }
inline double Abs(double a) { return a < 0 ? -a : a; }
// Runs f and reports whether it threw: 0 no, 1 runtime_error, 2 another exception.
template <class F>
int Threw(F&& f) {
  try {
    f();
  } catch (const std::runtime_error&) {
    return 1;
  } catch (...) {
    return 2;
  }
  return 0;
}
inline void Box(double v) {
  sx_assume(v <= 1);
  sx_assume(v >= -1);
}
// a == b over the reals, or |a - b| <= 1e-6.
inline void Same(double a, double b, bool exact, const char* msg) {
  if (exact) {
    sx_assert_eq(a, b, msg);
  } else {
    sx_assert_le(a - b, 1e-6, msg);
    sx_assert_le(b - a, 1e-6, msg);
  }
}
