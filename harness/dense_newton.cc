// DenseCholeskySolver: Initialize + Solve produce dx with V(x,xbar,sigma) dx = r.
#include "fbstab/components/dense_cholesky_solver.h"
#include "fbstab/components/dense_data.h"
#include "newton.h"
using namespace fbstab;

// data: 0 everything symbolic; 1 concrete positive definite H, symbolic right-hand
// side; 2 concrete singular H; +10: compare up to a tolerance (large shapes)
ENTRY dense_newton(int nz, int nl, int nv, int point, int data, int sg) {
  MatrixXd H, G(nl, nz), A(nv, nz);
  VectorXd f = VectorXd::Zero(nz), h = VectorXd::Zero(nl), b = SymV("b", nv);
  double sigma, alpha;
  bool exact = data < 10;
  data %= 10;
  if (!exact)
    for (int i = 0; i < nv; i++) Box(b(i));
  if (data == 0) {
    H = SymPSD("H", nz);
    G = SymM("G", nl, nz);
    A = SymM("A", nv, nz);
    sigma = sx_real("sigma");
    sx_assume(sigma >= 1e-13);
    sx_assume(sigma <= 100);
    alpha = sx_real("alpha");
    sx_assume(alpha > 0);
    sx_assume(alpha < 1);
  } else {  // concrete matrices, symbolic right-hand side
    for (int j = 0; j < nz; j++) {
      for (int i = 0; i < nl; i++) G(i, j) = 1 + ((i + 2 * j) % 3) - (i == j);
      for (int i = 0; i < nv; i++) A(i, j) = ((3 * i + j + i / 4) % 4) - 1;
    }
    H = MatrixXd::Zero(nz, nz);
    for (int i = 0; i < nz; i++)
      for (int j = 0; j < nz; j++) H(i, j) = 1 + (i == j ? 2 : 0);
    if (data == 2) H.setConstant(1.0);  // singular
    if (!exact && data == 1)
      for (int i = 0; i < nz; i++)
        for (int j = 0; j < nz; j++) H(i, j) = i == j ? nz + 0.25 * i : 0.5 * ((i * j + i + j) % 3 - 1);
    const double sig[] = {0.5, 0.001, 20, 1e-10, 100};
    sigma = sig[sg];
    alpha = sg == 3 ? 0.0625 : 0.75;
  }
  DenseData d(&H, &f, &G, &h, &A, &b);
  DenseCholeskySolver s(nz, nl, nv);
  NewtonCheck(&s, &d, H, G, A, b, point, sigma, alpha, exact, data == 0 ? 1 : 2);
}

// The same solver at other points, regularisations, parameters and data.
ENTRY dense_reuse(int nz, int nl, int nv) {
  auto fill = [&](int k, MatrixXd* M) {
    for (int j = 0; j < M->cols(); j++)
      for (int i = 0; i < M->rows(); i++) (*M)(i, j) = ((3 * i + 2 * j + i / 3 + k) % 5) - 1.5;
  };
  auto hess = [&](double d, MatrixXd* M) {
    for (int i = 0; i < nz; i++)
      for (int j = 0; j < nz; j++) (*M)(i, j) = i == j ? nz + d + 0.25 * i : 0.5 * ((i * j + i + j) % 3 - 1);
  };
  VectorXd f = VectorXd::Zero(nz), h = VectorXd::Zero(nl), b(nv), b2(nv);
  MatrixXd H(nz, nz), G(nl, nz), A(nv, nz), H2(nz, nz), G2(nl, nz), A2(nv, nz);
  hess(0, &H);
  hess(3, &H2);
  fill(0, &G);
  fill(1, &A);
  fill(2, &G2);
  fill(3, &A2);
  for (int i = 0; i < nv; i++) b(i) = i - 1.0, b2(i) = 2.0 - i;
  DenseData d(&H, &f, &G, &h, &A, &b), d2(&H2, &f, &G2, &h, &A2, &b2);
  DenseCholeskySolver s(nz, nl, nv);
  NewtonReuse(&s, &d, &d2, 4, [&](int p) -> NewtonSystem {
    if (p == -1) return {H2, G2, A2, b2};
    if (p == 1) hess(1, &H);
    if (p == 2) fill(4, &G);
    if (p == 3) fill(5, &A);
    if (p == 4) b.setConstant(1.5);
    return {H, G, A, b};
  });
}
