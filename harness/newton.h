// Shared by the Newton-step harnesses: reference generalised gradient of the
// penalised Fischer-Burmeister function and the rows of the Newton system.
#pragma once
#include <cmath>
#include "fbstab/components/full_residual.h"
#include "fbstab/components/full_variable.h"
#include "util.h"

// Gradient of alpha*(a+b-sqrt(a^2+b^2)) + (1-alpha)*max(0,a)*max(0,b) away from
// the origin; the element chosen by Algorithm 4 of the paper at the origin.
inline void PfbGrad(double a, double b, double alpha, double* ga, double* gb) {
  if (a == 0.0 && b == 0.0) {
    const double d = 1.0 / std::sqrt(2.0);
    *ga = *gb = alpha * (1.0 - d);
    return;
  }
  double r = std::sqrt(a * a + b * b);
  *ga = alpha * (1.0 - a / r);
  *gb = alpha * (1.0 - b / r);
  if (a > 0 && b > 0) {
    *ga += (1.0 - alpha) * b;
    *gb += (1.0 - alpha) * a;
  }
}

// point: 0 arbitrary (ys, v) outside the 1e-10 ball; 1 every combination of six
// concrete Pythagorean points; 2 origin (ys = v = 0); 3 a fixed mix of eight
// concrete points, the proximal centre differs from the point
inline void NewtonPoint(int mode, double sigma, fbstab::FullVariable* x,
                        fbstab::FullVariable* xb, int i, int off = 0) {
  if (mode == 0) {
    // y chosen so that y + sigma (v - vbar) is itself an input
    double p = sx_real("ys");
    x->v()(i) = sx_real("v");
    sx_assume(p * p + x->v(i) * x->v(i) > 1e-20);
    xb->v()(i) = sx_real("vbar");
    x->y()(i) = p - sigma * (x->v()(i) - xb->v()(i));
  } else if (mode == 2) {
    x->y()(i) = 0;
    x->v()(i) = 0;
    xb->v()(i) = 0;
  } else if (mode >= 60) {  // constraint mode - 60 arbitrary, the others at fixed points
    NewtonPoint(i == mode - 60 ? 0 : 3, sigma, x, xb, i, off);
  } else if (mode == 4 || mode == 5) {  // magnitudes far apart; still Pythagorean
    const double b = 1048576, c = 4096;
    static const double ys[] = {3 * b, 3 / b, 2 * c, c * c - 1, -4 * b, c * c, 1 / b, -2 * c, 1 / (c * c)};
    static const double vs[] = {4 * b, 4 / b, c * c - 1, 2 * c, 0, 0, 0, -(c * c - 1), 0};
    int k = mode == 4 ? sx_choose("pt", 0, 8) : (2 * (i + off) + (i + off) / 9) % 9;
    x->v()(i) = vs[k];
    xb->v()(i) = vs[k] - (i % 3) * 0.5;
    x->y()(i) = ys[k] - sigma * (x->v(i) - xb->v(i));
  } else {
    static const double ys[] = {4, -3, 3, -5, 0, 2, 0, 1.5};
    static const double vs[] = {3, 4, -4, -12, 1, 0, 0, 2};
    int k = mode == 1 ? sx_choose("pt", 0, 5) : (3 * (i + off) + (i + off) / 8) % 8;
    x->v()(i) = vs[k];
    xb->v()(i) = mode == 1 ? vs[k] : vs[k] - (i % 3) * 0.5;
    x->y()(i) = ys[k] - sigma * (x->v(i) - xb->v(i));
  }
}

// Asserts V(x, xbar, sigma) dx = r and dy = b - A dz for the linear solver s.
// exact: over the reals; otherwise for right-hand sides in [-1,1] up to tol.
template <class Solver>
void NewtonSolve(Solver* s, const MatrixXd& H, const MatrixXd& G, const MatrixXd& A, const VectorXd& b,
                 const std::vector<double>& ga, const std::vector<double>& mu, double sigma,
                 fbstab::FullVariable* dx, bool exact) {
  int nz = H.rows(), nl = G.rows(), nv = A.rows();
  fbstab::FullResidual r(nz, nl, nv);
  r.z() = SymV("rz", nz);
  r.l() = SymV("rl", nl);
  r.v() = SymV("rv", nv);
  if (!exact) {
    for (int i = 0; i < nz; i++) Box(r.z()(i));
    for (int i = 0; i < nl; i++) Box(r.l()(i));
    for (int i = 0; i < nv; i++) Box(r.v()(i));
  }
  VectorXd rz = r.z(), rl = r.l(), rv = r.v();
  bool ok = s->Solve(r, dx);
  sx_assert(ok, "Solve succeeds");
  for (int i = 0; i < nz; i++) {
    double e = sigma * dx->z()(i);
    for (int j = 0; j < nz; j++) e += H(i, j) * dx->z()(j);
    for (int j = 0; j < nl; j++) e += G(j, i) * dx->l()(j);
    for (int j = 0; j < nv; j++) e += A(j, i) * dx->v()(j);
    Same(e, rz(i), exact, "stationarity row");
  }
  for (int i = 0; i < nl; i++) {
    double e = sigma * dx->l()(i);
    for (int j = 0; j < nz; j++) e -= G(i, j) * dx->z()(j);
    Same(e, rl(i), exact, "equality row");
  }
  for (int i = 0; i < nv; i++) {
    double e = 0;
    for (int j = 0; j < nz; j++) e += A(i, j) * dx->z()(j);
    Same(mu[i] * dx->v()(i) - ga[i] * e, rv(i), exact, "complementarity row");
    Same(dx->y()(i), b(i) - e, exact, "dy = b - A dz");
  }
  for (int i = 0; i < nz; i++) sx_assert_eq(r.z()(i), rz(i), "r.z unchanged");
  for (int i = 0; i < nl; i++) sx_assert_eq(r.l()(i), rl(i), "r.l unchanged");
  for (int i = 0; i < nv; i++) sx_assert_eq(r.v()(i), rv(i), "r.v unchanged");
}

// off: which of the fixed points (point == 3)
template <class Solver, class D>
void NewtonCheck(Solver* s, const D* data, const MatrixXd& H, const MatrixXd& G,
                 const MatrixXd& A, const VectorXd& b, int point, double sigma,
                 double alpha, bool exact, int repeat = 1, int off = 0) {
  int nz = H.rows(), nl = G.rows(), nv = A.rows();
  fbstab::FullVariable x(nz, nl, nv), xb(nz, nl, nv), dx(nz, nl, nv);
  x.LinkData(data);
  xb.LinkData(data);
  dx.LinkData(data);
  std::vector<double> ga(nv), mu(nv);
  for (int i = 0; i < nv; i++) {
    NewtonPoint(point, sigma, &x, &xb, i, off);
    double ys = x.y(i) + sigma * (x.v(i) - xb.v(i));
    double gb;
    PfbGrad(ys, x.v(i), alpha, &ga[i], &gb);
    mu[i] = gb + sigma * ga[i];
  }
  s->SetAlpha(alpha);
  s->LinkData(data);
  bool ok = s->Initialize(x, xb, sigma);
  sx_assert(ok, "Initialize succeeds for positive semidefinite H and sigma > 0");
  for (int k = 0; k < repeat; k++) NewtonSolve(s, H, G, A, b, ga, mu, sigma, &dx, exact);
  sx_reach("end");
}

// One solver reused while a single ingredient changes at a time. set(p) puts part p
// of the problem (0 none, 1.. one matrix or vector each) at its second value and
// yields the explicit matrices.
struct NewtonSystem {
  MatrixXd H, G, A;
  VectorXd b;
};
template <class Solver, class D, class F>
void NewtonReuse(Solver* s, const D* data, const D* other, int parts, F set) {
  double sigma = 0.5, alpha = 0.75;
  // the point, the centre (through sigma), alpha
  NewtonSystem m = set(0);
  auto go = [&](const D* d, const NewtonSystem& m, double sg, double al, int off) {
    NewtonCheck(s, d, m.H, m.G, m.A, m.b, 3, sg, al, false, 1, off);
  };
  go(data, m, sigma, alpha, 0);
  go(data, m, sigma, alpha, 3);
  go(data, m, 4.0, alpha, 3);
  go(data, m, 4.0, 0.25, 3);
  for (int p = 1; p <= parts; p++) {
    m = set(p);
    go(data, m, 4.0, 0.25, 3);
  }
  m = set(-1);
  go(other, m, 4.0, 0.25, 3);
  m = set(0);
  go(data, m, 4.0, 0.25, 3);
  go(data, m, 0.125, 0.25, 3);  // a smaller sigma, a larger alpha
  go(data, m, 0.125, 0.875, 3);
  go(data, m, 0.5, 0.875, 0);
}
