// One full Newton step assembled from the real components as the inner loop does:
// residual, negate, Initialize, Solve, x += dx.
#include "fbstab/components/dense_cholesky_solver.h"
#include "fbstab/components/dense_data.h"
#include "fbstab/components/mpc_data.h"
#include "fbstab/components/riccati_linear_solver.h"
#include "mpc.h"
#include "newton.h"
using namespace fbstab;

template <class Solver, class D, class SetB>
static void Step(Solver* s, const D* data, const MatrixXd& H, const MatrixXd& G, const MatrixXd& A,
                 const VectorXd& f, const VectorXd& h, SetB setb, int point, double sigma0, double alpha,
                 bool exact, int repeat) {
  int nz = H.rows(), nl = G.rows(), nv = A.rows();
  FullVariable x(nz, nl, nv), xb(nz, nl, nv), dx(nz, nl, nv);
  FullResidual r(nz, nl, nv);
  r.SetAlpha(alpha);
  s->SetAlpha(alpha);
  r.LinkData(data);
  s->LinkData(data);
  x.LinkData(data);
  xb.LinkData(data);
  dx.LinkData(data);
  for (int k = 0; k < repeat; k++) {
    double sigma = k == 0 ? sigma0 : k % 2 ? sigma0 / 4 : sigma0 * 4;  // the same objects with another sigma
    x.z() = SymV("z", nz);
    x.l() = SymV("l", nl);
    xb.z() = SymV("zbar", nz);
    xb.l() = SymV("lbar", nl);
    if (!exact) {
      for (int i = 0; i < nz; i++) Box(x.z()(i)), Box(xb.z()(i));
      for (int i = 0; i < nl; i++) Box(x.l()(i)), Box(xb.l()(i));
    }
    std::vector<double> az = MulR(A, x.z()), ga(nv), mu(nv), b(nv);
    for (int i = 0; i < nv; i++) {
      NewtonPoint(point, sigma, &x, &xb, i, k);
      b[i] = x.y(i) + az[i];
      setb(i, b[i]);
    }
    x.InitializeConstraintMargin();
    xb.InitializeConstraintMargin();
    for (int i = 0; i < nv; i++) {
      double ys = x.y(i) + sigma * (x.v(i) - xb.v(i));
      double gb;
      PfbGrad(ys, x.v(i), alpha, &ga[i], &gb);
      mu[i] = gb + sigma * ga[i];
    }
    VectorXd z0 = x.z(), l0 = x.l(), v0 = x.v();
    r.InnerResidual(x, xb, sigma);
    VectorXd rv = r.v();
    sx_assert(s->Initialize(x, xb, sigma), "Initialize succeeds");
    r.Negate();
    sx_assert(s->Solve(r, &dx), "Solve succeeds");
    x.axpy(1.0, dx);
    for (int i = 0; i < nz; i++) Same(x.z()(i), z0(i) + dx.z()(i), true, "z + dz");
    for (int i = 0; i < nl; i++) Same(x.l()(i), l0(i) + dx.l()(i), true, "l + dl");
    for (int i = 0; i < nv; i++) Same(x.v()(i), v0(i) + dx.v()(i), true, "v + dv");
    // rows of the subproblem residual at the new point, from the definition
    for (int i = 0; i < nz; i++) {
      double e = f(i) + sigma * (x.z()(i) - xb.z()(i));
      for (int j = 0; j < nz; j++) e += H(i, j) * x.z()(j);
      for (int j = 0; j < nl; j++) e += G(j, i) * x.l()(j);
      for (int j = 0; j < nv; j++) e += A(j, i) * x.v()(j);
      Same(e, 0.0, exact, "stationarity vanishes after a full step");
    }
    for (int i = 0; i < nl; i++) {
      double e = h(i) + sigma * (x.l()(i) - xb.l()(i));
      for (int j = 0; j < nz; j++) e -= G(i, j) * x.z()(j);
      Same(e, 0.0, exact, "equality residual vanishes after a full step");
    }
    std::vector<double> a1 = MulR(A, x.z());
    for (int i = 0; i < nv; i++) {
      double dv = x.v()(i) - v0(i);
      Same(rv(i) - ga[i] * (a1[i] - az[i]) + mu[i] * dv, 0.0, exact, "linearised complementarity");
      Same(x.y(i), b[i] - a1[i], exact, "y = b - A z after the step");
    }
  }
  sx_reach("end");
}

// data: 0 everything symbolic, 1 concrete matrices, 2 singular H; +10 tolerance
ENTRY dense_step(int nz, int nl, int nv, int point, int data, int sg) {
  bool exact = data < 10;
  data %= 10;
  MatrixXd H, G(nl, nz), A(nv, nz);
  VectorXd f = SymV("f", nz), h = SymV("h", nl), b = VectorXd::Zero(nv);
  double sigma, alpha;
  if (!exact) {
    for (int i = 0; i < nz; i++) Box(f(i));
    for (int i = 0; i < nl; i++) Box(h(i));
  }
  if (data == 0) {
    H = SymPSD("H", nz);
    G = SymM("G", nl, nz);
    A = SymM("A", nv, nz);
    sigma = sx_real("sigma");
    sx_assume(sigma >= 1e-13);
    sx_assume(sigma <= 100);
    alpha = sx_real("alpha");
    sx_assume(alpha > 0);
    sx_assume(alpha < 1);
  } else {
    for (int j = 0; j < nz; j++) {
      for (int i = 0; i < nl; i++) G(i, j) = 1 + ((i + 2 * j) % 3) - (i == j);
      for (int i = 0; i < nv; i++) A(i, j) = ((3 * i + j + i / 4) % 4) - 1;
    }
    H = MatrixXd::Zero(nz, nz);
    for (int i = 0; i < nz; i++)
      for (int j = 0; j < nz; j++)
        H(i, j) = data == 2 ? 1.0 : i == j ? nz + 0.25 * i : 0.5 * ((i * j + i + j) % 3 - 1);
    sigma = sg == 0 ? 0.5 : sg == 1 ? 0.0078125 : sg == 2 ? 16 : 1e-10;
    alpha = 0.75;
  }
  DenseData d(&H, &f, &G, &h, &A, &b);
  DenseCholeskySolver s(nz, nl, nv);
  Step(&s, &d, H, G, A, f, h, [&](int i, double t) { b(i) = t; }, point, sigma, alpha, exact, data == 0 ? 1 : 2);
}

ENTRY mpc_step(int N, int nx, int nu, int nc, int point, int data, int sg) {
  bool exact = data < 10;
  data %= 10;
  MpcProblem p(N, nx, nu, nc);
  p.Fill(data == 2 ? 3 : 2, true, false, false);
  if (!exact) {
    for (auto* m : {&p.q, &p.r, &p.c})
      for (int i = 0; i < m->size(); i++) Box(m->data()[i]);
    for (int i = 0; i < nx; i++) Box(p.x0(i));
  }
  double sigma = sg == 0 ? 0.25 : sg == 1 ? 0.0078125 : sg == 2 ? 16 : 1e-10, alpha = 0.75;
  MpcData d(&p.Q, &p.R, &p.S, &p.q, &p.r, &p.A, &p.B, &p.c, &p.E, &p.L, &p.d, &p.x0);
  RiccatiLinearSolver s(N, nx, nu, nc);
  Step(&s, &d, p.Hm(), p.Gm(), p.Am(), p.fv(), p.hv(),
       [&](int i, double t) { p.d.data()[i] = -t; }, point, sigma, alpha, exact, 2);
}
