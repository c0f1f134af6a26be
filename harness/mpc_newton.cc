// RiccatiLinearSolver: Initialize + Solve produce dx with V(x,xbar,sigma) dx = r.
#include "fbstab/components/mpc_data.h"
#include "fbstab/components/riccati_linear_solver.h"
#include "mpc.h"
#include "newton.h"
using namespace fbstab;

// data: 0 everything symbolic; 1 concrete matrices, symbolic right-hand side;
// 2 the same with a singular Hessian; 3 as 1 with symbolic A, B; 4 as 1 with
// symbolic E, L; +10: compare up to a tolerance (large shapes)
ENTRY mpc_newton(int N, int nx, int nu, int nc, int point, int data, int sg) {
  bool exact = data < 10;
  data %= 10;
  MpcProblem p(N, nx, nu, nc);
  p.Fill(data == 0 ? 1 : data == 2 ? 3 : 2, false, data == 0 || data == 3,
         data == 0 || data == 4);
  MpcProblem::Zero(&p.q);
  MpcProblem::Zero(&p.r);
  MpcProblem::Zero(&p.c);
  MpcProblem::Sym(&p.d, "d");
  p.x0.setZero();
  if (!exact)
    for (int i = 0; i < p.d.size(); i++) Box(p.d.data()[i]);
  // sg: 0-4 five magnitudes, 5 any sigma, 6 any alpha
  const double sig[] = {0.25, 0.001, 16, 1e-10, 100, 0.25, 0.25};
  double sigma = sig[sg], alpha = sg == 3 ? 0.0625 : 0.75;
  if (sg == 6) {
    alpha = sx_real("alpha");
    sx_assume(alpha > 0);
    sx_assume(alpha < 1);
  }
  if (sg == 5) {
    sigma = sx_real("sigma");
    sx_assume(sigma >= 1e-13);
    sx_assume(sigma <= 100);
  }
  if (data == 0) {
    sigma = sx_real("sigma");
    sx_assume(sigma >= 1e-13);
    sx_assume(sigma <= 100);
    alpha = sx_real("alpha");
    sx_assume(alpha > 0);
    sx_assume(alpha < 1);
  }
  MpcData d(&p.Q, &p.R, &p.S, &p.q, &p.r, &p.A, &p.B, &p.c, &p.E, &p.L, &p.d, &p.x0);
  RiccatiLinearSolver s(N, nx, nu, nc);
  NewtonCheck(&s, &d, p.Hm(), p.Gm(), p.Am(), p.bv(), point, sigma, alpha, exact,
              data == 0 ? 1 : 2);
}

// The same solver at other points, regularisations, parameters and data.
ENTRY mpc_reuse(int N, int nx, int nu, int nc) {
  MpcProblem p(N, nx, nu, nc), p2(N, nx, nu, nc);
  for (MpcProblem* m : {&p, &p2}) {
    m->Fill(2, false, false, false);
    for (auto* v : {&m->q, &m->r, &m->c}) MpcProblem::Zero(v);
    m->x0.setZero();
    for (int i = 0; i < m->d.size(); i++) m->d.data()[i] = m == &p ? i - 1.0 : 2.0 - i;
  }
  auto change = [](fbstab::MatrixSequence* m, double a, double c) {
    for (int i = 0; i < m->size(); i++) m->data()[i] = a * m->data()[i] + c;
  };
  auto part = [&](MpcProblem* m, int k) {
    if (k == 1) change(&m->Q, 1.5, 0);
    if (k == 2) change(&m->R, 1.25, 0);
    if (k == 3) change(&m->S, -1, 0);
    if (k == 4) change(&m->A, 0.5, 0.25);
    if (k == 5) change(&m->B, -0.5, 0.5);
    if (k == 6) change(&m->E, 0.75, 0.5);
    if (k == 7) change(&m->L, -1, 0.25);
    if (k == 8) change(&m->d, 1, 1.5);
  };
  for (int k = 1; k <= 7; k++) part(&p2, k), part(&p2, k);
  MpcData d(&p.Q, &p.R, &p.S, &p.q, &p.r, &p.A, &p.B, &p.c, &p.E, &p.L, &p.d, &p.x0);
  MpcData d2(&p2.Q, &p2.R, &p2.S, &p2.q, &p2.r, &p2.A, &p2.B, &p2.c, &p2.E, &p2.L, &p2.d, &p2.x0);
  RiccatiLinearSolver s(N, nx, nu, nc);
  NewtonReuse(&s, &d, &d2, 8, [&](int k) -> NewtonSystem {
    const MpcProblem& m = k == -1 ? p2 : p;
    part(&p, k);
    return {m.Hm(), m.Gm(), m.Am(), m.bv()};
  });
}
