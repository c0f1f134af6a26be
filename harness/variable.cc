// FullVariable: arithmetic on iterates keeps y = b - A z and touches nothing else.
#include "fbstab/components/full_variable.h"
#include "prob.h"
using namespace fbstab;

struct Ref {  // what a variable has to hold
  VectorXd z, l, v;
};
static void Match(const Prob& p, const FullVariable& x, const Ref& r) {
  sx_assert(x.z().size() == p.nz && x.l().size() == p.nl && x.v().size() == p.nv &&
                x.y().size() == p.nv, "sizes");
  for (int i = 0; i < p.nz; i++) sx_assert_eq(x.z()(i), r.z(i), "z");
  for (int i = 0; i < p.nl; i++) sx_assert_eq(x.l()(i), r.l(i), "l");
  for (int i = 0; i < p.nv; i++) sx_assert_eq(x.v()(i), r.v(i), "v");
  std::vector<double> y = p.Margin(r.z);
  for (int i = 0; i < p.nv; i++) sx_assert_eq(x.y()(i), y[i], "y = b - A z");
}

// Every sequence of `steps` operations on two variables.
ENTRY variable_ops(int kind, int a, int b, int c, int d, int steps, int concrete) {
  Prob p(kind, a, b, c, d, concrete);
  FullVariable x0(p.nz, p.nl, p.nv), x1(p.nz, p.nl, p.nv);
  FullVariable* x[2] = {&x0, &x1};
  Ref r[2];
  for (int k = 0; k < 2; k++) {
    x[k]->LinkData(p.data.get());
    r[k].z = SymV("z", p.nz);
    r[k].l = SymV("l", p.nl);
    r[k].v = SymV("v", p.nv);
    x[k]->z() = r[k].z;
    x[k]->l() = r[k].l;
    x[k]->v() = r[k].v;
    x[k]->InitializeConstraintMargin();
    Match(p, *x[k], r[k]);
  }
  for (int s = 0; s < steps; s++) {
    int op = sx_choose("op", 0, 9), i = op & 1, j = 1 - i;
    if (op >= 8) {  // a variable added to itself
      double t = sx_real("t");
      x[i]->axpy(t, *x[i]);
      r[i].z += t * r[i].z;
      r[i].l += t * r[i].l;
      r[i].v += t * r[i].v;
    } else if (op < 2) {
      double t = sx_real("t");
      x[i]->axpy(t, *x[j]);
      for (int k = 0; k < p.nz; k++) r[i].z(k) += t * r[j].z(k);
      for (int k = 0; k < p.nl; k++) r[i].l(k) += t * r[j].l(k);
      for (int k = 0; k < p.nv; k++) r[i].v(k) += t * r[j].v(k);
    } else if (op < 4) {
      x[i]->Copy(*x[j]);
      r[i] = r[j];
    } else if (op < 6) {
      x[i]->ProjectDuals();
      for (int k = 0; k < p.nv; k++) r[i].v(k) = Max0(r[i].v(k));
    } else {
      double t = sx_real("t");
      x[i]->Fill(t);
      r[i].z.setConstant(t);
      r[i].l.setConstant(t);
      r[i].v.setConstant(t);
    }
    Match(p, *x[0], r[0]);
    Match(p, *x[1], r[1]);
  }
  for (int k = 0; k < 2; k++) {
    double q = Dot(r[k].z, r[k].z) + Dot(r[k].l, r[k].l) + Dot(r[k].v, r[k].v);
    double n = x[k]->Norm();
    sx_assert_eq(n * n, q, "norm squared");
    sx_assert_le(0.0, n, "norm sign");
  }
  sx_assert(x0.SameSize(x1), "same size");
  sx_reach("end");
}

// Iterates of two problems of the same size: a copy belongs to the problem of its
// source, whatever it was linked to before.
ENTRY variable_relink(int kind, int a, int b, int c, int d, int concrete, int linked) {
  Prob p(kind, a, b, c, d, concrete), q(kind, a, b, c, d, concrete);
  FullVariable x(p.nz, p.nl, p.nv), w(p.nz, p.nl, p.nv);
  Ref r;
  if (linked) x.LinkData(p.data.get());
  w.LinkData(q.data.get());
  r.z = SymV("z", p.nz);
  r.l = SymV("l", p.nl);
  r.v = SymV("v", p.nv);
  w.z() = r.z;
  w.l() = r.l;
  w.v() = r.v;
  if (linked) {
    x.Fill(1);
  }
  w.InitializeConstraintMargin();
  x.Copy(w);
  Match(q, x, r);
  Ref s = r;
  double t = sx_real("t");
  int op = sx_choose("op", 0, 3);
  if (op == 0) {
    x.axpy(t, w);
    for (int k = 0; k < p.nz; k++) s.z(k) += t * r.z(k);
    for (int k = 0; k < p.nl; k++) s.l(k) += t * r.l(k);
    for (int k = 0; k < p.nv; k++) s.v(k) += t * r.v(k);
  } else if (op == 1) {
    x.Fill(t);
    s.z.setConstant(t);
    s.l.setConstant(t);
    s.v.setConstant(t);
  } else if (op == 2) {
    x.z() = s.z = SymV("z", p.nz);
    x.InitializeConstraintMargin();
  } else {  // back to the first problem
    x.LinkData(p.data.get());
    x.InitializeConstraintMargin();
    Match(p, x, s);
    x.Copy(w);
  }
  Match(q, x, s);
  Match(q, w, r);
  sx_reach("end");
}
