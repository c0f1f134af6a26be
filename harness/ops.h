// The operator algebra every problem class has to provide: y <- a*M*x + b*y for
// H, A, A', G, G'; y <- a*w + y for f, h, b; and the forcing norm.
#pragma once
#include "fbstab/components/abstract_components.h"
#include "util.h"

// abcase: 0 general a,b; 1 a,b in {-1,0,1}^2; 2 b = 0 with y undefined;
// 3 general a with b in {0,1}
inline void Scalars(int c, double* a, double* b) {
  *a = *b = 0;
  if (c == 0) {
    *a = sx_real("a");
    *b = sx_real("b");
  } else if (c == 1) {
    *a = sx_choose("a", -1, 1);
    *b = sx_choose("b", -1, 1);
  } else {
    *a = sx_real("a");
    if (c == 3) *b = sx_choose("b", 0, 1);
  }
}
inline void CheckOp(const char* nm, const MatrixXd& M, bool tr, const VectorXd& x,
                    double a, double b, const VectorXd& y0, const VectorXd& y,
                    bool overwrite) {
  std::vector<double> p = tr ? MulT(M, x) : MulR(M, x);
  sx_assert((size_t)y.size() == p.size(), nm);
  for (size_t i = 0; i < p.size(); i++)
    sx_assert_eq(y(i), overwrite ? a * p[i] : a * p[i] + b * y0(i), nm);
}
inline void CheckOps(const fbstab::Data& data, const MatrixXd& H, const VectorXd& f,
                     const MatrixXd& G, const VectorXd& h, const MatrixXd& A,
                     const VectorXd& b, int abcase) {
  int nz = f.size(), nl = h.size(), nv = b.size();
  VectorXd xz = SymV("xz", nz), xl = SymV("xl", nl), xv = SymV("xv", nv);
  double s, t;
  Scalars(abcase, &s, &t);
  bool ow = abcase == 2;
  for (int op = 0; op < 5; op++) {
    int out = op == 1 ? nv : op == 3 ? nl : nz;
    const VectorXd& x = op == 2 ? xv : op == 4 ? xl : xz;
    VectorXd y(out), y0(out);
    if (!ow) {
      for (int i = 0; i < out; i++) y0(i) = y(i) = sx_real("y");
    } else {
      sx_poison(y.data(), sizeof(double) * out);
    }
    VectorXd xc = x;
    switch (op) {
      case 0: data.gemvH(x, s, t, &y); CheckOp("product with H", H, false, xc, s, t, y0, y, ow); break;
      case 1: data.gemvA(x, s, t, &y); CheckOp("product with A", A, false, xc, s, t, y0, y, ow); break;
      case 2: data.gemvAT(x, s, t, &y); CheckOp("product with A'", A, true, xc, s, t, y0, y, ow); break;
      case 3: data.gemvG(x, s, t, &y); CheckOp("product with G", G, false, xc, s, t, y0, y, ow); break;
      case 4: data.gemvGT(x, s, t, &y); CheckOp("product with G'", G, true, xc, s, t, y0, y, ow); break;
    }
    for (int i = 0; i < x.size(); i++) sx_assert_eq(x(i), xc(i), "operand unchanged");
  }
  for (int op = 0; op < 3; op++) {
    const VectorXd& w = op == 0 ? f : op == 1 ? h : b;
    VectorXd y = SymV("y", w.size()), y0 = y;
    if (op == 0) data.axpyf(s, &y);
    if (op == 1) data.axpyh(s, &y);
    if (op == 2) data.axpyb(s, &y);
    for (int i = 0; i < w.size(); i++)
      sx_assert_eq(y(i), s * w(i) + y0(i),
                   op == 0 ? "adding f" : op == 1 ? "adding h" : "adding b");
  }
  // forcing norm squared = |f|^2 + |h|^2 + |b|^2
  double q = Dot(f, f) + Dot(h, h) + Dot(b, b);
  double n = data.ForcingNorm();
  sx_assert_eq(n * n, q, "forcing norm squared");
  sx_assert_le(0.0, n, "forcing norm sign");
}
