// Documented preconditions of the components: exactly the inadmissible calls throw
// a runtime_error, and what they were given stays as it was.
#include "fbstab/components/dense_cholesky_solver.h"
#include "fbstab/components/full_feasibility.h"
#include "fbstab/components/full_residual.h"
#include "fbstab/components/full_variable.h"
#include "fbstab/components/riccati_linear_solver.h"
#include "algo.h"
#include "prob.h"
#include "tools/utilities.h"
using namespace fbstab;

// Sizes are arbitrary integers up to hi.
ENTRY comp_ctor(int kind, int part, int hi) {
  int n = kind == 4 ? 4 : 3;
  int s[4];
  bool ok = true;
  for (int i = 0; i < n; i++) {
    s[i] = sx_int("size");
    sx_assume(s[i] <= hi);
    ok = ok & (s[i] >= (kind != 4 && i == 1 ? 0 : 1));
  }
  sx_assume(ok == (part == 1));
  int t = Threw([&] {
    if (kind == 0) {
      FullVariable x(s[0], s[1], s[2]);
      sx_assert(x.z().size() == s[0] && x.l().size() == s[1] && x.v().size() == s[2] && x.y().size() == s[2], "sizes of a variable");
      for (int i = 0; i < s[0]; i++) sx_assert(x.z()(i) == 0, "a new variable is zero");
      for (int i = 0; i < s[2]; i++) sx_assert(x.v()(i) == 0, "a new variable is zero");
    } else if (kind == 1) {
      FullResidual x(s[0], s[1], s[2]);
      sx_assert(x.z().size() == s[0] && x.l().size() == s[1] && x.v().size() == s[2], "sizes of a residual");
    } else if (kind == 2) {
      FullFeasibility x(s[0], s[1], s[2]);
    } else if (kind == 3) {
      DenseCholeskySolver x(s[0], s[1], s[2]);
    } else {
      RiccatiLinearSolver x(s[0], s[1], s[2], s[3]);
    }
  });
  sx_assert(t == (part == 0), "a constructor throws a runtime_error iff a size is inadmissible");
  sx_reach("end");
}

struct Snap {
  VectorXd z, l, v, y;
  explicit Snap(const FullVariable& x) : z(x.z()), l(x.l()), v(x.v()), y(x.y()) {}
  void Check(const FullVariable& x, const char* m) const {
    for (int i = 0; i < z.size(); i++) sx_assert_eq(x.z()(i), z(i), m);
    for (int i = 0; i < l.size(); i++) sx_assert_eq(x.l()(i), l(i), m);
    for (int i = 0; i < v.size(); i++) sx_assert_eq(x.v()(i), v(i), m);
    for (int i = 0; i < v.size(); i++) sx_assert_eq(x.y()(i), y(i), m);
  }
};
struct RSnap {
  VectorXd z, l, v;
  explicit RSnap(const FullResidual& x) : z(x.z()), l(x.l()), v(x.v()) {}
  void Check(const FullResidual& x, const char* m) const {
    for (int i = 0; i < z.size(); i++) sx_assert_eq(x.z()(i), z(i), m);
    for (int i = 0; i < l.size(); i++) sx_assert_eq(x.l()(i), l(i), m);
    for (int i = 0; i < v.size(); i++) sx_assert_eq(x.v()(i), v(i), m);
  }
};
static void FillSym(FullVariable* x) {
  for (int i = 0; i < x->z().size(); i++) x->z()(i) = sx_real("z");
  for (int i = 0; i < x->l().size(); i++) x->l()(i) = sx_real("l");
  for (int i = 0; i < x->v().size(); i++) x->v()(i) = sx_real("v");
  for (int i = 0; i < x->v().size(); i++) x->y()(i) = sx_real("y");
}
static void FillRes(FullResidual* r) {
  for (int i = 0; i < r->z().size(); i++) r->z()(i) = sx_real("rz");
  for (int i = 0; i < r->l().size(); i++) r->l()(i) = sx_real("rl");
  for (int i = 0; i < r->v().size(); i++) r->v()(i) = sx_real("rv");
}
// Solver of either class behind one interface.
struct Lin {
  std::unique_ptr<DenseCholeskySolver> d;
  std::unique_ptr<RiccatiLinearSolver> m;
  Lin(int kind, int p, int q, int r, int s) {
    if (kind == 0)
      d.reset(new DenseCholeskySolver(p, q, r));
    else
      m.reset(new RiccatiLinearSolver(p, q, r, s));
  }
  void LinkData(const Data* x) {
    if (d) d->LinkData(static_cast<const DenseData*>(x));
    if (m) m->LinkData(static_cast<const MpcData*>(x));
  }
  bool Initialize(const FullVariable& x, const FullVariable& b, double s) {
    return d ? d->Initialize(x, b, s) : m->Initialize(x, b, s);
  }
  bool Solve(const FullResidual& r, FullVariable* x) { return d ? d->Solve(r, x) : m->Solve(r, x); }
};

// Everything that needs problem data before it was linked.
ENTRY comp_nodata(int kind, int p, int q, int r, int s) {
  Prob pr(kind, p, q, r, s, 1);
  const int nz = pr.nz, nl = pr.nl, nv = pr.nv;
  FullVariable x(nz, nl, nv), xb(nz, nl, nv);
  FillSym(&x);
  FillSym(&xb);
  Snap sx(x), sb(xb);
  FullResidual res(nz, nl, nv);
  FillRes(&res);
  RSnap sr(res);
  FullFeasibility fe(nz, nl, nv);
  std::unique_ptr<Lin> ls(new Lin(kind, p, q, r, s));
  double sigma = sx_real("sigma"), tol = sx_real("tol"), a = sx_real("a");
  sx_assume(sigma > 0);
  const char* m = "a component without problem data throws a runtime_error";
  sx_assert(Threw([&] { x.InitializeConstraintMargin(); }) == 1, m);
  sx_assert(Threw([&] { x.axpy(a, xb); }) == 1, m);
  sx_assert(Threw([&] { res.InnerResidual(x, xb, sigma); }) == 1, m);
  sx_assert(Threw([&] { res.NaturalResidual(x); }) == 1, m);
  sx_assert(Threw([&] { res.PenalizedNaturalResidual(x); }) == 1, m);
  sx_assert(Threw([&] { fe.CheckFeasibility(x, tol); }) == 1, m);
  sx_assert(Threw([&] { ls->Initialize(x, xb, sigma); }) == 1, m);
  sx.Check(x, "a rejected variable is unchanged");
  sb.Check(xb, "a rejected variable is unchanged");
  sr.Check(res, "a rejected residual is unchanged");
  sx_assert(Threw([&] { ls->Solve(res, &x); }) == 1, m);
  sx.Check(x, "a rejected variable is unchanged");
  sr.Check(res, "a rejected residual is unchanged");
  FullVariable w(nz, nl, nv);
  sx_assert(Threw([&] { w.Fill(a); }) == 1, m);
  // with data nothing of this throws
  FullVariable u(nz, nl, nv);
  u.LinkData(pr.data.get());
  sx_assert(Threw([&] { u.Fill(a); }) == 0, "a valid call does not throw");
  sx_assert(Threw([&] { u.Copy(u); }) == 0, "a valid call does not throw");
  sx_reach("end");
}

static int Dev(const char* n, int v, int lo) {
  int d = sx_choose(n, 0, 2);
  int w = v + (d == 1 ? 1 : d == 2 ? -1 : 0);
  if (w < lo) sx_stop();
  return w;
}
// Sizes of the arguments deviate by one in any part, sigma is any number.
ENTRY comp_init(int kind, int p, int q, int r, int s, int who) {
  Prob pr(kind, p, q, r, s, 1);
  const int nz = pr.nz, nl = pr.nl, nv = pr.nv;
  int part = sx_choose("which", 0, 5);
  int az = nz, al = nl, av = nv, bz = nz, bl = nl, bv = nv;
  int* t[6] = {&az, &al, &av, &bz, &bl, &bv};
  int lo[6] = {1, 0, 1, 1, 0, 1};
  *t[part] = Dev("dev", *t[part], lo[part]);
  // both deviate in the same way: same as each other, not as the component
  if (part < 3 && sx_choose("both", 0, 1)) *t[part + 3] = *t[part];
  bool same = az == bz && al == bl && av == bv;
  bool fits = az == nz && al == nl && av == nv;
  FullVariable x(az, al, av), xb(bz, bl, bv);
  FillSym(&x);
  FillSym(&xb);
  Snap sx(x), sb(xb);
  double sigma = sx_real("sigma");
  sx_assume(sigma <= 0 || sigma >= 1e-13);
  if (same && fits) sx_assume(sigma <= 0);
  const char* m = "mismatched sizes or a regularisation that is not positive throw a runtime_error";
  if (who == 0) {
    std::unique_ptr<Lin> ls(new Lin(kind, p, q, r, s));
    ls->LinkData(pr.data.get());
    sx_assert(Threw([&] { ls->Initialize(x, xb, sigma); }) == 1, m);
  } else {
    FullResidual res(nz, nl, nv);
    res.LinkData(pr.data.get());
    FillRes(&res);
    RSnap sr(res);
    sx_assert(Threw([&] { res.InnerResidual(x, xb, sigma); }) == 1, m);
    sr.Check(res, "a residual that was not computed is unchanged");
  }
  sx.Check(x, "a rejected variable is unchanged");
  sb.Check(xb, "a rejected variable is unchanged");
  sx_reach("end");
}
// The solve step: null result, mismatched sizes.
ENTRY comp_solve(int kind, int p, int q, int r, int s) {
  Prob pr(kind, p, q, r, s, 1);
  const int nz = pr.nz, nl = pr.nl, nv = pr.nv;
  std::unique_ptr<Lin> ls(new Lin(kind, p, q, r, s));
  ls->LinkData(pr.data.get());
  FullVariable x(nz, nl, nv);
  x.LinkData(pr.data.get());
  x.Fill(0.5);
  for (int i = 0; i < nv; i++) x.y()(i) = 1 - i;
  bool ok = false;
  sx_assert(Threw([&] { ok = ls->Initialize(x, x, 0.5); }) == 0, "a valid call does not throw");
  sx_assert(ok, "initialisation succeeds");
  int part = sx_choose("which", 0, 7);
  FullResidual good(nz, nl, nv);
  if (part != 7) FillRes(&good);
  if (part == 6) {
    RSnap sr(good);
    sx_assert(Threw([&] { ls->Solve(good, nullptr); }) == 1, "a null result throws a runtime_error");
    sr.Check(good, "a rejected residual is unchanged");
  } else if (part == 7) {
    bool done = false;
    FullVariable dx(nz, nl, nv);
    dx.LinkData(pr.data.get());
    sx_assert(Threw([&] { done = ls->Solve(good, &dx); }) == 0, "a valid call does not throw");
    sx_assert(done, "a valid solve reports success");
  } else {
    int rz = nz, rl = nl, rv = nv, bz = nz, bl = nl, bv = nv;
    int* t[6] = {&rz, &rl, &rv, &bz, &bl, &bv};
    int lo[6] = {1, 0, 1, 1, 0, 1};
    int old = *t[part];
    *t[part] = Dev("dev", old, lo[part]);
    if (*t[part] == old) sx_stop();
    if (part < 3 && sx_choose("both", 0, 1)) *t[part + 3] = *t[part];
    FullResidual res(rz, rl, rv);
    FillRes(&res);
    RSnap sr(res);
    FullVariable dx(bz, bl, bv);
    FillSym(&dx);
    Snap sd(dx);
    sx_assert(Threw([&] { ls->Solve(res, &dx); }) == 1, "mismatched sizes throw a runtime_error");
    sr.Check(res, "a rejected residual is unchanged");
    sd.Check(dx, "a rejected variable is unchanged");
  }
  sx_reach("end");
}
// Feasibility check sizes; SameSize; the norm and merit of any contents.
ENTRY comp_feas(int kind, int p, int q, int r, int s) {
  Prob pr(kind, p, q, r, s, 1);
  const int nz = pr.nz, nl = pr.nl, nv = pr.nv;
  int part = sx_choose("which", 0, 2);
  int az = nz, al = nl, av = nv;
  int* t[3] = {&az, &al, &av};
  int lo[3] = {1, 0, 1};
  *t[part] = Dev("dev", *t[part], lo[part]);
  bool fits = az == nz && al == nl && av == nv;
  FullVariable x(az, al, av), ref(nz, nl, nv);
  FullResidual res(nz, nl, nv);
  sx_assert(x.SameSize(ref) == fits, "SameSize compares every part");
  sx_assert(ref.SameSize(x) == fits, "SameSize compares every part");
  sx_assert(res.SameSize(x) == fits, "SameSize compares every part");
  if (fits) sx_stop();
  FillSym(&x);
  Snap sx(x);
  double tol = sx_real("tol");
  FullFeasibility fe(nz, nl, nv);
  fe.LinkData(pr.data.get());
  sx_assert(Threw([&] { fe.CheckFeasibility(x, tol); }) == 1, "mismatched sizes throw a runtime_error");
  sx.Check(x, "a rejected variable is unchanged");
  sx_reach("end");
}
// MPC products: null result, operand or result of the wrong size.
ENTRY mpc_product(int which, int N, int nx, int nu, int nc) {
  Prob pr(1, N, nx, nu, nc, 1);
  const Data& D = *pr.data;
  const int nz = pr.nz, nl = pr.nl, nv = pr.nv;
  const int in[8] = {nz, nz, nz, nl, nv, 0, 0, 0}, out[8] = {nz, nv, nl, nz, nz, nz, nl, nv};
  int dx = sx_choose("dx", 0, 2), dy = sx_choose("dy", 0, 3);
  bool null = dy == 3;
  if (which >= 5 && dx) sx_stop();
  int n = in[which] + (dx == 1 ? 1 : dx == 2 ? -1 : 0), m = out[which] + (dy == 1 ? 1 : dy == 2 ? -1 : 0);
  VectorXd x = SymV("x", n), y = SymV("y", m), x0 = x, y0 = y;
  double a = sx_real("a"), b = sx_real("b");
  VectorXd* py = null ? nullptr : &y;
  int t = Threw([&] {
    switch (which) {
      case 0: D.gemvH(x, a, b, py); break;
      case 1: D.gemvA(x, a, b, py); break;
      case 2: D.gemvG(x, a, b, py); break;
      case 3: D.gemvGT(x, a, b, py); break;
      case 4: D.gemvAT(x, a, b, py); break;
      case 5: D.axpyf(a, py); break;
      case 6: D.axpyh(a, py); break;
      default: D.axpyb(a, py); break;
    }
  });
  bool ok = !null && dx == 0 && dy == 0;
  sx_assert(t == (ok ? 0 : 1), "a product throws a runtime_error iff its result is null or a size is wrong");
  for (int i = 0; i < n; i++) sx_assert_eq(x(i), x0(i), "the operand is unchanged");
  if (!ok)
    for (int i = 0; i < m; i++) sx_assert_eq(y(i), y0(i), "a rejected result is unchanged");
  sx_reach("end");
}
// Null pointers among the components of the algorithm.
ENTRY algo_null() {
  World w;
  StubVariable x1(&w), x2(&w), x3(&w), x4(&w);
  StubResidual r1(&w, 0), r2(&w, 1);
  StubSolver ls(&w);
  StubFeas fe(&w);
  int k = sx_choose("null", 0, 255);
  int t = Threw([&] {
    StubAlgo a(k & 1 ? nullptr : &x1, k & 2 ? nullptr : &x2, k & 4 ? nullptr : &x3, k & 8 ? nullptr : &x4,
           k & 16 ? nullptr : &r1, k & 32 ? nullptr : &r2, k & 64 ? nullptr : &ls, k & 128 ? nullptr : &fe);
  });
  sx_assert(t == (k != 0), "the algorithm throws a runtime_error iff a component is null");
  sx_reach("end");
}
ENTRY util_saturate() {
  double x = sx_real("x"), a = sx_real("a"), b = sx_real("b");
  sx_assume(x == x);
  sx_assume(a == a);
  sx_assume(b == b);
  double r = 0;
  int t = Threw([&] { r = tools::saturate(x, a, b); });
  sx_assert(t == (a > b), "saturate throws a runtime_error iff the bounds are reversed");
  if (t) {
    sx_reach("reversed");
    return;
  }
  sx_assert(r >= a && r <= b, "saturate stays within the bounds");
  if (x >= a && x <= b) sx_assert(r == x, "saturate keeps an admissible value");
  if (x < a) sx_assert(r == a, "saturate gives the nearest bound");
  if (x > b) sx_assert(r == b, "saturate gives the nearest bound");
  sx_reach("end");
}
ENTRY util_saturate_int() {
  int x = sx_int("x"), a = sx_int("a"), b = sx_int("b"), r = 0;
  int t = Threw([&] { r = tools::saturate(x, a, b); });
  sx_assert(t == (a > b), "saturate throws a runtime_error iff the bounds are reversed");
  if (!t) sx_assert(r == (x < a ? a : x > b ? b : x), "saturate gives the nearest value");
  sx_reach("end");
}
