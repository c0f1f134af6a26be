// FullResidual: definitions, norms, and that the residual is zero exactly at KKT
// points.
#include "fbstab/components/full_residual.h"
#include "fbstab/components/full_variable.h"
#include "prob.h"
using namespace fbstab;

static void Norms(const FullResidual& r, const char* msg) {
  double z = Dot(r.z(), r.z()), l = Dot(r.l(), r.l()), v = Dot(r.v(), r.v());
  sx_assert_eq(r.z_norm() * r.z_norm(), z, msg);
  sx_assert_eq(r.l_norm() * r.l_norm(), l, msg);
  sx_assert_eq(r.v_norm() * r.v_norm(), v, msg);
  double n = r.Norm();
  sx_assert_eq(n * n, z + l + v, "norm squared");
  sx_assert_le(0.0, n, "norm sign");
  sx_assert_eq(r.Merit(), 0.5 * (z + l + v), "merit is half the squared norm");
}
static void Point(const Prob& p, FullVariable* x, FullVariable* xb) {
  x->LinkData(p.data.get());
  xb->LinkData(p.data.get());
  x->z() = SymV("z", p.nz);
  x->l() = SymV("l", p.nl);
  x->v() = SymV("v", p.nv);
  x->y() = SymV("y", p.nv);
  xb->z() = SymV("zb", p.nz);
  xb->l() = SymV("lb", p.nl);
  xb->v() = SymV("vb", p.nv);
  xb->y() = SymV("yb", p.nv);
}
// stationarity and feasibility rows
static void Rows(const Prob& p, const FullVariable& x, std::vector<double>* z,
                 std::vector<double>* l) {
  std::vector<double> Hz = MulR(p.H, x.z()), Gl = MulT(p.G, x.l()), Av = MulT(p.A, x.v()),
                      Gz = MulR(p.G, x.z());
  z->resize(p.nz);
  l->resize(p.nl);
  for (int i = 0; i < p.nz; i++) (*z)[i] = Hz[i] + p.f(i) + Gl[i] + Av[i];
  for (int i = 0; i < p.nl; i++) (*l)[i] = p.h(i) - Gz[i];
}

// which: 0 inner, 1 natural, 2 penalised natural
ENTRY residual_def(int kind, int a, int b, int c, int d, int which, int concrete) {
  Prob p(kind, a, b, c, d, concrete);
  FullVariable x(p.nz, p.nl, p.nv), xb(p.nz, p.nl, p.nv);
  Point(p, &x, &xb);
  FullResidual r(p.nz, p.nl, p.nv);
  r.LinkData(p.data.get());
  double alpha = sx_real("alpha"), sigma = sx_real("sigma");
  sx_assume(alpha > 0);
  sx_assume(alpha < 1);
  sx_assume(sigma > 0);
  r.SetAlpha(alpha);
  r.Fill(sx_real("old"));
  std::vector<double> z, l;
  Rows(p, x, &z, &l);
  if (which == 0) {
    r.InnerResidual(x, xb, sigma);
    for (int i = 0; i < p.nz; i++) z[i] += sigma * (x.z()(i) - xb.z()(i));
    for (int i = 0; i < p.nl; i++) l[i] += sigma * (x.l()(i) - xb.l()(i));
  } else if (which == 1) {
    r.NaturalResidual(x);
  } else {
    r.PenalizedNaturalResidual(x);
  }
  sx_assert(r.z().size() == p.nz && r.l().size() == p.nl && r.v().size() == p.nv, "sizes");
  for (int i = 0; i < p.nz; i++) sx_assert_eq(r.z()(i), z[i], "stationarity residual");
  for (int i = 0; i < p.nl; i++) sx_assert_eq(r.l()(i), l[i], "equality residual");
  for (int i = 0; i < p.nv; i++) {
    double y = x.y()(i), v = x.v()(i), e;
    if (which == 0) {
      y += sigma * (v - xb.v()(i));
      e = alpha * (y + v - std::sqrt(y * y + v * v)) + (1.0 - alpha) * (Max0(y) * Max0(v));
    } else if (which == 1) {
      e = Min(y, v);
    } else {
      e = alpha * Min(y, v) + (1.0 - alpha) * (Max0(y) * Max0(v));
    }
    sx_assert_eq(r.v()(i), e, "complementarity residual");
  }
  if (p.nz + p.nl + p.nv <= 4) {
    Norms(r, "component norm squared");
  } else {
    // larger shapes: residual_norms
  }
  VectorXd rz = r.z(), rl = r.l(), rv = r.v();
  double n = 0, m = 0;
  bool small = p.nz + p.nl + p.nv <= 4;
  if (small) n = r.Norm(), m = r.Merit();
  r.Negate();
  for (int i = 0; i < p.nz; i++) sx_assert_eq(r.z()(i), -rz(i), "negated z");
  for (int i = 0; i < p.nl; i++) sx_assert_eq(r.l()(i), -rl(i), "negated l");
  for (int i = 0; i < p.nv; i++) sx_assert_eq(r.v()(i), -rv(i), "negated v");
  if (small) {
    sx_assert_eq(r.Norm(), n, "negation keeps the norm");
    sx_assert_eq(r.Merit(), m, "negation keeps the merit");
  }
  double t = sx_real("fill");
  r.Fill(t);
  for (int i = 0; i < p.nz; i++) sx_assert_eq(r.z()(i), t, "filled");
  for (int i = 0; i < p.nl; i++) sx_assert_eq(r.l()(i), t, "filled");
  for (int i = 0; i < p.nv; i++) sx_assert_eq(r.v()(i), t, "filled");
  sx_assert_eq(r.Norm() * r.Norm(), t * t * (p.nz + p.nl + p.nv), "filled norm squared");
  sx_reach("end");
}

// One residual object used for several problems, points and kinds of residual in turn;
// data also changes in place. which1-3: kinds of the three residuals.
static void Once(FullResidual* r, const Prob& p, int which, bool norms) {
  FullVariable x(p.nz, p.nl, p.nv), xb(p.nz, p.nl, p.nv);
  Point(p, &x, &xb);
  // y = -3/4 v < 0 < v, so every branch is decided
  for (int i = 0; i < p.nv; i++) {
    double t = sx_real("t");
    sx_assume(t > 0);
    x.v()(i) = xb.v()(i) = t;
    x.y()(i) = -0.75 * t;
  }
  double alpha = sx_real("alpha"), sigma = sx_real("sigma");
  sx_assume(alpha > 0);
  sx_assume(alpha < 1);
  sx_assume(sigma > 0);
  r->SetAlpha(alpha);
  std::vector<double> z, l;
  Rows(p, x, &z, &l);
  if (which == 0) r->InnerResidual(x, xb, sigma);
  if (which == 1) r->NaturalResidual(x);
  if (which == 2) r->PenalizedNaturalResidual(x);
  for (int i = 0; i < p.nz; i++)
    sx_assert_eq(r->z()(i), z[i] + (which ? 0 : sigma * (x.z()(i) - xb.z()(i))), "stationarity residual");
  for (int i = 0; i < p.nl; i++)
    sx_assert_eq(r->l()(i), l[i] + (which ? 0 : sigma * (x.l()(i) - xb.l()(i))), "equality residual");
  for (int i = 0; i < p.nv; i++)
    sx_assert_eq(r->v()(i), (which == 0 ? -alpha : which == 1 ? -0.75 : -0.75 * alpha) * x.v()(i), "complementarity residual");
  if (norms) Norms(*r, "component norm squared");
}
ENTRY residual_relink(int kind, int a, int b, int c, int d, int concrete, int w1, int w2, int w3) {
  Prob p(kind, a, b, c, d, concrete);
  std::unique_ptr<Prob> q(new Prob(kind, a, b, c, d, concrete));
  FullResidual r(p.nz, p.nl, p.nv), s(p.nz, p.nl, p.nv);
  bool norms = p.nz + p.nl + p.nv <= 4;
  r.LinkData(p.data.get());
  s.LinkData(q->data.get());
  Once(&r, p, w1, norms);
  r.LinkData(q->data.get());  // another problem
  Once(&r, *q, w2, norms);
  Once(&s, *q, w1, norms);  // another residual object in between
  r.LinkData(p.data.get());
  if (kind == 0) {  // the first problem again, with other data
    double t = sx_real("t"), u = sx_real("u");
    p.f(p.nz - 1) += t;
    if (p.nl) p.h(0) -= u;
    p.H(0, 0) += u;
    if (p.nl) p.G(0, p.nz - 1) += t;
    p.A(p.nv - 1, 0) -= t;
  } else {
    MpcProblem& m = *p.mpc;
    double t = sx_real("t"), u = sx_real("u");
    m.q.data()[0] += t;
    m.r.data()[m.r.size() - 1] += u;
    m.c.data()[0] += t;
    m.x0(0) -= t;
    m.E.data()[0] += u;
    p.f = m.fv();
    p.h = m.hv();
    p.A = m.Am();
  }
  Once(&r, p, w3, norms);
  q.reset();
  q.reset(new Prob(kind, a, b, c, d, concrete));  // perhaps where the last one was
  r.LinkData(q->data.get());
  Once(&r, *q, w2, norms);
  sx_reach("end");
}

// Norms at larger shapes: all matrices are zero, so the rows are the entries of f,
// h and (for y = v) v. which as above.
ENTRY residual_norms(int nz, int nl, int nv, int which) {
  MatrixXd H = MatrixXd::Zero(nz, nz), G = MatrixXd::Zero(nl, nz), A = MatrixXd::Zero(nv, nz);
  VectorXd f = SymV("f", nz), h = SymV("h", nl), b = VectorXd::Zero(nv);
  fbstab::DenseData d(&H, &f, &G, &h, &A, &b);
  FullVariable x(nz, nl, nv), xb(nz, nl, nv);
  x.LinkData(&d);
  xb.LinkData(&d);
  // y = -3/4 v < 0 < v or y = v, so every branch is decided without splitting
  for (int i = 0; i < nv; i++) {
    double t = sx_real("v");
    sx_assume(t > 0);
    x.v()(i) = xb.v()(i) = t;
    x.y()(i) = -0.75 * t;
  }
  FullResidual r(nz, nl, nv);
  r.LinkData(&d);
  r.SetAlpha(0.5);
  if (which == 0) r.InnerResidual(x, xb, 0.125);
  if (which == 1) r.NaturalResidual(x);
  if (which == 2) r.PenalizedNaturalResidual(x);
  for (int i = 0; i < nv; i++)
    sx_assert_eq(r.v()(i), (which == 0 ? -0.5 : which == 1 ? -0.75 : -0.375) * x.v()(i), "complementarity residual");
  Norms(r, "component norm squared");
  r.Negate();
  Norms(r, "norms after negation");
  r.Fill(sx_real("fill"));
  Norms(r, "norms after filling");
  sx_reach("end");
}

// The penalised natural residual is zero iff (z,l,v,y) satisfies the KKT conditions
// with y in the role of b - A z; the inner residual at x = xbar vanishes with it.
ENTRY residual_kkt(int kind, int a, int b, int c, int d, int which) {
  Prob p(kind, a, b, c, d, 0);
  FullVariable x(p.nz, p.nl, p.nv), xb(p.nz, p.nl, p.nv);
  Point(p, &x, &xb);
  FullResidual r(p.nz, p.nl, p.nv);
  r.LinkData(p.data.get());
  double alpha = sx_real("alpha"), sigma = sx_real("sigma");
  sx_assume(alpha > 0);
  sx_assume(alpha < 1);
  sx_assume(sigma > 0);
  r.SetAlpha(alpha);
  xb.Copy(x);
  if (which == 0) r.InnerResidual(x, xb, sigma);
  if (which == 1) r.NaturalResidual(x);
  if (which == 2) r.PenalizedNaturalResidual(x);
  std::vector<double> z, l;
  Rows(p, x, &z, &l);
  bool zero = true;
  for (int i = 0; i < p.nz; i++)
    if (r.z()(i) != 0) zero = false;
  for (int i = 0; i < p.nl; i++)
    if (r.l()(i) != 0) zero = false;
  for (int i = 0; i < p.nv; i++)
    if (r.v()(i) != 0) zero = false;
  if (zero) {
    for (int i = 0; i < p.nz; i++) sx_assert_eq(z[i], 0.0, "stationarity holds");
    for (int i = 0; i < p.nl; i++) sx_assert_eq(l[i], 0.0, "equalities hold");
    for (int i = 0; i < p.nv; i++) {
      sx_assert_le(0.0, x.v()(i), "dual feasibility");
      sx_assert_le(0.0, x.y()(i), "inequalities hold");
      sx_assert_eq(x.v()(i) * x.y()(i), 0.0, "complementarity");
    }
    sx_reach("kkt");
  } else {
    bool kkt = true;
    for (int i = 0; i < p.nz; i++) kkt = kkt && z[i] == 0;
    for (int i = 0; i < p.nl; i++) kkt = kkt && l[i] == 0;
    for (int i = 0; i < p.nv; i++)
      kkt = kkt && x.v()(i) >= 0 && x.y()(i) >= 0 && (x.v()(i) == 0 || x.y()(i) == 0);
    sx_assert(!kkt, "a nonzero residual means the KKT conditions fail");
    sx_reach("notkkt");
  }
}
