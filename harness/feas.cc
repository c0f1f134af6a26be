// FullFeasibility: a verdict is given exactly when its certificate holds.
#include "fbstab/components/full_feasibility.h"
#include "fbstab/components/full_variable.h"
#include "prob.h"
using namespace fbstab;

static double InfNorm(const std::vector<double>& a) {
  double m = 0;
  for (double x : a) m = Abs(x) > m ? Abs(x) : m;
  return m;
}
static std::vector<double> Vec(const VectorXd& a) {
  std::vector<double> r(a.size());
  for (int i = 0; i < a.size(); i++) r[i] = a(i);
  return r;
}

// One call on candidate x against the certificates written out with H, G, A, f, h, b.
static void Verdict(FullFeasibility* fc, const MatrixXd& H, const MatrixXd& G, const MatrixXd& A,
                    const VectorXd& f, const VectorXd& h, const VectorXd& b, const FullVariable& x,
                    double tol) {
  VectorXd z = x.z(), l = x.l(), v = x.v();
  typedef FullFeasibility::FeasibilityStatus S;
  S s = fc->CheckFeasibility(x, tol);
  bool dinf = s == S::DUAL_INFEASIBLE || s == S::BOTH;
  bool pinf = s == S::PRIMAL_INFEASIBLE || s == S::BOTH;
  std::vector<double> Az = MulR(A, z), Gz = MulR(G, z), Hz = MulR(H, z),
                      Av = MulT(A, v), Gl = MulT(G, l);
  double w = InfNorm(Vec(z)), u = InfNorm(Vec(v));
  double ul = InfNorm(Vec(l));
  if (ul > u) u = ul;
  double fz = Dot(f, z), q = Dot(b, v) + Dot(h, l);
  if (dinf) {
    for (double t : Az) sx_assert_le(t, tol * w, "dual certificate: A z <= 0");
    for (double t : Gz) sx_assert_le(Abs(t), tol * w, "dual certificate: G z = 0");
    for (double t : Hz) sx_assert_le(Abs(t), tol * w, "dual certificate: H z = 0");
    sx_assert(fz < 0, "dual certificate: f'z < 0");
    sx_assert(w > 0, "dual certificate: z is not zero");
    sx_reach("dual");
  } else {
    bool cert = fz < 0 && w > 1e-13;
    for (double t : Az) cert = cert && t < tol * w;
    for (double t : Gz) cert = cert && Abs(t) < tol * w;
    for (double t : Hz) cert = cert && Abs(t) < tol * w;
    sx_assert(!cert, "a certificate of dual infeasibility is recognised");
  }
  if (pinf) {
    for (int i = 0; i < H.rows(); i++)
      sx_assert_le(Abs(Av[i] + Gl[i]), tol * u, "primal certificate: A'v + G'l = 0");
    sx_assert(q < 0, "primal certificate: b'v + h'l < 0");
    for (int i = 0; i < A.rows(); i++) sx_assert_le(-v(i), tol * u, "primal certificate: v >= 0");
    sx_reach("primal");
  } else {
    bool cert = q < 0;
    for (int i = 0; i < H.rows(); i++) cert = cert && Abs(Av[i] + Gl[i]) < tol * u;
    for (int i = 0; i < A.rows(); i++) cert = cert && v(i) >= 0;
    sx_assert(!cert, "a certificate of primal infeasibility is recognised");
  }
  for (int i = 0; i < H.rows(); i++) sx_assert_eq(x.z()(i), z(i), "operand unchanged");
  for (int i = 0; i < G.rows(); i++) sx_assert_eq(x.l()(i), l(i), "operand unchanged");
  for (int i = 0; i < A.rows(); i++) sx_assert_eq(x.v()(i), v(i), "operand unchanged");
}

// data: 0 all symbolic, 1 concrete matrices; side: 0 dual part only (v = l = 0),
// 1 primal part only (z = 0), 2 both
ENTRY feas(int kind, int a, int b, int c, int d, int concrete, int side) {
  Prob p(kind, a, b, c, d, concrete);
  FullVariable x(p.nz, p.nl, p.nv);
  x.LinkData(p.data.get());
  if (side != 1) x.z() = SymV("z", p.nz);
  if (side != 0) {
    x.l() = SymV("l", p.nl);
    x.v() = SymV("v", p.nv);
  }
  // the margin plays no part in the certificates
  sx_poison(x.y().data(), sizeof(double) * p.nv);
  double tol = sx_real("tol");
  sx_assume(tol >= 1e-14);
  FullFeasibility fc(p.nz, p.nl, p.nv);
  fc.LinkData(p.data.get());
  Verdict(&fc, p.H, p.G, p.A, p.f, p.h, p.b, x, tol);
  sx_reach("end");
}

// One checker used for two problems in turn; candidates are what varies least: the
// first problem is checked at a fixed point that is a certificate of nothing.
ENTRY feas_relink(int kind, int a, int b, int c, int d, int concrete, int side) {
  std::unique_ptr<Prob> p(new Prob(kind, a, b, c, d, 1));
  FullVariable x(p->nz, p->nl, p->nv);
  FullFeasibility fc(p->nz, p->nl, p->nv);
  x.LinkData(p->data.get());
  fc.LinkData(p->data.get());
  x.z().setConstant(1);
  x.l().setConstant(2);
  x.v().setConstant(3);
  fc.CheckFeasibility(x, 1e-8);
  p.reset();
  p.reset(new Prob(kind, a, b, c, d, concrete));
  x.LinkData(p->data.get());
  fc.LinkData(p->data.get());
  x.z() = side != 1 ? SymV("z", p->nz) : VectorXd(VectorXd::Zero(p->nz));
  x.l() = side != 0 ? SymV("l", p->nl) : VectorXd(VectorXd::Zero(p->nl));
  x.v() = side != 0 ? SymV("v", p->nv) : VectorXd(VectorXd::Zero(p->nv));
  Verdict(&fc, p->H, p->G, p->A, p->f, p->h, p->b, x, 1.0 / 1024);
  sx_reach("end");
}

// Larger problems: concrete data and a candidate for which both certificates hold,
// with an arbitrary number added to any single entry of either; the checker is used
// before and after on other candidates. off, step: which entries (all for 0, 1).
ENTRY feas_large(int kind, int a, int b, int c, int d, int off, int step) {
  double tol = 1.0 / 1024;
  std::vector<std::pair<double*, int>> parts;
  MatrixXd H, G, A;
  VectorXd f, h, bb;
  std::unique_ptr<MpcProblem> m;
  std::unique_ptr<Data> data;
  int nz, nl, nv;
  VectorXd z, l, v;
  if (kind == 0) {
    nz = a;
    nl = b;  // < nz
    nv = c;  // odd
    H = MatrixXd::Zero(nz, nz);
    G = MatrixXd::Zero(nl, nz);
    A = MatrixXd::Zero(nv, nz);
    f = VectorXd::Constant(nz, -1);
    h = VectorXd::Constant(nl, 0.125);
    bb = VectorXd::Constant(nv, -0.5);
    for (int i = 0; i < nl; i++) G(i, i) = 1, G(i, i + 1) = -1;
    for (int i = 0; i < nv; i++) {
      int q = (i - 1) / 2 % (nz - 1);
      if (i == 0) {
        A(0, 0) = nl ? -1 : 0;
        A(0, nl) += nl ? 1 : 0;
      } else {
        A(i, q) = i % 2 ? 1 : -1;
        A(i, q + 1) = i % 2 ? -1 : 1;
      }
    }
    z = VectorXd::Ones(nz);
    l = VectorXd::Ones(nl);
    v = VectorXd::Ones(nv);
    data.reset(new DenseData(&H, &f, &G, &h, &A, &bb));
    parts = {{H.data(), nz * nz}, {G.data(), nl * nz}, {A.data(), nv * nz}, {f.data(), nz}, {h.data(), nl}, {bb.data(), nv}};
  } else {
    int N = a, nx = b, nu = c, nc = d;  // nu even, nc odd
    m.reset(new MpcProblem(N, nx, nu, nc));
    for (auto* s : {&m->Q, &m->R, &m->S, &m->q, &m->A, &m->B, &m->c, &m->E, &m->L}) MpcProblem::Zero(s);
    for (int i = 0; i < m->r.size(); i++) m->r.data()[i] = -1;
    for (int i = 0; i < m->d.size(); i++) m->d.data()[i] = 0.5;
    for (int i = 0; i < nx; i++) m->x0(i) = 0.125;
    for (int k = 0; k < N; k++) {
      auto Ak = m->A(k), Bk = m->B(k);
      for (int i = 0; i < nx; i++)
        for (int j = 0; j < nx; j++) Ak(i, j) = (i + j + k) % 3 - 1;
      for (int i = 0; i < nx; i++)
        for (int j = 0; j < nu; j++) Bk(i, j) = j % 2 ? -1 - i : 1 + i;
    }
    for (int k = 0; k <= N; k++) {
      auto Ek = m->E(k), Lk = m->L(k);
      for (int i = 0; i + 1 < nc; i++) {
        for (int j = 0; j < nx; j++) Ek(i, j) = i % 2 ? 1 : -1;
        for (int j = 0; j < nu; j++) Lk(i, j) = (i + j) % 2 ? 2 : -2;
      }
      for (int j = 0; j < nx; j++) Ek(nc - 1, j) = k == 0 ? 1 : 0;
    }
    nz = m->nz();
    nl = m->nl();
    nv = m->nv();
    z = VectorXd::Zero(nz);
    l = VectorXd::Zero(nl);
    v = VectorXd::Ones(nv);
    for (int k = 0; k <= N; k++)
      for (int i = 0; i < nu; i++) z(k * (nx + nu) + nx + i) = 1;
    for (int i = 0; i < nx; i++) l(i) = 1;
    data.reset(new MpcData(&m->Q, &m->R, &m->S, &m->q, &m->r, &m->A, &m->B, &m->c, &m->E, &m->L, &m->d, &m->x0));
    for (auto* s : {&m->Q, &m->R, &m->S, &m->q, &m->r, &m->A, &m->B, &m->c, &m->E, &m->L, &m->d})
      parts.push_back({s->data(), s->size()});
    parts.push_back({m->x0.data(), nx});
  }
  parts.push_back({z.data(), nz});
  parts.push_back({l.data(), nl});
  parts.push_back({v.data(), nv});
  FullVariable x(nz, nl, nv);
  x.LinkData(data.get());
  FullFeasibility fc(nz, nl, nv);
  fc.LinkData(data.get());
  auto check = [&](double s) {
    x.z() = s * z;
    x.l() = s * l;
    x.v() = s * v;
    if (m) H = m->Hm(), G = m->Gm(), A = m->Am(), f = m->fv(), h = m->hv(), bb = m->bv();
    Verdict(&fc, H, G, A, f, h, bb, x, tol);
  };
  sx_poison(x.y().data(), sizeof(double) * nv);
  check(4);
  x.z() = z;
  x.l() = l;
  x.v() = v;
  sx_assert(fc.CheckFeasibility(x, tol) == FullFeasibility::FeasibilityStatus::BOTH, "both certificates");
  int total = 0;
  for (auto& q : parts) total += q.second;
  int e = off + step * sx_choose("entry", 0, (total - off - 1) / step);
  for (size_t i = 0; i < parts.size(); i++) {
    if (e >= 0 && e < parts[i].second) {
      double* q = parts[i].first;
      q[e] += sx_real("change");
      if (kind == 0 && i == 0) q[e % nz * nz + e / nz] = q[e];  // H stays symmetric
      if (kind == 1 && i == 0) {
        int n = b * b, w = e / n * n, t = e % n;
        q[w + t % b * b + t / b] = q[e];
      }
      if (kind == 1 && i == 1) {
        int n = c * c, w = e / n * n, t = e % n;
        q[w + t % c * c + t / c] = q[e];
      }
    }
    e -= parts[i].second;
  }
  check(1);
  check(-1);
  check(0.25);
  sx_reach("end");
}
