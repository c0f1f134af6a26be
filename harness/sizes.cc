// Input validation of FBstabDense and FBstabMpc: sizes of reference inputs are
// symbolic integers, owning inputs get one wrong dimension.
#include "fbstab/fbstab_dense.h"
#include "fbstab/fbstab_mpc.h"
#include "util.h"
using namespace fbstab;

struct Quiet {
  void Print(const char*) const {}
};
template <class S>
static void Cheap(S* s) {
  auto o = S::DefaultOptions();
  o.display_level = Display::OFF;
  o.max_prox_iters = 1;
  o.max_newton_iters = 1;
  o.max_inner_iters = 1;
  o.max_linesearch_iters = 1;
  s->UpdateOptions(o);
}
static int Dim(const char* n, int lo, int hi) {
  int v = sx_int(n);
  sx_assume(v >= lo);
  sx_assume(v <= hi);
  return v;
}
typedef Eigen::Map<MatrixXd> MM;
typedef Eigen::Map<VectorXd> MV;

// Construction throws a runtime_error exactly for inadmissible sizes.
ENTRY dense_ctor(int part) {
  int nz = sx_int("nz"), nl = sx_int("nl"), nv = sx_int("nv");
  bool ok = nz > 0 & nl >= 0 & nv > 0;
  if (part == 0) {
    sx_assume(!ok);
    sx_assume(nz <= 4);
    sx_assume(nl <= 4);
    sx_assume(nv <= 4);
    sx_assert(Threw([&] { FBstabDense s(nz, nl, nv); }) == 1, "inadmissible sizes throw runtime_error");
  } else {
    sx_assume(ok);
    sx_assume(nz <= 3);
    sx_assume(nl <= 2);
    sx_assume(nv <= 3);
    sx_assert(Threw([&] { FBstabDense s(nz, nl, nv); }) == 0, "admissible sizes do not throw");
  }
  sx_reach("end");
}
ENTRY mpc_ctor(int part, int vec) {
  int N = sx_int("N"), nx = sx_int("nx"), nu = sx_int("nu"), nc = sx_int("nc");
  bool ok = N > 0 & nx > 0 & nu > 0 & nc > 0;
  int want = part == 0;
  sx_assume(part == 0 ? !ok : ok);
  int hi = part == 0 ? 3 : 2;
  sx_assume(N <= hi);
  sx_assume(nx <= hi);
  sx_assume(nu <= hi);
  sx_assume(nc <= hi);
  if (!vec) {
    sx_assert(Threw([&] { FBstabMpc s(N, nx, nu, nc); }) == want, "construction throws iff sizes are inadmissible");
  } else {
    int a = sx_choose("N_", 0, hi), b = sx_choose("nx_", 0, hi), c = sx_choose("nu_", 0, hi), d = sx_choose("nc_", 0, hi);
    Eigen::Vector4d t(a, b, c, d);
    int w = !(a > 0 && b > 0 && c > 0 && d > 0);
    sx_assert(Threw([&] { FBstabMpc s(t); }) == w, "construction from a vector throws iff sizes are inadmissible");
  }
  sx_reach("end");
}

static double Pat(int i) { return (i % 5) - 1.5; }
static double buf[12][64];
static void Touch() {
  for (int k = 0; k < 12; k++)
    for (int i = 0; i < 64; i++) buf[k][i] = Pat(i + k);
}
static double gz[64], gl[64], gv[64], gy[64];
static void Guess() {
  for (int i = 0; i < 64; i++) gz[i] = gl[i] = gv[i] = gy[i] = 0.25 * i - 1;
}
static void Untouched() {
  for (int i = 0; i < 64; i++)
    sx_assert(gz[i] == 0.25 * i - 1 && gl[i] == gz[i] && gv[i] == gz[i] && gy[i] == gz[i], "a rejected guess is unchanged");
}

// Every combination of sizes up to hi of all reference inputs (part 0) or of the
// guess (part 1) against a solver of size (nz, nl, nv).
ENTRY dense_sizes(int nz, int nl, int nv, int part, int hi) {
  Touch();
  Guess();
  FBstabDense s(nz, nl, nv);
  Cheap(&s);
  int hr = nz, hc = nz, gr = nl, gc = nz, ar = nv, ac = nz, f = nz, h = nl, b = nv;
  int z = nz, l = nl, v = nv, y = nv;
  if (part == 0) {
    hr = Dim("Hr", 0, hi), hc = Dim("Hc", 0, hi), gr = Dim("Gr", 0, hi), gc = Dim("Gc", 0, hi);
    ar = Dim("Ar", 0, hi), ac = Dim("Ac", 0, hi), f = Dim("f", 0, hi), h = Dim("h", 0, hi), b = Dim("b", 0, hi);
  } else {
    z = Dim("z", 0, hi), l = Dim("l", 0, hi), v = Dim("v", 0, hi), y = Dim("y", 0, hi);
  }
  // A positive definite H when the sizes are right
  for (int j = 0; j < nz; j++)
    for (int i = 0; i < nz; i++) buf[0][j * nz + i] = i == j ? 2 : 0;
  MM H(buf[0], hr, hc), G(buf[1], gr, gc), A(buf[2], ar, ac);
  MV F(buf[3], f), h_(buf[4], h), B(buf[5], b);
  MV Z(gz, z), L(gl, l), V(gv, v), Y(gy, y);
  bool ok = (hr == nz) & (hc == nz) & (gr == nl) & (gc == nz) & (ar == nv) & (ac == nz) & (f == nz) & (h == nl) & (b == nv) &
            (z == nz) & (l == nl) & (v == nv) & (y == nv);
  FBstabDense::ProblemDataRef qp(&H, &F, &G, &h_, &A, &B);
  FBstabDense::VariableRef x(&Z, &L, &V, &Y);
  int t = Threw([&] { s.Solve(qp, &x, Quiet()); });
  sx_assert(t != 2, "only runtime_error");
  if (t) {
    sx_assert(!ok, "consistent sizes are accepted");
    Untouched();
    sx_reach("rejected");
  } else {
    sx_assert(ok, "inconsistent sizes are rejected");
    sx_reach("accepted");
  }
}

// which: 0 all lengths, 1 rows and columns of Q,R,S,q,r and x0, 2 of A,B,c,E,L,d,
// 3 the guess
ENTRY mpc_sizes(int N, int nx, int nu, int nc, int which, int hi) {
  Touch();
  Guess();
  FBstabMpc s(N, nx, nu, nc);
  Cheap(&s);
  static const char* nm[] = {"Q", "R", "S", "q", "r", "A", "B", "c", "E", "L", "d"};
  int len[11], r[11], c[11], x0 = nx;
  for (int k = 0; k < 11; k++) len[k] = k >= 5 && k <= 7 ? N : N + 1;
  const int rr[] = {nx, nu, nu, nx, nu, nx, nx, nx, nc, nc, nc};
  const int cc[] = {nx, nu, nx, 1, 1, nx, nu, 1, nx, nu, 1};
  for (int k = 0; k < 11; k++) r[k] = rr[k], c[k] = cc[k];
  bool ok = true;
  for (int k = 0; k < 11; k++) {
    char t[8] = {nm[k][0], 0, 0};
    if (which == 0) {
      t[1] = 'n';
      int v = Dim(t, 1, N + 2);
      ok = ok & (v == len[k]);
      len[k] = v;
    } else if (which == (k < 5 ? 1 : 2)) {
      t[1] = 'r';
      int v = Dim(t, 1, hi);
      ok = ok & (v == r[k]);
      r[k] = v;
      t[1] = 'c';
      v = Dim(t, 1, hi);
      ok = ok & (v == c[k]);
      c[k] = v;
    }
  }
  if (which == 1) {
    x0 = Dim("x0", 0, hi);
    ok = ok & (x0 == nx);
  }
  int z = (N + 1) * (nx + nu), l = (N + 1) * nx, v = (N + 1) * nc, y = v;
  if (which == 3) {
    int a = Dim("z", 0, 40), b = Dim("l", 0, 40), d = Dim("v", 0, 40), e = Dim("y", 0, 40);
    ok = (a == z) & (b == l) & (d == v) & (e == y);
    z = a, l = b, v = d, y = e;
  }
  // positive definite stage costs when the sizes are right
  for (int k = 0; k <= N; k++) {
    for (int j = 0; j < nx; j++)
      for (int i = 0; i < nx; i++) buf[0][k * nx * nx + j * nx + i] = i == j ? 2 : 0;
    for (int j = 0; j < nu; j++)
      for (int i = 0; i < nu; i++) buf[1][k * nu * nu + j * nu + i] = i == j ? 2 : 0;
    for (int i = 0; i < nx * nu; i++) buf[2][k * nx * nu + i] = 0;
  }
  FBstabMpc::ProblemDataRef qp;
  MapMatrixSequence* m[] = {&qp.Q, &qp.R, &qp.S, &qp.q, &qp.r, &qp.A, &qp.B, &qp.c, &qp.E, &qp.L, &qp.d};
  for (int k = 0; k < 11; k++) *m[k] = MapMatrixSequence(buf[k], len[k], r[k], c[k]);
  MV X0(buf[11], x0);
  qp.SetX0(X0);
  FBstabMpc::VariableRef x(MV(gz, z), MV(gl, l), MV(gv, v), MV(gy, y));
  int t = Threw([&] { s.Solve(qp, &x, Quiet()); });
  sx_assert(t != 2, "only runtime_error");
  if (t) {
    sx_assert(!ok, "consistent sizes are accepted");
    Untouched();
    sx_reach("rejected");
  } else {
    sx_assert(ok, "inconsistent sizes are rejected");
    sx_reach("accepted");
  }
}

// A consistent problem and guess of every size up to hi against one solver.
ENTRY mpc_other(int N, int nx, int nu, int nc, int hi, int guess) {
  Touch();
  Guess();
  FBstabMpc s(N, nx, nu, nc);
  Cheap(&s);
  int a = Dim("N", 1, hi), b = Dim("nx", 1, hi), d = Dim("nu", 1, hi), e = Dim("nc", 1, hi);
  FBstabMpc::ProblemDataRef qp;
  MapMatrixSequence* m[] = {&qp.Q, &qp.R, &qp.S, &qp.q, &qp.r, &qp.A, &qp.B, &qp.c, &qp.E, &qp.L, &qp.d};
  const int rr[] = {b, d, d, b, d, b, b, b, e, e, e};
  const int cc[] = {b, d, b, 1, 1, b, d, 1, b, d, 1};
  for (int k = 0; k < 11; k++)
    *m[k] = MapMatrixSequence(buf[k], k >= 5 && k <= 7 ? a : a + 1, rr[k], cc[k]);
  for (int i = 0; i < 64; i++) buf[0][i] = buf[1][i] = 0, buf[2][i] = 0;
  MV X0(buf[11], b);
  qp.SetX0(X0);
  int p = guess ? a : N, q = guess ? b : nx, u = guess ? d : nu, w = guess ? e : nc;
  FBstabMpc::VariableRef x(MV(gz, (p + 1) * (q + u)), MV(gl, (p + 1) * q), MV(gv, (p + 1) * w), MV(gy, (p + 1) * w));
  bool ok = (a == N) & (b == nx) & (d == nu) & (e == nc);
  int t = Threw([&] { s.Solve(qp, &x, Quiet()); });
  sx_assert(t != 2, "only runtime_error");
  if (t) {
    sx_assert(!ok, "a problem of the solver's size is accepted");
    Untouched();
    sx_reach("rejected");
  } else {
    sx_assert(ok, "a problem of another size is rejected");
    sx_reach("accepted");
  }
}

// Owning inputs with one wrong dimension; the solver stays usable.
static void FillAll(FBstabDense::ProblemData* p) {
  for (int i = 0; i < p->H.size(); i++) p->H.data()[i] = 0;
  for (int i = 0; i < p->H.rows() && i < p->H.cols(); i++) p->H(i, i) = 2;
  for (int i = 0; i < p->G.size(); i++) p->G.data()[i] = Pat(i);
  for (int i = 0; i < p->A.size(); i++) p->A.data()[i] = Pat(i + 1);
  for (int i = 0; i < p->f.size(); i++) p->f(i) = Pat(i + 2);
  for (int i = 0; i < p->h.size(); i++) p->h(i) = Pat(i + 3);
  for (int i = 0; i < p->b.size(); i++) p->b(i) = Pat(i + 4);
}
ENTRY dense_owning(int nz, int nl, int nv) {
  FBstabDense s(nz, nl, nv);
  Cheap(&s);
  int w = sx_choose("dim", 0, 13), k = sx_choose("delta", 0, 2);
  int dl = k == 0 ? -1 : k == 1 ? 1 : 4;
  int d[13] = {nz, nz, nl, nz, nv, nz, nz, nl, nv, nz, nl, nv, nv};
  if (w < 13) d[w] += dl;
  if (w < 13 && d[w] < 0) return;
  FBstabDense::ProblemData p;
  p.H.resize(d[0], d[1]);
  p.G.resize(d[2], d[3]);
  p.A.resize(d[4], d[5]);
  p.f.resize(d[6]);
  p.h.resize(d[7]);
  p.b.resize(d[8]);
  FillAll(&p);
  FBstabDense::Variable x(nz, nl, nv);
  x.z.resize(d[9]);
  x.l.resize(d[10]);
  x.v.resize(d[11]);
  x.y.resize(d[12]);
  for (auto* t : {&x.z, &x.l, &x.v, &x.y})
    for (int i = 0; i < t->size(); i++) (*t)(i) = i + 0.5;
  int t = Threw([&] { s.Solve(p, &x, Quiet()); });
  sx_assert(t == (w < 13 ? 1 : 0), "one wrong dimension is rejected with runtime_error, none is accepted");
  if (t) {
    for (auto* g : {&x.z, &x.l, &x.v, &x.y})
      for (int i = 0; i < g->size(); i++) sx_assert((*g)(i) == i + 0.5, "a rejected guess is unchanged");
    FBstabDense::ProblemData ok(nz, nl, nv);
    FillAll(&ok);
    FBstabDense::Variable x2(nz, nl, nv);
    sx_assert(Threw([&] { s.Solve(ok, &x2, Quiet()); }) == 0, "the solver stays usable");
    sx_reach("rejected");
  } else {
    sx_reach("accepted");
  }
}
static MatrixSequence Seq(int len, int r, int c, int k, bool diag) {
  MatrixSequence m(len, r, c);
  for (int q = 0; q < len; q++)
    for (int j = 0; j < c; j++)
      for (int i = 0; i < r; i++) m(q)(i, j) = diag ? (i == j ? 2 : 0) : Pat(q + i + 2 * j + k);
  return m;
}
ENTRY mpc_owning(int N, int nx, int nu, int nc) {
  FBstabMpc s(N, nx, nu, nc);
  Cheap(&s);
  int w = sx_choose("dim", 0, 38), k = sx_choose("delta", 0, 1);
  int dl = k == 0 ? -1 : 1;
  const int rr[] = {nx, nu, nu, nx, nu, nx, nx, nx, nc, nc, nc};
  const int cc[] = {nx, nu, nx, 1, 1, nx, nu, 1, nx, nu, 1};
  int d[38];
  for (int i = 0; i < 11; i++) {
    d[3 * i] = i >= 5 && i <= 7 ? N : N + 1;
    d[3 * i + 1] = rr[i];
    d[3 * i + 2] = cc[i];
  }
  d[33] = nx;
  d[34] = (N + 1) * (nx + nu);
  d[35] = (N + 1) * nx;
  d[36] = d[37] = (N + 1) * nc;
  if (w < 38) d[w] += dl;
  if (w < 33 && w % 3 && d[w] <= 0) return;
  FBstabMpc::ProblemData p;
  MatrixSequence* m[] = {&p.Q, &p.R, &p.S, &p.q, &p.r, &p.A, &p.B, &p.c, &p.E, &p.L, &p.d};
  for (int i = 0; i < 11; i++) {
    *m[i] = Seq(d[3 * i], d[3 * i + 1], d[3 * i + 2], i, i < 2);
    if (i == 2)
      for (int q = 0; q < p.S.size(); q++) p.S.data()[q] = 0;
  }
  p.x0.resize(d[33]);
  for (int i = 0; i < d[33]; i++) p.x0(i) = Pat(i);
  FBstabMpc::Variable x(N, nx, nu, nc);
  x.z.resize(d[34]);
  x.l.resize(d[35]);
  x.v.resize(d[36]);
  x.y.resize(d[37]);
  for (auto* t : {&x.z, &x.l, &x.v, &x.y})
    for (int i = 0; i < t->size(); i++) (*t)(i) = i + 0.5;
  int t = Threw([&] { s.Solve(p, &x, Quiet()); });
  sx_assert(t == (w < 38 ? 1 : 0), "one wrong dimension is rejected with runtime_error, none is accepted");
  if (t) {
    for (auto* g : {&x.z, &x.l, &x.v, &x.y})
      for (int i = 0; i < g->size(); i++) sx_assert((*g)(i) == i + 0.5, "a rejected guess is unchanged");
    sx_reach("rejected");
  } else {
    sx_reach("accepted");
  }
}
// An empty (default) problem is rejected.
ENTRY mpc_empty(int k) {
  FBstabMpc s(2, 2, 1, 1);
  Cheap(&s);
  FBstabMpc::ProblemData p;
  p.x0 = VectorXd::Zero(2);
  FBstabMpc::Variable x(2, 2, 1, 1);
  if (k == 0) {
    sx_assert(Threw([&] { s.Solve(p, &x, Quiet()); }) == 1, "an empty problem is rejected");
  } else {
    FBstabMpc::ProblemDataRef q;
    q.SetX0(p.x0);
    sx_assert(Threw([&] { s.Solve(q, &x, Quiet()); }) == 1, "an empty reference problem is rejected");
  }
  sx_reach("end");
}
// Null inputs of the dense problem data.
ENTRY dense_null() {
  MatrixXd H = MatrixXd::Identity(2, 2), G(1, 2), A(1, 2);
  VectorXd f(2), h(1), b(1);
  G.setZero();
  A.setZero();
  f.setZero();
  h.setZero();
  b.setZero();
  int w = sx_choose("null", 0, 6);
  const MatrixXd *pH = w == 0 ? nullptr : &H, *pG = w == 2 ? nullptr : &G, *pA = w == 4 ? nullptr : &A;
  const VectorXd *pf = w == 1 ? nullptr : &f, *ph = w == 3 ? nullptr : &h, *pb = w == 5 ? nullptr : &b;
  sx_assert(Threw([&] { DenseData d(pH, pf, pG, ph, pA, pb); }) == (w < 6), "null inputs throw runtime_error");
  sx_reach("end");
}

// The problem data objects on their own: construction throws a runtime_error exactly
// for sizes that do not fit together, whatever they are, and reports the sizes.
ENTRY dense_data(int hi) {
  Touch();
  int hr = Dim("Hr", 0, hi), hc = Dim("Hc", 0, hi), gr = Dim("Gr", 0, hi), gc = Dim("Gc", 0, hi);
  int ar = Dim("Ar", 0, hi), ac = Dim("Ac", 0, hi), f = Dim("f", 1, hi), h = Dim("h", 0, hi), b = Dim("b", 0, hi);
  MM H(buf[0], hr, hc), G(buf[1], gr, gc), A(buf[2], ar, ac);
  MV F(buf[3], f), h_(buf[4], h), B(buf[5], b);
  bool ok = (hr == f) & (hc == f) & (gr == h) & (gc == f) & (ar == b) & (ac == f);
  int nz = 0, nl = 0, nv = 0;
  int t = Threw([&] {
    DenseData d(&H, &F, &G, &h_, &A, &B);
    nz = d.nz();
    nl = d.nl();
    nv = d.nv();
  });
  sx_assert(t != 2, "only runtime_error");
  if (t) {
    sx_assert(!ok, "consistent problem data is accepted");
    sx_reach("rejected");
  } else {
    sx_assert(ok, "inconsistent problem data is rejected");
    sx_assert(nz == f && nl == h && nv == b, "the problem's sizes");
    sx_reach("accepted");
  }
}
// part 0: lengths and the rows and columns of Q, R, S, q, r; part 1: rows and columns of
// A, B, c, E, L, d and the length of x0
ENTRY mpc_data(int N, int nx, int nu, int nc, int part, int hi) {
  Touch();
  static const char* nm[] = {"Q", "R", "S", "q", "r", "A", "B", "c", "E", "L", "d"};
  int len[11], r[11], c[11], x0 = nx;
  const int rr[] = {nx, nu, nu, nx, nu, nx, nx, nx, nc, nc, nc};
  const int cc[] = {nx, nu, nx, 1, 1, nx, nu, 1, nx, nu, 1};
  for (int k = 0; k < 11; k++) {
    len[k] = k >= 5 && k <= 7 ? N : N + 1;
    r[k] = rr[k];
    c[k] = cc[k];
    char t[8] = {nm[k][0], 0, 0};
    if (part == 0) {
      t[1] = 'n';
      len[k] = Dim(t, 1, N + 2);
    }
    if (part == (k < 5 ? 0 : 1)) {
      t[1] = 'r';
      r[k] = Dim(t, 1, hi);
      t[1] = 'c';
      c[k] = Dim(t, 1, hi);
    }
  }
  if (part == 1) x0 = Dim("x0", 0, hi);
  // consistent: the sizes are those of some problem
  int n = len[5], a = r[0], b = r[1], e = r[8];
  bool ok = n >= 1 & x0 == a;
  const int wr[] = {a, b, b, a, b, a, a, a, e, e, e};
  const int wc[] = {a, b, a, 1, 1, a, b, 1, a, b, 1};
  for (int k = 0; k < 11; k++) ok = ok & (len[k] == (k >= 5 && k <= 7 ? n : n + 1)) & (r[k] == wr[k]) & (c[k] == wc[k]);
  MapMatrixSequence m[11];
  for (int k = 0; k < 11; k++) m[k] = MapMatrixSequence(buf[k], len[k], r[k], c[k]);
  MV X0(buf[11], x0);
  int dims[4] = {0, 0, 0, 0};
  int t = Threw([&] {
    MpcData d(m, m + 1, m + 2, m + 3, m + 4, m + 5, m + 6, m + 7, m + 8, m + 9, m + 10, &X0);
    dims[0] = d.N();
    dims[1] = d.nx();
    dims[2] = d.nu();
    dims[3] = d.nc();
  });
  sx_assert(t != 2, "only runtime_error");
  if (t) {
    sx_assert(!ok, "consistent problem data is accepted");
    sx_reach("rejected");
  } else {
    sx_assert(ok, "inconsistent problem data is rejected");
    sx_assert(dims[0] == n && dims[1] == a && dims[2] == b && dims[3] == e, "the problem's sizes");
    sx_reach("accepted");
  }
}

// Owning and reference forms of the same data, right or wrong, are treated alike (C16).
ENTRY dense_kinds_sizes(int nz, int nl, int nv) {
  int w = sx_choose("dim", 0, 9), w2 = sx_choose("dim2", 0, 9);
  if (w2 < w || (w2 == w && w != 9)) return;
  int d[10] = {nz, nz, nl, nz, nv, nz, nz, nl, nv, 0};
  d[w] += sx_choose("delta", 0, 1) ? 1 : -1;
  if (w2 != 9) d[w2] += sx_choose("delta2", 0, 1) ? 1 : -1;
  for (int i = 0; i < 9; i++)
    if (d[i] < 0) return;
  FBstabDense::ProblemData p;
  p.H.resize(d[0], d[1]);
  p.G.resize(d[2], d[3]);
  p.A.resize(d[4], d[5]);
  p.f.resize(d[6]);
  p.h.resize(d[7]);
  p.b.resize(d[8]);
  FillAll(&p);
  MM H(p.H.data(), d[0], d[1]), G(p.G.data(), d[2], d[3]), A(p.A.data(), d[4], d[5]);
  MV F(p.f.data(), d[6]), h(p.h.data(), d[7]), b(p.b.data(), d[8]);
  FBstabDense::ProblemDataRef ref(&H, &F, &G, &h, &A, &b);
  FBstabDense s(nz, nl, nv), s2(nz, nl, nv);
  Cheap(&s);
  Cheap(&s2);
  FBstabDense::Variable x(nz, nl, nv), y(nz, nl, nv);
  SolverOut o, q;
  int t = Threw([&] { o = s.Solve(p, &x, Quiet()); }), u = Threw([&] { q = s2.Solve(ref, &y, Quiet()); });
  sx_assert(t == u, "reference data is accepted exactly when owning data is");
  sx_assert(t == (w < 9), "data of other sizes is rejected");
  if (!t) {
    sx_assert(o.eflag == q.eflag, "same verdict");
    sx_assert_eq(o.residual, q.residual, "same residual");
    for (int i = 0; i < nz; i++) sx_assert_eq(x.z(i), y.z(i), "same solution");
    sx_reach("accepted");
  } else {
    sx_reach("rejected");
  }
}
ENTRY mpc_kinds_sizes(int N, int nx, int nu, int nc) {
  const int rr[] = {nx, nu, nu, nx, nu, nx, nx, nx, nc, nc, nc};
  const int cc[] = {nx, nu, nx, 1, 1, nx, nu, 1, nx, nu, 1};
  int how = sx_choose("how", 0, 3);  // right, one wrong dimension, transposed, length and rows exchanged
  int w = how == 0 ? 0 : sx_choose("dim", 0, how == 1 ? 33 : 10);
  int d[34];
  for (int i = 0; i < 11; i++) {
    d[3 * i] = i >= 5 && i <= 7 ? N : N + 1;
    d[3 * i + 1] = rr[i];
    d[3 * i + 2] = cc[i];
  }
  d[33] = nx;
  if (how == 1) d[w] += sx_choose("delta", 0, 1) ? 1 : -1;
  if (how == 2) std::swap(d[3 * w + 1], d[3 * w + 2]);
  if (how == 3) std::swap(d[3 * w], d[3 * w + 1]);
  bool ok = d[33] == nx;
  for (int i = 0; i < 11; i++) {
    if (d[3 * i] <= 0 || d[3 * i + 1] <= 0 || d[3 * i + 2] <= 0) return;
    ok = ok && d[3 * i] == (i >= 5 && i <= 7 ? N : N + 1) && d[3 * i + 1] == rr[i] && d[3 * i + 2] == cc[i];
  }
  FBstabMpc::ProblemData p;
  MatrixSequence* m[] = {&p.Q, &p.R, &p.S, &p.q, &p.r, &p.A, &p.B, &p.c, &p.E, &p.L, &p.d};
  FBstabMpc::ProblemDataRef ref;
  MapMatrixSequence* n[] = {&ref.Q, &ref.R, &ref.S, &ref.q, &ref.r, &ref.A, &ref.B, &ref.c, &ref.E, &ref.L, &ref.d};
  for (int i = 0; i < 11; i++) {
    *m[i] = Seq(d[3 * i], d[3 * i + 1], d[3 * i + 2], i, i < 2);
    if (i == 2)
      for (int q = 0; q < p.S.size(); q++) p.S.data()[q] = 0;
    *n[i] = MapMatrixSequence(m[i]->data(), d[3 * i], d[3 * i + 1], d[3 * i + 2]);
  }
  p.x0.resize(d[33]);
  for (int i = 0; i < d[33]; i++) p.x0(i) = Pat(i);
  MV X0(p.x0.data(), d[33]);
  ref.SetX0(X0);
  FBstabMpc s(N, nx, nu, nc), s2(N, nx, nu, nc);
  Cheap(&s);
  Cheap(&s2);
  FBstabMpc::Variable x(N, nx, nu, nc), y(N, nx, nu, nc);
  SolverOut o, q;
  int t = Threw([&] { o = s.Solve(p, &x, Quiet()); }), u = Threw([&] { q = s2.Solve(ref, &y, Quiet()); });
  sx_assert(t == u, "reference data is accepted exactly when owning data is");
  sx_assert(t == !ok, "data of other sizes is rejected");
  if (!t) {
    sx_assert(o.eflag == q.eflag, "same verdict");
    sx_assert_eq(o.residual, q.residual, "same residual");
    for (int i = 0; i < (N + 1) * (nx + nu); i++) sx_assert_eq(x.z(i), y.z(i), "same solution");
    sx_reach("accepted");
  } else {
    sx_reach("rejected");
  }
}
