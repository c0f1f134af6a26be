// Whole solves with the real components: history independence, equivalence of
// input kinds, warm starts, memory safety, instance isolation.
#include <cmath>

#include "fbstab/fbstab_dense.h"
#include "fbstab/fbstab_mpc.h"
#include "util.h"
using namespace fbstab;

struct Quiet {
  void Print(const char*) const {}
};
// The parts of one problem and guess, concrete or arbitrary.
// vary: 1 linear cost, 2 equality vectors, 4 inequality vectors, 8 primal guess and
// equality duals, 16 inequality duals, 32 matrices
struct Source {
  int vary, seed;
  double Mat(const char* nm, int i) {
    return vary & 32 ? sx_real(nm) : ((i * 7 + seed * 3 + 11) % 9 - 4) * 0.375;
  }
  double Vec(int bit, const char* nm, int i) {
    return vary & bit ? sx_real(nm) : ((i * 5 + seed * 7 + 3) % 11 - 5) * 0.625;
  }
  double Guess(int bit, const char* nm, int i) {
    return vary & bit ? sx_real(nm) : ((i * 3 + seed) % 5 - 2) * 0.25;
  }
};

// One arm per problem class with the same interface.
struct Dense {
  typedef FBstabDense Solver;
  typedef FBstabDense::Variable Var;
  FBstabDense::ProblemData d;
  Var x;
  int nz, nl, nv;
  // type: 0 strictly convex, 1 singular Hessian, 2 primal infeasible, 3 dual
  // infeasible, 4 not a number in the Hessian
  Dense(int p, int q, int r, int, int type, int vary, int seed)
      : d(p, q, r), x(p, q, r), nz(p), nl(q), nv(r) {
    Source s{vary, seed};
    for (int j = 0; j < nz; j++)
      for (int i = 0; i <= j; i++) {
        double h = vary & 32 ? sx_real("H") : i == j ? (type == 1 && i == 0 ? 0 : i + 1 + (seed % 3)) : type == 0 ? 0.25 : 0;
        if (type == 3) h = 0;
        d.H(i, j) = d.H(j, i) = h;
      }
    if (type == 4) d.H(0, 0) = NAN;
    for (int i = 0; i < nl; i++)
      for (int j = 0; j < nz; j++) d.G(i, j) = type == 3 ? 0 : s.Mat("G", i + 2 * j + 1);
    for (int i = 0; i < nv; i++)
      for (int j = 0; j < nz; j++)
        d.A(i, j) = type == 2 ? (i == 0 && j == 0 ? 1 : i == 1 && j == 0 ? -1 : 0) : type == 3 ? (j == 0 ? 1 : 0) : s.Mat("A", 3 * i + j);
    for (int i = 0; i < nz; i++) d.f(i) = type == 3 ? 1 : type == 2 ? 0 : s.Vec(1, "f", i);
    for (int i = 0; i < nl; i++) d.h(i) = type == 3 ? 0 : s.Vec(2, "h", i + 1);
    for (int i = 0; i < nv; i++) d.b(i) = type == 2 ? -1 : type == 3 ? 5 : s.Vec(4, "b", i + 2) + (vary & 4 ? 0 : 2);
    for (int i = 0; i < nz; i++) x.z(i) = s.Guess(8, "z0", i);
    for (int i = 0; i < nl; i++) x.l(i) = s.Guess(8, "l0", i);
    for (int i = 0; i < nv; i++) x.v(i) = s.Guess(16, "v0", i);
    for (int i = 0; i < nv; i++) x.y(i) = 7 + i;
  }
  Solver* New() const { return new Solver(nz, nl, nv); }
  template <class OS>
  SolverOut Run(Solver* s, Var* v, const OS& os) const {
    return s->Solve(d, v, os);
  }
  typedef Eigen::Map<MatrixXd> MM;
  typedef Eigen::Map<VectorXd> MV;
  // Through a reference problem; part 1 of the guess is mapped as well.
  struct Ref {
    FBstabDense::ProblemDataRef r;
  };
  FBstabDense::ProblemDataRef MakeRef() {
    MM H(d.H.data(), nz, nz), G(d.G.data(), nl, nz), A(d.A.data(), nv, nz);
    MV f(d.f.data(), nz), h(d.h.data(), nl), b(d.b.data(), nv);
    return FBstabDense::ProblemDataRef(&H, &f, &G, &h, &A, &b);
  }
  static FBstabDense::VariableRef MakeVar(double* z, int nz, double* l, int nl, double* v, double* y, int nv) {
    MV Z(z, nz), L(l, nl), V(v, nv), Y(y, nv);
    return FBstabDense::VariableRef(&Z, &L, &V, &Y);
  }
  std::vector<std::pair<double*, int>> Parts() {
    return {{d.H.data(), nz * nz}, {d.G.data(), nl * nz}, {d.A.data(), nv * nz}, {d.f.data(), nz}, {d.h.data(), nl}, {d.b.data(), nv}};
  }
  VectorXd Margin(const VectorXd& z) const {
    VectorXd y(nv);
    for (int i = 0; i < nv; i++) {
      double s = 0;
      for (int j = 0; j < nz; j++) s += d.A(i, j) * z(j);
      y(i) = d.b(i) - s;
    }
    return y;
  }
};

struct Mpc {
  typedef FBstabMpc Solver;
  typedef FBstabMpc::Variable Var;
  FBstabMpc::ProblemData d;
  Var x;
  int N, nx, nu, nc, nz, nl, nv;
  Mpc(int p, int q, int r, int t, int type, int vary, int seed)
      : x(p, q, r, t), N(p), nx(q), nu(r), nc(t), nz((p + 1) * (q + r)), nl((p + 1) * q), nv((p + 1) * t) {
    Source s{vary, seed};
    d.Q = MatrixSequence(N + 1, nx, nx);
    d.R = MatrixSequence(N + 1, nu, nu);
    d.S = MatrixSequence(N + 1, nu, nx);
    d.q = MatrixSequence(N + 1, nx);
    d.r = MatrixSequence(N + 1, nu);
    d.A = MatrixSequence(N, nx, nx);
    d.B = MatrixSequence(N, nx, nu);
    d.c = MatrixSequence(N, nx);
    d.E = MatrixSequence(N + 1, nc, nx);
    d.L = MatrixSequence(N + 1, nc, nu);
    d.d = MatrixSequence(N + 1, nc);
    d.x0 = VectorXd(nx);
    for (int k = 0; k <= N; k++) {
      for (int j = 0; j < nx; j++)
        for (int i = 0; i < nx; i++) d.Q(k)(i, j) = type == 3 ? 0 : i == j ? 1 + i + k : 0;
      for (int j = 0; j < nu; j++)
        for (int i = 0; i < nu; i++) d.R(k)(i, j) = type == 1 || type == 3 ? 0 : i == j ? 2 - 0.5 * (k % 2) : 0;
      for (int j = 0; j < nx; j++)
        for (int i = 0; i < nu; i++) d.S(k)(i, j) = type == 0 ? 0.125 * ((i + j + k) % 3 - 1) : 0;
      for (int i = 0; i < nx; i++) d.q(k)(i) = s.Vec(1, "q", i + k);
      for (int i = 0; i < nu; i++) d.r(k)(i) = type == 3 ? 1 : s.Vec(1, "r", i + 2 * k + 1);
      for (int j = 0; j < nx; j++)
        for (int i = 0; i < nc; i++) d.E(k)(i, j) = type == 3 ? 0 : s.Mat("E", 2 * i + j + k);
      for (int j = 0; j < nu; j++)
        for (int i = 0; i < nc; i++) d.L(k)(i, j) = type == 2 ? 0 : type == 3 ? 1 : s.Mat("L", 2 * i + 3 * j + k + 1);
      for (int i = 0; i < nc; i++) d.d(k)(i) = type == 2 ? 10 : s.Vec(4, "d", i + k + 2) - (vary & 4 ? 0 : 3);
    }
    if (type == 2) {
      for (int k = 0; k <= N; k++) d.E(k).setZero();
    }
    for (int k = 0; k < N; k++) {
      for (int j = 0; j < nx; j++)
        for (int i = 0; i < nx; i++) d.A(k)(i, j) = s.Mat("A", i + 4 * j + k) + (i == j);
      for (int j = 0; j < nu; j++)
        for (int i = 0; i < nx; i++) d.B(k)(i, j) = type == 3 ? 0 : s.Mat("B", 3 * i + j + k + 2);
      for (int i = 0; i < nx; i++) d.c(k)(i) = s.Vec(2, "c", i + 3 * k);
    }
    if (type == 4) d.Q(0)(0, 0) = NAN;
    for (int i = 0; i < nx; i++) d.x0(i) = s.Vec(2, "x0", i + 4);
    for (int i = 0; i < nz; i++) x.z(i) = s.Guess(8, "z0", i);
    for (int i = 0; i < nl; i++) x.l(i) = s.Guess(8, "l0", i);
    for (int i = 0; i < nv; i++) x.v(i) = s.Guess(16, "v0", i);
    for (int i = 0; i < nv; i++) x.y(i) = 7 + i;
  }
  Solver* New() const { return new Solver(N, nx, nu, nc); }
  template <class OS>
  SolverOut Run(Solver* s, Var* v, const OS& os) const {
    return s->Solve(d, v, os);
  }
  typedef Eigen::Map<VectorXd> MV;
  FBstabMpc::ProblemDataRef MakeRef() {
    return FBstabMpc::ProblemDataRef(&d.Q, &d.R, &d.S, &d.q, &d.r, &d.A, &d.B, &d.c, &d.E, &d.L, &d.d, &d.x0);
  }
  static FBstabMpc::VariableRef MakeVar(double* z, int nz, double* l, int nl, double* v, double* y, int nv) {
    return FBstabMpc::VariableRef(MV(z, nz), MV(l, nl), MV(v, nv), MV(y, nv));
  }
  std::vector<std::pair<double*, int>> Parts() {
    return {{d.Q.data(), d.Q.size()}, {d.R.data(), d.R.size()}, {d.S.data(), d.S.size()}, {d.q.data(), d.q.size()},
            {d.r.data(), d.r.size()}, {d.A.data(), d.A.size()}, {d.B.data(), d.B.size()}, {d.c.data(), d.c.size()},
            {d.E.data(), d.E.size()}, {d.L.data(), d.L.size()}, {d.d.data(), d.d.size()}, {d.x0.data(), nx}};
  }
  VectorXd Margin(const VectorXd& z) const {
    VectorXd y(nv);
    for (int k = 0; k <= N; k++)
      for (int i = 0; i < nc; i++) {
        double s = 0;
        for (int j = 0; j < nx; j++) s += d.E(k)(i, j) * z(k * (nx + nu) + j);
        for (int j = 0; j < nu; j++) s += d.L(k)(i, j) * z(k * (nx + nu) + nx + j);
        y(k * nc + i) = -d.d(k)(i) - s;
      }
    return y;
  }
};

template <class S>
static typename S::Options Opts(int kind) {
  auto o = kind == 2 ? S::ReliableOptions() : S::DefaultOptions();
  o.display_level = Display::OFF;
  o.max_newton_iters = 8;
  o.max_prox_iters = 4;
  o.max_linesearch_iters = 4;
  if (kind == 1) {
    o.sigma0 = 1e-3;
    o.sigma_max = 1;
    o.alpha = 0.5;
    o.beta = 0.3;
    o.delta = 0.7;
    o.eta = 0.4;
    o.abs_tol = 1e-3;
    o.inner_tol_max = 1e-3;
    o.max_newton_iters = 3;
    o.nonmonotone_linesearch = false;
    o.check_feasibility = false;
  }
  return o;
}
// Options of the symbolic solves: few iterations.
template <class S>
static typename S::Options Small(int prox, int newton, int inner, int ls) {  // ls: + 10 no feasibility check, + 20 monotone
  auto o = S::DefaultOptions();
  o.display_level = Display::OFF;
  o.max_prox_iters = prox;
  o.max_newton_iters = newton;
  o.max_inner_iters = inner;
  o.max_linesearch_iters = ls % 10;
  if (ls / 10 % 2) o.check_feasibility = false;
  if (ls / 20) o.nonmonotone_linesearch = false;
  return o;
}
struct Outcome {
  int threw = 0;
  SolverOut o;
};
template <class P>
__attribute__((noinline)) static Outcome Go(const P& p, typename P::Solver* s, typename P::Var* x) {
  Outcome r;
  r.threw = Threw([&] { r.o = p.Run(s, x, Quiet()); });
  return r;
}
static void SameOut(const Outcome& a, const Outcome& b) {
  sx_assert(a.threw == b.threw, "same exception");
  if (a.threw) return;
  sx_assert(a.o.eflag == b.o.eflag, "same exit flag");
  sx_assert(a.o.newton_iters == b.o.newton_iters && a.o.prox_iters == b.o.prox_iters, "same iteration counts");
  sx_assert_eq(a.o.residual, b.o.residual, "same residual");
  sx_assert_eq(a.o.initial_residual, b.o.initial_residual, "same initial residual");
}
static void SameVec(const double* a, const double* b, int n, const char* m) {
  for (int i = 0; i < n; i++) sx_assert_eq(a[i], b[i], m);
}
template <class V, class W>
static void SameVar(const V& a, const W& b) {
  SameVec(a.z.data(), b.z.data(), a.z.size(), "same z");
  SameVec(a.l.data(), b.l.data(), a.l.size(), "same l");
  SameVec(a.v.data(), b.v.data(), a.v.size(), "same v");
  SameVec(a.y.data(), b.y.data(), a.y.size(), "same y");
}
static void Note(const Outcome& r) {
  static const char* n[] = {"success", "divergence", "maxiter", "primal", "dual", "both"};
  sx_reach(r.threw ? "threw" : n[(int)r.o.eflag]);
}

// ---- C15
// A solver with the given history against a fresh one on an arbitrary problem.
// vary + 64: the history's problems and guesses live where the last one does.
template <class P>
static void History(int a, int b, int c, int e, int nh, int vary, int prox, int newton, int inner, int ls) {
  typedef typename P::Solver S;
  const bool inplace = vary & 64;
  P p(a, b, c, e, 1, vary & 63, 2);
  auto opt = Small<S>(prox, newton, inner, ls);
  std::unique_ptr<S> used(p.New()), fresh(p.New());
  const auto data = p.d;
  const typename P::Var guess = p.x;
  for (int k = 0; k < nh; k++) {
    int type = sx_choose("type", 0, 5), ok = k ? 2 : sx_choose("opts", 0, 2);
    used->UpdateOptions(Opts<S>(ok));
    P h(a, b, c, e, type % 5, 0, type == 5 ? 4 : 1 + k);
    if (type == 5) {
      h.x.z.resize(h.nz + 1);  // rejected
      h.x.z.setZero();
    }
    Outcome r;
    if (inplace && type != 5) {
      p.d = h.d;
      p.x = h.x;
      r = Go(p, used.get(), &p.x);
      p.d = data;
      p.x = guess;
    } else {
      r = Go(h, used.get(), &h.x);
    }
    if (type == 5) sx_assert(r.threw == 1, "rejected");
    Note(r);
  }
  used->UpdateOptions(opt);
  fresh->UpdateOptions(opt);
  typename P::Var x1 = p.x, x2 = p.x;
  Outcome r2 = Go(p, fresh.get(), &x2), r1 = Go(p, used.get(), inplace ? &p.x : &x1);
  SameOut(r1, r2);
  SameVar(inplace ? p.x : x1, x2);
  p.x = guess;
  // and once more on the same object
  typename P::Var x3 = p.x;
  Outcome r3 = Go(p, used.get(), &x3);
  SameOut(r3, r2);
  SameVar(x3, x2);
  sx_reach("end");
}
// nh: solves before the arbitrary one
ENTRY dense_history(int a, int b, int c, int nh, int vary, int prox, int newton, int inner, int ls) {
  History<Dense>(a, b, c, 0, nh, vary, prox, newton, inner, ls);
}
ENTRY mpc_history(int a, int b, int c, int d, int nh, int vary, int prox, int newton, int inner, int ls) {
  History<Mpc>(a, b, c, d, nh, vary, prox, newton, inner, ls);
}

// Many solves of all kinds in a row, then the comparison.
template <class P>
static void Many(int a, int b, int c, int e, int n) {
  typedef typename P::Solver S;
  auto opt = Small<S>(4, 8, 8, 4);
  P q(a, b, c, e, 1, 0, 2);
  std::unique_ptr<S> used(q.New());
  for (int k = 0; k < n; k++) {
    const int type = k % 6;
    used->UpdateOptions(k % 3 == 1 ? Opts<S>(k % 2) : opt);
    P h(a, b, c, e, type % 5, 0, 1 + k % 4);
    if (type == 5) {
      h.x.z.resize(h.nz + 1);  // rejected
      h.x.z.setZero();
    }
    Outcome r = Go(h, used.get(), &h.x);
    if (type == 5) sx_assert(r.threw == 1, "rejected");
    // what a new solver makes of it
    std::unique_ptr<S> fresh(q.New());
    used->UpdateOptions(opt);
    fresh->UpdateOptions(opt);
    P p(a, b, c, e, (k / 2) % 5, 0, 2 + k % 3);
    typename P::Var x1 = p.x, x2 = p.x;
    Outcome r1 = Go(p, used.get(), &x1), r2 = Go(p, fresh.get(), &x2);
    SameOut(r1, r2);
    SameVar(x1, x2);
  }
  sx_reach("end");
}
ENTRY dense_many(int a, int b, int c, int n) { Many<Dense>(a, b, c, 0, n); }
ENTRY mpc_many(int a, int b, int c, int d, int n) { Many<Mpc>(a, b, c, d, n); }

// ---- C12
// Options given to a solver object act as they do on the algorithm itself, built
// here from the components.
struct Count {
  mutable int n = 0, chars = 0;
  void Print(const char* t) const {
    n++;
    for (; *t; t++) chars++;
  }
};
template <class P, class LS, class MakeD, class MakeS>
static void Effect(const P& p, int group, int kind, MakeD data, MakeS mk) {
  typedef typename P::Solver S;
  auto o = Opts<S>(kind % 2);
  o.max_newton_iters = 1;
  o.max_prox_iters = 2;
  o.max_inner_iters = 1;
  o.max_linesearch_iters = 1;
  auto real = [](const char* n) {
    double v = sx_real(n);
    sx_assume(v == v);
    return v;
  };
  if (group <= 3) o.max_prox_iters = 1;
  if (group == 6 || group == 11 || group == 12) o.max_inner_iters = 4, o.max_newton_iters = 12, o.max_prox_iters = 3;
  if (group == 10) o.max_inner_iters = 4, o.max_newton_iters = 12, o.max_prox_iters = 3;
  if (group == 4 || group == 5) o.max_linesearch_iters = 4, o.eta = 0.499, o.nonmonotone_linesearch = false;
  switch (group) {
    case 0: o.sigma0 = real("sigma0"); break;
    case 1: o.sigma_max = real("sigma_max"), o.sigma0 = 1; break;
    case 2: o.sigma_min = real("sigma_min"), o.sigma0 = 1e-12; break;
    case 3: o.alpha = real("alpha"); break;
    case 4: o.beta = real("beta"); break;
    case 5: o.eta = real("eta"); break;
    case 6: o.delta = real("delta"); break;
    case 7: o.abs_tol = real("abs_tol"); break;
    case 8: o.rel_tol = real("rel_tol"); break;
    case 9: o.stall_tol = real("stall_tol"); break;
    case 10: o.infeas_tol = real("infeas_tol"), o.check_feasibility = true; break;
    case 11: o.inner_tol_max = real("inner_tol_max"); break;
    case 12: o.inner_tol_min = real("inner_tol_min"); break;
    case 13: o.max_newton_iters = sx_choose("max_newton", -1, 3), o.max_prox_iters = 3; break;
    case 14: o.max_prox_iters = sx_choose("max_prox", -1, 3), o.max_newton_iters = 6; break;
    case 15: o.max_inner_iters = sx_choose("max_inner", -1, 3), o.max_newton_iters = 6; break;
    case 16: o.max_linesearch_iters = sx_choose("max_linesearch", -1, 4); break;
    case 17: o.check_feasibility = sx_bool("check"); break;
    case 18: o.nonmonotone_linesearch = sx_bool("nonmonotone"), o.max_inner_iters = o.max_newton_iters = 4; break;
    case 19: o.display_level = (Display)sx_choose("display", 0, 3); break;
    case 20: o.gamma = real("gamma"); break;
  }
  std::unique_ptr<S> s(p.New());
  if (group > 3 && sx_choose("before", 0, 1)) s->UpdateOptions(Opts<S>(2));
  s->UpdateOptions(o);
  Count c1, c2;
  typename P::Var x1 = p.x, x2 = p.x;
  Outcome r1, r2;
  r1.threw = Threw([&] { r1.o = p.Run(s.get(), &x1, c1); });
  FullVariable a(p.nz, p.nl, p.nv), b(p.nz, p.nl, p.nv), c(p.nz, p.nl, p.nv), d(p.nz, p.nl, p.nv);
  FullResidual r(p.nz, p.nl, p.nv), q(p.nz, p.nl, p.nv);
  std::unique_ptr<LS> lin(mk());
  FullFeasibility f(p.nz, p.nl, p.nv);
  FBstabAlgorithm<FullVariable, FullResidual, LS, FullFeasibility> alg(&a, &b, &c, &d, &r, &q, lin.get(), &f);
  alg.UpdateParameters(&o);
  auto dat = data();
  r2.threw = Threw([&] { r2.o = alg.Solve(*dat, &x2.z, &x2.l, &x2.v, &x2.y, c2); });
  SameOut(r1, r2);
  SameVar(x1, x2);
  sx_assert(c1.n == c2.n && c1.chars == c2.chars, "same output");
  Note(r1);
  sx_reach("end");
}
// kind: 0, 1 other options; + 2 arbitrary linear cost
ENTRY dense_effect(int a, int b, int c, int group, int kind) {
  Dense p(a, b, c, 0, group == 10 ? 2 + kind % 2 : 1, kind / 2, 2);
  Effect<Dense, DenseCholeskySolver>(
      p, group, kind, [&] { return std::unique_ptr<DenseData>(new DenseData(&p.d.H, &p.d.f, &p.d.G, &p.d.h, &p.d.A, &p.d.b)); },
      [&] { return new DenseCholeskySolver(p.nz, p.nl, p.nv); });
}
ENTRY mpc_effect(int a, int b, int c, int e, int group, int kind) {
  Mpc p(a, b, c, e, group == 10 ? 3 : kind % 2, kind / 2, 2);
  auto& d = p.d;
  Effect<Mpc, RiccatiLinearSolver>(
      p, group, kind,
      [&] { return std::unique_ptr<MpcData>(new MpcData(&d.Q, &d.R, &d.S, &d.q, &d.r, &d.A, &d.B, &d.c, &d.E, &d.L, &d.d, &d.x0)); },
      [&] { return new RiccatiLinearSolver(p.N, p.nx, p.nu, p.nc); });
}

// ---- C19
// The guess satisfies the optimality conditions up to a number e within the absolute
// tolerance: the vectors of the problem are computed from an arbitrary point. mats: 0
// concrete matrices, 32 arbitrary ones.
template <class P, class SetF, class SetH, class SetB>
static void Warm(P& p, const MatrixXd& H, const MatrixXd& G, const MatrixXd& A, SetF f, SetH h, SetB b, int kind) {
  typedef typename P::Solver S;
  auto o = Small<S>(2, 2, 1, 1);
  if (kind == 1) o = S::ReliableOptions(), o.max_newton_iters = 2;
  if (kind >= 3) o.rel_tol = 0;
  if (kind == 2) o.sigma0 = 1, o.sigma_max = 1, o.alpha = 0.5, o.inner_tol_min = 1e-3, o.inner_tol_max = 1;
  o.display_level = Display::OFF;
  std::unique_ptr<S> s(p.New());
  s->UpdateOptions(o);
  typename P::Var& x = p.x;
  x.z = SymV("z", p.nz);
  x.l = SymV("l", p.nl);
  VectorXd y(p.nv);
  for (int i = 0; i < p.nv; i++) {
    double t = sx_real("pair");
    sx_assume(t >= 0);
    int active = sx_choose("active", 0, 1);
    x.v(i) = active ? t : 0;
    y(i) = active ? 0 : t;
  }
  double e = sx_real("error");
  sx_assume(e <= o.abs_tol);
  sx_assume(e >= -o.abs_tol);
  std::vector<double> Hz = MulR(H, x.z), Gl = MulT(G, x.l), Av = MulT(A, x.v), Gz = MulR(G, x.z), Az = MulR(A, x.z);
  int at = sx_choose("error in", 0, p.nz + p.nl - 1);
  for (int i = 0; i < p.nz; i++) f(i, -Hz[i] - Gl[i] - Av[i] + (i == at ? e : 0));
  for (int i = 0; i < p.nl; i++) h(i, Gz[i] + (i + p.nz == at ? e : 0));
  for (int i = 0; i < p.nv; i++) b(i, Az[i] + y(i));
  typename P::Var x0 = x;
  sx_poison(x.y.data(), 8 * x.y.size());
  Outcome r = Go(p, s.get(), &x);
  sx_assert(!r.threw, "no exception");
  sx_assert(r.o.eflag == ExitFlag::SUCCESS, "SUCCESS");
  sx_assert(r.o.newton_iters == 0 && r.o.prox_iters == 0, "no iterations");
  sx_assert_le(r.o.residual, o.abs_tol, "residual of the guess");
  sx_assert_le(-r.o.residual, 0.0, "residual of the guess");
  sx_assert_eq(r.o.residual * r.o.residual, e * e, "residual of the guess");
  SameVec(x.z.data(), x0.z.data(), p.nz, "z unchanged");
  SameVec(x.l.data(), x0.l.data(), p.nl, "l unchanged");
  SameVec(x.v.data(), x0.v.data(), p.nv, "v unchanged");
  SameVec(x.y.data(), y.data(), p.nv, "y = b - A z");
  sx_reach("end");
}
ENTRY dense_warm(int a, int b, int c, int mats, int kind) {
  Dense p(a, b, c, 0, 0, mats, 2);
  Warm(p, p.d.H, p.d.G, p.d.A, [&](int i, double t) { p.d.f(i) = t; }, [&](int i, double t) { p.d.h(i) = t; },
       [&](int i, double t) { p.d.b(i) = t; }, kind);
}
ENTRY mpc_warm(int a, int b, int c, int e, int mats, int kind) {
  Mpc p(a, b, c, e, 0, mats, 2);
  // explicit matrices from the problem statement
  int N = p.N, nx = p.nx, nu = p.nu, nc = p.nc, w = nx + nu;
  MatrixXd H = MatrixXd::Zero(p.nz, p.nz), G = MatrixXd::Zero(p.nl, p.nz), A = MatrixXd::Zero(p.nv, p.nz);
  for (int k = 0; k <= N; k++) {
    for (int i = 0; i < nx; i++)
      for (int j = 0; j < nx; j++) H(k * w + i, k * w + j) = p.d.Q(k)(i, j);
    for (int i = 0; i < nu; i++) {
      for (int j = 0; j < nu; j++) H(k * w + nx + i, k * w + nx + j) = p.d.R(k)(i, j);
      for (int j = 0; j < nx; j++) H(k * w + nx + i, k * w + j) = H(k * w + j, k * w + nx + i) = p.d.S(k)(i, j);
    }
    for (int i = 0; i < nx; i++) G(k * nx + i, k * w + i) = -1;
    for (int i = 0; i < nx && k < N; i++) {
      for (int j = 0; j < nx; j++) G((k + 1) * nx + i, k * w + j) = p.d.A(k)(i, j);
      for (int j = 0; j < nu; j++) G((k + 1) * nx + i, k * w + nx + j) = p.d.B(k)(i, j);
    }
    for (int i = 0; i < nc; i++) {
      for (int j = 0; j < nx; j++) A(k * nc + i, k * w + j) = p.d.E(k)(i, j);
      for (int j = 0; j < nu; j++) A(k * nc + i, k * w + nx + j) = p.d.L(k)(i, j);
    }
  }
  Warm(p, H, G, A,
       [&](int i, double t) {
         if (i % w < nx) p.d.q(i / w)(i % w) = t;
         else p.d.r(i / w)(i % w - nx) = t;
       },
       [&](int i, double t) {
         if (i < nx) p.d.x0(i) = -t;
         else p.d.c(i / nx - 1)(i % nx) = -t;
       },
       [&](int i, double t) { p.d.d(i / nc)(i % nc) = -t; }, kind);
}

// ---- C09, C11
// The report against the residual and certificates of the returned point, recomputed
// with separate component objects.
template <class P, class D>
static void Report(P& p, const D& data, int prox, int newton, int inner, int ls) {
  typedef typename P::Solver S;
  auto o = Small<S>(prox, newton, inner, ls);
  std::unique_ptr<S> s(p.New());
  s->UpdateOptions(o);
  FullVariable q(p.nz, p.nl, p.nv);
  FullResidual r(p.nz, p.nl, p.nv);
  FullFeasibility fc(p.nz, p.nl, p.nv);
  q.LinkData(&data);
  r.LinkData(&data);
  r.SetAlpha(o.alpha);
  fc.LinkData(&data);
  q.z() = p.x.z;
  q.l() = p.x.l;
  q.v() = p.x.v;
  q.InitializeConstraintMargin();
  r.PenalizedNaturalResidual(q);
  double e0 = r.Norm();
  Outcome out = Go(p, s.get(), &p.x);
  Note(out);
  sx_assert(!out.threw, "no exception");
  sx_assert_eq(out.o.initial_residual, e0, "initial residual is that of the guess");
  sx_assert(out.o.newton_iters >= 0 && out.o.newton_iters <= newton, "newton_iters within the limit");
  sx_assert(out.o.prox_iters >= 0 && out.o.prox_iters <= prox, "prox_iters within the limit");
  q.z() = p.x.z;
  q.l() = p.x.l;
  q.v() = p.x.v;
  q.y() = p.x.y;
  bool infeas = out.o.eflag != ExitFlag::SUCCESS && out.o.eflag != ExitFlag::MAXITERATIONS;
  if (infeas) {
    auto st = fc.CheckFeasibility(q, o.infeas_tol);
    typedef FullFeasibility::FeasibilityStatus F;
    sx_assert(o.check_feasibility, "no verdict when checking is disabled");
    sx_assert(st == (out.o.eflag == ExitFlag::PRIMAL_INFEASIBLE ? F::PRIMAL_INFEASIBLE
                     : out.o.eflag == ExitFlag::DUAL_INFEASIBLE ? F::DUAL_INFEASIBLE
                                                                : F::BOTH),
              "the returned point is the certificate of the verdict");
  } else {
    r.PenalizedNaturalResidual(q);
    sx_assert_eq(out.o.residual, r.Norm(), "reported residual is the returned point's");
    sx_assert(out.o.prox_iters < prox || out.o.eflag != ExitFlag::SUCCESS, "SUCCESS within the limits");
    sx_assert(out.o.eflag == ExitFlag::SUCCESS || out.o.prox_iters == prox || out.o.newton_iters == newton,
              "MAXITERATIONS means a limit was reached");
    if (out.o.eflag == ExitFlag::SUCCESS && out.o.prox_iters == 0) {
      double tol = o.abs_tol + o.rel_tol * (1.0 + data.ForcingNorm());
      sx_assert(out.o.residual <= tol, "SUCCESS without iterations only within the tolerance");
    }
    if (out.o.prox_iters > 0)
      for (int i = 0; i < p.nv; i++) sx_assert(!(p.x.v(i) < 0), "returned duals are nonnegative");
  }
  sx_reach("end");
}
ENTRY dense_report(int a, int b, int c, int type, int vary, int prox, int newton, int inner, int ls) {
  Dense p(a, b, c, 0, type, vary, 2);
  DenseData d(&p.d.H, &p.d.f, &p.d.G, &p.d.h, &p.d.A, &p.d.b);
  Report(p, d, prox, newton, inner, ls);
}
ENTRY mpc_report(int a, int b, int c, int e, int type, int vary, int prox, int newton, int inner, int ls) {
  Mpc p(a, b, c, e, type, vary, 2);
  MpcData d(&p.d.Q, &p.d.R, &p.d.S, &p.d.q, &p.d.r, &p.d.A, &p.d.B, &p.d.c, &p.d.E, &p.d.L, &p.d.d, &p.d.x0);
  Report(p, d, prox, newton, inner, ls);
}

// ---- C16
// Owning and reference inputs; the problem data is write protected.
template <class P>
static void Kinds(int a, int b, int c, int e, int vary, int prox, int newton, int inner, int ls) {
  typedef typename P::Solver S;
  P p(a, b, c, e, 1, vary, 2);
  auto opt = Small<S>(prox, newton, inner, ls);
  std::unique_ptr<S> s1(p.New()), s2(p.New());
  s1->UpdateOptions(opt);
  s2->UpdateOptions(opt);
  for (auto& q : p.Parts()) sx_protect(q.first, 8 * q.second);
  typename P::Var x = p.x, x0 = p.x;
  Outcome r = Go(p, s1.get(), &x);
  // the guess lies inside larger buffers
  int n[4] = {p.nz, p.nl, p.nv, p.nv};
  const double* g[4] = {x0.z.data(), x0.l.data(), x0.v.data(), x0.y.data()};
  std::vector<double> buf[4];
  for (int k = 0; k < 4; k++) {
    buf[k].assign(n[k] + 4, -77.0);
    for (int i = 0; i < n[k]; i++) buf[k][i + 2] = g[k][i];
    sx_protect(buf[k].data(), 16);
    sx_protect(buf[k].data() + 2 + n[k], 16);
  }
  auto xr = P::MakeVar(&buf[0][2], n[0], &buf[1][2], n[1], &buf[2][2], &buf[3][2], n[2]);
  typename P::Var xo = x0;
  auto ref = p.MakeRef();
  Outcome q;
  int kind = sx_choose("kind", 0, 2);
  if (kind == 0) {  // reference data, reference guess
    q.threw = Threw([&] { q.o = s2->Solve(ref, &xr, Quiet()); });
  } else if (kind == 1) {  // owning data, reference guess
    q.threw = Threw([&] { q.o = s2->Solve(p.d, &xr, Quiet()); });
  } else {  // reference data, owning guess
    q.threw = Threw([&] { q.o = s2->Solve(ref, &xo, Quiet()); });
  }
  SameOut(q, r);
  if (kind == 2) {
    SameVar(xo, x);
    sx_assert(xo.z.size() == n[0] && xo.l.size() == n[1] && xo.v.size() == n[2] && xo.y.size() == n[3], "sizes kept");
  } else {
    SameVar(xr, x);
    SameVec(&buf[0][2], x.z.data(), n[0], "the caller's memory holds z");
    SameVec(&buf[1][2], x.l.data(), n[1], "the caller's memory holds l");
    SameVec(&buf[2][2], x.v.data(), n[2], "the caller's memory holds v");
    SameVec(&buf[3][2], x.y.data(), n[3], "the caller's memory holds y");
  }
  Note(r);
  sx_reach("end");
}
ENTRY dense_kinds(int a, int b, int c, int vary, int prox, int newton, int inner, int ls) {
  Kinds<Dense>(a, b, c, 0, vary, prox, newton, inner, ls);
}
ENTRY mpc_kinds(int a, int b, int c, int d, int vary, int prox, int newton, int inner, int ls) {
  Kinds<Mpc>(a, b, c, d, vary, prox, newton, inner, ls);
}

// ---- C20
// Every access of a solve is checked by the executor; the results are defined and
// nothing is leaked, whether or not the solve throws.
template <class P>
static void Safe(int a, int b, int c, int e, int type, int vary, int prox, int newton, int inner, int ls) {
  typedef typename P::Solver S;
  P p(a, b, c, e, type, vary, 2);
  typename P::Var x = p.x;
  auto opt = Small<S>(prox, newton, inner, ls);
  int live = sx_live();
  {
    std::unique_ptr<S> s(p.New());
    s->UpdateOptions(opt);
    int inside = sx_live();
    sx_poison(x.y.data(), 8 * x.y.size());
    Outcome r = Go(p, s.get(), &x);
    sx_assert(sx_live() == inside, "a solve releases what it allocates");
    Note(r);
    if (!r.threw) {
      double t = 0;
      for (int i = 0; i < p.nz; i++) sx_assert_eq(x.z(i), x.z(i), "z is defined");
      for (int i = 0; i < p.nl; i++) sx_assert_eq(x.l(i), x.l(i), "l is defined");
      for (int i = 0; i < p.nv; i++) sx_assert_eq(x.v(i), x.v(i), "v is defined");
      for (int i = 0; i < p.nv; i++) sx_assert_eq(x.y(i), x.y(i), "y is defined");
      sx_assert_eq(r.o.residual, r.o.residual, "the residual is defined");
      sx_assert_eq(r.o.initial_residual, r.o.initial_residual, "the initial residual is defined");
      (void)t;
    }
    // other ways to lose memory: rejected input
    typename P::Var bad = p.x;
    bad.v.resize(p.nv + 1);
    bad.v.setZero();
    inside = sx_live();
    sx_assert(Go(p, s.get(), &bad).threw == 1, "rejected");
    sx_assert(sx_live() == inside, "a rejected solve releases what it allocates");
  }
  sx_assert(sx_live() == live, "destruction releases everything");
  sx_reach("end");
}
ENTRY dense_safe(int a, int b, int c, int type, int vary, int prox, int newton, int inner, int ls) {
  Safe<Dense>(a, b, c, 0, type, vary, prox, newton, inner, ls);
}
ENTRY mpc_safe(int a, int b, int c, int d, int type, int vary, int prox, int newton, int inner, int ls) {
  Safe<Mpc>(a, b, c, d, type, vary, prox, newton, inner, ls);
}

// ---- C21
// Interleaved use of two instances against the first one alone. Run with
// --no-global-stores: the executor reports stores to objects with static
// storage duration.
template <class P, class Q>
static void Isolated(const P& p, const Q& q, int prox, int newton, int inner, int ls) {
  typedef typename P::Solver S;
  typedef typename Q::Solver T;
  auto opt = Small<S>(prox, newton, inner, ls);
  typename P::Var x1 = p.x, x2 = p.x;
  Outcome r1, r2;
  {
    std::unique_ptr<S> alone(p.New());
    alone->UpdateOptions(opt);
    r1 = Go(p, alone.get(), &x1);
  }
  int order = sx_choose("order", 0, 3);
  typename Q::Var y = q.x;
  std::unique_ptr<S> s;
  std::unique_ptr<T> t;
  if (order == 0) t.reset(q.New());
  s.reset(p.New());
  if (order == 1) t.reset(q.New());
  s->UpdateOptions(opt);
  if (order == 2) t.reset(q.New());
  if (order == 3) {
    typename P::Var w = p.x;
    Go(p, s.get(), &w);
    t.reset(q.New());
  }
  t->UpdateOptions(Opts<T>(1));
  Go(q, t.get(), &y);
  r2 = Go(p, s.get(), &x2);
  SameOut(r2, r1);
  SameVar(x2, x1);
  t.reset();
  typename P::Var x3 = p.x;
  Outcome r3 = Go(p, s.get(), &x3);
  SameOut(r3, r1);
  SameVar(x3, x1);
  Note(r1);
  sx_reach("end");
}
// pair: 0 dense/dense 1 mpc/mpc of the same size, 2 dense/dense 3 mpc/mpc of
// another size, 4 dense/mpc, 5 mpc/dense
ENTRY isolated(int pair, int vary, int prox, int newton, int inner, int ls) {
  int hist = sx_choose("other", 0, 4);
  if (pair == 0) Isolated(Dense(2, 1, 2, 0, 1, vary, 2), Dense(2, 1, 2, 0, hist, 0, 1), prox, newton, inner, ls);
  if (pair == 1) Isolated(Mpc(1, 1, 1, 1, 0, vary, 2), Mpc(1, 1, 1, 1, hist, 0, 1), prox, newton, inner, ls);
  if (pair == 2) Isolated(Dense(2, 1, 2, 0, 1, vary, 2), Dense(3, 0, 4, 0, hist, 0, 1), prox, newton, inner, ls);
  if (pair == 3) Isolated(Mpc(1, 1, 1, 1, 0, vary, 2), Mpc(2, 2, 1, 2, hist, 0, 1), prox, newton, inner, ls);
  if (pair == 4) Isolated(Dense(2, 1, 2, 0, 1, vary, 2), Mpc(2, 2, 1, 2, hist, 0, 1), prox, newton, inner, ls);
  if (pair == 5) Isolated(Mpc(1, 1, 1, 1, 0, vary, 2), Dense(3, 1, 4, 0, hist, 0, 1), prox, newton, inner, ls);
}
