// Stub components for the algorithm template: points are integer identities, the
// residual of a point is an arbitrary number that depends only on its identity,
// and how each point was produced is recorded.  The algorithm itself is /repo's.
#pragma once
#include "util.h"
#include "fbstab/fbstab_algorithm.h"

enum Op { INIT, FILL, AXPY, PROJ, NEWTON, USER };

struct World {
#ifndef WORLD_CAP
#define WORLD_CAP 400
#endif
  static const int CAP = WORLD_CAP;
  struct Pt {
    Op op;
    int base, dir;
    double a;
    double e, n;  // outer residual, norm
    bool he, hn;
  } p[CAP];
  int np = 0;
  struct In {
    int x, bar;
    double v;
  } in[CAP];
  int nin = 0;
  struct Comp {  // component norms, for display only
    int x;
  };
  // what the algorithm did
  double alpha_r[2] = {0, 0}, alpha_s = 0;
  int inner_evals = 0, outer_evals = 0, inits = 0, solves = 0, feas_calls = 0;
  int feas_point = -1, feas_ret = 0;
  int feas_rets[100];
  double feas_tol = 0;
  int init_x = -1, init_bar = -1;
  double init_sigma = 0;
  bool nonneg = true;  // residuals and norms are >= 0 (otherwise: any double)
  bool linfail = false;
  double forcing = 0;
  long long clk_first = 0, clk_last = 0;  // times of the Newton solves
  int last_norm_pt = -1;   // last point whose norm was taken
  int nproj = 0;           // projections: ends of subproblems
  int steps = 0, max_steps = 0;    // Newton steps since the last projection
  int trials = 0, max_trials = 0;  // points tried since the last Newton step
  bool bar_of[CAP] = {};   // points used as the centre of a subproblem
  // line search record of the current subproblem
  bool dedupe = false;     // equal steps from equal points are one point
  bool rec = false;
  int lx = -1, lbar = -1, ldir = -1, ntr = 0, nh = 0;
  double ta[CAP], hist[CAP];
  int tid[CAP];
  bool lactive = false;
  void (*on_newton)(World*, int x, int bar) = nullptr;   // a Newton step starts at x
  void (*on_end)(World*, int x) = nullptr;               // a subproblem ends at x
  void (*on_first)(World*, int x) = nullptr;             // first outer residual
  int last_bar = -1;       // centre of the last subproblem residual
  bool big = false;        // outer residuals stay above every tolerance
  bool bad_sigma = false;
  double alg_sigma = -1;   // the sigma0 option
  int steady = 0;          // concrete norms: 1 subproblems never converge, 2 they
  int free_at = -1;        // need one step; the result of subproblem free_at is arbitrary
  World* mirror = nullptr; // values of this world are those of another,
  int moff = 0, foff = 0;  // whose points and feasibility calls are numbered from here
  bool split = false;      // concrete, distinct component norms
  bool zero_merit = false; // every full step is accepted
  bool use_merit = false;  // merits are the basic quantity, norms derived
  int cur = -1;            // last point of a subproblem residual
  // component norms with split: one value per kind of residual, point and part
  static double Shown(int kind, int x, int c) { return 0.25 + 24.0 * x + 4.0 * kind + c; }
  int script_n = 0, script_i = 0;
  const double* script = nullptr;
  // Forget what was done so far, not the points and their values.
  void Recount() {
    inner_evals = outer_evals = inits = solves = feas_calls = nproj = 0;
    steps = max_steps = trials = max_trials = 0;
    feas_point = last_norm_pt = last_bar = cur = init_x = init_bar = -1;
    feas_ret = 0;
    clk_first = clk_last = 0;
    for (bool& b : bar_of) b = false;
  }
  int New(Op op, int base, int dir, double a) {
    if (dedupe && op == AXPY)
      for (int i = 0; i < np; i++)
        if (p[i].op == op && p[i].base == base && p[i].dir == dir && p[i].a == a) return i;
    int i = np++;
    if (i >= CAP) sx_stop();
    p[i].op = op;
    p[i].base = base;
    p[i].dir = dir;
    p[i].a = a;
    p[i].he = p[i].hn = false;
    return i;
  }
  double E(int i) {
    if (!p[i].he) {
      p[i].he = true;
      if (mirror && i + moff < mirror->np && mirror->p[i + moff].he) return p[i].e = mirror->p[i + moff].e;
      if (steady && !(p[i].op == PROJ && nproj == free_at)) return p[i].e = 1000 + 1000.0 / (1 + i);
      p[i].e = sx_real("E");
      if (nonneg) sx_assume(p[i].e >= 0);
      if (big) sx_assume(p[i].e >= 1e3);
      if (on_first) {
        auto f = on_first;
        on_first = nullptr;
        f(this, i);
      }
    }
    return p[i].e;
  }
  double N(int i) {
    if (!p[i].hn) {
      p[i].hn = true;
      if (mirror && i + moff < mirror->np && mirror->p[i + moff].hn) return p[i].n = mirror->p[i + moff].n;
      if (steady && nproj != free_at) return p[i].n = 1000;
      p[i].n = sx_real("N");
      if (nonneg) sx_assume(p[i].n >= 0);
      if (big) sx_assume(p[i].n >= 1e3);
    }
    return p[i].n;
  }
  bool Has(int x, int bar) const {
    for (int i = 0; i < nin; i++)
      if (in[i].x == x && in[i].bar == bar) return true;
    return false;
  }
  double I(int x, int bar) {
    for (int i = nin - 1; i >= 0; i--)
      if (in[i].x == x && in[i].bar == bar) return in[i].v;
    if (nin >= CAP) sx_stop();
    in[nin].x = x;
    in[nin].bar = bar;
    if (mirror && mirror->Has(x + moff, bar + moff)) {
      in[nin].v = mirror->I(x + moff, bar + moff);
      return in[nin++].v;
    }
    if (script_i < script_n) {
      in[nin].v = script[script_i++];
      return in[nin++].v;
    }
    if (steady) {
      in[nin].v = steady == 2 && p[x].op == AXPY ? 0 : 1000;
      return in[nin++].v;
    }
    in[nin].v = sx_real("I");
    if (nonneg) sx_assume(in[nin].v >= 0);
    if (use_merit) sx_assume(in[nin].v >= 1e5);
    return in[nin++].v;
  }
};

struct StubData {
  World* w;
  double ForcingNorm() const { return w->forcing; }
};

typedef Eigen::VectorXd Vec;
// z, l, v, y carry the identity so that what is handed back can be recognised.
class StubVariable {
 public:
  explicit StubVariable(World* w) : w_(w), id_(0) { Set(w->New(USER, -1, -1, 0)); }
  template <class D>
  void LinkData(const D*) {}
  void Fill(double a) { Set(w_->New(FILL, -1, -1, a)); }
  void InitializeConstraintMargin() {
    sx_assert(z_(0) == l_(0) && z_(0) == v_(0), "initial guess copied as given");
    Set(w_->New(INIT, (int)z_(0), -1, 0));
  }
  void axpy(double a, const StubVariable& x) { Set(w_->New(AXPY, id_, x.id_, a)); }
  void Copy(const StubVariable& x) { Set(x.id_); }
  void ProjectDuals() {
    if (w_->on_end) w_->on_end(w_, id_);
    Set(w_->New(PROJ, id_, -1, 0));
    w_->nproj++;
    w_->steps = 0;
  }
  double Norm() const {
    w_->last_norm_pt = id_;
    return w_->N(id_);
  }
  bool SameSize(const StubVariable&) const { return true; }
  Vec& z() { return z_; }
  Vec& l() { return l_; }
  Vec& v() { return v_; }
  Vec& y() { return y_; }
  const Vec& z() const { return z_; }
  const Vec& l() const { return l_; }
  const Vec& v() const { return v_; }
  const Vec& y() const { return y_; }
  int id() const { return id_; }
  void Set(int i) {
    id_ = i;
    z_(0) = l_(0) = v_(0) = y_(0) = i;
  }

 private:
  World* w_;
  int id_;
  Vec z_{1}, l_{1}, v_{1}, y_{1};
};

class StubResidual {
 public:
  StubResidual(World* w, int k) : w_(w), k_(k) {}
  void SetAlpha(double a) { w_->alpha_r[k_] = a; }
  template <class D>
  void LinkData(const D*) {}
  void Fill(double) { kind_ = 0; }
  void Negate() { neg_ = !neg_; }
  double Norm() const {
    if (kind_ == 0) return 0.0;
    if (kind_ == 2 && w_->use_merit) return std::sqrt(2.0 * w_->I(x_, bar_));
    return kind_ == 1 ? w_->E(x_) : w_->I(x_, bar_);
  }
  double Merit() const {
    if (w_->zero_merit) return 0.0;
    if (kind_ == 2 && w_->use_merit) return w_->I(x_, bar_);
    const double t = Norm();
    return 0.5 * t * t;
  }
  void InnerResidual(const StubVariable& x, const StubVariable& bar, double s) {
    kind_ = 2;
    x_ = x.id();
    bar_ = bar.id();
    sigma_ = s;
    neg_ = false;
    w_->inner_evals++;
    w_->bar_of[bar_] = true;
    w_->last_bar = bar_;
    w_->cur = x_;
    if (s != w_->alg_sigma) w_->bad_sigma = true;
    if (w_->lactive && w_->p[x_].op == AXPY && w_->p[x_].base == w_->lx &&
        w_->p[x_].dir == w_->ldir) {
      bool seen = false;
      for (int i = 0; i < w_->ntr; i++) seen = seen || w_->tid[i] == x_;
      if (!seen) {
        w_->tid[w_->ntr] = x_;
        w_->ta[w_->ntr++] = w_->p[x_].a;
      }
    }
    if (w_->p[x_].op == AXPY && w_->p[w_->p[x_].dir].op == NEWTON && !w_->Has(x_, bar_)) {
      w_->trials++;
      if (w_->trials > w_->max_trials) w_->max_trials = w_->trials;
    }
  }
  void NaturalResidual(const StubVariable& x) { PenalizedNaturalResidual(x); }
  void PenalizedNaturalResidual(const StubVariable& x) {
    kind_ = 1;
    x_ = x.id();
    neg_ = false;
    w_->outer_evals++;
  }
  bool SameSize(const StubVariable&) const { return true; }
  double z_norm() const { return w_->split ? Shown(0) : Norm(); }
  double l_norm() const { return w_->split ? Shown(1) : 0.0; }
  double v_norm() const { return w_->split ? Shown(2) : 0.0; }
  double Shown(int c) const { return kind_ == 0 ? 0.0 : World::Shown(kind_, x_, c); }
  int kind_ = 0, x_ = -1, bar_ = -1;
  double sigma_ = 0;
  bool neg_ = false;

 private:
  World* w_;
  int k_;
};

class StubSolver {
 public:
  explicit StubSolver(World* w) : w_(w) {}
  void SetAlpha(double a) { w_->alpha_s = a; }
  template <class D>
  void LinkData(const D*) {}
  bool Initialize(const StubVariable& x, const StubVariable& bar, double s) {
    if (w_->on_newton) w_->on_newton(w_, x.id(), bar.id());
    w_->inits++;
    w_->init_x = x.id();
    w_->init_bar = bar.id();
    w_->init_sigma = s;
    if (w_->linfail && sx_bool("initfails")) return false;
    return true;
  }
  bool Solve(const StubResidual& r, StubVariable* dx) const {
    w_->clk_last = sx_clock();
    if (!w_->solves) w_->clk_first = w_->clk_last;
    w_->solves++;
    w_->steps++;
    if (w_->steps > w_->max_steps) w_->max_steps = w_->steps;
    w_->trials = 0;
    sx_assert(r.kind_ == 2 && r.neg_, "the Newton right-hand side is minus the subproblem residual");
    sx_assert(r.x_ == w_->init_x && r.bar_ == w_->init_bar,
              "the Newton matrix and right-hand side belong to the same points");
    sx_assert_eq(r.sigma_, w_->init_sigma, "the Newton matrix and right-hand side use one sigma");
    dx->Set(w_->New(NEWTON, r.x_, r.bar_, 0));
    if (w_->rec) {
      w_->hist[w_->nh++] = w_->I(r.x_, r.bar_);
      w_->lactive = true;
      w_->lx = r.x_;
      w_->lbar = r.bar_;
      w_->ldir = dx->id();
      w_->ntr = 0;
    }
    if (w_->linfail && sx_bool("solvefails")) return false;
    return true;
  }

 private:
  World* w_;
};

class StubFeas {
 public:
  enum class FeasibilityStatus {
    FEASIBLE = 0,
    PRIMAL_INFEASIBLE = 1,
    DUAL_INFEASIBLE = 2,
    BOTH = 3
  };
  explicit StubFeas(World* w) : w_(w) {}
  template <class D>
  void LinkData(const D*) {}
  FeasibilityStatus CheckFeasibility(const StubVariable& x, double tol) {
    w_->feas_calls++;
    w_->feas_point = x.id();
    w_->feas_tol = tol;
    World* m = w_->mirror;
    w_->feas_ret = m && m->feas_calls >= w_->feas_calls + w_->foff ? m->feas_rets[w_->feas_calls + w_->foff]
                                                        : sx_choose("feas", 0, 3);
    if (w_->feas_calls < 100) w_->feas_rets[w_->feas_calls] = w_->feas_ret;
    return (FeasibilityStatus)w_->feas_ret;
  }

 private:
  World* w_;
};

// What the caller passes in and gets back.
struct Guess {
  Vec Z{1}, L{1}, V{1}, Y{1};
  double &z, &l, &v, &y;
  explicit Guess(int id, double margin = 0) : z(Z(0)), l(L(0)), v(V(0)), y(Y(0)) {
    z = l = v = id;
    y = margin;
  }
};

struct Quiet {
  void Print(const char*) const {}
};

typedef fbstab::FBstabAlgorithm<StubVariable, StubResidual, StubSolver, StubFeas>
    StubAlgo;

struct Rig {
  World w;
  StubData data;
  StubVariable x1, x2, x3, x4;
  StubResidual r1, r2;
  StubSolver s;
  StubFeas f;
  StubAlgo alg;
  template <class OS>
  fbstab::SolverOut Solve(Guess* x, const OS& os) {
    return alg.Solve(data, &x->Z, &x->L, &x->V, &x->Y, os);
  }
  Rig()
      : data{&w}, x1(&w), x2(&w), x3(&w), x4(&w), r1(&w, 0), r2(&w, 1), s(&w), f(&w),
        alg(&x1, &x2, &x3, &x4, &r1, &r2, &s, &f) {}
};
// Arbitrary options inside the documented ranges.
inline void SymOptions(fbstab::AlgorithmParameters* o) {
  o->sigma0 = sx_real("sigma0");
  o->sigma_max = 1e2;
  o->sigma_min = 1e-13;
  sx_assume(o->sigma0 >= 1e-10);
  sx_assume(o->sigma0 <= 1e2);
  o->abs_tol = sx_real("abs_tol");
  sx_assume(o->abs_tol >= 1e-14);
  o->rel_tol = sx_real("rel_tol");
  sx_assume(o->rel_tol >= 0);
  o->stall_tol = sx_real("stall_tol");
  sx_assume(o->stall_tol >= 1e-14);
  o->infeas_tol = sx_real("infeas_tol");
  sx_assume(o->infeas_tol >= 1e-14);
  o->inner_tol_max = sx_real("inner_tol_max");
  sx_assume(o->inner_tol_max >= 1e-8);
  sx_assume(o->inner_tol_max <= 1e2);
  o->inner_tol_min = sx_real("inner_tol_min");
  sx_assume(o->inner_tol_min >= 1e-14);
  sx_assume(o->inner_tol_min <= 1e-2);
  sx_assume(o->inner_tol_min <= o->inner_tol_max);
}
