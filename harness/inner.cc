// The inner loop: line search, subproblem accuracy, warm starts.
#include "algo.h"
using namespace fbstab;

static AlgorithmParameters O;

// The step taken from the last Newton point to x satisfies the line search rule.
static void CheckStep(World* w, int x) {
  if (!w->lactive) return;
  w->lactive = false;
  const World::Pt& p = w->p[x];
  sx_assert(p.op == AXPY && p.base == w->lx && p.dir == w->ldir,
            "the new point is the old one plus a multiple of the Newton step");
  sx_assume(p.op == AXPY && p.base == w->lx && p.dir == w->ldir);
  double cm = w->hist[w->nh - 1], m0 = cm;
  if (O.nonmonotone_linesearch)
    for (int i = 1; i < 5 && i < w->nh; i++)
      if (w->hist[w->nh - 1 - i] > m0) m0 = w->hist[w->nh - 1 - i];
  double t = 1.0;
  for (int j = 0; j <= O.max_linesearch_iters; j++) {
    if (j == O.max_linesearch_iters) {
      sx_assert_eq(p.a, t, "after the last backtracking step the next shorter one is taken");
      sx_reach("exhausted");
      return;
    }
    // the merit at the trial step t
    int id = -1;
    for (int i = 0; i < w->ntr; i++)
      if (w->ta[i] == t) id = w->tid[i];
    sx_assert(id >= 0, "steps 1, beta, beta^2, ... are tried in turn");
    sx_assume(id >= 0);
    bool ok = w->I(id, w->lbar) <= m0 - 2.0 * t * O.eta * cm;
    if (ok) {
      sx_assert_eq(p.a, t, "the first step with sufficient decrease is taken");
      sx_reach(j == 0 ? "full" : "backtracked");
      return;
    }
    sx_assert(p.a != t, "a step without sufficient decrease is not taken");
    t *= O.beta;
  }
}
static void LsNewton(World* w, int x, int bar) {
  (void)bar;
  CheckStep(w, x);
}
static void LsEnd(World* w, int x) {
  CheckStep(w, x);
  w->nh = 0;
}
// script: 0 none, 1 decreasing, 2 up and down; the first `scripted` merits are
// concrete, later ones arbitrary
ENTRY algo_linesearch(int prox, int newton, int inner, int ls, int nonmono, int script, int scripted) {
  static const double s1[] = {2e6, 1.9e6, 1.8e6, 1.7e6, 1.6e6, 1.5e6, 1.4e6, 1.3e6, 1.2e6};
  static const double s2[] = {1e6, 2e5, 9e5, 3e5, 8e5, 4e5, 5e5, 2e5, 3e5};
  Rig g;
  World& w = g.w;
  O.DefaultParameters();
  O.beta = script == 2 ? 0.5 : 0.75;
  O.eta = script == 1 ? 1e-8 : 0.125;
  if (script == 3) {
    O.eta = sx_real("eta");
    sx_assume(O.eta >= 1e-12);
    sx_assume(O.eta <= 0.499);
  }
  O.max_prox_iters = prox;
  O.max_newton_iters = newton;
  O.max_inner_iters = inner;
  O.max_linesearch_iters = ls;
  O.check_feasibility = false;
  O.nonmonotone_linesearch = nonmono;
  O.display_level = Display::OFF;
  O.inner_tol_max = 1e-2;
  O.stall_tol = 1e-14;
  g.alg.UpdateParameters(&O);
  w.rec = w.dedupe = w.use_merit = true;
  w.script = script == 2 ? s2 : s1;
  w.script_n = script == 1 || script == 2 ? scripted : 0;
  w.on_newton = LsNewton;
  w.on_end = LsEnd;
  w.big = true;
  Guess x(1);
  Quiet q;
  g.Solve(&x, q);
  sx_reach("end");
}

// Accuracy of the subproblems.
static double itol;
static int sub_steps, sub_bar, total_newton;
static bool sub_first;
static void Schedule(World* w, int bar) {
  if (!sub_first && bar == sub_bar) return;
  sub_first = false;
  sub_bar = bar;
  sub_steps = 0;
  double hi = w->E(bar);
  if (hi < O.inner_tol_min) hi = O.inner_tol_min;
  itol = itol * O.delta;
  if (itol > hi) itol = hi;
  if (itol < O.inner_tol_min) itol = O.inner_tol_min;
}
static bool Accepted(World* w, int x, int bar) {
  double i = w->I(x, bar);
  return (i <= itol && w->E(x) < w->E(bar)) || i <= O.inner_tol_min;
}
static void AccNewton(World* w, int x, int bar) {
  Schedule(w, bar);
  if (sub_steps == 0) sx_assert(x == bar, "a subproblem starts at the current iterate");
  sx_assert(!Accepted(w, x, bar), "no Newton step from an accurate enough point");
  sub_steps++;
  total_newton++;
}
static int cur_bar(World* w) { return w->last_bar; }
static void AccEnd(World* w, int x) {
  int bar = cur_bar(w);
  Schedule(w, bar);
  if (sub_steps < O.max_inner_iters && total_newton < O.max_newton_iters) {
    sx_assert(Accepted(w, x, bar), "a subproblem ends early only when accurate enough");
    sx_reach("accepted");
  }
}
ENTRY algo_accuracy(int prox, int newton, int inner, int ls, int flags) {
  Rig g;
  World& w = g.w;
  O.DefaultParameters();
  SymOptions(&O);
  O.delta = sx_real("delta");
  sx_assume(O.delta >= 0.0001);
  sx_assume(O.delta <= 0.99);
  O.max_prox_iters = prox;
  O.max_newton_iters = newton;
  O.max_inner_iters = inner;
  O.max_linesearch_iters = ls;
  O.check_feasibility = flags & 1;
  O.nonmonotone_linesearch = flags & 2;
  O.display_level = Display::OFF;
  g.alg.UpdateParameters(&O);
  w.alg_sigma = O.sigma0;
  w.zero_merit = flags & 4;
  w.on_newton = AccNewton;
  w.on_end = AccEnd;
  Guess x(1);
  Quiet q;
  sub_first = true;
  sub_steps = total_newton = 0;
  sub_bar = -1;
  // the initial residual clipped to the tolerance range
  w.on_first = [](World* w, int x) {
    itol = w->E(x);
    if (itol > O.inner_tol_max) itol = O.inner_tol_max;
    if (itol < O.inner_tol_min) itol = O.inner_tol_min;
  };
  g.Solve(&x, q);
  sx_assert(!w.bad_sigma, "the stabilisation parameter is sigma0");
  sx_reach("end");
}

// A guess within the tolerance is returned at once.
ENTRY algo_warm(int rel) {
  Rig g;
  World& w = g.w;
  O.DefaultParameters();
  SymOptions(&O);
  O.display_level = Display::OFF;
  O.max_prox_iters = 2;
  O.max_newton_iters = 2;
  O.max_inner_iters = 1;
  O.max_linesearch_iters = 1;
  g.alg.UpdateParameters(&O);
  w.forcing = sx_real("forcing");
  sx_assume(w.forcing >= 0);
  if (!rel) {
    O.rel_tol = 0;
    g.alg.UpdateParameters(&O);
  }
  w.on_first = [](World* w, int x) {
    sx_assume(w->E(x) <= O.abs_tol + O.rel_tol * (1.0 + w->forcing));
  };
  int first = w.np;
  Guess x(1);
  Quiet q;
  SolverOut out = g.Solve(&x, q);
  sx_assert(out.eflag == ExitFlag::SUCCESS, "SUCCESS");
  sx_assert(out.newton_iters == 0 && out.prox_iters == 0, "no iterations");
  sx_assert(w.solves == 0 && w.inits == 0, "no linear systems");
  sx_assert(x.z == first && x.l == first && x.v == first && x.y == first &&
                w.p[first].op == INIT && w.p[first].base == 1,
            "the guess is returned");
  sx_assert_eq(out.residual, w.E(first), "residual of the guess");
  sx_assert_eq(out.initial_residual, w.E(first), "residual of the guess");
  sx_reach("end");
}
