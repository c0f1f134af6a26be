// The outer algorithm over arbitrary component behaviour.
#define WORLD_CAP 4000
#include "algo.h"
#include <memory>
using namespace fbstab;

// Is the point p the projection of something (a subproblem's result)?
static bool Projected(const World& w, int p) { return w.p[p].op == PROJ; }

// Assertion groups: 1 exit report, 2 iteration limits and termination, 4 returned
// point.
static int grp = 7;
#define AS(g, ...) do { if (grp & (g)) sx_assert(__VA_ARGS__); } while (0)
#define ASEQ(g, ...) do { if (grp & (g)) sx_assert_eq(__VA_ARGS__); } while (0)

static void Run(Rig& g, const AlgorithmParameters& o, int guess, bool feas, bool nan) {
  World& w = g.w;
  w.nonneg = !nan;
  w.forcing = sx_real("forcing");
  sx_assume(w.forcing >= 0);
  Guess x(guess, -7);
  Quiet q;
  int first = w.np;
  bool threw = false;
  SolverOut out;
  long long t0 = sx_clock(), t1 = 0;
  try {
    out = g.Solve(&x, q);
    t1 = sx_clock();
  } catch (const std::runtime_error&) {
    threw = true;
  }
  AS(2, w.inits <= o.max_newton_iters, "at most max_newton_iters linear systems");
  AS(2, w.solves <= w.inits, "one solve per factorisation");
  if (threw) {
    AS(2, w.linfail, "Solve throws only when the linear solver fails");
    sx_reach("threw");
    return;
  }
  // the returned point
  double z = x.z, l = x.l, v = x.v, y = x.y;
  int ret = (int)z;
  AS(4, z == l && z == v && z == y, "z, l, v, y come from one point");
  sx_assume(z == l && z == v && z == y);
  AS(4, ret >= first && ret < w.np, "the returned point was computed in this call");
  sx_assume(ret >= first && ret < w.np);
  // the initial point and its residual
  int init = -1;
  for (int i = first; i < w.np; i++)
    if (w.p[i].op == INIT && init < 0) init = i;
  AS(4, init >= 0 && w.p[init].base == guess, "starts from the guess");
  sx_assume(init >= 0);
  ASEQ(1, out.initial_residual, w.E(init), "initial residual");
  // time in seconds
  AS(1, out.solve_time * 1e9 <= (double)(t1 - t0) + 1, "solve_time is at most the time the call took");
  AS(1, out.solve_time * 1e9 >= (double)(w.solves ? w.clk_last - w.clk_first : 0) - 1,
     "solve_time covers the Newton iterations");
  // counters
  AS(1, out.newton_iters == w.solves, "newton_iters counts the Newton steps");
  AS(2, out.newton_iters <= o.max_newton_iters, "newton_iters within the limit");
  AS(2, out.prox_iters >= 0 && out.prox_iters <= o.max_prox_iters,
     "prox_iters within the limit");
  AS(1, out.prox_iters <= w.nproj, "prox_iters counts proximal subproblems");
  AS(1, out.prox_iters + 1 >= w.nproj, "prox_iters counts proximal subproblems");
  AS(2, w.inner_evals <= 3 * (o.max_prox_iters * o.max_inner_iters) * (1 + o.max_linesearch_iters),
     "work is bounded by the iteration limits");
  AS(2, out.newton_iters <= o.max_inner_iters * w.nproj,
     "at most max_inner_iters Newton steps per subproblem");
  AS(2, w.nproj <= o.max_prox_iters, "at most max_prox_iters subproblems");
  AS(2, w.max_steps <= o.max_inner_iters, "Newton steps of one subproblem");
  AS(2, w.max_trials <= o.max_linesearch_iters + 1, "trial steps of one line search");
  ASEQ(4, w.alpha_r[0], o.alpha, "residual uses the alpha option");
  ASEQ(4, w.alpha_r[1], o.alpha, "residual uses the alpha option");
  ASEQ(4, w.alpha_s, o.alpha, "linear solver uses the alpha option");
  double tol = o.abs_tol + o.rel_tol * (1.0 + w.forcing);
  const World::Pt& p = w.p[ret];
  bool infeas = out.eflag == ExitFlag::PRIMAL_INFEASIBLE ||
                out.eflag == ExitFlag::DUAL_INFEASIBLE ||
                out.eflag == ExitFlag::PRIMAL_DUAL_INFEASIBLE;
  AS(1, out.eflag == ExitFlag::SUCCESS || out.eflag == ExitFlag::MAXITERATIONS || infeas,
     "known exit flag");
  if (!infeas) {
    ASEQ(5, out.residual, w.E(ret), "reported residual is the returned point's");
    // either the guess itself or the projection made at the end of a subproblem
    AS(4, ret == init || Projected(w, ret), "returned duals are projected");
    AS(4, out.prox_iters == 0 || ret != init, "an accepted iterate is returned");
    AS(1, w.feas_calls == 0 || w.feas_ret == 0, "infeasibility verdicts end the solve");
  }
  // the last accepted iterate and, after a Newton limit, the one before it
  int last = init, nlast = 0;
  for (int i = first; i < w.np; i++)
    if (Projected(w, i)) last = i, nlast++;
  if (out.eflag == ExitFlag::SUCCESS)
    AS(4, ret == last, "SUCCESS hands back the last iterate");
  if (out.eflag == ExitFlag::MAXITERATIONS && out.newton_iters < o.max_newton_iters)
    AS(4, ret == last, "a proximal limit hands back the last iterate");
  if (out.eflag == ExitFlag::MAXITERATIONS && out.newton_iters >= o.max_newton_iters) {
    AS(4, nlast > 0 && (ret == last || ret == w.last_bar), "a Newton limit hands back one of the last two iterates");
    sx_assume(nlast > 0 && (ret == last || ret == w.last_bar));
    if (!nan) {
      AS(4, w.E(ret) <= w.E(ret == last ? w.last_bar : last), "a Newton limit hands back the better of the last two iterates");

    }
  }
  if (out.eflag == ExitFlag::SUCCESS) {
    if (!nan && !(w.E(ret) <= tol)) {
      // stalled: the last proximal step was at most stall_tol long
      AS(1, w.last_norm_pt >= 0, "stall test looked at a step");
      sx_assume(w.last_norm_pt >= 0);
      AS(1, w.N(w.last_norm_pt) <= o.stall_tol, "SUCCESS without convergence only when stalled");
      AS(1, out.prox_iters > 0, "a solve without any step has not stalled");
      {
        const World::Pt& d = w.p[w.last_norm_pt];
        AS(1, d.op == AXPY && d.base == ret && d.a == -1.0, "stall test uses the step to the returned point");
        AS(1, Projected(w, d.dir) || d.dir == init, "stall test uses the previous iterate");
        AS(1, d.dir != d.base, "stall test uses two iterates");
      }
      sx_reach("stalled");
    } else {
      sx_reach("success");
    }
    AS(1, out.prox_iters < o.max_prox_iters, "SUCCESS within the proximal limit");
  } else if (out.eflag == ExitFlag::MAXITERATIONS) {
    AS(1, out.newton_iters >= o.max_newton_iters || out.prox_iters >= o.max_prox_iters,
       "MAXITERATIONS means a limit was reached");
    sx_reach("maxiter");
  } else {
    AS(1, feas, "no infeasibility verdict when the check is disabled");
    AS(1, w.feas_calls > 0, "an infeasibility verdict needs a check");
    AS(5, ret == w.feas_point, "the certificate that was checked is returned");
    AS(4, p.op == AXPY && p.a == -1.0 && Projected(w, p.base),
       "the certificate is the last proximal step");
    AS(4, Projected(w, p.dir) || p.dir == init, "the certificate starts at an iterate");
    ASEQ(1, w.feas_tol, o.infeas_tol, "infeasibility tolerance");
    int want = out.eflag == ExitFlag::PRIMAL_INFEASIBLE ? 1
               : out.eflag == ExitFlag::DUAL_INFEASIBLE ? 2 : 3;
    AS(1, w.feas_ret == want, "exit flag matches the verdict");
    sx_reach("infeasible");
  }
  if (feas) {
    AS(1, w.feas_calls >= out.prox_iters, "every accepted step was checked");
  } else {
    AS(1, w.feas_calls == 0, "no check when disabled");
  }
  // The solve goes on only while the residual is above the tolerance and the
  // last step is longer than stall_tol.
  if (!nan && out.prox_iters > 0)
    AS(2, !(w.E(init) <= tol), "an initial guess within the tolerance needs no iteration");
  for (int i = first; !nan && i < w.np; i++)
    if (Projected(w, i) && i != ret && w.bar_of[i])
      AS(2, !(w.E(i) <= tol), "the solve stops at the first iterate within the tolerance");
  for (int i = first; !nan && i < w.np; i++) {
    if (!Projected(w, i) || i == last) continue;
    bool longer = false;
    for (int d = i; d < w.np; d++)
      if (w.p[d].op == AXPY && w.p[d].base == i && w.p[d].a == -1.0 && w.p[d].hn &&
          !(w.p[d].n <= o.stall_tol))
        longer = true;
    AS(2, longer, "the solve goes on only after a step longer than the stall tolerance");
  }
}

// flags: 1 feasibility check on, 2 nonmonotone line search, 4 arbitrary doubles
// (NaN, infinities, negative) for all norms, 8 linear solver may fail, 16 after an
// earlier solve by the same object
ENTRY algo_exit(int prox, int newton, int inner, int ls, int flags, int group) {
  grp = group;
  Rig g;
  AlgorithmParameters o;
  o.DefaultParameters();
  SymOptions(&o);
  o.max_prox_iters = prox;
  o.max_newton_iters = newton;
  o.max_inner_iters = inner;
  o.max_linesearch_iters = ls;
  o.check_feasibility = flags & 1;
  o.nonmonotone_linesearch = flags & 2;
  o.display_level = Display::OFF;
  g.alg.UpdateParameters(&o);
  g.w.linfail = flags & 8;
  if (flags & 16) {
    AlgorithmParameters o1;
    o1.DefaultParameters();
    o1.max_prox_iters = 2;
    o1.max_newton_iters = 2;
    o1.max_inner_iters = 1;
    o1.max_linesearch_iters = 1;
    o1.display_level = Display::OFF;
    g.alg.UpdateParameters(&o1);
    g.w.forcing = sx_real("forcing1");
    sx_assume(g.w.forcing >= 0);
    Guess x(1);
    Quiet q;
    Threw([&] { g.Solve(&x, q); });
    g.alg.UpdateParameters(&o);
    g.w.Recount();
  }
  Run(g, o, 1, flags & 1, flags & 4);
  sx_reach("end");
}

// Long runs: concrete norms except for the result of subproblem at.
ENTRY algo_long(int prox, int newton, int inner, int ls, int at, int steady, int group) {
  grp = group;
  std::unique_ptr<Rig> g(new Rig);
  AlgorithmParameters o;
  o.DefaultParameters();
  o.max_prox_iters = prox;
  o.max_newton_iters = newton;
  o.max_inner_iters = inner;
  o.max_linesearch_iters = ls;
  o.display_level = Display::OFF;
  g->alg.UpdateParameters(&o);
  g->w.steady = steady;
  g->w.free_at = at;
  Run(*g, o, 1, true, false);
  sx_reach("end");
}
