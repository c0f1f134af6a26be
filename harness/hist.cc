// The algorithm object after an arbitrary earlier solve against a new one.
#include "algo.h"
using namespace fbstab;

static void Counts(AlgorithmParameters* o, int prox, int newton, int inner, int ls) {
  o->max_prox_iters = prox;
  o->max_newton_iters = newton;
  o->max_inner_iters = inner;
  o->max_linesearch_iters = ls;
  o->display_level = Display::OFF;
}
// flags: 1 the earlier solve checks feasibility, 2 the later one does, 4 the line
// searches are nonmonotone, 8 linear solves of the earlier solve may fail, 16 every
// step is accepted, 32 the earlier solve uses other parameters
ENTRY algo_history(int prox1, int newton1, int inner1, int prox, int newton, int inner, int ls, int flags) {
  std::unique_ptr<Rig> used(new Rig), fresh(new Rig);
  AlgorithmParameters o1, o2;
  o1.DefaultParameters();
  SymOptions(&o2);
  if (flags & 32) {
    SymOptions(&o1);
    o1.alpha = 0.5;
    o1.beta = 0.25;
    o1.eta = 0.125;
    o1.delta = 0.5;
  }
  Counts(&o1, prox1, newton1, inner1, 1);
  Counts(&o2, prox, newton, inner, ls);
  o1.check_feasibility = flags & 1;
  o2.check_feasibility = flags & 2;
  o1.nonmonotone_linesearch = o2.nonmonotone_linesearch = flags & 4;
  used->alg.UpdateParameters(&o1);
  World &w = used->w, &m = fresh->w;
  w.zero_merit = m.zero_merit = flags & 16;
  w.linfail = flags & 8;
  w.forcing = sx_real("forcing1");
  sx_assume(w.forcing >= 0);
  Quiet q;
  Guess g(1);
  SolverOut a, b;
  int threw = Threw([&] { a = used->Solve(&g, q); });
  sx_reach(threw ? "threw" : "returned");
  w.linfail = false;
  w.forcing = m.forcing = sx_real("forcing");
  sx_assume(w.forcing >= 0);
  int first = w.np, fcalls = w.feas_calls, inits = w.inits, ev = w.inner_evals, eo = w.outer_evals;
  used->alg.UpdateParameters(&o2);
  fresh->alg.UpdateParameters(&o2);
  m.mirror = &w;
  m.moff = first - m.np;
  m.foff = fcalls;
  Guess x1(1), x2(1);
  int mfirst = m.np;
  a = used->Solve(&x1, q);
  b = fresh->Solve(&x2, q);
  sx_assert(a.eflag == b.eflag, "same exit flag");
  sx_assert(a.newton_iters == b.newton_iters && a.prox_iters == b.prox_iters, "same iteration counts");
  sx_assert_eq(a.residual, b.residual, "same residual");
  sx_assert_eq(a.initial_residual, b.initial_residual, "same initial residual");
  sx_assert(x1.z - m.moff == x2.z && x1.l - m.moff == x2.l && x1.v - m.moff == x2.v && x1.y - m.moff == x2.y, "same point");
  sx_assert(w.np - first == m.np - mfirst && w.inits - inits == m.inits && w.feas_calls - fcalls == m.feas_calls &&
                w.inner_evals - ev == m.inner_evals && w.outer_evals - eo == m.outer_evals,
            "same sequence of operations");
  sx_assert(w.alpha_r[0] == m.alpha_r[0] && w.alpha_r[1] == m.alpha_r[1] && w.alpha_s == m.alpha_s, "same alpha");
  for (int i = mfirst; i < m.np && i + m.moff < w.np; i++) {
    const World::Pt &s = w.p[i + m.moff], &t = m.p[i];
    sx_assert(s.op == t.op && (s.op == INIT || s.base - (s.base < first ? 0 : m.moff) == t.base) &&
                  s.dir - (s.dir < first ? 0 : m.moff) == t.dir,
              "same operations");
    sx_assert_eq(s.a, t.a, "same step lengths");
  }
  sx_reach("end");
}
