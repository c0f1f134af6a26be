// Display: nothing is printed at level OFF, results do not depend on the level,
// and the final summary agrees with the report.
#include "algo.h"
#include "fbstab/fbstab_dense.h"
#include "fbstab/fbstab_mpc.h"
#include "prob.h"
using namespace fbstab;

struct Recorder {
  static const int CAP = 6000;
  mutable char text[CAP];
  mutable int len = 0, calls = 0;
  void Print(const char* m) const {
    calls++;
    int n = 0;
    while (m[n] && n < 200) n++;
    sx_assert(n < 200, "messages are short, terminated strings");
    for (int i = 0; i < n && len < CAP - 1; i++) text[len++] = m[i];
    text[len] = 0;
  }
  int Find(const char* s, int from = 0) const {
    for (int i = from; i < len; i++) {
      int k = 0;
      while (s[k] && i + k < len && text[i + k] == s[k]) k++;
      if (!s[k]) return i;
    }
    return -1;
  }
  // the integer after the n-th number-like token following s
  int Number(const char* s, int skip) const {
    int i = Find(s);
    if (i < 0) return -1;
    while (text[i] && text[i] != ':') i++;
    for (;; i++) {
      while (text[i] && (text[i] < '0' || text[i] > '9')) i++;
      if (!text[i]) return -1;
      int v = 0;
      while (text[i] >= '0' && text[i] <= '9') v = 10 * v + (text[i++] - '0');
      if (skip-- == 0) return v;
    }
  }
};
static int Level(const char* n) { return sx_choose(n, 0, 3); }

static void Setup(Rig* g, AlgorithmParameters* o, int prox, int newton, int inner, int feas) {
  o->DefaultParameters();
  o->max_prox_iters = prox;
  o->max_newton_iters = newton;
  o->max_inner_iters = inner;
  o->max_linesearch_iters = 1;
  o->check_feasibility = feas;
  g->w.zero_merit = true;
}
static void CheckSummary(const Recorder& r, const SolverOut& out, const AlgorithmParameters& o) {
  static const char* msg[] = {" Success", " Divergence", " Iteration limit exceeded",
                              " Primal Infeasibility", " Dual Infeasibility",
                              " Primal-Dual Infeasibility"};
  sx_assert(r.Find("Optimization completed") >= 0, "the summary is printed");
  for (int k = 0; k < 6; k++)
    sx_assert((r.Find(msg[k]) >= 0) == (k == (int)out.eflag), "exit message");
  sx_assert(r.Number("Proximal iterations", 0) == out.prox_iters, "proximal iterations printed");
  sx_assert(r.Number("Proximal iterations", 1) == o.max_prox_iters, "proximal limit printed");
  sx_assert(r.Number("Newton iterations", 0) == out.newton_iters, "Newton iterations printed");
  sx_assert(r.Number("Newton iterations", 1) == o.max_newton_iters, "Newton limit printed");
}

// Two runs over the same component behaviour with different display levels.
ENTRY display_same(int prox, int newton, int inner, int feas) {
  Rig g, h;
  AlgorithmParameters o, p;
  Setup(&g, &o, prox, newton, inner, feas);
  Setup(&h, &p, prox, newton, inner, feas);
  o.display_level = (Display)Level("level");
  p.display_level = Display::OFF;
  g.alg.UpdateParameters(&o);
  h.alg.UpdateParameters(&p);
  h.w.mirror = &g.w;
  Recorder rg, rh;
  Guess x(1), x2(1);
  int before = sx_prints();
  SolverOut a = g.Solve(&x, rg);
  SolverOut b = h.Solve(&x2, rh);
  sx_assert(sx_prints() == before, "nothing goes to the standard output");
  sx_assert(rh.calls == 0, "display off prints nothing");
  sx_assert(a.eflag == b.eflag && a.newton_iters == b.newton_iters &&
                a.prox_iters == b.prox_iters,
            "the display level does not change the report");
  sx_assert_eq(a.residual, b.residual, "the display level does not change the residual");
  sx_assert_eq(a.initial_residual, b.initial_residual, "nor the initial residual");
  sx_assert(x.z == x2.z && x.l == x2.l && x.v == x2.v && x.y == x2.y,
            "the display level does not change the solution");
  if (o.display_level == Display::OFF) {
    sx_assert(rg.calls == 0, "display off prints nothing");
  } else {
    CheckSummary(rg, a, o);
    sx_reach("summary");
  }
  sx_reach("end");
}
// A printed number: 0 nothing there, 1 parsed, 2 symbolic.
static int Parse(const char*& m, double* v) {
  while (*m == ' ') m++;
  if (*m == '#') {
    while (*m == '#') m++;
    return 2;
  }
  const bool neg = *m == '-';
  if (neg) m++;
  if (*m < '0' || *m > '9') return 0;
  double x = 0, scale = 1;
  for (; *m >= '0' && *m <= '9'; m++) x = 10 * x + (*m - '0');
  if (*m == '.')
    for (m++; *m >= '0' && *m <= '9'; m++) x += (*m - '0') * (scale /= 10);
  if (*m == 'e') {
    const bool low = *++m == '-';
    int e = 0;
    for (m++; *m >= '0' && *m <= '9'; m++) e = 10 * e + (*m - '0');
    while (e-- > 0) x = low ? x / 10 : x * 10;
  }
  *v = neg ? -x : x;
  return 1;
}
static void Shows(const char*& m, double want, const char* msg) {
  double v = 0;
  int r = Parse(m, &v);
  sx_assert(r != 0, "a number is shown in every column");
  if (r != 1) return;
  double d = v > want ? v - want : want - v, a = want < 0 ? -want : want;
  sx_assert(d <= 1e-4 * a + 1e-9, msg);
}
// Skips to the number after the text t.
static bool After(const char*& m, const char* t) {
  for (const char* p = m; *p; p++) {
    int k = 0;
    while (t[k] && p[k] == t[k]) k++;
    if (!t[k]) {
      m = p + k;
      return true;
    }
  }
  return false;
}
// Checks each line against the state of the run at the time it is printed.
struct Watcher {
  World* w;
  int level;
  mutable int iter = 0, begin = 0, detail = 0, finals = 0, last = -1, timed = 0;
  mutable double time = -1;
  void Point(const char*& m, int kind, int x, const char* msg) const {
    for (int c = 0; c < 3; c++) Shows(m, World::Shown(kind, x, c), msg);
  }
  int Centre() const {
    int i = w->np - 1;
    while (i > 0 && w->p[i].op != PROJ && w->p[i].op != INIT) i--;
    return i;
  }
  void Print(const char* m) const {
    const char* p = m;
    double v = 0;
    if (After(p, "Optimization completed")) {
      finals = 1;
      return;
    }
    if (finals) {
      if (After(p, "Time elapsed:")) timed = Parse(p, &time);
      return;
    }
    p = m;
    if (After(p, "Begin Prox Iter:")) {
      begin++;
      sx_assert(level == 3, "subproblems are shown at the detailed level only");
      Shows(p, w->nproj, "subproblem number shown");
      sx_assert(After(p, "Newton Iters:"), "Newton count shown");
      Shows(p, w->solves, "Newton count at the start of a subproblem");
      sx_assert(After(p, "Residual:"), "residual shown");
      Shows(p, w->E(Centre()), "residual at the start of a subproblem");
      return;
    }
    if (After(p, "Inner residual:")) {
      Shows(p, w->I(w->cur, w->last_bar), "subproblem residual shown at its end");
      return;
    }
    if (!Parse(p, &v)) return;
    p = m;
    if (level == 2) {
      iter++;
      Shows(p, w->nproj, "proximal count of the line");
      Shows(p, w->solves, "Newton count of the line");
      Point(p, 1, Centre(), "norms of the line are those of the iterate");
    } else {
      sx_assert(level == 3, "lines are shown at the iteration levels only");
      detail++;
      Shows(p, w->steps, "Newton step number within the subproblem");
      if (w->steps > 0) {
        int i = w->np - 1;
        while (i > 0 && !(w->p[i].op == AXPY && w->p[w->p[i].dir].op == NEWTON)) i--;
        Shows(p, w->p[i].a, "step length shown");
      } else {
        Parse(p, &v);
      }
      Point(p, 2, w->cur, "norms of the line are those of the subproblem residual");
    }
  }
};
// The lines of the tables against the run.
ENTRY display_table(int prox, int newton, int inner, int ls, int level) {
  Rig g;
  AlgorithmParameters o;
  Setup(&g, &o, prox, newton, inner, 0);
  g.w.zero_merit = ls == 0;
  g.w.split = true;
  if (ls) o.max_linesearch_iters = ls;
  o.beta = 0.5;
  o.display_level = (Display)level;
  g.alg.UpdateParameters(&o);
  Watcher r{&g.w, level};
  Guess x(1);
  SolverOut a = g.Solve(&x, r);
  sx_assert(r.finals == (level > 0), "the summary is printed");
  if (level > 0) {
    sx_assert(r.timed != 0, "the time is printed");
    double ms = 1e3 * a.solve_time, d = r.time > ms ? r.time - ms : ms - r.time;
    sx_assert(r.timed != 1 || d <= 1e-4 * ms + 1e-5, "the time printed is the time reported, in milliseconds");
  }
  bool stopped = a.eflag == ExitFlag::SUCCESS;
  if (level == 2)
    sx_assert(r.iter == (stopped ? a.prox_iters + 1 : g.w.nproj), "one line per proximal iteration");
  if (level == 3) {
    sx_assert(r.begin == g.w.nproj, "one table per subproblem");
    sx_assert(r.detail >= g.w.solves, "one line per Newton step");
  }
  sx_reach("end");
}
// The quantities in the summary, for concrete component norms.
ENTRY display_values(int prox, int newton, int level) {
  Rig g;
  AlgorithmParameters o;
  Setup(&g, &o, prox, newton, 1, 0);
  o.display_level = (Display)level;
  o.abs_tol = 0.0009765625;
  o.rel_tol = 0.0;
  g.alg.UpdateParameters(&o);
  g.w.split = true;
  Recorder r;
  Guess x(1);
  SolverOut a = g.Solve(&x, r);
  CheckSummary(r, a, o);
  int at = r.Find("Newton iterations:");
  sx_assert(at >= 0, "summary");
  sx_assert(r.Find("|rz|", at) < r.Find("|rl|", at) && r.Find("|rl|", at) < r.Find("|rv|", at),
            "summary header");
  const char* m = r.text + at;
  sx_assert(After(m, "Tolerance"), "summary header");
  while (*m && *m != '\n') m++;
  m++;
  for (int c = 0; c < 3; c++) Shows(m, World::Shown(1, (int)x.z, c), "component norms of the returned point");
  Shows(m, o.abs_tol, "tolerance shown");
  sx_reach("end");
}
// The solver classes print through printf only when asked to.
ENTRY display_solver(int kind) {
  Prob p(kind, kind ? 1 : 2, 1, kind ? 1 : 1, 1, 1);
  int lv = Level("level");
  int before = sx_prints(), after, calls;
  SolverOut out;
  if (kind == 0) {
    FBstabDense s(p.nz, p.nl, p.nv);
    FBstabDense::Options o = FBstabDense::DefaultOptions();
    o.display_level = (Display)lv;
    o.abs_tol = 1e6;
    s.UpdateOptions(o);
    FBstabDense::ProblemData d(p.nz, p.nl, p.nv);
    d.H = p.H;
    d.G = p.G;
    d.A = p.A;
    for (int i = 0; i < p.nz; i++) d.f(i) = i + 1;
    for (int i = 0; i < p.nl; i++) d.h(i) = i + 1;
    for (int i = 0; i < p.nv; i++) d.b(i) = i + 1;
    FBstabDense::Variable x(p.nz, p.nl, p.nv);
    out = s.Solve(d, &x);
    after = sx_prints();
    Recorder r;
    FBstabDense::Variable x2(p.nz, p.nl, p.nv);
    s.Solve(d, &x2, r);
    calls = r.calls;
  } else {
    MpcProblem& m = *p.mpc;
    for (int i = 0; i < m.q.size(); i++) m.q.data()[i] = 1 + i;
    for (int i = 0; i < m.r.size(); i++) m.r.data()[i] = 2 - i;
    for (int i = 0; i < m.c.size(); i++) m.c.data()[i] = i;
    for (int i = 0; i < m.d.size(); i++) m.d.data()[i] = i - 2;
    m.x0.setConstant(0.5);
    FBstabMpc s(m.N, m.nx, m.nu, m.nc);
    FBstabMpc::Options o = FBstabMpc::DefaultOptions();
    o.display_level = (Display)lv;
    o.abs_tol = 1e6;
    s.UpdateOptions(o);
    FBstabMpc::ProblemDataRef d(&m.Q, &m.R, &m.S, &m.q, &m.r, &m.A, &m.B, &m.c, &m.E, &m.L,
                                &m.d, &m.x0);
    FBstabMpc::Variable x(m.N, m.nx, m.nu, m.nc);
    out = s.Solve(d, &x);
    after = sx_prints();
    Recorder r;
    FBstabMpc::Variable x2(m.N, m.nx, m.nu, m.nc);
    s.Solve(d, &x2, r);
    calls = r.calls;
  }
  sx_assert((after > before) == (lv > 0), "standard output is used exactly when asked for");
  sx_assert(sx_prints() == after, "a caller's stream replaces the standard output");
  sx_assert((calls > 0) == (lv > 0), "the caller's stream is used exactly when asked for");
  sx_assert(out.eflag == ExitFlag::SUCCESS, "loose tolerance");
  sx_reach("end");
}
