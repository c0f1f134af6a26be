// Options: whatever is set, the algorithm runs with values inside the documented
// ranges, values already inside are kept, and every field reaches the algorithm.
#include "fbstab/fbstab_dense.h"
#include "fbstab/fbstab_mpc.h"
#include "algo.h"
using namespace fbstab;

static double D(const char* n) {
  double v = sx_real(n);
  sx_assume(v == v);
  return v;
}
static void Bounds(double v, double lo, double hi, const char* m) {
  sx_assert(v >= lo, m);
  sx_assert(v <= hi, m);
}
static const double INF = __builtin_inf();

static void InRange(const AlgorithmParameters& o) {
  Bounds(o.sigma_max, 1e-6, 1e2, "sigma_max range");
  Bounds(o.sigma_min, 1e-13, 1e-8, "sigma_min range");
  sx_assert(o.sigma0 >= o.sigma_min, "sigma0 at least sigma_min");
  sx_assert(o.sigma0 <= o.sigma_max, "sigma0 at most sigma_max");
  Bounds(o.alpha, 0.001, 0.999, "alpha range");
  Bounds(o.beta, 0.1, 0.99, "beta range");
  Bounds(o.eta, 1e-12, 0.499, "eta range");
  Bounds(o.delta, 0.0001, 0.99, "delta range");
  Bounds(o.gamma, 0.001, 0.9, "gamma range");
  Bounds(o.abs_tol, 1e-14, INF, "abs_tol range");
  Bounds(o.rel_tol, 0, INF, "rel_tol range");
  Bounds(o.stall_tol, 1e-14, INF, "stall_tol range");
  Bounds(o.infeas_tol, 1e-14, INF, "infeas_tol range");
  Bounds(o.inner_tol_max, 1e-8, 1e2, "inner_tol_max range");
  Bounds(o.inner_tol_min, 1e-14, 1e-2, "inner_tol_min range");
  sx_assert(o.inner_tol_min <= o.inner_tol_max, "inner_tol_min at most inner_tol_max");
  sx_assert(o.max_newton_iters >= 1, "max_newton_iters range");
  sx_assert(o.max_prox_iters >= 1, "max_prox_iters range");
  sx_assert(o.max_inner_iters >= 1, "max_inner_iters range");
  sx_assert(o.max_linesearch_iters >= 1, "max_linesearch_iters range");
}
static void SameOptions(const AlgorithmParameters& a, const AlgorithmParameters& b) {
  const char* m = "option kept";
  sx_assert(a.sigma0 == b.sigma0, m);
  sx_assert(a.sigma_max == b.sigma_max, m);
  sx_assert(a.sigma_min == b.sigma_min, m);
  sx_assert(a.alpha == b.alpha, m);
  sx_assert(a.beta == b.beta, m);
  sx_assert(a.eta == b.eta, m);
  sx_assert(a.delta == b.delta, m);
  sx_assert(a.gamma == b.gamma, m);
  sx_assert(a.abs_tol == b.abs_tol, m);
  sx_assert(a.rel_tol == b.rel_tol, m);
  sx_assert(a.stall_tol == b.stall_tol, m);
  sx_assert(a.infeas_tol == b.infeas_tol, m);
  sx_assert(a.inner_tol_max == b.inner_tol_max, m);
  sx_assert(a.inner_tol_min == b.inner_tol_min, m);
  sx_assert(a.max_newton_iters == b.max_newton_iters, m);
  sx_assert(a.max_prox_iters == b.max_prox_iters, m);
  sx_assert(a.max_inner_iters == b.max_inner_iters, m);
  sx_assert(a.max_linesearch_iters == b.max_linesearch_iters, m);
  sx_assert(a.check_feasibility == b.check_feasibility, m);
  sx_assert(a.nonmonotone_linesearch == b.nonmonotone_linesearch, m);
  sx_assert(a.display_level == b.display_level, m);
}
// Group g gets arbitrary values; the others keep those of a preset.
static void Set(AlgorithmParameters* o, int g, bool valid) {
  switch (g) {
    case 0:
      o->sigma0 = D("sigma0");
      o->sigma_max = D("sigma_max");
      o->sigma_min = D("sigma_min");
      if (valid) {
        sx_assume(o->sigma_max >= 1e-6 && o->sigma_max <= 1e2);
        sx_assume(o->sigma_min >= 1e-13 && o->sigma_min <= 1e-8);
        // every sigma0 below 1e-10 is raised to it
        sx_assume(o->sigma0 >= o->sigma_min && o->sigma0 <= o->sigma_max);
        sx_assume(o->sigma0 >= 1e-10);
      }
      break;
    case 1:
      o->alpha = D("alpha");
      o->beta = D("beta");
      if (valid) {
        sx_assume(o->alpha >= 0.001 && o->alpha <= 0.999);
        sx_assume(o->beta >= 0.1 && o->beta <= 0.99);
      }
      break;
    case 2:
      o->eta = D("eta");
      o->delta = D("delta");
      o->gamma = D("gamma");
      if (valid) {
        sx_assume(o->eta >= 1e-12 && o->eta <= 0.499);
        sx_assume(o->delta >= 0.0001 && o->delta <= 0.99);
        sx_assume(o->gamma >= 0.001 && o->gamma <= 0.9);
      }
      break;
    case 3:
      o->abs_tol = D("abs_tol");
      o->rel_tol = D("rel_tol");
      o->stall_tol = D("stall_tol");
      o->infeas_tol = D("infeas_tol");
      if (valid) {
        sx_assume(o->abs_tol >= 1e-14);
        sx_assume(o->rel_tol >= 0);
        sx_assume(o->stall_tol >= 1e-14);
        sx_assume(o->infeas_tol >= 1e-14);
      }
      break;
    case 4:
      o->inner_tol_max = D("inner_tol_max");
      o->inner_tol_min = D("inner_tol_min");
      if (valid) {
        sx_assume(o->inner_tol_max >= 1e-8 && o->inner_tol_max <= 1e2);
        sx_assume(o->inner_tol_min >= 1e-14 && o->inner_tol_min <= 1e-2);
        sx_assume(o->inner_tol_min <= o->inner_tol_max);
      }
      break;
    case 5:
      o->max_newton_iters = sx_int("max_newton");
      o->max_prox_iters = sx_int("max_prox");
      o->max_inner_iters = sx_int("max_inner");
      o->max_linesearch_iters = sx_int("max_ls");
      if (valid)
        sx_assume(o->max_newton_iters >= 1 && o->max_prox_iters >= 1 &&
                  o->max_inner_iters >= 1 && o->max_linesearch_iters >= 1);
      break;
    case 6:
      o->check_feasibility = sx_bool("feas");
      o->nonmonotone_linesearch = sx_bool("nonmonotone");
      o->display_level = (Display)sx_choose("display", 0, 3);
      break;
  }
}
static void Preset(AlgorithmParameters* o) {
  int k = sx_choose("preset", 0, 2);
  if (k == 1) o->ReliableParameters();
  else o->DefaultParameters();
  if (k == 2) {  // admissible values that differ from both presets
    o->alpha = 0.5; o->beta = 0.5; o->eta = 0.25; o->delta = 0.5; o->gamma = 0.5;
    o->abs_tol = o->rel_tol = o->stall_tol = o->infeas_tol = 1e-3;
    o->inner_tol_max = 0.5; o->inner_tol_min = 1e-3;
    o->sigma0 = 1e-3; o->sigma_max = 0.25; o->sigma_min = 1e-9;
    o->max_newton_iters = 2; o->max_prox_iters = 3; o->max_inner_iters = 4;
    o->max_linesearch_iters = 1;
    o->check_feasibility = false;
    o->display_level = Display::OFF;
  }
}

// ValidateOptions itself
ENTRY options_validate(int group, int valid) {
  AlgorithmParameters o;
  Preset(&o);
  Set(&o, group, valid);
  AlgorithmParameters in = o;
  o.ValidateOptions();
  InRange(o);
  if (valid) SameOptions(o, in);
  // flags are never touched
  sx_assert(o.check_feasibility == in.check_feasibility, "feasibility flag kept");
  sx_assert(o.nonmonotone_linesearch == in.nonmonotone_linesearch, "line search flag kept");
  sx_assert(o.display_level == in.display_level, "display level kept");
  AlgorithmParameters again = o;
  again.ValidateOptions();
  SameOptions(again, o);
  sx_reach("end");
}
// A value outside its range goes to the nearest bound.
static void Near(double in, double out, double lo, double hi, const char* m) {
  if (in < lo) sx_assert(out == lo, m);
  else if (in > hi) sx_assert(out == hi, m);
  else sx_assert(out == in, m);
}
ENTRY options_nearest(int group) {
  AlgorithmParameters o;
  Preset(&o);
  Set(&o, group, false);
  AlgorithmParameters in = o;
  o.ValidateOptions();
  const char* m = "out-of-range options move to the nearest bound";
  Near(in.sigma_max, o.sigma_max, 1e-6, 1e2, m);
  Near(in.sigma_min, o.sigma_min, 1e-13, 1e-8, m);
  Near(in.sigma0, o.sigma0, o.sigma_min > 1e-10 ? o.sigma_min : 1e-10, o.sigma_max, m);
  Near(in.inner_tol_min, o.inner_tol_min, 1e-14, o.inner_tol_max < 1e-2 ? o.inner_tol_max : 1e-2, m);
  Near(in.alpha, o.alpha, 0.001, 0.999, m);
  Near(in.beta, o.beta, 0.1, 0.99, m);
  Near(in.eta, o.eta, 1e-12, 0.499, m);
  Near(in.delta, o.delta, 0.0001, 0.99, m);
  Near(in.gamma, o.gamma, 0.001, 0.9, m);
  Near(in.abs_tol, o.abs_tol, 1e-14, INF, m);
  Near(in.rel_tol, o.rel_tol, 0, INF, m);
  Near(in.stall_tol, o.stall_tol, 1e-14, INF, m);
  Near(in.infeas_tol, o.infeas_tol, 1e-14, INF, m);
  Near(in.inner_tol_max, o.inner_tol_max, 1e-8, 1e2, m);
  if (in.max_newton_iters < 1) sx_assert(o.max_newton_iters == 1, m);
  else sx_assert(o.max_newton_iters == in.max_newton_iters, m);
  if (in.max_prox_iters < 1) sx_assert(o.max_prox_iters == 1, m);
  else sx_assert(o.max_prox_iters == in.max_prox_iters, m);
  if (in.max_inner_iters < 1) sx_assert(o.max_inner_iters == 1, m);
  else sx_assert(o.max_inner_iters == in.max_inner_iters, m);
  if (in.max_linesearch_iters < 1) sx_assert(o.max_linesearch_iters == 1, m);
  else sx_assert(o.max_linesearch_iters == in.max_linesearch_iters, m);
  sx_reach("end");
}
// UpdateParameters / CurrentParameters on the algorithm
ENTRY options_update(int group, int valid) {
  Rig g;
  AlgorithmParameters o;
  Preset(&o);
  AlgorithmParameters other;
  other.DefaultParameters();
  // the algorithm held other values before
  other.alpha = 0.5; other.beta = 0.5; other.eta = 1e-3; other.delta = 0.5; other.gamma = 0.5;
  other.abs_tol = other.rel_tol = other.stall_tol = other.infeas_tol = 1e-3;
  other.inner_tol_max = 1; other.inner_tol_min = 1e-3;
  other.sigma0 = 1e-3; other.sigma_max = 1; other.sigma_min = 1e-9;
  other.max_newton_iters = 7; other.max_prox_iters = 8; other.max_inner_iters = 9;
  other.max_linesearch_iters = 10;
  other.check_feasibility = false; other.nonmonotone_linesearch = false;
  other.display_level = Display::ITER;
  g.alg.UpdateParameters(&other);
  SameOptions(g.alg.CurrentParameters(), other);
  Set(&o, group, valid);
  const AlgorithmParameters in = o;
  g.alg.UpdateParameters(&o);
  SameOptions(o, in);  // the caller's struct is not changed
  AlgorithmParameters now = g.alg.CurrentParameters();
  InRange(now);
  if (valid) SameOptions(now, in);
  AlgorithmParameters ref = in;
  ref.ValidateOptions();
  SameOptions(now, ref);
  sx_reach("end");
}
// The presets are valid and are what the two solver classes hand out.
ENTRY options_presets() {
  AlgorithmParameters d, r;
  // whatever the struct held before
  for (int g = 0; g < 7; g++) {
    Set(&d, g, false);
    Set(&r, g, false);
  }
  d.DefaultParameters();
  r.ReliableParameters();
  for (int k = 0; k < 2; k++) {
    AlgorithmParameters o = k ? r : d, in = o;
    InRange(o);
    o.ValidateOptions();
    SameOptions(o, in);
    SameOptions(in, k ? (AlgorithmParameters)FBstabDense::ReliableOptions()
                      : (AlgorithmParameters)FBstabDense::DefaultOptions());
    SameOptions(in, k ? (AlgorithmParameters)FBstabMpc::ReliableOptions()
                      : (AlgorithmParameters)FBstabMpc::DefaultOptions());
  }
  Rig g;
  SameOptions(g.alg.CurrentParameters(), d);
  // the reliable preset allows more work and regularises more
  sx_assert(r.sigma0 >= d.sigma0, "reliable preset regularises at least as much");
  sx_assert(r.max_newton_iters >= d.max_newton_iters, "reliable preset allows more Newton steps");
  sx_assert(r.max_prox_iters >= d.max_prox_iters, "reliable preset allows more proximal steps");
  sx_assert(!r.nonmonotone_linesearch, "reliable preset is monotone");
  sx_reach("end");
}
