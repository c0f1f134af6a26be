// QdldlWrapper: factorisation and solution of sparse quasidefinite systems through
// the library's interface.
#include "util.h"
#include "qdldl/include/qdldl.h"
#include "tools/qdldl/qdldl_wrapper.h"
using namespace fbstab;

// Upper triangle in compressed columns, as Eigen's sparse matrices present it.
struct Csc {
  int n;
  std::vector<int> p, i;
  std::vector<double> x;
  const int* outerIndexPtr() const { return p.data(); }
  const int* innerIndexPtr() const { return i.data(); }
  const double* valuePtr() const { return x.data(); }
  std::vector<double> Times(const VectorXd& v) const {
    std::vector<double> y(n, 0.0);
    for (int c = 0; c < n; c++)
      for (int k = p[c]; k < p[c + 1]; k++) {
        y[i[k]] += x[k] * v(c);
        if (i[k] != c) y[c] += x[k] * v(i[k]);
      }
    return y;
  }
};
// pattern: 0 diagonal, 1 dense, 2 tridiagonal, 3 arrow with the dense column last,
// 4 arrow with the dense row first (fills in), 5 scattered.
static bool In(int pattern, int n, int r, int c) {
  if (r == c || pattern == 1) return true;
  if (pattern == 2) return c == r + 1;
  if (pattern == 3) return c == n - 1;
  if (pattern == 4) return r == 0;
  if (pattern == 5) return (3 * r + 5 * c) % 4 == 0;
  return false;
}
// pos: number of leading positive pivots; values: 0 concrete, 1 symbolic
static Csc Make(int n, int pattern, int pos, int values, int seed) {
  Csc a;
  a.n = n;
  a.p.push_back(0);
  for (int c = 0; c < n; c++) {
    for (int r = 0; r <= c; r++) {
      if (!In(pattern, n, r, c)) continue;
      double v;
      if (values && (r == c || (r < pos) != (c < pos))) {
        v = sx_real("a");
        if (r == c) {
          sx_assume(v > 0);
          if (r >= pos) v = -v;
        }
      } else if (r == c) {
        v = (r < pos ? 1 : -1) * (0.5 * n + 1 + (r + seed) % 3);
      } else {
        // small inside the definite blocks, anything between them
        v = ((r * 5 + c * 3 + seed) % 7 - 3) * ((r < pos) != (c < pos) ? 0.75 : values ? 0 : 0.125);
      }
      a.i.push_back(r);
      a.x.push_back(v);
    }
    a.p.push_back((int)a.i.size());
  }
  return a;
}
static void Check(QdldlWrapper* w, const Csc& a, const char* nm, bool exact) {
  VectorXd b(a.n);
  for (int i = 0; i < a.n; i++) {
    b(i) = sx_real(nm);
    if (!exact) Box(b(i));
  }
  VectorXd x = b;
  w->Solve(&x);
  sx_assert(x.size() == a.n, "the solution keeps the size of the right-hand side");
  std::vector<double> r = a.Times(x);
  for (int i = 0; i < a.n; i++)
    if (exact) {
      sx_assert_eq(r[i], b(i), "row of the system");
    } else {
      sx_assert_le(r[i] - b(i), 1e-6, "row of the system");
      sx_assert_le(b(i) - r[i], 1e-6, "row of the system");
    }
}
// kind: 0 concrete matrices, 1 symbolic diagonal and coupling, + 2 exact rationals
ENTRY ldl_solve(int n, int pattern, int pos, int kind) {
  Csc a = Make(n, pattern, pos, kind & 1, 1), c = Make(n, pattern, pos, 0, 5);
  const bool exact = kind != 0;
  Csc* pat = new Csc(a);
  QdldlWrapper w(n, pat->outerIndexPtr(), pat->innerIndexPtr());
  delete pat;  // the pattern is needed by the constructor only
  sx_protect(a.p.data(), a.p.size() * sizeof(int));
  sx_protect(a.i.data(), a.i.size() * sizeof(int));
  sx_protect(a.x.data(), a.x.size() * sizeof(double));
  w.Factor(a);
  Check(&w, a, "b", exact);
  Check(&w, a, "b2", exact);
  if (kind & 1) {
    sx_reach("end");
    return;
  }
  // other values, the first values again, copies
  QdldlWrapper u(w);
  w.Factor(c);
  Check(&w, c, "b3", exact);
  Check(&u, a, "b4", exact);
  w.Factor(a);
  Check(&w, a, "b5", exact);
  u = w;
  w.Factor(c);
  Check(&u, a, "b6", exact);
  sx_reach("end");
}
// One matrix object whose values change in place between factorisations: k picks the
// entry set to an arbitrary number (small outside the diagonal).
ENTRY ldl_inplace(int n, int pattern, int pos, int k) {
  Csc a = Make(n, pattern, pos, 0, 1), c = Make(n, pattern, pos, 0, 4);
  QdldlWrapper w(n, a.p.data(), a.i.data());
  w.Factor(a);
  Check(&w, a, "b", true);
  for (int i = 0; i < (int)a.x.size(); i++) a.x[i] = c.x[i];  // every value
  w.Factor(a);
  Check(&w, a, "b2", true);
  Check(&w, a, "b3", true);
  if (k >= 0) {  // a single one
    double v = sx_real("v");
    bool diag = false;
    for (int col = 0; col < n; col++)
      for (int q = a.p[col]; q < a.p[col + 1]; q++)
        if (q == k && a.i[q] == col) diag = true;
    if (diag) {
      sx_assume(v >= n);
      if (a.x[k] < 0) v = -v;
    } else {
      sx_assume(v >= -0.125);
      sx_assume(v <= 0.125);
    }
    a.x[k] = v;
    w.Factor(a);
    Check(&w, a, "b4", true);
  }
  sx_reach("end");
}
