// MatrixSequence and MapMatrixSequence: addressing, copying, rejection.
#include <climits>
#include <utility>

#include "tools/matrix_sequence.h"
#include "util.h"
using namespace fbstab;

// 0 no exception, 1 runtime_error, 2 another exception, 3 out_of_range
template <class F>
static int Code(F&& f) {
  try {
    f();
  } catch (const std::out_of_range&) {
    return 3;
  } catch (const std::runtime_error&) {
    return 1;
  } catch (...) {
    return 2;
  }
  return 0;
}
static double* Raw(int n, const char* nm) {
  double* p = new double[n > 0 ? n : 1];
  for (int i = 0; i < n; i++) p[i] = sx_real(nm);
  return p;
}
template <class S>
static void Shape(const S& s, int len, int r, int c) {
  sx_assert(s.length() == len && s.rows() == r && s.cols() == c && s.size() == len * r * c, "shape");
}
// All elements of sequence s against the buffer p.
template <class S>
static void Elements(S& s, int len, int r, int c, const double* p) {
  for (int k = 0; k < len; k++) {
    auto m = s(k);
    sx_assert(m.rows() == r && m.cols() == c, "a matrix of the sequence has the declared shape");
    sx_assert(m.data() == s.data() + k * r * c, "a matrix of the sequence is a view of its data");
    for (int i = 0; i < r; i++)
      for (int j = 0; j < c; j++) sx_assert_eq(m(i, j), p[k * r * c + j * r + i], "element (i,j,k)");
  }
}
// Any 32-bit index.
template <class S>
static void Index(S& s, int len, const char* nm) {
  int k = sx_int(nm);
  bool in = k >= 0 & k < len;
  int c = Code([&] { (void)s(k); });
  sx_assert(c == (in ? 0 : 3), "indices outside the sequence throw out_of_range, others do not throw");
  sx_reach(c ? "outside" : "inside");
}

ENTRY seq_owning(int len, int r, int c) {
  MatrixSequence s(len, r, c);
  const MatrixSequence& cs = s;
  Shape(s, len, r, c);
  double* p = Raw(len * r * c, "a");
  for (int k = 0; k < len; k++)
    for (int i = 0; i < r; i++)
      for (int j = 0; j < c; j++) s(k)(i, j) = p[k * r * c + j * r + i];
  Elements(s, len, r, c, p);
  Elements(cs, len, r, c, p);
  for (int i = 0; i < len * r * c; i++) sx_assert_eq(cs.data()[i], p[i], "linear layout");
  int part = sx_choose("part", 0, 4);
  if (part == 0) Index(s, len, "k");
  if (part == 1) Index(cs, len, "k");
  // deep copies
  MatrixSequence u(2, 1, 3), v;
  if (part == 2) {
    MatrixSequence w(s);
    v = w;
    u = s;
  } else if (part == 3) {
    MatrixSequence w(s), x(s);
    v = std::move(w);
    MatrixSequence y(std::move(x));
    u = y;
  } else if (part == 4) {
    u = s;
    MatrixSequence& alias = u;
    u = alias;
    v = MatrixSequence(s);
  } else {
    delete[] p;
    return;
  }
  Shape(u, len, r, c);
  Shape(v, len, r, c);
  Elements(u, len, r, c, p);
  Elements(v, len, r, c, p);
  int n = len * r * c;
  for (int i = 0; i < n; i++) u.data()[i] = sx_real("b");
  Elements(s, len, r, c, p);
  Elements(v, len, r, c, p);
  for (int i = 0; i < n; i++) s.data()[i] = sx_real("d");
  Elements(v, len, r, c, p);
  // a copy outlives its source
  MatrixSequence* t = new MatrixSequence(v);
  MatrixSequence t2(*t);
  delete t;
  Elements(t2, len, r, c, p);
  delete[] p;
  sx_reach("copied");
}

ENTRY seq_mapped(int len, int r, int c) {
  int n = len * r * c;
  double* p = Raw(n, "a");
  MapMatrixSequence s(p, len, r, c);
  const MapMatrixSequence& cs = s;
  int part = sx_choose("part", 0, 3);
  Shape(s, len, r, c);
  sx_assert(s.data() == p && cs.data() == p, "a mapped sequence refers to the given memory");
  Elements(s, len, r, c, p);
  if (part == 0) Index(s, len, "k");
  if (part == 1) {
    MapMatrixSequence u, v(s), w(p, 1, 1, 1);
    u = s;
    w = std::move(u);
    for (int i = 0; i < n; i++) p[i] = sx_real("b");
    Elements(s, len, r, c, p);
    Elements(v, len, r, c, p);
    Elements(w, len, r, c, p);
    Shape(v, len, r, c);
    Shape(w, len, r, c);
    sx_assert(v.data() == p && w.data() == p, "copies refer to the same memory");
    sx_reach("copied");
  }
  if (part == 2) {
    MatrixSequence o(len, r, c);
    for (int i = 0; i < n; i++) o.data()[i] = p[i];
    MapMatrixSequence m(o);
    const MatrixSequence& co = o;
    MapMatrixSequence m2(co), m3;
    m3 = o;
    Shape(m, len, r, c);
    Elements(m, len, r, c, p);
    for (int i = 0; i < n; i++) o.data()[i] = p[i] = sx_real("b");
    Elements(m, len, r, c, p);
    Elements(m2, len, r, c, p);
    Elements(m3, len, r, c, p);
    Shape(m3, len, r, c);
    sx_assert(m.data() == o.data() && m2.data() == o.data() && m3.data() == o.data(), "mapping an owning sequence refers to its memory");
    Index(m, len, "k");
    sx_reach("mapped");
  }
  if (part == 3) {
    MatrixSequence empty;
    MapMatrixSequence m(empty), d;
    Shape(empty, 0, 1, 1);
    Shape(m, 0, 1, 1);
    Shape(d, 0, 1, 1);
    Index(empty, 0, "k");
    Index(m, 0, "k");
    Index(d, 0, "k");
    sx_reach("empty");
  }
  delete[] p;
}

// Constructor arguments of every sign.
ENTRY seq_ctor(int kind) {
  int len = sx_int("len"), r = sx_int("rows"), c = sx_int("cols");
  static double x[64];
  bool bad = kind == 0 ? (len < 0 | r <= 0 | c <= 0) : (len <= 0 | r <= 0 | c <= 0);
  if (sx_bool("bad")) {
    sx_assume(bad);
    int t = kind == 0 ? Code([&] { MatrixSequence s(len, r, c); }) : Code([&] { MapMatrixSequence s(x, len, r, c); });
    sx_assert(t == 1, "inadmissible shapes throw runtime_error");
    sx_reach("bad");
  } else {
    sx_assume(!bad);
    sx_assume(len <= 4 & r <= 4 & c <= 4);
    if (kind == 0) {
      int t = Code([&] { MatrixSequence s(len, r, c); Shape(s, len, r, c); });
      sx_assert(t == 0, "admissible shapes do not throw");
    } else {
      int t = Code([&] { MapMatrixSequence s(x, len, r, c); Shape(s, len, r, c); });
      sx_assert(t == 0, "admissible shapes do not throw");
      sx_assert(Code([&] { MapMatrixSequence s(nullptr, len, r, c); }) == 1, "null data throws runtime_error");
    }
    sx_reach("good");
  }
}
// Two-argument form: one column.
ENTRY seq_column(int len, int r) {
  MatrixSequence s(len, r);
  Shape(s, len, r, 1);
  sx_reach("end");
}
// Writing through one matrix leaves the others alone.
ENTRY seq_write(int len, int r, int c) {
  MatrixSequence s(len, r, c);
  int n = len * r * c;
  double* p = Raw(n, "a");
  for (int i = 0; i < n; i++) s.data()[i] = p[i];
  int k = sx_choose("k", 0, len - 1);
  MatrixXd m = SymM("m", r, c);
  s(k) = m;
  for (int q = 0; q < len; q++)
    for (int i = 0; i < r; i++)
      for (int j = 0; j < c; j++)
        sx_assert_eq(s.data()[q * r * c + j * r + i], q == k ? m(i, j) : p[q * r * c + j * r + i], "writes reach only the addressed matrix");
  MatrixXd back = s(k);
  for (int i = 0; i < r; i++)
    for (int j = 0; j < c; j++) sx_assert_eq(back(i, j), m(i, j), "read back");
  delete[] p;
  sx_reach("end");
}
