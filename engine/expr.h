// Hash-consed expression DAG, polynomial normal forms, SMT translation.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

#include "algebra.h"
#include "z3++.h"

namespace symx {

enum Mode { M_REAL = 0, M_FP = 1, M_FPUF = 2 };
extern Mode g_mode;
extern bool g_round;

enum Op : uint8_t {
  O_NUM,     // real constant (AlgNum), REAL mode
  O_FCONST,  // double constant (bits), FP modes
  O_ICONST,  // bit-vector constant
  O_VAR,     // free input
  O_UNDEF,   // uninitialised value
  O_BYTES,   // value assembled from unrelated bytes
  O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FNEG, O_FSQRT, O_FABS, O_UF, O_ITE,
  O_LT, O_LE, O_EQ,   // over reals
  O_FCMP,             // FP modes, pred
  O_BADD, O_BSUB, O_BMUL, O_BUDIV, O_BSDIV, O_BUREM, O_BSREM, O_BAND, O_BOR,
  O_BXOR, O_BSHL, O_BLSHR, O_BASHR, O_ICMP, O_ZEXT, O_SEXT, O_TRUNC,
  O_NOT,  // i1
  O_SITOFP, O_UITOFP, O_FPTOSI,
};
enum Kind : uint8_t { K_F, K_I };

struct Expr;
struct ByteRef {
  uint8_t kind;  // 0 concrete, 1 expr byte, 2 undef
  uint8_t c;
  uint8_t off;
  Expr* e;
};

struct Expr {
  uint32_t id = 0;
  Op op;
  Kind kind;
  uint8_t w = 64;
  uint8_t pred = 0;
  uint8_t n = 0;
  Expr* a[3] = {nullptr, nullptr, nullptr};
  uint64_t bits = 0;
  AlgNum* num = nullptr;
  std::string* name = nullptr;
  std::vector<ByteRef>* bytes = nullptr;
  std::vector<uint32_t> vars;  // ids of the O_VAR nodes below
};

struct Val {
  uint64_t c = 0;
  Expr* e = nullptr;
};
inline Val CI(uint64_t c) { return Val{c, nullptr}; }
Val CD(double d);
double AsD(const Val& v);

// Predicates as in LLVM's FCmp numbering (0 false .. 15 true) and ICmp (32..41).
class Pool {
 public:
  Expr* Make(Op op, Kind k, uint8_t w, std::vector<Expr*> args,
             uint8_t pred = 0, uint64_t bits = 0, const AlgNum* num = nullptr,
             const std::string& name = "");
  Expr* Bytes(const std::vector<ByteRef>& b);
  Expr* Undef(Kind k, uint8_t w) { return Make(O_UNDEF, k, w, {}); }
  Expr* Var(const std::string& name, Kind k, uint8_t w) {
    return Make(O_VAR, k, w, {}, 0, 0, nullptr, name);
  }
  Expr* FromVal(const Val& v, Kind k, uint8_t w);
  Expr* Num(const AlgNum& n);
  std::vector<Expr*> all;

 private:
  std::unordered_map<std::string, Expr*> tab_;
};
extern Pool g_pool;

// Constant helpers (REAL mode).
bool IsNum(const Val& v);        // finite constant
bool IsNonFinite(const Val& v);  // concrete inf/nan
AlgNum NumOf(const Val& v);
Val NumVal(const AlgNum& n);

Expr* NotE(Expr* e);

// Sign analysis: which of {negative (1), zero (2), positive (4)} a real-valued
// expression can be, given a set of conditions known to hold.
class SignCtx {
 public:
  void AddFact(Expr* c);
  int Mask(Expr* e);
  bool NonNeg(Expr* e) { return !(Mask(e) & 1); }
  bool Pos(Expr* e) { return Mask(e) == 4; }
  bool NonZero(Expr* e) { return !(Mask(e) & 2); }
  // Rational bounds: e >= *out (lower) or e <= *out (upper).
  bool Bound(Expr* e, bool lower, mpq_class* out, int d = 0);

 private:
  int M(Expr* e, int d);
  void Meet(Expr* e, int m);
  std::unordered_map<Expr*, int> facts_, memo_;
  std::map<std::pair<Expr*, Expr*>, bool> order_;
  std::unordered_map<Expr*, mpq_class> lo_, hi_;  // (l, r): l < r (true), l <= r
};
// Addends x*x of a sum of nonnegative terms.
void SquareAddends(Expr* e, std::vector<Expr*>* roots);

// Numeric evaluation under an assignment of variables (double arithmetic).
struct Assign {
  std::unordered_map<uint32_t, double> f;
  std::unordered_map<uint32_t, uint64_t> i;
};
// The library function an uninterpreted function stands for; NaN if there is none.
double NativeUF(const char* name, const double* args);
struct Evaluator {
  const Assign& a;
  std::unordered_map<uint32_t, double> mf;
  std::unordered_map<uint32_t, uint64_t> mi;
  explicit Evaluator(const Assign& as) : a(as) {}
  double F(Expr* e);
  uint64_t I(Expr* e);
};

// Polynomials over atoms -----------------------------------------------------
using Mono = std::vector<std::pair<int, int>>;  // (atom, exponent) sorted
using Poly = std::map<Mono, mpq_class>;
struct Atom {
  int type;  // 0 variable/opaque expression, 1 sqrt of a polynomial, 2 inverse
  Expr* e = nullptr;
  Poly p;
};
extern std::vector<Atom> g_atoms;
// nullptr when the expression is too large for the normal form.
const Poly* PolyOf(Expr* e);
Poly PAdd(const Poly& a, const Poly& b);
Poly PSub(const Poly& a, const Poly& b);
bool PMul(const Poly& a, const Poly& b, Poly* out);
// True if p is identically zero after clearing inverses and reducing radicals.
// sets *toobig if undecided because of size.
bool PolyZero(const Poly& p, bool* toobig);

// SMT -------------------------------------------------------------------------
enum Res { SAT, UNSAT, UNKNOWN };
struct Model {
  std::map<std::string, std::string> text;  // printable values
  Assign as;
};
struct SmtStats {
  uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0;
  double seconds = 0;
};
extern SmtStats g_smt;
Res SmtCheck(const std::vector<Expr*>& conds, unsigned timeout_ms, Model* m,
             bool usePoly = true, bool exact = false, int ra = 0);

std::string Show(Expr* e, int depth = 6);

}  // namespace symx
