// Exact constant arithmetic (rationals extended by square roots) used by symx.
#pragma once
#include <gmpxx.h>
#include <map>
#include <optional>
#include <string>
#include <vector>

namespace symx {

// Exact rational value of a finite double.
mpq_class DoubleToQ(double d);
// True (and sets out) when q is exactly a finite double.
bool QToDoubleExact(const mpq_class& q, double* out);
// Nearest double.
double QToDouble(const mpq_class& q);

// sum_i q_i * sqrt(M_i), M_i distinct positive integers, M_i = 1 for the
// rational part; products of distinct radicands are never perfect squares, so
// the representation is canonical.
struct AlgNum {
  std::map<mpz_class, mpq_class> t;
  AlgNum() = default;
  explicit AlgNum(const mpq_class& q) {
    if (q != 0) t[mpz_class(1)] = q;
  }
  bool zero() const { return t.empty(); }
  bool rational() const {
    return t.empty() || (t.size() == 1 && t.begin()->first == 1);
  }
  mpq_class rat() const { return t.empty() ? mpq_class(0) : t.begin()->second; }
  int sign() const;
  double approx() const;
  bool operator==(const AlgNum& o) const { return t == o.t; }
  std::string key() const;
};
AlgNum AlgAdd(const AlgNum& a, const AlgNum& b);
AlgNum AlgNeg(const AlgNum& a);
AlgNum AlgMul(const AlgNum& a, const AlgNum& b);
std::optional<AlgNum> AlgInv(const AlgNum& a);   // nullopt: not representable
std::optional<AlgNum> AlgSqrt(const AlgNum& a);  // rational, nonnegative only

}  // namespace symx
