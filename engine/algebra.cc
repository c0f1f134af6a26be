#include "algebra.h"

#include <cmath>
#include <cstring>

namespace symx {

mpq_class DoubleToQ(double d) {
  mpq_class q;
  mpq_set_d(q.get_mpq_t(), d);
  return q;
}

double QToDouble(const mpq_class& q) {
  // mpq_get_d truncates; round to nearest by comparing the neighbours.
  double d = q.get_d();
  if (!std::isfinite(d)) return d;
  double best = d;
  mpq_class bd = abs(q - DoubleToQ(d));
  for (double c : {std::nextafter(d, INFINITY), std::nextafter(d, -INFINITY)}) {
    if (!std::isfinite(c)) continue;
    mpq_class e = abs(q - DoubleToQ(c));
    if (e < bd) {
      bd = e;
      best = c;
    }
  }
  return best;
}

bool QToDoubleExact(const mpq_class& q, double* out) {
  // The denominator must be a power of two.
  const mpz_class& den = q.get_den();
  if (mpz_popcount(den.get_mpz_t()) != 1) return false;
  if (mpz_sizeinbase(q.get_num().get_mpz_t(), 2) > 2000 ||
      mpz_sizeinbase(den.get_mpz_t(), 2) > 1100)
    return false;
  double d = q.get_d();
  if (!std::isfinite(d)) return false;
  if (DoubleToQ(d) != q) return false;
  *out = d;
  return true;
}

static bool PerfectSquare(const mpz_class& m, mpz_class* r) {
  if (!mpz_perfect_square_p(m.get_mpz_t())) return false;
  mpz_sqrt(r->get_mpz_t(), m.get_mpz_t());
  return true;
}

// Splits sqrt(m) = coef * sqrt(rad).
static void ExtractSquares(mpz_class m, mpz_class* coef, mpz_class* rad) {
  *coef = 1;
  mpz_class r;
  if (PerfectSquare(m, &r)) {
    *coef = r;
    *rad = 1;
    return;
  }
  static const int primes[] = {2,  3,  5,  7,  11, 13, 17, 19,
                               23, 29, 31, 37, 41, 43, 47, 53};
  for (int p : primes) {
    mpz_class p2 = p * p;
    while (mpz_divisible_p(m.get_mpz_t(), p2.get_mpz_t())) {
      m /= p2;
      *coef *= p;
    }
  }
  if (PerfectSquare(m, &r)) {
    *coef *= r;
    m = 1;
  }
  *rad = m;
}

// Adds q*sqrt(M) into n, keeping the representation canonical.
static void AddTerm(AlgNum* n, const mpz_class& M, const mpq_class& q) {
  if (q == 0) return;
  auto it = n->t.find(M);
  if (it != n->t.end()) {
    it->second += q;
    if (it->second == 0) n->t.erase(it);
    return;
  }
  if (M != 1) {
    for (auto& kv : n->t) {
      if (kv.first == 1) continue;
      mpz_class prod = kv.first * M, r;
      if (PerfectSquare(prod, &r)) {
        // sqrt(M) = r / sqrt(K) = (r/K) sqrt(K)
        mpq_class f(r, kv.first);
        f.canonicalize();
        kv.second += q * f;
        if (kv.second == 0) n->t.erase(kv.first);
        return;
      }
    }
  }
  n->t[M] = q;
}

AlgNum AlgAdd(const AlgNum& a, const AlgNum& b) {
  AlgNum r = a;
  for (auto& kv : b.t) AddTerm(&r, kv.first, kv.second);
  return r;
}

AlgNum AlgNeg(const AlgNum& a) {
  AlgNum r = a;
  for (auto& kv : r.t) kv.second = -kv.second;
  return r;
}

AlgNum AlgMul(const AlgNum& a, const AlgNum& b) {
  AlgNum r;
  for (auto& x : a.t)
    for (auto& y : b.t) {
      mpz_class g = gcd(x.first, y.first);
      mpz_class m = (x.first / g) * (y.first / g);
      mpz_class coef, rad;
      ExtractSquares(m, &coef, &rad);
      mpq_class q = x.second * y.second * mpq_class(g * coef);
      AddTerm(&r, rad, q);
    }
  return r;
}

std::optional<AlgNum> AlgInv(const AlgNum& a) {
  if (a.t.empty()) return std::nullopt;
  if (a.t.size() == 1) {
    // 1/(q sqrt(M)) = sqrt(M)/(q M)
    AlgNum r;
    mpq_class q = 1 / (a.t.begin()->second * mpq_class(a.t.begin()->first));
    r.t[a.t.begin()->first] = q;
    return r;
  }
  if (a.t.size() > 8) return std::nullopt;
  // Rationalise: flip the sign of the terms that contain the last radical.
  // (u + v)(u - v) with v the last term removes one radical for two-term sums.
  AlgNum u = a, v;
  auto last = std::prev(u.t.end());
  v.t[last->first] = last->second;
  u.t.erase(last);
  AlgNum conj = AlgAdd(u, AlgNeg(v));
  AlgNum prod = AlgMul(a, conj);
  if (prod.t.size() >= a.t.size() && !prod.rational()) return std::nullopt;
  auto i = AlgInv(prod);
  if (!i) return std::nullopt;
  return AlgMul(conj, *i);
}

std::optional<AlgNum> AlgSqrt(const AlgNum& a) {
  if (!a.rational()) return std::nullopt;
  mpq_class q = a.rat();
  if (q == 0) return AlgNum();
  if (q < 0) return std::nullopt;
  // sqrt(n/d) = sqrt(n d)/d
  mpz_class coef, rad;
  ExtractSquares(q.get_num() * q.get_den(), &coef, &rad);
  AlgNum r;
  mpq_class c(coef, q.get_den());
  c.canonicalize();
  r.t[rad] = c;
  return r;
}

int AlgNum::sign() const {
  if (t.empty()) return 0;
  if (t.size() == 1) return sgn(t.begin()->second);
  bool pos = true, neg = true;
  for (auto& kv : t) {
    if (kv.second < 0) pos = false;
    if (kv.second > 0) neg = false;
  }
  if (pos) return 1;
  if (neg) return -1;
  for (unsigned prec = 256; prec <= 65536; prec *= 4) {
    mpf_class s(0, prec), mag(0, prec);
    for (auto& kv : t) {
      mpf_class r(kv.first, prec);
      mpf_class sq(0, prec);
      mpf_sqrt(sq.get_mpf_t(), r.get_mpf_t());
      mpf_class c(kv.second, prec);
      mpf_class term(0, prec);
      term = c * sq;
      s += term;
      mag += abs(term);
    }
    mpf_class eps(mag, prec);
    mpf_div_2exp(eps.get_mpf_t(), eps.get_mpf_t(), prec - 16);
    if (abs(s) > eps) return sgn(s);
  }
  return 0;  // unreachable for canonical representations in practice
}

double AlgNum::approx() const {
  mpf_class s(0, 512);
  for (auto& kv : t) {
    mpf_class r(kv.first, 512), sq(0, 512), c(kv.second, 512);
    mpf_sqrt(sq.get_mpf_t(), r.get_mpf_t());
    s += c * sq;
  }
  return s.get_d();
}

std::string AlgNum::key() const {
  std::string s;
  for (auto& kv : t) {
    s += kv.second.get_str(62);
    if (kv.first != 1) s += "r" + kv.first.get_str(62);
    s += ",";
  }
  return s;
}

}  // namespace symx
