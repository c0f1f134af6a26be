#include "expr.h"

#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstring>
#include <fstream>
#include <iostream>
#include <sstream>

namespace symx {

Mode g_mode = M_REAL;
bool g_round = false;
Pool g_pool;
std::vector<Atom> g_atoms;
SmtStats g_smt;

Val CD(double d) {
  Val v;
  memcpy(&v.c, &d, 8);
  return v;
}
double AsD(const Val& v) {
  double d;
  memcpy(&d, &v.c, 8);
  return d;
}

static void MergeVars(Expr* r) {
  for (int i = 0; i < r->n; i++) {
    if (r->vars.empty()) {
      r->vars = r->a[i]->vars;
      continue;
    }
    if (r->a[i]->vars.empty() || r->a[i]->vars == r->vars) continue;
    std::vector<uint32_t> o;
    std::set_union(r->vars.begin(), r->vars.end(), r->a[i]->vars.begin(),
                   r->a[i]->vars.end(), std::back_inserter(o));
    r->vars.swap(o);
  }
}

Expr* Pool::Make(Op op, Kind k, uint8_t w, std::vector<Expr*> args,
                 uint8_t pred, uint64_t bits, const AlgNum* num,
                 const std::string& name) {
  if ((op == O_FADD || op == O_FMUL) && g_mode != M_REAL &&
      args[1]->id < args[0]->id)
    std::swap(args[0], args[1]);  // commutative up to NaN payloads
  std::string key;
  key.reserve(32);
  key.push_back((char)op);
  key.push_back((char)k);
  key.push_back((char)w);
  key.push_back((char)pred);
  key.append((const char*)&bits, 8);
  for (Expr* e : args) key.append((const char*)&e->id, 4);
  if (num) key += num->key();
  if (!name.empty()) key += "#" + name;
  auto it = tab_.find(key);
  if (it != tab_.end()) return it->second;
  Expr* r = new Expr();
  r->id = (uint32_t)all.size();
  r->op = op;
  r->kind = k;
  r->w = w;
  r->pred = pred;
  r->bits = bits;
  r->n = (uint8_t)args.size();
  for (size_t i = 0; i < args.size(); i++) r->a[i] = args[i];
  if (num) r->num = new AlgNum(*num);
  if (!name.empty()) r->name = new std::string(name);
  if (op == O_VAR)
    r->vars = {r->id};
  else
    MergeVars(r);
  all.push_back(r);
  tab_[key] = r;
  return r;
}

Expr* Pool::Bytes(const std::vector<ByteRef>& b) {
  std::string key = "BYTES";
  for (auto& x : b) {
    key.push_back((char)x.kind);
    key.push_back((char)x.c);
    key.push_back((char)x.off);
    uint32_t id = x.e ? x.e->id : 0;
    key.append((const char*)&id, 4);
  }
  auto it = tab_.find(key);
  if (it != tab_.end()) return it->second;
  Expr* r = new Expr();
  r->id = (uint32_t)all.size();
  r->op = O_BYTES;
  r->kind = K_I;
  r->w = (uint8_t)(b.size() * 8);
  r->bytes = new std::vector<ByteRef>(b);
  for (auto& x : b)
    if (x.kind == 1) {
      std::vector<uint32_t> o;
      std::set_union(r->vars.begin(), r->vars.end(), x.e->vars.begin(),
                     x.e->vars.end(), std::back_inserter(o));
      r->vars.swap(o);
    }
  all.push_back(r);
  tab_[key] = r;
  return r;
}

Expr* Pool::Num(const AlgNum& n) { return Make(O_NUM, K_F, 64, {}, 0, 0, &n); }

Expr* Pool::FromVal(const Val& v, Kind k, uint8_t w) {
  if (v.e) return v.e;
  if (k == K_I) return Make(O_ICONST, K_I, w, {}, 0, v.c);
  if (g_mode == M_REAL) {
    double d = AsD(v);
    if (!std::isfinite(d)) return Make(O_FCONST, K_F, 64, {}, 0, v.c);
    AlgNum n(DoubleToQ(d));
    return Num(n);
  }
  return Make(O_FCONST, K_F, 64, {}, 0, v.c);
}

bool IsNum(const Val& v) {
  if (!v.e) return std::isfinite(AsD(v));
  return v.e->op == O_NUM;
}
bool IsNonFinite(const Val& v) { return !v.e && !std::isfinite(AsD(v)); }
AlgNum NumOf(const Val& v) {
  if (v.e) return *v.e->num;
  return AlgNum(DoubleToQ(AsD(v)));
}
Val NumVal(const AlgNum& n) {
  if (n.rational()) {
    double d;
    if (QToDoubleExact(n.rat(), &d)) return CD(d);
  }
  Val v;
  v.e = g_pool.Num(n);
  return v;
}

Expr* NotE(Expr* e) {
  switch (e->op) {
    case O_NOT:
      return e->a[0];
    case O_ICONST:
      return g_pool.Make(O_ICONST, K_I, 1, {}, 0, !e->bits);
    case O_LT:
      return g_pool.Make(O_LE, K_I, 1, {e->a[1], e->a[0]});
    case O_LE:
      return g_pool.Make(O_LT, K_I, 1, {e->a[1], e->a[0]});
    default:
      return g_pool.Make(O_NOT, K_I, 1, {e});
  }
}

void SquareAddends(Expr* e, std::vector<Expr*>* roots) {
  // only meaningful when every addend is a square
  std::vector<Expr*> st{e}, out;
  while (!st.empty()) {
    Expr* x = st.back();
    st.pop_back();
    if (x->op == O_FADD) {
      st.push_back(x->a[0]);
      st.push_back(x->a[1]);
    } else if (x->op == O_FMUL && x->a[0] == x->a[1]) {
      out.push_back(x->a[0]);
    } else if (x->op == O_NUM && x->num->sign() >= 0) {
    } else {
      return;
    }
    if (out.size() > 16) return;
  }
  *roots = out;
}

void SignCtx::Meet(Expr* e, int m) {
  auto it = facts_.find(e);
  int n = (it == facts_.end() ? 7 : it->second) & m;
  if (it != facts_.end() && it->second == n) return;
  facts_[e] = n;
  memo_.clear();
  if (e->op == O_FNEG) {
    Meet(e->a[0], ((m & 1) ? 4 : 0) | (m & 2) | ((m & 4) ? 1 : 0));
  } else if (e->op == O_FABS || e->op == O_FSQRT) {
    if (!(m & 2)) Meet(e->a[0], e->op == O_FABS ? 5 : 4);
  } else if (e->op == O_FMUL && !(m & 2)) {
    Meet(e->a[0], 5);
    Meet(e->a[1], 5);
  }
}
void SignCtx::AddFact(Expr* c) {
  if (c->op == O_BAND && c->w == 1) {
    AddFact(c->a[0]);
    AddFact(c->a[1]);
    return;
  }
  bool neg = false;
  if (c->op == O_NOT) {
    neg = true;
    c = c->a[0];
  }
  if (c->op != O_LT && c->op != O_LE && c->op != O_EQ) return;
  Expr *l = c->a[0], *r = c->a[1];
  if (c->op == O_EQ) {
    if (r->op == O_NUM) std::swap(l, r);
    if (l->op != O_NUM) return;
    int s = l->num->sign();
    if (neg) {
      if (s == 0) Meet(r, 5);
    } else {
      Meet(r, s < 0 ? 1 : s == 0 ? 2 : 4);
    }
    return;
  }
  if (neg) return;  // NotE never leaves a negated inequality
  bool strict = c->op == O_LT;
  bool& o = order_[{l, r}];
  if (strict && !o) {
    o = true;
    memo_.clear();
  }
  if (l->op == O_NUM && l->num->rational()) {
    auto it = lo_.find(r);
    if (it == lo_.end() || it->second < l->num->rat()) lo_[r] = l->num->rat();
  } else if (r->op == O_NUM && r->num->rational()) {
    auto it = hi_.find(l);
    if (it == hi_.end() || it->second > r->num->rat()) hi_[l] = r->num->rat();
  }
  if (l->op == O_NUM) {  // num < r
    int s = l->num->sign();
    if (s > 0 || (s == 0 && strict)) Meet(r, 4);
    else if (s == 0) Meet(r, 6);
  } else if (r->op == O_NUM) {  // l < num
    int s = r->num->sign();
    if (s < 0 || (s == 0 && strict)) Meet(l, 1);
    else if (s == 0) Meet(l, 3);
  }
}
static int MulMask(int a, int b) {
  int r = 0;
  if ((a & 2) || (b & 2)) r |= 2;
  if (((a & 1) && (b & 1)) || ((a & 4) && (b & 4))) r |= 4;
  if (((a & 1) && (b & 4)) || ((a & 4) && (b & 1))) r |= 1;
  return r;
}
static int AddMask(int a, int b) {
  int r = 0;
  auto one = [&](int x, int y) {
    if (x == 2) return y;
    if (y == 2) return x;
    return x == y ? x : 7;
  };
  for (int x = 1; x <= 4; x <<= 1)
    for (int y = 1; y <= 4; y <<= 1)
      if ((a & x) && (b & y)) r |= one(x, y);
  return r;
}
static int NegMask(int m) {
  return ((m & 1) ? 4 : 0) | (m & 2) | ((m & 4) ? 1 : 0);
}
bool SignCtx::Bound(Expr* e, bool lower, mpq_class* out, int d) {
  bool have = false;
  auto better = [&](const mpq_class& q) {
    if (!have || (lower ? q > *out : q < *out)) *out = q;
    have = true;
  };
  if (e->op == O_NUM) {
    if (!e->num->rational()) return false;
    *out = e->num->rat();
    return true;
  }
  auto& fm = lower ? lo_ : hi_;
  auto it = fm.find(e);
  if (it != fm.end()) better(it->second);
  int m = Mask(e);
  if (lower ? !(m & 1) : !(m & 4)) better(0);
  if (d > 12) return have;
  mpq_class p, q;
  switch (e->op) {
    case O_FADD:
      if (Bound(e->a[0], lower, &p, d + 1) && Bound(e->a[1], lower, &q, d + 1))
        better(p + q);
      break;
    case O_FSUB:
      if (Bound(e->a[0], lower, &p, d + 1) && Bound(e->a[1], !lower, &q, d + 1))
        better(p - q);
      break;
    case O_FNEG:
      if (Bound(e->a[0], !lower, &p, d + 1)) better(-p);
      break;
    case O_FABS:
      if (lower) {
        if (Bound(e->a[0], true, &p, d + 1) && p > 0) better(p);
        if (Bound(e->a[0], false, &p, d + 1) && p < 0) better(-p);
      }
      break;
    case O_FMUL:
      if (!(Mask(e->a[0]) & 1) && !(Mask(e->a[1]) & 1) &&
          Bound(e->a[0], lower, &p, d + 1) && Bound(e->a[1], lower, &q, d + 1) &&
          p >= 0 && q >= 0)
        better(p * q);
      break;
    default:
      break;
  }
  return have;
}
int SignCtx::Mask(Expr* e) { return M(e, 0); }
int SignCtx::M(Expr* e, int d) {
  auto it = memo_.find(e);
  if (it != memo_.end()) return it->second;
  if (d > 400) return 7;
  int r = 7;
  switch (e->op) {
    case O_NUM: {
      int s = e->num->sign();
      r = s < 0 ? 1 : s == 0 ? 2 : 4;
      break;
    }
    case O_FNEG: r = NegMask(M(e->a[0], d + 1)); break;
    case O_FABS: {
      int m = M(e->a[0], d + 1);
      r = (m & 2) | ((m & 5) ? 4 : 0);
      break;
    }
    case O_FSQRT: r = M(e->a[0], d + 1) & 6; break;
    case O_ITE: r = M(e->a[1], d + 1) | M(e->a[2], d + 1); break;
    case O_FADD: r = AddMask(M(e->a[0], d + 1), M(e->a[1], d + 1)); break;
    case O_FSUB: {
      r = AddMask(M(e->a[0], d + 1), NegMask(M(e->a[1], d + 1)));
      auto o = order_.find({e->a[1], e->a[0]});
      if (o != order_.end()) r &= o->second ? 4 : 6;
      o = order_.find({e->a[0], e->a[1]});
      if (o != order_.end()) r &= o->second ? 1 : 3;
      // 1 - x / sqrt(x*x + ...)
      if (e->a[0]->op == O_NUM && e->a[1]->op == O_FDIV) {
        Expr *x = e->a[1]->a[0], *s = e->a[1]->a[1];
        if (s->op == O_FSQRT && e->a[0]->num->rational() &&
            e->a[0]->num->rat() >= 1) {
          std::vector<Expr*> roots;
          SquareAddends(s->a[0], &roots);
          for (Expr* q : roots)
            if (q == x) r &= 6;
        }
      }
      break;
    }
    case O_FMUL:
    case O_FDIV: {
      // factors with parity: x*(x*y), x/(x*y), ...
      std::vector<Expr*> fs, st{e};
      bool big = false;
      while (!st.empty()) {
        Expr* x = st.back();
        st.pop_back();
        if (x != e && facts_.count(x) && facts_[x] != 7 &&
            (x->op == O_FMUL || x->op == O_FDIV)) {
          fs.push_back(x);
        } else if (x->op == O_FMUL || x->op == O_FDIV) {
          st.push_back(x->a[0]);
          st.push_back(x->a[1]);
        } else {
          fs.push_back(x);
        }
        if (fs.size() + st.size() > 40) {
          big = true;
          break;
        }
      }
      if (big) break;
      std::map<Expr*, int> cnt;
      for (Expr* x : fs) cnt[x]++;
      r = 4;
      for (auto& kv : cnt) {
        int m = M(kv.first, d + 1);
        if (kv.second % 2 == 0) m = (m & 2) | ((m & 5) ? 4 : 0);
        r = MulMask(r, m);
      }
      break;
    }
    default:
      break;
  }
  auto f = facts_.find(e);
  if (f != facts_.end()) r &= f->second;
  memo_[e] = r;
  return r;
}

// ---------------------------------------------------------------------------
static bool FPred(uint8_t p, double a, double b) {
  bool uno = std::isnan(a) || std::isnan(b);
  bool eq = a == b, gt = a > b, lt = a < b;
  return ((p & 1) && eq) || ((p & 2) && gt) || ((p & 4) && lt) ||
         ((p & 8) && uno);
}
static uint64_t Mask(uint8_t w) {
  return w >= 64 ? ~0ull : ((1ull << w) - 1);
}
static int64_t SExt(uint64_t v, uint8_t w) {
  if (w >= 64) return (int64_t)v;
  uint64_t m = 1ull << (w - 1);
  v &= Mask(w);
  return (int64_t)((v ^ m) - m);
}

double NativeUF(const char* name, const double* a) {
  std::string n = name;
  if (n == "f32") return (double)(float)a[0];
  if (n == "floor") return std::floor(a[0]);
  if (n == "ceil") return std::ceil(a[0]);
  if (n == "trunc") return std::trunc(a[0]);
  if (n == "rint" || n == "nearbyint") return std::nearbyint(a[0]);
  if (n == "round") return std::round(a[0]);
  if (n == "exp") return std::exp(a[0]);
  if (n == "exp2") return std::exp2(a[0]);
  if (n == "expm1") return std::expm1(a[0]);
  if (n == "log") return std::log(a[0]);
  if (n == "log10") return std::log10(a[0]);
  if (n == "log2") return std::log2(a[0]);
  if (n == "log1p") return std::log1p(a[0]);
  if (n == "logb") return std::logb(a[0]);
  if (n == "sin") return std::sin(a[0]);
  if (n == "cos") return std::cos(a[0]);
  if (n == "tan") return std::tan(a[0]);
  if (n == "asin") return std::asin(a[0]);
  if (n == "acos") return std::acos(a[0]);
  if (n == "atan") return std::atan(a[0]);
  if (n == "sinh") return std::sinh(a[0]);
  if (n == "cosh") return std::cosh(a[0]);
  if (n == "tanh") return std::tanh(a[0]);
  if (n == "cbrt") return std::cbrt(a[0]);
  if (n == "erf") return std::erf(a[0]);
  if (n == "tgamma") return std::tgamma(a[0]);
  if (n == "lgamma") return std::lgamma(a[0]);
  if (n == "hypot") return std::hypot(a[0], a[1]);
  if (n == "pow") return std::pow(a[0], a[1]);
  if (n == "fmod") return std::fmod(a[0], a[1]);
  if (n == "remainder") return std::remainder(a[0], a[1]);
  if (n == "atan2") return std::atan2(a[0], a[1]);
  if (n == "nextafter") return std::nextafter(a[0], a[1]);
  if (n == "fdim") return std::fdim(a[0], a[1]);
  if (n == "ldexp") return std::ldexp(a[0], (int)a[1]);
  if (n == "fma") return std::fma(a[0], a[1], a[2]);
  return NAN;
}
double Evaluator::F(Expr* e) {
  auto it = mf.find(e->id);
  if (it != mf.end()) return it->second;
  double r = NAN;
  switch (e->op) {
    case O_NUM:
      r = e->num->approx();
      break;
    case O_FCONST: {
      Val v;
      v.c = e->bits;
      r = AsD(v);
      break;
    }
    case O_VAR: {
      auto j = a.f.find(e->id);
      r = j == a.f.end() ? 0.0 : j->second;
      break;
    }
    case O_FADD: r = F(e->a[0]) + F(e->a[1]); break;
    case O_FSUB: r = F(e->a[0]) - F(e->a[1]); break;
    case O_FMUL: r = F(e->a[0]) * F(e->a[1]); break;
    case O_FDIV: r = F(e->a[0]) / F(e->a[1]); break;
    case O_FNEG: r = -F(e->a[0]); break;
    case O_FSQRT: r = std::sqrt(F(e->a[0])); break;
    case O_FABS: r = std::fabs(F(e->a[0])); break;
    case O_ITE: r = I(e->a[0]) ? F(e->a[1]) : F(e->a[2]); break;
    case O_UF: {
      double d[3] = {0, 0, 0};
      for (int k = 0; k < e->n; k++) d[k] = F(e->a[k]);
      r = NativeUF(e->name->c_str(), d);
      break;
    }
    case O_SITOFP: r = (double)SExt(I(e->a[0]), e->a[0]->w); break;
    case O_UITOFP: r = (double)I(e->a[0]); break;
    default: r = NAN;
  }
  mf[e->id] = r;
  return r;
}

uint64_t Evaluator::I(Expr* e) {
  auto it = mi.find(e->id);
  if (it != mi.end()) return it->second;
  uint64_t r = 0;
  auto A = [&]() { return I(e->a[0]) & Mask(e->a[0]->w); };
  auto B = [&]() { return I(e->a[1]) & Mask(e->a[1]->w); };
  switch (e->op) {
    case O_ICONST: r = e->bits; break;
    case O_VAR: {
      auto j = a.i.find(e->id);
      r = j == a.i.end() ? 0 : j->second;
      break;
    }
    case O_LT: r = F(e->a[0]) < F(e->a[1]); break;
    case O_LE: r = F(e->a[0]) <= F(e->a[1]); break;
    case O_EQ: r = F(e->a[0]) == F(e->a[1]); break;
    case O_FCMP: r = FPred(e->pred, F(e->a[0]), F(e->a[1])); break;
    case O_NOT: r = !I(e->a[0]); break;
    case O_ITE: r = I(e->a[0]) ? I(e->a[1]) : I(e->a[2]); break;
    case O_BADD: r = A() + B(); break;
    case O_BSUB: r = A() - B(); break;
    case O_BMUL: r = A() * B(); break;
    case O_BAND: r = A() & B(); break;
    case O_BOR: r = A() | B(); break;
    case O_BXOR: r = A() ^ B(); break;
    case O_BSHL: r = B() >= e->w ? 0 : A() << B(); break;
    case O_BLSHR: r = B() >= e->w ? 0 : A() >> B(); break;
    case O_BASHR:
      r = (uint64_t)(SExt(A(), e->w) >> std::min<uint64_t>(B(), 63));
      break;
    case O_BUDIV: r = B() ? A() / B() : 0; break;
    case O_BUREM: r = B() ? A() % B() : 0; break;
    case O_BSDIV: {
      int64_t y = SExt(B(), e->w);
      r = y ? (uint64_t)(SExt(A(), e->w) / y) : 0;
      break;
    }
    case O_BSREM: {
      int64_t y = SExt(B(), e->w);
      r = y ? (uint64_t)(SExt(A(), e->w) % y) : 0;
      break;
    }
    case O_ZEXT:
    case O_TRUNC: r = A(); break;
    case O_SEXT: r = (uint64_t)SExt(A(), e->a[0]->w); break;
    case O_FPTOSI: r = (uint64_t)(int64_t)F(e->a[0]); break;
    case O_ICMP: {
      uint64_t x = A(), y = B();
      int64_t sx = SExt(x, e->a[0]->w), sy = SExt(y, e->a[0]->w);
      switch (e->pred) {
        case 32: r = x == y; break;
        case 33: r = x != y; break;
        case 34: r = x > y; break;
        case 35: r = x >= y; break;
        case 36: r = x < y; break;
        case 37: r = x <= y; break;
        case 38: r = sx > sy; break;
        case 39: r = sx >= sy; break;
        case 40: r = sx < sy; break;
        case 41: r = sx <= sy; break;
      }
      break;
    }
    default: r = 0;
  }
  r &= Mask(e->w);
  mi[e->id] = r;
  return r;
}

// Polynomials ------------------------------------------------------------------
static const size_t kMaxTerms = 20000;

static void PAddTerm(Poly* p, const Mono& m, const mpq_class& c) {
  if (c == 0) return;
  auto it = p->find(m);
  if (it == p->end()) {
    (*p)[m] = c;
  } else {
    it->second += c;
    if (it->second == 0) p->erase(it);
  }
}
Poly PAdd(const Poly& a, const Poly& b) {
  if (a.size() < b.size()) return PAdd(b, a);
  Poly r = a;
  for (auto& kv : b) PAddTerm(&r, kv.first, kv.second);
  return r;
}
Poly PSub(const Poly& a, const Poly& b) {
  Poly r = a;
  for (auto& kv : b) PAddTerm(&r, kv.first, -kv.second);
  return r;
}
static Poly PConst(const mpq_class& c) {
  Poly p;
  if (c != 0) p[Mono()] = c;
  return p;
}
static Mono MonoMul(const Mono& a, const Mono& b) {
  Mono r;
  size_t i = 0, j = 0;
  while (i < a.size() || j < b.size()) {
    if (j >= b.size() || (i < a.size() && a[i].first < b[j].first))
      r.push_back(a[i++]);
    else if (i >= a.size() || b[j].first < a[i].first)
      r.push_back(b[j++]);
    else {
      int e = a[i].second + b[j].second;
      if (e) r.push_back({a[i].first, e});
      i++;
      j++;
    }
  }
  return r;
}
static bool PInv(const Poly& p, Poly* out);

// Reduces sqrt atoms (s^2 -> e, s^-1 -> s/e) and negative powers of inverses.
static bool Reduce(const Mono& m, const mpq_class& c, Poly* acc) {
  for (size_t i = 0; i < m.size(); i++) {
    int at = m[i].first, ex = m[i].second;
    int type = g_atoms[at].type;
    if (type == 1 && (ex > 1 || ex < 0)) {
      int k = ex >> 1;  // floor
      int rem = ex - 2 * k;
      Mono rest = m;
      if (rem)
        rest[i].second = 1;
      else
        rest.erase(rest.begin() + i);
      Poly base = g_atoms[at].p, f = PConst(1);
      if (k < 0) {
        Poly inv;
        if (!PInv(base, &inv)) return false;
        base = inv;
        k = -k;
      }
      for (int q = 0; q < k; q++) {
        Poly t;
        if (!PMul(f, base, &t)) return false;
        f.swap(t);
      }
      Poly one;
      one[rest] = c;
      Poly t;
      if (!PMul(one, f, &t)) return false;
      for (auto& kv : t) PAddTerm(acc, kv.first, kv.second);
      return acc->size() <= kMaxTerms;
    }
    if (type == 2 && ex < 0) {
      Mono rest = m;
      rest.erase(rest.begin() + i);
      Poly f;
      f[rest] = c;
      for (int q = 0; q < -ex; q++) {
        Poly t;
        if (!PMul(f, g_atoms[at].p, &t)) return false;
        f.swap(t);
      }
      for (auto& kv : f) PAddTerm(acc, kv.first, kv.second);
      return acc->size() <= kMaxTerms;
    }
  }
  PAddTerm(acc, m, c);
  return acc->size() <= kMaxTerms;
}

static bool NeedsReduce(const Mono& m) {
  for (auto& x : m) {
    int t = g_atoms[x.first].type;
    if (t == 1 && (x.second > 1 || x.second < 0)) return true;
    if (t == 2 && x.second < 0) return true;
  }
  return false;
}

bool PMul(const Poly& a, const Poly& b, Poly* out) {
  out->clear();
  if (a.size() * b.size() > 200000) return false;
  for (auto& x : a)
    for (auto& y : b) {
      Mono m = MonoMul(x.first, y.first);
      mpq_class c = x.second * y.second;
      if (NeedsReduce(m)) {
        if (!Reduce(m, c, out)) return false;
      } else {
        PAddTerm(out, m, c);
      }
      if (out->size() > kMaxTerms) return false;
    }
  return true;
}

static std::map<Poly, int>& AtomIndex(int type) {
  static std::map<Poly, int> s, i;
  return type == 1 ? s : i;
}
static int AtomFor(int type, const Poly& p) {
  auto& ix = AtomIndex(type);
  auto it = ix.find(p);
  if (it != ix.end()) return it->second;
  Atom a;
  a.type = type;
  a.p = p;
  int id = (int)g_atoms.size();
  g_atoms.push_back(a);
  ix[p] = id;
  return id;
}
static int AtomExpr(Expr* e) {
  static std::unordered_map<Expr*, int> ix;
  auto it = ix.find(e);
  if (it != ix.end()) return it->second;
  Atom a;
  a.type = 0;
  a.e = e;
  int id = (int)g_atoms.size();
  g_atoms.push_back(a);
  ix[e] = id;
  return id;
}

static bool PInv(const Poly& p, Poly* out) {
  out->clear();
  if (p.empty()) return false;
  if (p.size() == 1) {
    Mono m = p.begin()->first;
    for (auto& x : m) x.second = -x.second;
    mpq_class c = 1 / p.begin()->second;
    if (NeedsReduce(m)) return Reduce(m, c, out);
    PAddTerm(out, m, c);
    return true;
  }
  // common monomial factor over plain atoms
  std::map<int, int> mn;
  bool first = true;
  for (auto& kv : p) {
    std::map<int, int> here;
    for (auto& x : kv.first)
      if (g_atoms[x.first].type == 0) here[x.first] = x.second;
    if (first) {
      mn = here;
      first = false;
    } else {
      for (auto it = mn.begin(); it != mn.end();) {
        auto j = here.find(it->first);
        int e = j == here.end() ? 0 : j->second;
        it->second = std::min(it->second, e);
        if (it->second == 0)
          it = mn.erase(it);
        else
          ++it;
      }
      for (auto& h : here)
        if (h.second < 0 && !mn.count(h.first)) mn[h.first] = h.second;
    }
  }
  Mono fac;
  for (auto& x : mn) fac.push_back(x);
  Mono inv = fac;
  for (auto& x : inv) x.second = -x.second;
  mpq_class lead = p.rbegin()->second;
  Poly q;
  for (auto& kv : p) q[MonoMul(kv.first, inv)] = kv.second / lead;
  int at = AtomFor(2, q);
  Mono m = MonoMul(inv, Mono{{at, 1}});
  (*out)[m] = 1 / lead;
  return true;
}

static Poly PolyNum(const AlgNum& n) {
  Poly p;
  for (auto& kv : n.t) {
    if (kv.first == 1) {
      PAddTerm(&p, Mono(), kv.second);
    } else {
      int at = AtomFor(1, PConst(mpq_class(kv.first)));
      PAddTerm(&p, Mono{{at, 1}}, kv.second);
    }
  }
  return p;
}

static std::unordered_map<Expr*, std::pair<bool, Poly>> g_polymemo;

const Poly* PolyOf(Expr* e) {
  // iterative post-order to avoid deep recursion
  std::vector<Expr*> st{e};
  while (!st.empty()) {
    Expr* x = st.back();
    if (g_polymemo.count(x)) {
      st.pop_back();
      continue;
    }
    bool leaf = !(x->op >= O_FADD && x->op <= O_FSQRT);
    bool ready = true;
    if (!leaf)
      for (int i = 0; i < x->n; i++)
        if (!g_polymemo.count(x->a[i])) {
          st.push_back(x->a[i]);
          ready = false;
        }
    if (!ready) continue;
    st.pop_back();
    bool ok = true;
    Poly r;
    auto P = [&](int i) -> const Poly& { return g_polymemo[x->a[i]].second; };
    if (!leaf)
      for (int i = 0; i < x->n; i++) ok = ok && g_polymemo[x->a[i]].first;
    if (ok) switch (x->op) {
        case O_NUM: r = PolyNum(*x->num); break;
        case O_FADD: r = PAdd(P(0), P(1)); break;
        case O_FSUB: r = PSub(P(0), P(1)); break;
        case O_FNEG: r = PSub(Poly(), P(0)); break;
        case O_FMUL: ok = PMul(P(0), P(1), &r); break;
        case O_FDIV: {
          Poly inv;
          ok = PInv(P(1), &inv) && PMul(P(0), inv, &r);
          break;
        }
        case O_FSQRT: {
          const Poly& p = P(0);
          if (p.empty()) break;
          if (p.size() == 1 && p.begin()->first.empty() &&
              p.begin()->second > 0) {
            auto s = AlgSqrt(AlgNum(p.begin()->second));
            r = PolyNum(*s);
            break;
          }
          int at = AtomFor(1, p);
          r[Mono{{at, 1}}] = 1;
          break;
        }
        default: {
          int at = AtomExpr(x);
          r[Mono{{at, 1}}] = 1;
        }
      }
    if (r.size() > kMaxTerms) ok = false;
    if (!ok) r.clear();
    g_polymemo[x] = {ok, r};
  }
  auto& m = g_polymemo[e];
  return m.first ? &m.second : nullptr;
}

bool PolyZero(const Poly& p0, bool* toobig) {
  *toobig = false;
  Poly p = p0;
  int guard = 0;
  while (!p.empty()) {
    if (++guard > 200) {
      *toobig = true;
      return false;
    }
    int best = -1, maxe = 0;
    for (auto& kv : p)
      for (auto& x : kv.first)
        if (g_atoms[x.first].type == 2) {
          if (x.first > best) {
            best = x.first;
            maxe = x.second;
          } else if (x.first == best) {
            maxe = std::max(maxe, x.second);
          }
        }
    if (best < 0) return false;
    std::vector<Poly> pw(maxe + 1);
    pw[0] = PConst(1);
    for (int i = 1; i <= maxe; i++)
      if (!PMul(pw[i - 1], g_atoms[best].p, &pw[i])) {
        *toobig = true;
        return false;
      }
    std::vector<Poly> byexp(maxe + 1);
    for (auto& kv : p) {
      int e = 0;
      Mono m;
      for (auto& x : kv.first)
        if (x.first == best)
          e = x.second;
        else
          m.push_back(x);
      byexp[e][m] = kv.second;
    }
    Poly acc;
    for (int e = 0; e <= maxe; e++) {
      if (byexp[e].empty()) continue;
      Poly t;
      if (!PMul(byexp[e], pw[maxe - e], &t)) {
        *toobig = true;
        return false;
      }
      acc = PAdd(acc, t);
    }
    p.swap(acc);
    if (p.size() > kMaxTerms) {
      *toobig = true;
      return false;
    }
  }
  return true;
}

// SMT -------------------------------------------------------------------------
static z3::context& C() {
  static z3::context* c = new z3::context();
  return *c;
}

struct Tr {
  std::unordered_map<Expr*, z3::expr> memo;
  std::unordered_map<int, z3::expr> atoms;
  std::vector<z3::expr> side;
  bool usePoly = true;
  SignCtx sg;
  bool nonlinear = false;
  void SignLemma(Expr* e, const z3::expr& q) {
    int m = sg.Mask(e);
    if (m == 4) side.push_back(q > 0);
    if (m == 6) side.push_back(q >= 0);
    if (m == 1) side.push_back(q < 0);
    if (m == 3) side.push_back(q <= 0);
  }
  bool hasBV = false;
  std::vector<std::pair<Expr*, z3::expr>> vars;

  z3::expr Q(const mpq_class& q) { return C().real_val(q.get_str().c_str()); }
  z3::expr Fresh() {
    static int n = 0;
    return C().real_const(("t!" + std::to_string(n++)).c_str());
  }
  z3::expr SqrtOfNum(const mpz_class& M) {
    Poly p;
    p[Mono()] = mpq_class(M);
    return AtomZ(AtomFor(1, p));
  }
  z3::expr AtomZ(int at) {
    auto it = atoms.find(at);
    if (it != atoms.end()) return it->second;
    // copy: g_atoms may grow while translating
    Atom a = g_atoms[at];
    z3::expr r(C());
    if (a.type == 0) {
      r = T(a.e);
      atoms.emplace(at, r);
    } else if (a.type == 1) {
      r = Fresh();
      atoms.emplace(at, r);
      side.push_back(r >= 0);
      side.push_back(r * r == PolyZ(a.p));
      nonlinear = true;
    } else {
      r = Fresh();
      atoms.emplace(at, r);
      side.push_back(r * PolyZ(a.p) == 1);
      nonlinear = true;
    }
    return r;
  }
  z3::expr PolyZ(const Poly& p) {
    if (p.empty()) return C().real_val(0);
    z3::expr_vector sum(C());
    for (auto& kv : p) {
      z3::expr t = Q(kv.second);
      int deg = 0;
      z3::expr_vector fs(C());
      z3::expr den(C());
      bool hasden = false;
      for (auto& x : kv.first) {
        z3::expr a = AtomZ(x.first);
        int n = std::abs(x.second);
        deg += n;
        for (int i = 0; i < n; i++) {
          if (x.second > 0) {
            t = t * a;
          } else {
            den = hasden ? den * a : a;
            hasden = true;
          }
        }
      }
      if (hasden) {
        z3::expr q = Fresh();
        side.push_back(q * den == 1);
        t = t * q;
        nonlinear = true;
      }
      if (deg > 1) nonlinear = true;
      sum.push_back(t);
    }
    return z3::sum(sum);
  }
  // Abstraction of IEEE values for M_FPUF: a real that orders the values (the
  // infinities lie at +-2^1024) and a NaN flag; the result of every arithmetic
  // operation is unconstrained, but the same for the same operation and operands.
  bool abs = false, exact = false;
  // Real arithmetic in place of the unconstrained results, to look for models (that
  // are then evaluated in IEEE arithmetic); 1: with every comparison clearly decided
  int ra = 0;
  struct AV {
    z3::expr v, nan;
  };
  std::unordered_map<Expr*, AV> fmemo;
  z3::expr Inf() {
    mpq_class q(mpz_class(1) << 1024);
    return Q(q);
  }
  AV FreshAV(const std::string& nm) {
    AV r{C().real_const(nm.c_str()), C().bool_const((nm + "!nan").c_str())};
    side.push_back(r.v <= Inf());
    side.push_back(r.v >= -Inf());
    return r;
  }
  AV F(Expr* e) {
    auto it = fmemo.find(e);
    if (it != fmemo.end()) return it->second;
    AV r = F1(e);
    fmemo.emplace(e, r);
    return r;
  }
  AV F1(Expr* e) {
    if (ra) switch (e->op) {
      case O_VAR: {
        AV r{C().real_const(e->name->c_str()), C().bool_val(false)};
        side.push_back(r.v <= 1048576);
        side.push_back(r.v >= -1048576);
        fvars.push_back({e, r});
        return r;
      }
      case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: {
        AV a = F(e->a[0]), b = F(e->a[1]);
        z3::expr nan = a.nan || b.nan;
        if (e->op == O_FADD) return {a.v + b.v, nan};
        if (e->op == O_FSUB) return {a.v - b.v, nan};
        if (e->op == O_FMUL) {
          if (!e->a[0]->vars.empty() && !e->a[1]->vars.empty()) nonlinear = true;
          return {a.v * b.v, nan};
        }
        nonlinear = true;
        z3::expr q = Fresh();
        side.push_back(q * b.v == a.v);
        side.push_back(b.v != 0);
        return {q, nan};
      }
      case O_FSQRT: {
        AV a = F(e->a[0]);
        z3::expr q = Fresh();
        nonlinear = true;
        side.push_back(q >= 0);
        side.push_back(q * q == a.v);
        return {q, a.nan};
      }
      default:
        break;
    }
    switch (e->op) {
      case O_FCONST: {
        Val x;
        x.c = e->bits;
        double d = AsD(x);
        if (std::isnan(d)) return {C().real_val(0), C().bool_val(true)};
        if (std::isinf(d)) return {d > 0 ? Inf() : -Inf(), C().bool_val(false)};
        return {Q(DoubleToQ(d)), C().bool_val(false)};
      }
      case O_VAR: {
        AV r = FreshAV(*e->name);
        fvars.push_back({e, r});
        return r;
      }
      case O_FNEG: {
        AV a = F(e->a[0]);
        return {-a.v, a.nan};
      }
      case O_FABS: {
        AV a = F(e->a[0]);
        return {z3::ite(a.v >= 0, a.v, -a.v), a.nan};
      }
      case O_ITE: {
        z3::expr c = Boolof(e->a[0]);
        AV a = F(e->a[1]), b = F(e->a[2]);
        return {z3::ite(c, a.v, b.v), z3::ite(c, a.nan, b.nan)};
      }
      case O_SITOFP: case O_UITOFP:
        if (e->a[0]->w <= 32) {
          hasBV = true;
          return {z3::to_real(z3::bv2int(BVof(e->a[0]), e->op == O_SITOFP)),
                  C().bool_val(false)};
        }
        break;
      case O_FSQRT: {
        AV r = FreshAV("f!" + std::to_string(e->id));
        side.push_back(r.nan || r.v >= 0);
        return r;
      }
      case O_FADD: case O_FSUB: case O_FMUL: {
        // equal operands give equal results (zeros of either sign are equal and
        // these operations do not tell them apart)
        AV a = F(e->a[0]), b = F(e->a[1]);
        z3::sort R = C().real_sort(), Bo = C().bool_sort();
        const char* nm = e->op == O_FADD ? "fadd" : e->op == O_FSUB ? "fsub" : "fmul";
        z3::sort_vector dom(C());
        dom.push_back(R); dom.push_back(R);
        z3::expr r = C().function(nm, dom, R)(a.v, b.v);
        z3::expr n = C().bool_const(("f!" + std::to_string(e->id) + "!nan").c_str());
        side.push_back(r <= Inf());
        side.push_back(r >= -Inf());
        hasBV = true;
        // facts of IEEE arithmetic (rounding is monotone and exact on its range)
        z3::expr x = a.v, y = b.v;
        side.push_back(!n || a.nan || b.nan || x >= Inf() || x <= -Inf() || y >= Inf() || y <= -Inf());
        side.push_back(n || !(a.nan || b.nan));
        if (e->op == O_FMUL) {
          if (e->a[0] == e->a[1]) {
            side.push_back(r >= 0);
            side.push_back(n == a.nan);
          } else {
            side.push_back(!((x >= 0 && y >= 0) || (x <= 0 && y <= 0)) || r >= 0);
            side.push_back(!((x >= 0 && y <= 0) || (x <= 0 && y >= 0)) || r <= 0);
          }
          for (int k = 0; k < 2; k++, std::swap(x, y))
            if (e->a[1 - k]->op == O_FCONST || e->a[1 - k]->op == O_VAR) {
              side.push_back(!(x >= 0 && y >= 0 && y <= 1) || r <= x);
              side.push_back(!(x >= 0 && y >= 1) || r >= x);
            }
        } else if (e->op == O_FADD) {
          side.push_back(y >= 0 || r <= x);
          side.push_back(y <= 0 || r >= x);
          side.push_back(x >= 0 || r <= y);
          side.push_back(x <= 0 || r >= y);
          side.push_back(y != 0 || r == x);
          side.push_back(x != 0 || r == y);
        } else {
          side.push_back(y >= 0 || r >= x);
          side.push_back(y <= 0 || r <= x);
          side.push_back(x <= y || r > 0);
          side.push_back(x >= y || r < 0);
          side.push_back(x != y || r == 0);
          side.push_back(y != 0 || r == x);
        }
        return {r, n};
      }
      default:
        break;
    }
    return FreshAV("f!" + std::to_string(e->id));
  }
  std::vector<std::pair<Expr*, AV>> fvars;
  z3::sort FS() { return C().fpa_sort(11, 53); }
  z3::expr FPConst(uint64_t bits) {
    z3::expr bv = C().bv_val(bits, 64);
    return z3::expr(C(), Z3_mk_fpa_to_fp_bv(C(), bv, FS()));
  }
  z3::expr B(Expr* e) { return T(e); }
  z3::expr BVof(Expr* e) {
    // bool expressions appear as width-1 integers
    z3::expr r = T(e);
    if (r.is_bool())
      return z3::ite(r, C().bv_val(1, 1), C().bv_val(0, 1));
    return r;
  }
  z3::expr Boolof(Expr* e) {
    z3::expr r = T(e);
    if (r.is_bool()) return r;
    return r == C().bv_val(1, 1);
  }
  z3::expr CmpReal(Expr* e) {
    if (usePoly) {
      const Poly* pa = PolyOf(e->a[0]);
      const Poly* pb = PolyOf(e->a[1]);
      if (pa && pb) {
        Poly d = PSub(*pa, *pb);
        if (d.size() <= 400) {
          if (g_round)  // far below the tolerances used in this mode
            for (auto& kv : d) {
              mpz_class n = kv.second.get_num() << 120;
              n /= kv.second.get_den();
              kv.second = mpq_class(n, mpz_class(1) << 120);
              kv.second.canonicalize();
            }
          z3::expr z = PolyZ(d);
          if (e->op == O_LT) return z < 0;
          if (e->op == O_LE) return z <= 0;
          return z == 0;
        }
      }
    }
    z3::expr a = T(e->a[0]), b = T(e->a[1]);
    if (e->op == O_LT) return a < b;
    if (e->op == O_LE) return a <= b;
    return a == b;
  }
  z3::expr T(Expr* e) {
    auto it = memo.find(e);
    if (it != memo.end()) return it->second;
    z3::expr r = T1(e);
    memo.emplace(e, r);
    return r;
  }
  z3::expr UF(const char* nm, std::vector<z3::expr> args) {
    z3::sort_vector dom(C());
    z3::expr_vector av(C());
    for (auto& a : args) {
      dom.push_back(FS());
      av.push_back(a);
    }
    z3::func_decl f = C().function(nm, dom, FS());
    return f(av);
  }
  z3::expr T1(Expr* e) {
    if (abs && e->kind == K_F) throw z3::exception("float outside a comparison");
    switch (e->op) {
      case O_NUM: {
        if (e->num->rational()) return Q(e->num->rat());
        z3::expr s = C().real_val(0);
        for (auto& kv : e->num->t)
          s = kv.first == 1 ? s + Q(kv.second)
                            : s + Q(kv.second) * SqrtOfNum(kv.first);
        return s;
      }
      case O_FCONST:
        if (g_mode == M_REAL) return Fresh();
        return FPConst(e->bits);
      case O_ICONST:
        if (e->w == 1) return C().bool_val(e->bits & 1);
        hasBV = true;
        return C().bv_val((uint64_t)e->bits, e->w);
      case O_VAR: {
        z3::expr v(C());
        std::string nm = *e->name;
        if (e->kind == K_F)
          v = g_mode == M_REAL ? C().real_const(nm.c_str())
                               : C().constant(nm.c_str(), FS());
        else if (e->w == 1)
          v = C().bool_const(nm.c_str());
        else {
          v = C().bv_const(nm.c_str(), e->w);
          hasBV = true;
        }
        vars.push_back({e, v});
        return v;
      }
      case O_UNDEF:
        if (e->kind == K_F)
          return g_mode == M_REAL ? Fresh() : C().constant("undef!f", FS());
        if (e->w == 1) return C().bool_const("undef!b");
        return C().bv_const("undef!i", e->w);
      case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: {
        z3::expr a = T(e->a[0]), b = T(e->a[1]);
        if (g_mode == M_REAL) {
          if (e->op == O_FADD) return a + b;
          if (e->op == O_FSUB) return a - b;
          if (e->op == O_FMUL) {
            z3::expr p = a * b;
            if (!e->a[0]->vars.empty() && !e->a[1]->vars.empty()) {
              nonlinear = true;
              SignLemma(e, p);
            }
            return p;
          }
          if (e->a[1]->op == O_NUM && e->a[1]->num->rational() &&
              !e->a[1]->num->zero())
            return a * Q(1 / e->a[1]->num->rat());
          z3::expr q = Fresh();
          nonlinear = true;
          side.push_back(q * b == a);
          SignLemma(e, q);
          return q;
        }
        if (g_mode == M_FPUF && !exact) {
          const char* nm = e->op == O_FADD   ? "fadd"
                           : e->op == O_FSUB ? "fsub"
                           : e->op == O_FMUL ? "fmul"
                                             : "fdiv";
          return UF(nm, {a, b});
        }
        z3::expr rm(C(), Z3_mk_fpa_rne(C()));
        if (e->op == O_FADD)
          return z3::expr(C(), Z3_mk_fpa_add(C(), rm, a, b));
        if (e->op == O_FSUB)
          return z3::expr(C(), Z3_mk_fpa_sub(C(), rm, a, b));
        if (e->op == O_FMUL)
          return z3::expr(C(), Z3_mk_fpa_mul(C(), rm, a, b));
        return z3::expr(C(), Z3_mk_fpa_div(C(), rm, a, b));
      }
      case O_FNEG:
        if (g_mode == M_REAL) return -T(e->a[0]);
        return z3::expr(C(), Z3_mk_fpa_neg(C(), T(e->a[0])));
      case O_FABS: {
        z3::expr a = T(e->a[0]);
        if (g_mode == M_REAL) return z3::ite(a >= 0, a, -a);
        return z3::expr(C(), Z3_mk_fpa_abs(C(), a));
      }
      case O_FSQRT: {
        if (g_mode == M_REAL) {
          z3::expr s = Fresh();
          nonlinear = true;
          z3::expr a(C());
          const Poly* p = usePoly ? PolyOf(e->a[0]) : nullptr;
          if (p && p->size() <= 400)
            a = PolyZ(*p);
          else
            a = T(e->a[0]);
          side.push_back(s >= 0);
          side.push_back(s * s == a);
          std::vector<Expr*> roots;
          SquareAddends(e->a[0], &roots);
          for (Expr* x : roots) {
            z3::expr y = T(x);
            side.push_back(s >= y);
            side.push_back(s >= -y);
          }
          return s;
        }
        if (g_mode == M_FPUF && !exact) return UF("fsqrt", {T(e->a[0])});
        z3::expr rm(C(), Z3_mk_fpa_rne(C()));
        return z3::expr(C(), Z3_mk_fpa_sqrt(C(), rm, T(e->a[0])));
      }
      case O_UF: {
        if (g_mode == M_REAL) {
          // uninterpreted over the reals
          z3::sort_vector dom(C());
          z3::expr_vector av(C());
          for (int i = 0; i < e->n; i++) {
            dom.push_back(C().real_sort());
            av.push_back(T(e->a[i]));
          }
          nonlinear = true;
          hasBV = true;  // forces the generic solver
          return C().function(e->name->c_str(), dom, C().real_sort())(av);
        }
        std::vector<z3::expr> as;
        for (int i = 0; i < e->n; i++) as.push_back(T(e->a[i]));
        return UF(e->name->c_str(), as);
      }
      case O_ITE: {
        if (e->kind == K_I && e->w == 1)
          return z3::ite(Boolof(e->a[0]), Boolof(e->a[1]), Boolof(e->a[2]));
        if (e->kind == K_I)
          return z3::ite(Boolof(e->a[0]), BVof(e->a[1]), BVof(e->a[2]));
        return z3::ite(Boolof(e->a[0]), T(e->a[1]), T(e->a[2]));
      }
      case O_LT: case O_LE: case O_EQ:
        return CmpReal(e);
      case O_FCMP: {
        if (abs) {
          AV a = F(e->a[0]), b = F(e->a[1]);
          z3::expr nan = a.nan || b.nan;
          z3::expr c = C().bool_val(false);
          if (ra == 1 && (e->pred & 6) && e->a[0] != e->a[1]) {
            z3::expr gap = Q(mpq_class(1, 4096));
            side.push_back(a.v - b.v >= gap || b.v - a.v >= gap || nan);
          }
          switch (e->pred & 7) {
            case 1: c = a.v == b.v; break;
            case 2: c = a.v > b.v; break;
            case 3: c = a.v >= b.v; break;
            case 4: c = a.v < b.v; break;
            case 5: c = a.v <= b.v; break;
            case 6: c = a.v != b.v; break;
            case 7: c = C().bool_val(true); break;
          }
          return (e->pred & 8) ? (nan || c).simplify() : (!nan && c).simplify();
        }
        z3::expr a = T(e->a[0]), b = T(e->a[1]);
        z3::expr r = C().bool_val(false);
        if (e->pred & 1) r = r || z3::expr(C(), Z3_mk_fpa_eq(C(), a, b));
        if (e->pred & 2) r = r || z3::expr(C(), Z3_mk_fpa_gt(C(), a, b));
        if (e->pred & 4) r = r || z3::expr(C(), Z3_mk_fpa_lt(C(), a, b));
        if (e->pred & 8)
          r = r || z3::expr(C(), Z3_mk_fpa_is_nan(C(), a)) ||
              z3::expr(C(), Z3_mk_fpa_is_nan(C(), b));
        return r;
      }
      case O_NOT:
        return !Boolof(e->a[0]);
      case O_BAND: case O_BOR: case O_BXOR:
        if (e->w == 1) {
          z3::expr a = Boolof(e->a[0]), b = Boolof(e->a[1]);
          if (e->op == O_BAND) return a && b;
          if (e->op == O_BOR) return a || b;
          return a != b;
        } else {
          z3::expr a = BVof(e->a[0]), b = BVof(e->a[1]);
          if (e->op == O_BAND) return a & b;
          if (e->op == O_BOR) return a | b;
          return a ^ b;
        }
      case O_BADD: return BVof(e->a[0]) + BVof(e->a[1]);
      case O_BSUB: return BVof(e->a[0]) - BVof(e->a[1]);
      case O_BMUL: return BVof(e->a[0]) * BVof(e->a[1]);
      case O_BUDIV: return z3::udiv(BVof(e->a[0]), BVof(e->a[1]));
      case O_BSDIV: return BVof(e->a[0]) / BVof(e->a[1]);
      case O_BUREM: return z3::urem(BVof(e->a[0]), BVof(e->a[1]));
      case O_BSREM: return z3::srem(BVof(e->a[0]), BVof(e->a[1]));
      case O_BSHL: return z3::shl(BVof(e->a[0]), BVof(e->a[1]));
      case O_BLSHR: return z3::lshr(BVof(e->a[0]), BVof(e->a[1]));
      case O_BASHR: return z3::ashr(BVof(e->a[0]), BVof(e->a[1]));
      case O_ZEXT: return z3::zext(BVof(e->a[0]), e->w - e->a[0]->w);
      case O_SEXT: return z3::sext(BVof(e->a[0]), e->w - e->a[0]->w);
      case O_TRUNC: {
        z3::expr x = BVof(e->a[0]).extract(e->w - 1, 0);
        if (e->w == 1) return x == C().bv_val(1, 1);
        return x;
      }
      case O_ICMP: {
        if (e->a[0]->w == 1 && e->pred <= 33) {
          z3::expr a = Boolof(e->a[0]), b = Boolof(e->a[1]);
          return e->pred == 32 ? a == b : a != b;
        }
        z3::expr a = BVof(e->a[0]), b = BVof(e->a[1]);
        switch (e->pred) {
          case 32: return a == b;
          case 33: return a != b;
          case 34: return z3::ugt(a, b);
          case 35: return z3::uge(a, b);
          case 36: return z3::ult(a, b);
          case 37: return z3::ule(a, b);
          case 38: return a > b;
          case 39: return a >= b;
          case 40: return a < b;
          default: return a <= b;
        }
      }
      case O_SITOFP: case O_UITOFP: {
        z3::expr a = BVof(e->a[0]);
        if (g_mode == M_REAL) {
          hasBV = true;
          return z3::to_real(z3::bv2int(a, e->op == O_SITOFP));
        }
        z3::expr rm(C(), Z3_mk_fpa_rne(C()));
        return e->op == O_SITOFP
                   ? z3::expr(C(), Z3_mk_fpa_to_fp_signed(C(), rm, a, FS()))
                   : z3::expr(C(), Z3_mk_fpa_to_fp_unsigned(C(), rm, a, FS()));
      }
      case O_FPTOSI: {
        if (abs) return C().bv_const(("fptosi!" + std::to_string(e->id)).c_str(), e->w);
        z3::expr rm(C(), Z3_mk_fpa_rtz(C()));
        return z3::expr(C(), Z3_mk_fpa_to_sbv(C(), rm, T(e->a[0]), e->w));
      }
      default:
        return C().bv_const(("bytes!" + std::to_string(e->id)).c_str(), e->w);
    }
  }
};

static double RealText(const z3::expr& v, std::string* txt) {
  std::string s;
  double d = 0;
  if (v.is_numeral()) {
    s = v.to_string();
    z3::expr n = v.numerator(), den = v.denominator();
    mpq_class q(mpz_class(n.get_decimal_string(0)),
                mpz_class(den.get_decimal_string(0)));
    q.canonicalize();
    d = QToDouble(q);
  } else if (v.is_algebraic()) {
    s = v.get_decimal_string(30);
    std::string t = s;
    if (!t.empty() && t.back() == '?') t.pop_back();
    d = strtod(t.c_str(), nullptr);
  } else {
    s = v.to_string();
  }
  *txt = s;
  return d;
}

Res SmtCheck(const std::vector<Expr*>& conds, unsigned timeout_ms, Model* m,
             bool usePoly, bool exact, int ra) {
  auto t0 = std::chrono::steady_clock::now();
  g_smt.queries++;
  Res res = UNKNOWN;
  try {
    Tr tr;
    tr.usePoly = usePoly;
    tr.exact = exact;
    tr.abs = g_mode == M_FPUF && !exact;
    tr.ra = tr.abs ? ra : 0;
    if (g_mode == M_REAL)
      for (Expr* c : conds) tr.sg.AddFact(c);
    z3::expr_vector as(C());
    for (Expr* c : conds) as.push_back(tr.Boolof(c));
    for (auto& s : tr.side) as.push_back(s);
    const char* logic = nullptr;
    if (g_mode == M_REAL && !tr.hasBV) logic = tr.nonlinear ? "QF_NRA" : "QF_LRA";
    if (tr.abs && !tr.hasBV) logic = tr.nonlinear ? "QF_NRA" : "QF_LRA";
    z3::solver s = logic ? z3::solver(C(), logic) : z3::solver(C());
    z3::params p(C());
    p.set("timeout", timeout_ms);
    s.set(p);
    for (unsigned i = 0; i < as.size(); i++) s.add(as[i]);
    z3::check_result r = s.check();
    res = r == z3::sat ? SAT : r == z3::unsat ? UNSAT : UNKNOWN;
    if (res == SAT && m) {
      z3::model mod = s.get_model();
      for (auto& kv : tr.fvars) {
        std::string txt;
        double d = RealText(mod.eval(kv.second.v, true), &txt);
        if (mod.eval(kv.second.nan, true).is_true()) d = NAN;
        m->as.f[kv.first->id] = d;
        m->text[*kv.first->name] = txt;
      }
      for (auto& kv : tr.vars) {
        z3::expr v = mod.eval(kv.second, true);
        std::string txt;
        if (kv.first->kind == K_F && g_mode == M_REAL) {
          m->as.f[kv.first->id] = RealText(v, &txt);
        } else if (kv.first->kind == K_F) {
          z3::expr bv(C(), Z3_mk_fpa_to_ieee_bv(C(), v));
          z3::expr sv = bv.simplify();
          uint64_t bits = 0;
          if (sv.is_numeral()) bits = sv.get_numeral_uint64();
          else bits = 0x7ff8000000000000ull;  // NaN
          Val vv;
          vv.c = bits;
          m->as.f[kv.first->id] = AsD(vv);
          txt = v.to_string();
        } else if (kv.first->w == 1) {
          m->as.i[kv.first->id] = v.is_true();
          txt = v.to_string();
        } else {
          m->as.i[kv.first->id] = v.get_numeral_uint64();
          txt = v.to_string();
        }
        m->text[*kv.first->name] = txt;
      }
    }
  } catch (z3::exception& ex) {
    res = UNKNOWN;
  }
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0)
                  .count();
  g_smt.seconds += dt;
  if (const char* dd = getenv("SYMX_DUMP"))
    if (dt > 0.4) {
      static int n = 0;
      std::cerr << "slow query " << n << " " << dt << "s res " << res << " poly " << usePoly << "\n";
      for (Expr* c : conds) std::cerr << "    " << Show(c, 9) << "\n";
      std::ofstream f(std::string(dd) + "/q" + std::to_string(n++) + ".smt2");
      Tr tr;
      tr.usePoly = usePoly;
      z3::solver s(C());
      for (Expr* c : conds) s.add(tr.Boolof(c));
      for (unsigned i = 0; i < tr.side.size(); i++) s.add(tr.side[i]);
      f << s.to_smt2();
    }
  if (res == SAT) g_smt.sat++;
  if (res == UNSAT) g_smt.unsat++;
  if (res == UNKNOWN) g_smt.unknown++;
  return res;
}

std::string Show(Expr* e, int d) {
  static const char* nm[] = {
      "num",  "fc",   "ic",  "var", "UNDEF", "bytes", "+",    "-",    "*",
      "/",    "neg",  "sqrt", "abs", "uf",   "ite",   "<",    "<=",   "==",
      "fcmp", "badd", "bsub", "bmul", "udiv", "sdiv", "urem", "srem", "and",
      "or",   "xor",  "shl", "lshr", "ashr", "icmp",  "zext", "sext", "trunc",
      "not",  "sitofp", "uitofp", "fptosi"};
  std::ostringstream o;
  if (e->op == O_NUM) {
    o << e->num->approx();
    return o.str();
  }
  if (e->op == O_FCONST) {
    Val v;
    v.c = e->bits;
    o << AsD(v);
    return o.str();
  }
  if (e->op == O_ICONST) {
    o << e->bits;
    return o.str();
  }
  if (e->op == O_VAR) return *e->name;
  if (d == 0) return "...";
  o << "(" << nm[e->op];
  if (e->op == O_FCMP || e->op == O_ICMP) o << (int)e->pred;
  for (int i = 0; i < e->n; i++) o << " " << Show(e->a[i], d - 1);
  o << ")";
  return o.str();
}

}  // namespace symx
