  // Interpreter (included inside class Exec) -----------------------------------
  uint64_t curExc = 0;
  int64_t curSel = 0;
  int prints = 0;
  Val retVal{0, nullptr};
  bool done = false;

  static const Val& VV(const Frame& f, int32_t i) {
    return i >= 0 ? f.r[i] : f.f->consts[-i - 1];
  }
  void NoteBlock(Block& B) {
    B.seen = true;
    for (auto& x : B.ins) {
      const llvm::DILocation* l = x.I->getDebugLoc().get();
      for (; l; l = l->getInlinedAt()) {
        auto* sp = l->getScope() ? l->getScope()->getSubprogram() : nullptr;
        if (!sp) continue;
        std::string fn = sp->getFilename().str();
        if (fn.find("fbstab/") == std::string::npos) continue;
        size_t p = fn.rfind("fbstab/");
        st.funcs.insert(fn.substr(p + 7) + ":" + sp->getName().str());
        st.lines.insert(fn.substr(p + 7) + ":" + std::to_string(l->getLine()));
      }
    }
  }
  void Push(FuncInfo* fi, std::vector<Val>&& args, int32_t retdst, int nret) {
    if (!fi->lowered) {
      Lowerer L;
      L.fi = fi;
      L.Lower();
    }
    if (fr.size() > 4000) throw Violation{"memory", "stack overflow"};
    Frame f;
    f.f = fi;
    f.r = std::move(args);
    if ((int)f.r.size() != fi->argslots)
      throw Unsupported{"argument count of " + fi->name};
    f.r.resize(fi->nslots);
    f.retdst = retdst;
    f.nret = nret;
    fr.push_back(std::move(f));
  }
  void Kill(uint32_t id) {
    Obj* o = objs[id];
    if (!owned[id]) {
      o = new Obj(*o);
      objs[id] = o;
      owned[id] = 1;
    }
    o->live = false;
    std::vector<uint8_t>().swap(o->data);
    std::vector<uint8_t>().swap(o->init);
    std::vector<Expr*>().swap(o->sym);
    std::vector<uint8_t>().swap(o->symoff);
    std::vector<uint8_t>().swap(o->prot);
    o->hasSym = false;
  }
  void PopFrame() {
    for (uint32_t id : fr.back().allocas) Kill(id);
    fr.pop_back();
  }
  void Jump(Frame& f, int bb) {
    f.prev = f.bb;
    f.bb = bb;
    f.ip = 0;
    Block& B = f.f->blocks[bb];
    if (!B.seen) NoteBlock(B);
    // phis are evaluated in parallel
    std::vector<std::pair<int32_t, Val>> tmp;
    size_t i = 0;
    for (; i < B.ins.size() && B.ins[i].op == llvm::Instruction::PHI; i++) {
      Ins& x = B.ins[i];
      int inc = -1;
      for (auto& c : x.cases)
        if ((int)c.first == f.prev) {
          inc = c.second;
          break;
        }
      if (inc < 0) throw Unsupported{"phi"};
      for (int k = 0; k < x.ndst; k++)
        tmp.push_back({x.dst + k, VV(f, x.ops[x.opstart[inc] + k])});
    }
    for (auto& t : tmp) f.r[t.first] = t.second;
    f.ip = (int)i;
  }

  // --- exceptions
  static std::string BaseTI(const std::string& n) {
    static const std::map<std::string, std::string> m = {
        {"_ZTISt13runtime_error", "_ZTISt9exception"},
        {"_ZTISt11logic_error", "_ZTISt9exception"},
        {"_ZTISt12out_of_range", "_ZTISt11logic_error"},
        {"_ZTISt12length_error", "_ZTISt11logic_error"},
        {"_ZTISt16invalid_argument", "_ZTISt11logic_error"},
        {"_ZTISt12domain_error", "_ZTISt11logic_error"},
        {"_ZTISt11range_error", "_ZTISt13runtime_error"},
        {"_ZTISt14overflow_error", "_ZTISt13runtime_error"},
        {"_ZTISt9bad_alloc", "_ZTISt9exception"},
        {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"},
        {"_ZTISt17bad_function_call", "_ZTISt9exception"},
        {"_ZTISt8bad_cast", "_ZTISt9exception"}};
    auto it = m.find(n);
    return it == m.end() ? "" : it->second;
  }
  bool Derives(uint32_t ti, uint32_t base) {
    if (ti == base) return true;
    std::string n = objs[ti]->name;
    for (int i = 0; i < 10; i++) {
      if (n == objs[base]->name) return true;
      std::string b = BaseTI(n);
      if (b.empty()) {
        auto it = g_typeinfo.find(n);
        if (it == g_typeinfo.end()) return false;
        Obj* o = objs[it->second];
        if (o->kind != 'g' || o->data.size() < 24) return false;
        uint64_t a;
        memcpy(&a, &o->data[16], 8);
        uint32_t id = a >> 32;
        if (!id || id >= objs.size()) return false;
        b = objs[id]->name;
      }
      n = b;
    }
    return false;
  }
  void Throw(uint64_t obj, uint32_t ti) {
    excType[obj] = ti;
    st.throws++;
    UnwindFrom(obj);
  }
  uint64_t NewText(const std::string& t) {
    uint32_t id = NewObj(t.size() + 1, 'x', true);
    for (size_t i = 0; i < t.size(); i++) objs[id]->data[i] = t[i];
    return (uint64_t)id << 32;
  }
  // Copies the object at s when it holds at least n bytes.
  uint64_t ObjSize(uint64_t a) { return a >> 32 && (a >> 32) < objs.size() ? objs[a >> 32]->data.size() - (uint32_t)a : 0; }
  void ThrowStd(const char* tiName) {
    uint32_t id = NewObj(16, 'h', false);
    StoreI((uint64_t)id << 32, 8, g_exvtable);
    StoreI(((uint64_t)id << 32) + 8, 8, NewText("std::exception"));
    Throw((uint64_t)id << 32, g_typeinfo[tiName]);
  }
  // Unwinds starting with the current instruction of the top frame.
  void UnwindFrom(uint64_t obj) {
    uint32_t ti = excType[obj];
    while (!fr.empty()) {
      Frame& f = fr.back();
      Ins& x = f.f->blocks[f.bb].ins[f.ip];
      if (x.op == llvm::Instruction::Invoke) {
        Block& B = f.f->blocks[x.bb2];
        llvm::LandingPadInst* lp = nullptr;
        for (auto& y : B.ins)
          if (y.op == llvm::Instruction::LandingPad) {
            lp = cast<llvm::LandingPadInst>(y.I);
            break;
          }
        if (!lp) throw Unsupported{"landing pad"};
        bool enter = lp->isCleanup();
        int64_t sel = 0;
        for (unsigned i = 0; i < lp->getNumClauses(); i++) {
          if (!lp->isCatch(i)) {
            enter = true;
            sel = -1;
            break;
          }
          auto* c = lp->getClause(i)->stripPointerCasts();
          if (isa<llvm::ConstantPointerNull>(c)) {
            enter = true;
            sel = 1;
            break;
          }
          uint32_t base = AddrOfGV(cast<llvm::GlobalValue>(c)) >> 32;
          if (Derives(ti, base)) {
            enter = true;
            sel = base;
            break;
          }
        }
        if (enter) {
          curExc = obj;
          curSel = sel;
          Jump(f, x.bb2);
          return;
        }
      }
      PopFrame();
    }
    std::string n = llvm::demangle(objs[ti]->name);
    throw Violation{"exception", "uncaught exception (" + n + ")"};
  }

  // --- calls
  Val AsBool(const Val& v, uint8_t w) {
    if (!v.e) return CI((v.c & MaskW(w)) != 0);
    if (Undef(v)) return v;
    if (v.e->w == 1) return v;
    return ICmp(33, v, CI(0), w);
  }
  std::string NameOcc(const std::string& n) {
    return n + "#" + std::to_string(occ[n]++);
  }
  uint64_t Malloc(uint64_t n) {
    if (n > (1ull << 30)) throw Violation{"memory", "huge allocation in " + Where()};
    uint32_t id;
    auto& fl = freed[n];
    if (opt.reuse && !fl.empty()) {
      id = Again(fl.back(), n);
      fl.pop_back();
    } else {
      id = NewObj(n, 'h', false);
    }
    objs[id]->isStatic = guardDepth > 0;
    return (uint64_t)id << 32;
  }
  void Free(uint64_t a, const char* how) {
    if (!a) return;
    uint32_t id = a >> 32;
    if (id >= objs.size() || (uint32_t)a != 0 || objs[id]->kind != 'h')
      throw Violation{"memory", std::string("invalid ") + how + " in " + Where()};
    if (!objs[id]->live)
      throw Violation{"memory", std::string("double ") + how + " in " + Where()};
    if (opt.reuse) freed[objs[id]->data.size()].push_back(id);
    Kill(id);
  }
  Val FMinMax(bool mx, Val a, Val b) {  // llvm.minnum / fmin semantics
    a = FCoerce(a);
    b = FCoerce(b);
    if (Undef(a) || Undef(b)) return UndefV(K_F, 64);
    if (!a.e && !b.e) {
      double x = AsD(a), y = AsD(b);
      return Nat(mx ? std::fmax(x, y) : std::fmin(x, y));
    }
    if (g_mode == M_REAL) {
      if (!a.e && std::isnan(AsD(a))) return b;
      if (!b.e && std::isnan(AsD(b))) return a;
      Val c = FCmp(mx ? 2 : 4, a, b);
      return Decide(c) ? a : b;
    }
    Val c = FCmp(mx ? 2 : 4, a, b);       // a better than b
    Val n = FCmp(8, b, b);                // b is nan
    Val k = IBin(llvm::Instruction::Or, c, n, 1);
    if (!k.e) return k.c ? a : b;
    return Val{0, g_pool.Make(O_ITE, K_F, 64, {k.e, EF(a), EF(b)})};
  }
  Val Pow(Val a, Val b) {
    if (Undef(a) || Undef(b)) return UndefV(K_F, 64);
    if (!a.e && !b.e) {
      double x = AsD(a), y = AsD(b);
      if (g_mode != M_REAL || !std::isfinite(x) || !std::isfinite(y))
        return Nat(std::pow(x, y));
    }
    if (g_mode == M_REAL && IsNum(b) && NumOf(b).rational()) {
      mpq_class q = NumOf(b).rat();
      if (q.get_den() == 1 && abs(q) <= 64) {
        int n = (int)q.get_num().get_si();
        Val r = CD(1);
        for (int i = 0; i < std::abs(n); i++) r = FBin(O_FMUL, r, a);
        return n < 0 ? FBin(O_FDIV, CD(1), r) : r;
      }
      if (q == mpq_class(1, 2)) return FSqrt(a);
    }
    return Val{0, g_pool.Make(O_UF, K_F, 64, {EF(a), EF(b)}, 0, 0, nullptr, "pow")};
  }
  void Ret1(Frame& f, Ins& x, const Val& v) {
    if (x.ndst >= 1) f.r[x.dst] = v;
  }
  void AfterCall(Frame& f, Ins& x) {
    if (x.op == llvm::Instruction::Invoke)
      Jump(f, x.bb1);
    else
      f.ip++;
  }
  void MemSet(uint64_t d, Val v, uint64_t n) {
    if (!n) return;
    uint32_t off;
    Obj* o = Acc(d, n, true, &off);
    bool und = Undef(v);
    if (v.e && !und) throw Unsupported{"symbolic memset"};
    if (o->hasSym)
      std::fill(o->sym.begin() + off, o->sym.begin() + off + n, nullptr);
    if (!und) memset(&o->data[off], (int)v.c, n);
    memset(&o->init[off], und ? 0 : 1, n);
  }

  // A function of doubles the solver knows nothing about beyond that it is one.
  Val MathUF(const char* name, std::vector<Val> a) {
    bool conc = true;
    for (auto& v : a) {
      v = FCoerce(v);
      if (Undef(v)) return UndefV(K_F, 64);
      conc = conc && (!v.e || v.e->op == O_NUM);
    }
    if (conc) {
      double d[3] = {0, 0, 0};
      for (size_t i = 0; i < a.size(); i++) d[i] = AsD(a[i]);
      return Nat(NativeUF(name, d));
    }
    std::vector<Expr*> e;
    for (auto& v : a) e.push_back(EF(v));
    return Val{0, g_pool.Make(O_UF, K_F, 64, e, 0, 0, nullptr, name)};
  }
  // Floats: a concrete one is its 32 bits, a symbolic one the rounding f32(x) of a double.
  Val ToF32(Val v) {
    if (v.e && v.e->op == O_NUM && g_mode == M_REAL) v = CD(AsD(v));
    v = FCoerce(v);
    if (Undef(v)) return UndefV(K_F, 32);
    if (!v.e) {
      float fl = (float)AsD(v);
      uint32_t b;
      memcpy(&b, &fl, 4);
      return CI(b);
    }
    if (v.e->op == O_UF && *v.e->name == "f32") return Val{0, g_pool.Make(O_UF, K_F, 32, {v.e->a[0]}, 0, 0, nullptr, "f32")};
    return Val{0, g_pool.Make(O_UF, K_F, 32, {v.e}, 0, 0, nullptr, "f32")};
  }
  Val FromF32(Val v) {
    if (!v.e) {
      float fl;
      uint32_t b = (uint32_t)v.c;
      memcpy(&fl, &b, 4);
      return Nat((double)fl);
    }
    if (v.e->kind == K_I || Undef(v)) return UndefV(K_F, 64);
    if (v.e->op == O_UF && *v.e->name == "f32")
      return Val{0, g_pool.Make(O_UF, K_F, 64, {v.e->a[0]}, 0, 0, nullptr, "f32")};
    throw Unsupported{"symbolic float"};
  }
  Val LdExp(Val a, Val n) {
    int k = (int)(int32_t)Addr(n, "exponent");
    if (k > -1000 && k < 1000) return FBin(O_FMUL, a, CD(std::ldexp(1.0, k)));
    return MathUF("ldexp", {a, CD(k)});
  }
  Val CopySign(Val a, Val b) {
    if (Undef(a) || Undef(b)) return UndefV(K_F, 64);
    if (!a.e && !b.e) return Nat(std::copysign(AsD(a), AsD(b)));
    Val m = FAbs(a), s = SignBit(b);
    bool neg = s.e ? DecideE(s.e) : (s.c & 1);
    return neg ? FNeg(m) : m;
  }

  void Intrinsic(Frame& f, Ins& x) {
    using namespace llvm;
    auto* cb = cast<CallBase>(x.I);
    auto id = x.callee->F->getIntrinsicID();
    auto arg = [&](int i) -> Val { return VV(f, x.ops[x.opstart[i]]); };
    auto nlane = [&](int i) { return x.opstart[i + 1] - x.opstart[i]; };
    (void)nlane;
    uint8_t w = x.res.w;
    bool fl = x.res.k == K_F && x.res.w == 32;
    auto each = [&](auto fn) {
      for (int k = 0; k < x.ndst; k++) f.r[x.dst + k] = fl ? ToF32(fn(k)) : fn(k);
    };
    auto lane = [&](int i, int k) -> Val {
      Val v = VV(f, x.ops[x.opstart[i] + k]);
      return fl && id != Intrinsic::ldexp && id != Intrinsic::powi ? FromF32(v) : v;
    };
    auto uf = [&](const char* n, int na) {
      each([&](int k) {
        std::vector<Val> a;
        for (int i = 0; i < na; i++) a.push_back(lane(i, k));
        return MathUF(n, a);
      });
    };
    switch (id) {
      case Intrinsic::threadlocal_address:  // one thread
        f.r[x.dst] = arg(0);
        break;

      case Intrinsic::memcpy:
      case Intrinsic::memmove:
      case Intrinsic::memcpy_inline:
        MemCopy(Addr(arg(0)), Addr(arg(1)), Addr(arg(2), "size"));
        break;
      case Intrinsic::memset:
      case Intrinsic::memset_inline:
        MemSet(Addr(arg(0)), arg(1), Addr(arg(2), "size"));
        break;
      case Intrinsic::lifetime_start: {
        uint64_t a = Addr(arg(1));
        uint32_t oid = a >> 32;
        if (oid && oid < objs.size() && objs[oid]->live && owned[oid]) {
          Obj* o = objs[oid];
          std::fill(o->init.begin(), o->init.end(), 0);
          if (o->hasSym) std::fill(o->sym.begin(), o->sym.end(), nullptr);
        }
        break;
      }
      case Intrinsic::lifetime_end:
      case Intrinsic::dbg_declare:
      case Intrinsic::dbg_value:
      case Intrinsic::dbg_label:
      case Intrinsic::experimental_noalias_scope_decl:
      case Intrinsic::assume:
      case Intrinsic::donothing:
      case Intrinsic::prefetch:
      case Intrinsic::invariant_end:
      case Intrinsic::stackrestore:
        break;
      case Intrinsic::invariant_start:
      case Intrinsic::stacksave:
        Ret1(f, x, CI(0));
        break;
      case Intrinsic::fabs:
        each([&](int k) { return FAbs(lane(0, k)); });
        break;
      case Intrinsic::sqrt:
        each([&](int k) { return FSqrt(lane(0, k)); });
        break;
      case Intrinsic::fmuladd:
      case Intrinsic::fma:
        each([&](int k) {
          if (g_mode == M_REAL)
            return FBin(O_FADD, FBin(O_FMUL, lane(0, k), lane(1, k)), lane(2, k));
          return MathUF("fma", {lane(0, k), lane(1, k), lane(2, k)});
        });
        break;
      case Intrinsic::minnum:
      case Intrinsic::minimum:
        each([&](int k) { return FMinMax(false, lane(0, k), lane(1, k)); });
        break;
      case Intrinsic::maxnum:
      case Intrinsic::maximum:
        each([&](int k) { return FMinMax(true, lane(0, k), lane(1, k)); });
        break;
      case Intrinsic::copysign:
        each([&](int k) { return CopySign(lane(0, k), lane(1, k)); });
        break;
      case Intrinsic::pow:
        each([&](int k) { return Pow(lane(0, k), lane(1, k)); });
        break;
      case Intrinsic::powi: {
        Val b = arg(1);
        each([&](int k) { return Pow(lane(0, k), CD((double)(int32_t)Addr(b, "exponent"))); });
        break;
      }
      case Intrinsic::floor: uf("floor", 1); break;
      case Intrinsic::ceil: uf("ceil", 1); break;
      case Intrinsic::trunc: uf("trunc", 1); break;
      case Intrinsic::rint:
      case Intrinsic::nearbyint:
      case Intrinsic::roundeven: uf("rint", 1); break;
      case Intrinsic::round: uf("round", 1); break;
      case Intrinsic::exp: uf("exp", 1); break;
      case Intrinsic::exp2: uf("exp2", 1); break;
      case Intrinsic::log: uf("log", 1); break;
      case Intrinsic::log10: uf("log10", 1); break;
      case Intrinsic::log2: uf("log2", 1); break;
      case Intrinsic::sin: uf("sin", 1); break;
      case Intrinsic::cos: uf("cos", 1); break;
      case Intrinsic::ldexp:
        each([&](int k) { return LdExp(lane(0, k), lane(1, 0)); });
        break;
      case Intrinsic::smax:
      case Intrinsic::smin:
      case Intrinsic::umax:
      case Intrinsic::umin: {
        int p = id == Intrinsic::smax   ? 38
                : id == Intrinsic::smin ? 40
                : id == Intrinsic::umax ? 34
                                        : 36;
        each([&](int k) {
          return Select(ICmp(p, lane(0, k), lane(1, k), w), lane(0, k), lane(1, k),
                        x.res);
        });
        break;
      }
      case Intrinsic::abs: {
        Val a = arg(0);
        Val n = IBin(Instruction::Sub, CI(0), a, w);
        Ret1(f, x, Select(ICmp(40, a, CI(0), w), n, a, x.res));
        break;
      }
      case Intrinsic::expect:
      case Intrinsic::ssa_copy:
      case Intrinsic::launder_invariant_group:
      case Intrinsic::strip_invariant_group:
        Ret1(f, x, arg(0));
        break;
      case Intrinsic::is_constant:
        Ret1(f, x, CI(0));
        break;
      case Intrinsic::objectsize:
        Ret1(f, x, CI((Addr(arg(1)) & 1) ? 0 : MaskW(w)));
        break;
      case Intrinsic::ctlz:
      case Intrinsic::cttz:
      case Intrinsic::ctpop:
      case Intrinsic::bswap: {
        Val a = arg(0);
        if (a.e) throw Unsupported{"bit counting of a symbolic value"};
        uint64_t v = a.c & MaskW(w), r;
        if (id == Intrinsic::ctpop) r = __builtin_popcountll(v);
        else if (id == Intrinsic::bswap) r = __builtin_bswap64(v) >> (64 - w);
        else if (!v) r = w;
        else if (id == Intrinsic::ctlz) r = __builtin_clzll(v) - (64 - w);
        else r = __builtin_ctzll(v);
        Ret1(f, x, CI(r));
        break;
      }
      case Intrinsic::umul_with_overflow:
      case Intrinsic::smul_with_overflow:
      case Intrinsic::uadd_with_overflow:
      case Intrinsic::sadd_with_overflow:
      case Intrinsic::usub_with_overflow:
      case Intrinsic::ssub_with_overflow: {
        Val a = arg(0), b = arg(1);
        if (a.e || b.e) throw Unsupported{"symbolic overflow arithmetic"};
        bool sg = id == Intrinsic::smul_with_overflow ||
                  id == Intrinsic::sadd_with_overflow ||
                  id == Intrinsic::ssub_with_overflow;
        __int128 p = sg ? (__int128)SExtW(a.c, w) : (__int128)(a.c & MaskW(w));
        __int128 q = sg ? (__int128)SExtW(b.c, w) : (__int128)(b.c & MaskW(w));
        __int128 r;
        if (id == Intrinsic::umul_with_overflow || id == Intrinsic::smul_with_overflow)
          r = p * q;
        else if (id == Intrinsic::uadd_with_overflow ||
                 id == Intrinsic::sadd_with_overflow)
          r = p + q;
        else
          r = p - q;
        uint64_t lo = (uint64_t)r & MaskW(w);
        bool ov = sg ? (__int128)SExtW(lo, w) != r
                     : (r < 0 || r > (__int128)MaskW(w));
        f.r[x.dst] = CI(lo);
        f.r[x.dst + 1] = CI(ov);
        break;
      }
      case Intrinsic::usub_sat:
      case Intrinsic::uadd_sat: {
        Val a = arg(0), b = arg(1);
        if (a.e || b.e) throw Unsupported{"symbolic saturating arithmetic"};
        uint64_t p = a.c & MaskW(w), q = b.c & MaskW(w);
        Ret1(f, x, CI(id == Intrinsic::usub_sat
                          ? (p > q ? p - q : 0)
                          : std::min<unsigned __int128>((unsigned __int128)p + q,
                                                        MaskW(w))));
        break;
      }
      case Intrinsic::fshl:
      case Intrinsic::fshr: {
        Val a = arg(0), b = arg(1), s = arg(2);
        if (a.e || b.e || s.e) throw Unsupported{"symbolic funnel shift"};
        unsigned k = s.c % w;
        uint64_t r;
        if (id == Intrinsic::fshl)
          r = k ? (a.c << k) | ((b.c & MaskW(w)) >> (w - k)) : a.c;
        else
          r = k ? ((b.c & MaskW(w)) >> k) | (a.c << (w - k)) : b.c;
        Ret1(f, x, CI(r & MaskW(w)));
        break;
      }
      case Intrinsic::eh_typeid_for:
        Ret1(f, x, CI(Addr(arg(0)) >> 32));
        break;
      case Intrinsic::is_fpclass: {
        Val a = x.w1 == 32 ? FromF32(arg(0)) : FCoerce(arg(0));
        if (cast<CallBase>(x.I)->getArgOperand(0)->getType()->isFloatTy()) a = FromF32(arg(0));
        uint64_t m = Addr(arg(1));
        if (Undef(a)) {
          Ret1(f, x, UndefV(K_I, 1));
          break;
        }
        if (!a.e) {
          Ret1(f, x, CI(FpClass(AsD(a), m)));
          break;
        }
        // combinations: nan (3), inf (0x204), finite (0x1f8)
        bool cn = (m & 3) == 3, nn = (m & 3) == 0, ci = (m & 0x204) == 0x204,
             ni = (m & 0x204) == 0, cf = (m & 0x1f8) == 0x1f8,
             nf = (m & 0x1f8) == 0;
        if (!((cn || nn) && (ci || ni) && (cf || nf))) {
          // class by class, the tests any double satisfies exactly one of
          Val ax = FAbs(a), sg = SignBit(a), r = CI(0);
          Val mn = CD(2.2250738585072014e-308), in = Nat(INFINITY);
          Val isn = g_mode == M_REAL ? CI(0) : FCmp(8, a, a), isi = g_mode == M_REAL ? CI(0) : FCmp(1, ax, in);
          Val z = FCmp(1, ax, CD(0)), sub = IBin(Instruction::And, FCmp(2, ax, CD(0)), FCmp(4, ax, mn), 1);
          Val nrm = FCmp(3, ax, mn);
          if (g_mode != M_REAL) nrm = IBin(Instruction::And, nrm, FCmp(4, ax, in), 1);
          auto part = [&](uint64_t neg, uint64_t pos, Val t) {
            if (!(m & (neg | pos))) return;
            if (!(m & neg)) t = IBin(Instruction::And, t, IBin(Instruction::Xor, sg, CI(1), 1), 1);
            if (!(m & pos)) t = IBin(Instruction::And, t, sg, 1);
            r = IBin(Instruction::Or, r, t, 1);
          };
          if (m & 3) r = isn;
          part(0x4, 0x200, isi);
          part(0x8, 0x100, nrm);
          part(0x10, 0x80, sub);
          part(0x20, 0x40, z);
          Ret1(f, x, r);
          break;
        }
        if (g_mode == M_REAL) {
          Ret1(f, x, CI(cf));
          break;
        }
        Val ab = FAbs(a), inf = Nat(INFINITY);
        Val r = CI(0);
        if (cn) r = IBin(Instruction::Or, r, FCmp(8, a, a), 1);
        if (ci) r = IBin(Instruction::Or, r, FCmp(1, ab, inf), 1);
        if (cf) r = IBin(Instruction::Or, r, FCmp(4, ab, inf), 1);
        Ret1(f, x, r);
        break;
      }
      case Intrinsic::trap:
        throw Violation{"abort", "trap in " + Where()};
      default:
        throw Unsupported{"intrinsic " + x.callee->name};
    }
    (void)cb;
    AfterCall(f, x);
  }
  static bool FpClass(double d, uint64_t m) {
    int c = std::fpclassify(d);
    bool s = std::signbit(d);
    uint64_t b = c == FP_NAN         ? 2
                 : c == FP_INFINITE  ? (s ? 4 : 0x200)
                 : c == FP_NORMAL    ? (s ? 8 : 0x100)
                 : c == FP_SUBNORMAL ? (s ? 0x10 : 0x80)
                                     : (s ? 0x20 : 0x40);
    if (b == 2) return m & 3;
    return m & b;
  }

  void External(Frame& f, Ins& x) {
    const std::string& n = x.callee->name;
    auto arg = [&](int i) -> Val { return VV(f, x.ops[x.opstart[i]]); };
    auto A = [&](int i) { return Addr(arg(i), "argument"); };
    auto is = [&](const char* s) { return n == s; };
    if (n.rfind("sx_", 0) == 0) {
      if (is("sx_real")) {
        std::string nm = NameOcc(CStr(A(0)));
        Expr* e = g_pool.Var(nm, K_F, 64);
        inputs.push_back({nm, e});
        Ret1(f, x, Val{0, e});
      } else if (is("sx_bool")) {
        std::string nm = NameOcc(CStr(A(0)));
        Expr* e = g_pool.Var(nm, K_I, 1);
        inputs.push_back({nm, e});
        Ret1(f, x, CastInt(Val{0, e}, 1, 32, false));
      } else if (is("sx_int")) {
        std::string nm = NameOcc(CStr(A(0)));
        Expr* e = g_pool.Var(nm, K_I, 32);
        inputs.push_back({nm, e});
        Ret1(f, x, Val{0, e});
      } else if (is("sx_choose")) {
        std::string nm = NameOcc(CStr(A(0)));
        int lo = (int)A(1), hi = (int)A(2);
        if (hi < lo) throw PathStop{"assume"};
        int v = Choose(lo, hi);
        choices.push_back({nm, v});
        Ret1(f, x, CI((uint32_t)v));
      } else if (is("sx_assume")) {
        Assume(AsBool(arg(0), 32));
      } else if (is("sx_assert")) {
        AssertCond(AsBool(arg(0), 32), CStr(A(1)));
      } else if (is("sx_assert_eq")) {
        AssertEq(arg(0), arg(1), CStr(A(2)));
      } else if (is("sx_assert_le")) {
        AssertLe(arg(0), arg(1), CStr(A(2)));
      } else if (is("sx_reach")) {
        Reach(CStr(A(0)));
      } else if (is("sx_protect")) {
        uint64_t nb = A(1);
        uint32_t off;
        if (nb) {
          Obj* o = Acc(A(0), nb, false, &off);
          uint32_t id = A(0) >> 32;
          if (!owned[id]) {
            o = new Obj(*o);
            objs[id] = o;
            owned[id] = 1;
          }
          if (o->prot.empty()) o->prot.assign(o->data.size(), 0);
          std::fill(o->prot.begin() + off, o->prot.begin() + off + nb, 1);
        }
      } else if (is("sx_unprotect")) {
        uint64_t nb = A(1);
        uint32_t off = (uint32_t)A(0);
        uint32_t id = A(0) >> 32;
        if (nb && !objs[id]->prot.empty())
          std::fill(objs[id]->prot.begin() + off, objs[id]->prot.begin() + off + nb, 0);
      } else if (is("sx_poison")) {  // memory becomes uninitialised
        MemSet(A(0), UndefV(K_I, 8), A(1));
      } else if (is("sx_prints")) {
        Ret1(f, x, CI((uint32_t)prints));
      } else if (is("sx_mode")) {
        Ret1(f, x, CI((uint32_t)g_mode));
      } else if (is("sx_defined")) {  // is the value free of uninitialised data
        Ret1(f, x, CI(!Undef(FCoerce(arg(0)))));
      } else if (is("sx_clock")) {  // nanoseconds, same clock as the program's
        lastClock += 1000 * (1 + (uint64_t)(lastClock / 1000) % 7);
        Ret1(f, x, CI((uint64_t)lastClock));
      } else if (is("sx_live")) {
        uint32_t c = 0;
        for (auto* o : objs)
          if (o->kind == 'h' && o->live) c++;
        Ret1(f, x, CI(c));
      } else if (is("sx_show")) {
        Val v = arg(0);
        std::cerr << "show " << (v.e ? Show(v.e, 12) : std::to_string(AsD(v)))
                  << "\n";
      } else if (is("sx_stop")) {
        throw PathStop{"stop"};
      } else {
        throw Unsupported{"intrinsic " + n};
      }
      AfterCall(f, x);
      return;
    }
    st.externs.insert(n);
    if (is("malloc") || is("_Znwm") || is("_Znam") || is("_ZnwmRKSt9nothrow_t") ||
        is("_ZnamRKSt9nothrow_t") || is("_ZnwmSt11align_val_t") ||
        is("_ZnamSt11align_val_t")) {
      Ret1(f, x, CI(Malloc(A(0))));
    } else if (is("calloc")) {
      uint64_t p = Malloc(A(0) * A(1));
      MemSet(p, CI(0), A(0) * A(1));
      Ret1(f, x, CI(p));
    } else if (is("aligned_alloc")) {
      Ret1(f, x, CI(Malloc(A(1))));
    } else if (is("posix_memalign")) {
      StoreI(A(0), 8, Malloc(A(2)));
      Ret1(f, x, CI(0));
    } else if (is("realloc")) {
      uint64_t p = Malloc(A(1));
      if (A(0)) {
        uint64_t old = objs[A(0) >> 32]->data.size();
        MemCopy(p, A(0), std::min(old, A(1)));
        Free(A(0), "realloc");
      }
      Ret1(f, x, CI(p));
    } else if (is("free") || n.rfind("_ZdlPv", 0) == 0 || n.rfind("_ZdaPv", 0) == 0) {
      Free(A(0), "free");
    } else if (is("memcpy") || is("memmove")) {
      MemCopy(A(0), A(1), A(2));
      Ret1(f, x, arg(0));
    } else if (is("memset")) {
      MemSet(A(0), arg(1), A(2));
      Ret1(f, x, arg(0));
    } else if (is("strlen")) {
      Ret1(f, x, CI(CStr(A(0)).size()));
    } else if (is("memcmp") || is("bcmp")) {
      int r = 0;
      for (uint64_t i = 0; i < A(2) && !r; i++)
        r = (int)LoadI(A(0) + i, 1) - (int)LoadI(A(1) + i, 1);
      Ret1(f, x, CI((uint32_t)r));
    } else if (is("strcmp")) {
      Ret1(f, x, CI((uint32_t)CStr(A(0)).compare(CStr(A(1)))));
    } else if (is("memchr")) {
      uint64_t r = 0;
      for (uint64_t i = 0; i < A(2) && !r; i++)
        if (LoadI(A(0) + i, 1) == (A(1) & 255)) r = A(0) + i;
      Ret1(f, x, CI(r));
    } else if (is("sqrt")) {
      Ret1(f, x, FSqrt(arg(0)));
    } else if (is("fabs")) {
      Ret1(f, x, FAbs(arg(0)));
    } else if (is("hypot")) {
      Val a = arg(0), b = arg(1);
      if (g_mode == M_REAL || (!a.e && !b.e)) {
        if (!a.e && !b.e && g_mode != M_REAL)
          Ret1(f, x, Nat(std::hypot(AsD(a), AsD(b))));
        else
          Ret1(f, x, FSqrt(FBin(O_FADD, FBin(O_FMUL, a, a), FBin(O_FMUL, b, b))));
      } else if (Undef(a) || Undef(b)) {
        Ret1(f, x, UndefV(K_F, 64));
      } else {
        Ret1(f, x, Val{0, g_pool.Make(O_UF, K_F, 64, {EF(a), EF(b)}, 0, 0, nullptr,
                                      "hypot")});
      }
    } else if (is("pow")) {
      Ret1(f, x, Pow(arg(0), arg(1)));
    } else if (is("fmin") || is("fmax")) {
      Ret1(f, x, FMinMax(is("fmax"), arg(0), arg(1)));
    } else if (is("floor") || is("ceil") || is("trunc") || is("rint") || is("nearbyint") || is("round") || is("exp") ||
               is("log") || is("log10") || is("log2") || is("log1p") || is("expm1") || is("exp2") || is("sin") ||
               is("cos") || is("tan") || is("asin") || is("acos") || is("atan") || is("sinh") || is("cosh") ||
               is("tanh") || is("cbrt") || is("erf") || is("tgamma") || is("lgamma") || is("logb")) {
      Ret1(f, x, MathUF(n.c_str(), {arg(0)}));
    } else if (is("fmod") || is("remainder") || is("atan2") || is("nextafter") || is("fdim")) {
      Ret1(f, x, MathUF(n.c_str(), {arg(0), arg(1)}));
    } else if (is("fma")) {
      if (g_mode == M_REAL) Ret1(f, x, FBin(O_FADD, FBin(O_FMUL, arg(0), arg(1)), arg(2)));
      else Ret1(f, x, MathUF("fma", {arg(0), arg(1), arg(2)}));
    } else if (is("ldexp") || is("scalbn") || is("scalbln")) {
      Ret1(f, x, LdExp(arg(0), arg(1)));
    } else if (is("copysign")) {
      Ret1(f, x, CopySign(arg(0), arg(1)));
    } else if (is("sqrtf") || is("fabsf")) {
      Ret1(f, x, ToF32(is("sqrtf") ? FSqrt(FromF32(arg(0))) : FAbs(FromF32(arg(0)))));
    } else if (is("fminf") || is("fmaxf")) {
      Ret1(f, x, ToF32(FMinMax(is("fmaxf"), FromF32(arg(0)), FromF32(arg(1)))));
    } else if (is("pthread_mutex_lock") || is("pthread_mutex_unlock") || is("pthread_mutex_trylock") ||
               is("pthread_mutex_init") || is("pthread_mutex_destroy") || is("__cxa_thread_atexit") ||
               is("pthread_rwlock_rdlock") || is("pthread_rwlock_wrlock") || is("pthread_rwlock_unlock")) {
      Ret1(f, x, CI(0));
    } else if (is("time")) {
      lastClock += 1000;
      if (A(0)) StoreI(A(0), 8, (uint64_t)(lastClock / 1000000000));
      Ret1(f, x, CI((uint64_t)(lastClock / 1000000000)));
    } else if (is("clock_gettime") || is("gettimeofday")) {
      lastClock += 1000;
      StoreI(A(is("clock_gettime") ? 1 : 0), 8, (uint64_t)(lastClock / 1000000000));
      StoreI(A(is("clock_gettime") ? 1 : 0) + 8, 8,
             ((uint64_t)lastClock % 1000000000) / (is("clock_gettime") ? 1 : 1000));
      Ret1(f, x, CI(0));
    } else if (is("getenv") || is("secure_getenv")) {
      Ret1(f, x, CI(0));
    } else if (is("strncmp")) {
      Ret1(f, x, CI((uint32_t)CStr(A(0)).substr(0, A(2)).compare(CStr(A(1)).substr(0, A(2)))));
    } else if (is("strcpy") || is("strcat") || is("strncpy")) {
      std::string t = CStr(A(1));
      uint64_t to = A(0) + (is("strcat") ? CStr(A(0)).size() : 0), nb = is("strncpy") ? A(2) : t.size() + 1;
      for (uint64_t i = 0; i < nb; i++) MemSet(to + i, CI(i < t.size() ? (uint8_t)t[i] : 0), 1);
      Ret1(f, x, arg(0));
    } else if (is("strchr")) {
      std::string t = CStr(A(0));
      size_t i = (char)A(1) ? t.find((char)A(1)) : t.size();
      Ret1(f, x, CI(i == std::string::npos ? 0 : A(0) + i));
    } else if (is("printf") || is("puts") || is("putchar") || is("vprintf") ||
               is("fprintf") || is("fputs") || is("fputc") || is("fwrite") ||
               is("write") || is("putc") || is("__printf_chk") ||
               is("_ZNSo5writeEPKcl") || is("_ZNSo3putEc") ||
               is("_ZNSolsEi") || is("_ZNSolsEm") || is("_ZNSolsEl") ||
               is("_ZNSolsEj") || is("_ZNSolsEb") || is("_ZNSolsEd") ||
               n.rfind("_ZStlsISt11char_traits", 0) == 0 ||
               n.rfind("_ZSt16__ostream_insert", 0) == 0 ||
               n.rfind("_ZNSo9_M_insert", 0) == 0 ||
               n.rfind("_ZSt4endl", 0) == 0) {
      prints++;
      if (x.res.w == 64) Ret1(f, x, arg(0));
      else Ret1(f, x, CI(1));
    } else if (n.rfind("_ZNSo5flush", 0) == 0) {
      Ret1(f, x, arg(0));
    } else if (is("fflush")) {
      Ret1(f, x, CI(0));
    } else if (is("snprintf") || is("__snprintf_chk")) {
      // Concrete arguments are formatted; a symbolic number stands as '#'s of the
      // field width.
      int fi = is("snprintf") ? 2 : 4;
      int na = (int)x.opstart.size() - 1;
      for (int i = fi + 1; i < na; i++) {
        Val v = arg(i);
        if (v.e && Undef(v))
          throw Violation{"uninit", "uninitialised value printed"};
      }
      std::string fmt = CStr(A(fi)), txt;
      int next = fi + 1;
      for (size_t i = 0; i < fmt.size(); i++) {
        if (fmt[i] != '%') {
          txt += fmt[i];
          continue;
        }
        if (fmt[i + 1] == '%') {
          txt += '%';
          i++;
          continue;
        }
        size_t j = i + 1;
        while (j < fmt.size() && strchr("-+ #0123456789.hlzjt", fmt[j])) j++;
        if (j >= fmt.size()) throw Unsupported{"printf format"};
        std::string spec = fmt.substr(i, j - i + 1);
        char c = fmt[j], buf[512];
        i = j;
        if (next >= na) throw Violation{"memory", "snprintf reads a missing argument in " + Where()};
        Val v = arg(next++);
        if (c == 's') {
          std::string t = CStr(A(next - 1));
          snprintf(buf, sizeof buf, spec.c_str(), t.c_str());
          txt += buf;
        } else if (strchr("diucxX", c)) {
          bool lng = spec.find_first_of("lzjt") != std::string::npos;
          if (v.e) {
            txt += '#';
          } else {
            if (lng) snprintf(buf, sizeof buf, spec.c_str(), (long)v.c);
            else snprintf(buf, sizeof buf, spec.c_str(), (int)v.c);
            txt += buf;
          }
        } else if (strchr("eEfFgG", c)) {
          if (v.e) {
            int w = atoi(spec.c_str() + 1);
            txt += std::string(std::max(1, std::abs(w)), '#');
          } else {
            snprintf(buf, sizeof buf, spec.c_str(), AsD(v));
            txt += buf;
          }
        } else {
          throw Unsupported{"printf format " + spec};
        }
      }
      uint64_t sz = A(1);
      for (uint64_t i = 0; i < sz && i <= txt.size(); i++)
        MemSet(A(0) + i, CI(i + 1 < sz && i < txt.size() ? (uint8_t)txt[i] : 0), 1);
      Ret1(f, x, CI((uint32_t)txt.size()));
    } else if (is("_ZNSt6chrono3_V212system_clock3nowEv") ||
               is("_ZNSt6chrono3_V212steady_clock3nowEv") || is("clock")) {
      lastClock += 1000 * (1 + (uint64_t)(lastClock / 1000) % 5);
      Ret1(f, x, CI((uint64_t)lastClock));
    } else if (n.rfind("_ZNSt13runtime_error", 0) == 0 ||
               n.rfind("_ZNSt11logic_error", 0) == 0 ||
               n.rfind("_ZNSt12out_of_range", 0) == 0 ||
               n.rfind("_ZNSt12length_error", 0) == 0 ||
               n.rfind("_ZNSt16invalid_argument", 0) == 0 ||
               n.rfind("_ZNSt12domain_error", 0) == 0 ||
               n.rfind("_ZNSt11range_error", 0) == 0 ||
               n.rfind("_ZNSt14overflow_error", 0) == 0 ||
               n.rfind("_ZNSt15underflow_error", 0) == 0 ||
               n.rfind("_ZNSt9bad_alloc", 0) == 0 ||
               n.rfind("_ZNSt9exception", 0) == 0 ||
               n.rfind("_ZNSt8ios_base4Init", 0) == 0) {
      // constructors and destructors of library types: the message is kept
      size_t c = n.find("C1E");
      if (c == std::string::npos) c = n.find("C2E");
      if (c != std::string::npos && n.find("ios_base") == std::string::npos) {
        std::string a = n.substr(c + 3);
        uint64_t msg = 0;
        if (a == "PKc")
          msg = NewText(CStr(A(1)));
        else if (a.rfind("RKNSt7__cxx1112basic_string", 0) == 0 || a == "RKSs")
          msg = NewText(CStr(LoadI(A(1), 8)));
        else if ((a.rfind("RKS_", 0) == 0 || a.rfind("OS_", 0) == 0) && ObjSize(A(1)) >= 16)
          msg = LoadI(A(1) + 8, 8);
        StoreI(A(0), 8, g_exvtable);
        if (ObjSize(A(0)) >= 16) StoreI(A(0) + 8, 8, msg ? msg : NewText("std::exception"));
      }
    } else if (n.rfind("_ZNKSt", 0) == 0 && n.find("4whatEv") != std::string::npos) {
      uint64_t msg = ObjSize(A(0)) >= 16 ? LoadI(A(0) + 8, 8) : 0;
      Ret1(f, x, CI(msg ? msg : NewText("std::exception")));
    } else if (is("__cxa_atexit") || is("__cxa_guard_release") ||
               is("__cxa_guard_abort")) {
      if (!is("__cxa_atexit") && guardDepth > 0) guardDepth--;
      if (is("__cxa_guard_release")) {
        uint32_t off;
        Obj* o = Acc(A(0), 1, true, &off);
        StoreLeaf(o, off, Leaf{K_I, 8, 0}, CI(1));
      }
      Ret1(f, x, CI(0));
    } else if (is("__cxa_guard_acquire")) {
      bool todo = !LoadI(A(0), 1);
      if (todo) guardDepth++;
      Ret1(f, x, CI(todo ? 1 : 0));
    } else if (is("__cxa_allocate_exception")) {
      Ret1(f, x, CI(Malloc(A(0)) ));
      objs[f.r[x.dst].c >> 32]->kind = 'x';
    } else if (is("__cxa_free_exception")) {
    } else if (is("__cxa_throw")) {
      Throw(A(0), A(1) >> 32);
      return;
    } else if (is("__cxa_rethrow")) {
      if (caught.empty()) throw Violation{"exception", "rethrow without exception"};
      UnwindFrom(caught.back());
      return;
    } else if (is("__cxa_begin_catch")) {
      caught.push_back(A(0));
      Ret1(f, x, arg(0));
    } else if (is("__cxa_get_exception_ptr")) {
      Ret1(f, x, arg(0));
    } else if (is("__cxa_end_catch")) {
      if (!caught.empty()) caught.pop_back();
    } else if (is("_ZSt17__throw_bad_allocv")) {
      ThrowStd("_ZTISt9bad_alloc");
      return;
    } else if (n.rfind("_ZSt28__throw_bad_array_new_length", 0) == 0) {
      ThrowStd("_ZTISt20bad_array_new_length");
      return;
    } else if (n.rfind("_ZSt20__throw_length_error", 0) == 0) {
      ThrowStd("_ZTISt12length_error");
      return;
    } else if (n.rfind("_ZSt24__throw_out_of_range", 0) == 0 ||
               n.rfind("_ZSt20__throw_out_of_range", 0) == 0) {
      ThrowStd("_ZTISt12out_of_range");
      return;
    } else if (n.rfind("_ZSt19__throw_logic_error", 0) == 0) {
      ThrowStd("_ZTISt11logic_error");
      return;
    } else if (n.rfind("_ZSt25__throw_bad_function_call", 0) == 0) {
      ThrowStd("_ZTISt17bad_function_call");
      return;
    } else if (is("__assert_fail")) {
      throw Violation{"eigen_assert", "assertion failed: " + CStr(A(0)).substr(0, 200) +
                                          " in " + Where()};
    } else if (is("abort") || is("_ZSt9terminatev") || is("__clang_call_terminate") ||
               is("exit") || is("__cxa_pure_virtual") || is("_exit")) {
      throw Violation{"abort", n + " in " + Where()};
    } else {
      throw Unsupported{"external function " + n};
    }
    AfterCall(f, x);
  }

  void DoCall(Frame& f, Ins& x) {
    FuncInfo* fi = x.callee;
    auto* cb = cast<llvm::CallBase>(x.I);
    if (!fi) {
      if (isa<llvm::InlineAsm>(cb->getCalledOperand())) {
        auto* ia = cast<llvm::InlineAsm>(cb->getCalledOperand());
        const std::string asmText = ia->getAsmString();
        llvm::StringRef as = llvm::StringRef(asmText).ltrim();
        if (!as.empty() && !as.starts_with("#")) throw Unsupported{"inline asm"};
        AfterCall(f, x);
        return;
      }
      int32_t last = x.ops.back();
      uint64_t a = Addr(VV(f, last), "function pointer");
      auto it = g_objfunc.find(a >> 32);
      if (it == g_objfunc.end())
        throw Violation{"memory", "call through an invalid pointer in " + Where()};
      fi = it->second;
    }
    if (fi->F->isDeclaration()) {
      FuncInfo* keep = x.callee;
      x.callee = fi;
      if (fi->F->isIntrinsic())
        Intrinsic(f, x);
      else
        External(f, x);
      if (!keep) x.callee = nullptr;
      return;
    }
    size_t na = x.opstart.empty() ? 0 : x.opstart.size() - 1;
    std::vector<Val> args;
    std::vector<uint32_t> byv;
    for (size_t i = 0; i < na; i++) {
      if (cb->isByValArgument((unsigned)i)) {
        uint64_t sz = DL->getTypeAllocSize(cb->getParamByValType((unsigned)i));
        uint32_t id = NewObj(sz, 's', false);
        MemCopy((uint64_t)id << 32, Addr(VV(f, x.ops[x.opstart[i]])), sz);
        byv.push_back(id);
        args.push_back(CI((uint64_t)id << 32));
        continue;
      }
      for (int k = x.opstart[i]; k < x.opstart[i + 1]; k++)
        args.push_back(VV(f, x.ops[k]));
    }
    Push(fi, std::move(args), x.dst, x.ndst);
    fr.back().allocas = byv;
    Frame& g = fr.back();
    g.bb = 0;
    if (!g.f->blocks[0].seen) NoteBlock(g.f->blocks[0]);
  }

  void Run() {
    using namespace llvm;
    while (!fr.empty()) {
      if ((++steps & 0xfff) == 0) {
        if (steps > opt.maxsteps)
          throw Violation{"steps", "no termination within the step bound in " + Where()};
        if (Elapsed() > opt.budget * 1.5) throw Unsupported{"time budget exhausted inside a path"};
      }
      Frame& f = fr.back();
      Ins& x = f.f->blocks[f.bb].ins[f.ip];
      switch (x.op) {
        case Instruction::Br:
          if (x.bb2 < 0) {
            Jump(f, x.bb1);
          } else {
            bool c = Decide(VV(f, x.ops[0]));
            Jump(f, c ? x.bb1 : x.bb2);
          }
          break;
        case Instruction::Switch: {
          Val v = VV(f, x.ops[0]);
          int to = x.bb1;
          if (!v.e) {
            for (auto& c : x.cases)
              if (c.first == (v.c & MaskW(x.w1))) to = c.second;
          } else {
            if (Undef(v))
              throw Violation{"uninit", "switch on an uninitialised value in " + Where()};
            for (auto& c : x.cases)
              if (Decide(ICmp(32, v, CI(c.first), x.w1))) {
                to = c.second;
                break;
              }
          }
          Jump(f, to);
          break;
        }
        case Instruction::Ret: {
          std::vector<Val> rv;
          for (auto o : x.ops) rv.push_back(VV(f, o));
          int32_t d = f.retdst;
          int n = f.nret;
          PopFrame();
          if (fr.empty()) {
            if (!rv.empty()) retVal = rv[0];
            return;
          }
          Frame& g = fr.back();
          for (int i = 0; i < n && i < (int)rv.size(); i++) g.r[d + i] = rv[i];
          if (mainStarted || true) {
            Ins& y = g.f->blocks[g.bb].ins[g.ip];
            AfterCall(g, y);
          }
          break;
        }
        case Instruction::Unreachable:
          throw Violation{"abort", "unreachable code reached in " + Where()};
        case Instruction::Call:
        case Instruction::Invoke:
          DoCall(f, x);
          break;
        case Instruction::LandingPad:
          f.r[x.dst] = CI(curExc);
          f.r[x.dst + 1] = CI((uint32_t)curSel);
          f.ip++;
          break;
        case Instruction::Resume: {
          uint64_t o = Addr(VV(f, x.ops[0]));
          PopFrame();
          if (fr.empty()) throw Violation{"exception", "uncaught exception"};
          UnwindFrom(o);
          break;
        }
        case Instruction::Alloca: {
          uint64_t n = Addr(VV(f, x.ops[0]), "array size");
          uint32_t id = 0;
          if (opt.reuse) {
            uint32_t& last = lastSlot[{&x, fr.size()}];
            if (!last || objs[last]->live) last = NewObj((size_t)x.goff * n, 's', false);
            else Again(last, (size_t)x.goff * n);
            id = last;
          } else {
            id = NewObj((size_t)x.goff * n, 's', false);
          }
          f.allocas.push_back(id);
          f.r[x.dst] = CI((uint64_t)id << 32);
          f.ip++;
          break;
        }
        case Instruction::Load: {
          uint64_t a = Addr(VV(f, x.ops[0]));
          uint64_t n = 0;
          for (auto& l : x.leaves) n = std::max<uint64_t>(n, l.off + l.bytes());
          uint32_t off;
          Obj* o = Acc(a, n, false, &off);
          for (int i = 0; i < x.ndst; i++)
            f.r[x.dst + i] = LoadLeaf(o, off + x.leaves[i].off, x.leaves[i]);
          f.ip++;
          break;
        }
        case Instruction::Store: {
          uint64_t a = Addr(VV(f, x.ops[0]));
          uint64_t n = 0;
          for (auto& l : x.leaves) n = std::max<uint64_t>(n, l.off + l.bytes());
          uint32_t off;
          Obj* o = Acc(a, n, true, &off);
          for (size_t i = 0; i < x.leaves.size(); i++)
            StoreLeaf(o, off + x.leaves[i].off, x.leaves[i], VV(f, x.ops[1 + i]));
          f.ip++;
          break;
        }
        case Instruction::GetElementPtr: {
          Val b = VV(f, x.ops[0]);
          if (Undef(b)) {
            f.r[x.dst] = b;
            f.ip++;
            break;
          }
          bool sym = b.e;
          for (size_t i = 0; i < x.gscale.size(); i++) {
            Val ix = VV(f, x.ops[1 + i]);
            sym = sym || (ix.e && !Undef(ix));
          }
          if (sym) {  // stays symbolic until it is used
            Val a = b.e ? b : CI(b.c);
            bool un = false;
            if (x.goff) a = IBin(Instruction::Add, a, CI((uint64_t)(int64_t)x.goff), 64);
            for (size_t i = 0; i < x.gscale.size(); i++) {
              Val ix = VV(f, x.ops[1 + i]);
              if (Undef(ix)) {
                un = true;
                break;
              }
              Val o = CastInt(ix, (uint8_t)x.cases[i].first, 64, true);
              o = IBin(Instruction::Mul, o, CI((uint64_t)(int64_t)x.gscale[i]), 64);
              a = IBin(Instruction::Add, a, o, 64);
            }
            f.r[x.dst] = un ? UndefV(K_I, 64) : a;
            f.ip++;
            break;
          }
          uint64_t base = Addr(b);
          int64_t off = x.goff;
          bool und = false;
          for (size_t i = 0; i < x.gscale.size(); i++) {
            Val ix = VV(f, x.ops[1 + i]);
            if (Undef(ix)) {
              und = true;
              break;
            }
            off += SExtW(Addr(ix, "index"), (unsigned)x.cases[i].first) * x.gscale[i];
          }
          // offsets must not carry into the object id: keep 32-bit wraparound
          f.r[x.dst] =
              und ? UndefV(K_I, 64)
                  : CI((base & 0xffffffff00000000ull) |
                       (uint32_t)((uint32_t)base + (uint64_t)off));
          if (!und) {
            int64_t t = (int64_t)(uint32_t)base + off;
            if (t < -(1ll << 31) || t > (1ll << 32))
              f.r[x.dst] = CI(base + (uint64_t)off);
          }
          f.ip++;
          break;
        }
        case Instruction::ExtractValue:
        case Instruction::InsertValue:
          for (int i = 0; i < x.ndst; i++) {
            Val v = VV(f, x.ops[i]);
            f.r[x.dst + i] = v;
          }
          f.ip++;
          break;
        case Instruction::PHI:
          f.ip++;
          break;
        case Instruction::FAdd:
        case Instruction::FSub:
        case Instruction::FMul:
        case Instruction::FDiv: {
          Op o = x.op == Instruction::FAdd   ? O_FADD
                 : x.op == Instruction::FSub ? O_FSUB
                 : x.op == Instruction::FMul ? O_FMUL
                                             : O_FDIV;
          bool fl = x.res.w == 32;
          for (int i = 0; i < x.ndst; i++) {
            Val a = VV(f, x.ops[x.opstart[0] + i]), b = VV(f, x.ops[x.opstart[1] + i]);
            // the double result of two floats rounds to the float result
            f.r[x.dst + i] = fl ? ToF32(FBin(o, FromF32(a), FromF32(b))) : FBin(o, a, b);
          }
          f.ip++;
          break;
        }
        case Instruction::FNeg:
          for (int i = 0; i < x.ndst; i++) {
            Val a = VV(f, x.ops[x.opstart[0] + i]);
            f.r[x.dst + i] = x.res.w == 32 ? ToF32(FNeg(FromF32(a))) : FNeg(a);
          }
          f.ip++;
          break;
        case Instruction::FCmp:
          for (int i = 0; i < x.ndst; i++) {
            Val a = VV(f, x.ops[x.opstart[0] + i]), b = VV(f, x.ops[x.opstart[1] + i]);
            f.r[x.dst + i] = x.w1 == 32 ? FCmp(x.sub, FromF32(a), FromF32(b)) : FCmp(x.sub, a, b);
          }
          f.ip++;
          break;
        case Instruction::ICmp:
          for (int i = 0; i < x.ndst; i++) {
            uint8_t w = x.w1;
            f.r[x.dst + i] = ICmp(x.sub, VV(f, x.ops[x.opstart[0] + i]),
                                  VV(f, x.ops[x.opstart[1] + i]), w);
          }
          f.ip++;
          break;
        case Instruction::Select: {
          int nc = x.opstart[1] - x.opstart[0];
          for (int i = 0; i < x.ndst; i++) {
            Val c = VV(f, x.ops[x.opstart[0] + (nc > 1 ? i : 0)]);
            f.r[x.dst + i] = Select(c, VV(f, x.ops[x.opstart[1] + i]),
                                    VV(f, x.ops[x.opstart[2] + i]), x.leaves[i]);
          }
          f.ip++;
          break;
        }
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul:
        case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem:
        case Instruction::SRem: case Instruction::And: case Instruction::Or:
        case Instruction::Xor: case Instruction::Shl: case Instruction::LShr:
        case Instruction::AShr: {
          for (int i = 0; i < x.ndst; i++) {
            if (x.leaves[i].unsupported) throw Unsupported{"wide integer"};
            f.r[x.dst + i] = IBin(x.op, VV(f, x.ops[x.opstart[0] + i]),
                                  VV(f, x.ops[x.opstart[1] + i]), x.res.w);
          }
          f.ip++;
          break;
        }
        case Instruction::ZExt:
        case Instruction::SExt:
        case Instruction::Trunc:
          for (int i = 0; i < x.ndst; i++) {
            if (x.leaves[i].unsupported) throw Unsupported{"wide integer"};
            f.r[x.dst + i] = CastInt(VV(f, x.ops[x.opstart[0] + i]), x.w1, x.res.w,
                                     x.op == Instruction::SExt);
          }
          f.ip++;
          break;
        case Instruction::PtrToInt:
        case Instruction::IntToPtr:
          f.r[x.dst] = CastInt(VV(f, x.ops[0]), x.w1, x.res.w, false);
          f.ip++;
          break;
        case Instruction::BitCast:
        case Instruction::AddrSpaceCast:
        case Instruction::Freeze:
          if ((int)x.ops.size() != x.ndst) throw Unsupported{"vector bitcast"};
          for (int i = 0; i < x.ndst; i++) f.r[x.dst + i] = VV(f, x.ops[i]);
          f.ip++;
          break;
        case Instruction::SIToFP:
        case Instruction::UIToFP: {
          for (int i = 0; i < x.ndst; i++) {
            Val v = VV(f, x.ops[i]);
            if (Undef(v)) {
              f.r[x.dst + i] = UndefV(K_F, 64);
            } else if (!v.e) {
              f.r[x.dst + i] = Nat(x.op == Instruction::SIToFP
                                       ? (double)SExtW(v.c, x.w1)
                                       : (double)(v.c & MaskW(x.w1)));
            } else if (v.e->op == O_ZEXT && v.e->a[0]->w == 1) {
              bool b = DecideE(v.e->a[0]);
              f.r[x.dst + i] = Nat(b);
            } else if (v.e->w == 1) {
              bool b = DecideE(v.e);
              f.r[x.dst + i] = Nat(b ? (x.op == Instruction::SIToFP ? -1 : 1) : 0);
            } else {
              f.r[x.dst + i] =
                  Val{0, g_pool.Make(x.op == Instruction::SIToFP ? O_SITOFP : O_UITOFP,
                                     K_F, 64, {v.e})};
            }
          }
          if (x.res.w == 32)
            for (int i = 0; i < x.ndst; i++) f.r[x.dst + i] = ToF32(f.r[x.dst + i]);
          f.ip++;
          break;
        }
        case Instruction::FRem:
          for (int i = 0; i < x.ndst; i++) {
            Val a = VV(f, x.ops[x.opstart[0] + i]), b = VV(f, x.ops[x.opstart[1] + i]);
            f.r[x.dst + i] = x.res.w == 32 ? ToF32(MathUF("fmod", {FromF32(a), FromF32(b)})) : MathUF("fmod", {a, b});
          }
          f.ip++;
          break;
        case Instruction::FPToSI:
        case Instruction::FPToUI: {
          Val v = x.w1 == 32 ? FromF32(VV(f, x.ops[0])) : FCoerce(VV(f, x.ops[0]));
          if (Undef(v)) {
            f.r[x.dst] = UndefV(K_I, x.res.w);
          } else if (!v.e) {
            double d = AsD(v);
            f.r[x.dst] = CI((uint64_t)(int64_t)d & MaskW(x.res.w));
          } else if (g_mode != M_REAL && x.op == Instruction::FPToSI) {
            f.r[x.dst] = Val{0, g_pool.Make(O_FPTOSI, K_I, x.res.w, {v.e})};
          } else {
            throw Unsupported{"conversion of a symbolic double to an integer"};
          }
          f.ip++;
          break;
        }
        case Instruction::FPExt:
        case Instruction::FPTrunc: {
          for (int i = 0; i < x.ndst; i++) {
            if (x.leaves[i].unsupported) throw Unsupported{"wide float"};
            Val v = VV(f, x.ops[i]);
            f.r[x.dst + i] = x.op == Instruction::FPExt ? FromF32(v) : ToF32(v);
          }
          f.ip++;
          break;
        }
        case Instruction::ExtractElement: {
          uint64_t i = Addr(VV(f, x.ops[x.opstart[1]]), "index");
          f.r[x.dst] = VV(f, x.ops[x.opstart[0] + i]);
          f.ip++;
          break;
        }
        case Instruction::InsertElement: {
          uint64_t i = Addr(VV(f, x.ops[x.opstart[2]]), "index");
          std::vector<Val> t;
          for (int k = 0; k < x.ndst; k++) t.push_back(VV(f, x.ops[x.opstart[0] + k]));
          t[i] = VV(f, x.ops[x.opstart[1]]);
          for (int k = 0; k < x.ndst; k++) f.r[x.dst + k] = t[k];
          f.ip++;
          break;
        }
        case Instruction::ShuffleVector: {
          auto* sv = cast<ShuffleVectorInst>(x.I);
          auto mask = sv->getShuffleMask();
          int n0 = x.opstart[1] - x.opstart[0];
          std::vector<Val> t;
          for (int m : mask) {
            if (m < 0) t.push_back(UndefV(x.res.k, x.res.w));
            else if (m < n0) t.push_back(VV(f, x.ops[x.opstart[0] + m]));
            else t.push_back(VV(f, x.ops[x.opstart[1] + m - n0]));
          }
          for (int k = 0; k < x.ndst; k++) f.r[x.dst + k] = t[k];
          f.ip++;
          break;
        }
        case Instruction::Fence:
          f.ip++;
          break;
        case Instruction::AtomicRMW: {  // one thread: load, combine, store
          auto* rm = cast<AtomicRMWInst>(x.I);
          const Leaf& l = x.leaves[0];
          if (l.k != K_I) throw Unsupported{"atomic floating point"};
          uint32_t off;
          Obj* o = Acc(Addr(VV(f, x.ops[x.opstart[0]])), l.bytes(), true, &off);
          Val old = LoadLeaf(o, off, l), v = VV(f, x.ops[x.opstart[1]]), t;
          switch (rm->getOperation()) {
            case AtomicRMWInst::Xchg: t = v; break;
            case AtomicRMWInst::Add: t = IBin(Instruction::Add, old, v, l.w); break;
            case AtomicRMWInst::Sub: t = IBin(Instruction::Sub, old, v, l.w); break;
            case AtomicRMWInst::And: t = IBin(Instruction::And, old, v, l.w); break;
            case AtomicRMWInst::Or: t = IBin(Instruction::Or, old, v, l.w); break;
            case AtomicRMWInst::Xor: t = IBin(Instruction::Xor, old, v, l.w); break;
            default: throw Unsupported{"atomic operation"};
          }
          StoreLeaf(o, off, l, t);
          f.r[x.dst] = old;
          f.ip++;
          break;
        }
        case Instruction::AtomicCmpXchg: {
          const Leaf& l = x.leaves[0];
          if (l.k != K_I) throw Unsupported{"atomic floating point"};
          uint32_t off;
          Obj* o = Acc(Addr(VV(f, x.ops[x.opstart[0]])), l.bytes(), true, &off);
          Val old = LoadLeaf(o, off, l);
          bool eq = Decide(ICmp(32, old, VV(f, x.ops[x.opstart[1]]), l.w));
          if (eq) StoreLeaf(o, off, l, VV(f, x.ops[x.opstart[2]]));
          f.r[x.dst] = old;
          f.r[x.dst + 1] = CI(eq);
          f.ip++;
          break;
        }
        default:
          throw Unsupported{std::string("instruction ") + x.I->getOpcodeName()};
      }
    }
  }
  void RunFunction(llvm::Function* F, std::vector<Val> args) {
    Push(g_funcs[F], std::move(args), -1, 0);
    if (!fr.back().f->blocks[0].seen) NoteBlock(fr.back().f->blocks[0]);
    Run();
  }
  void Main() {
    guardDepth = 1;
    if (auto* gc = g_mod->getGlobalVariable("llvm.global_ctors"))
      if (gc->hasInitializer())
        if (auto* ca = dyn_cast<llvm::ConstantArray>(gc->getInitializer()))
          for (unsigned i = 0; i < ca->getNumOperands(); i++) {
            auto* cs = cast<llvm::ConstantStruct>(ca->getOperand(i));
            if (auto* F = dyn_cast<llvm::Function>(cs->getOperand(1)->stripPointerCasts()))
              RunFunction(F, {});
          }
    mainStarted = true;
    guardDepth = 0;
    llvm::Function* E = g_mod->getFunction(opt.entry);
    if (!E) throw Unsupported{"entry " + opt.entry};
    std::vector<Val> a;
    for (int64_t v : opt.args) a.push_back(CI((uint32_t)v));
    RunFunction(E, a);
  }
