// Driver (included at the end of symx.cc) --------------------------------------
static std::string J(const std::string& s) {
  std::string o = "\"";
  for (char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (c == '\n') {
      o += "\\n";
    } else if ((unsigned char)c < 32) {
      o += ' ';
    } else {
      o += c;
    }
  }
  return o + "\"";
}
template <class M>
static std::string JMap(const M& m) {
  std::string s = "{";
  bool first = true;
  for (auto& kv : m) {
    if (!first) s += ", ";
    first = false;
    s += J(kv.first) + ": " + std::to_string(kv.second);
  }
  return s + "}";
}
template <class S>
static std::string JList(const S& v) {
  std::string s = "[";
  bool first = true;
  for (auto& e : v) {
    if (!first) s += ", ";
    first = false;
    s += J(e);
  }
  return s + "]";
}

static std::string g_input;

static void OnPathUnsupported(const Unsupported& u) {
  std::string m = "unsupported: " + u.msg;
  if (rep.inconclusive.size() < 50) rep.inconclusive.push_back(m);
}

static void RunAll() {
  llvm::SMDiagnostic err;
  g_mod = llvm::parseIRFile(g_input, err, g_ctx);
  if (!g_mod) {
    err.print("symx", llvm::errs());
    exit(3);
  }
  DL = &g_mod->getDataLayout();
  LoadGlobals();
  for (const char* t :
       {"_ZTISt9exception", "_ZTISt13runtime_error", "_ZTISt11logic_error",
        "_ZTISt12out_of_range", "_ZTISt12length_error", "_ZTISt9bad_alloc",
        "_ZTISt20bad_array_new_length", "_ZTISt17bad_function_call"})
    TypeInfoObj(t);
  std::vector<std::vector<int>> work;
  work.push_back({});
  bool complete = true;
  while (!work.empty()) {
    if (!rep.cex.empty()) {  // a little longer, in case it does not replay
      static double first = Elapsed();
      opt.budget = std::min(opt.budget, first + 10);
    }
    if (st.paths >= opt.maxpaths || Elapsed() > opt.budget) {
      complete = false;
      rep.inconclusive.push_back(
          "exploration budget reached with " + std::to_string(work.size()) +
          " pending prefixes after " + std::to_string(st.paths) + " paths");
      break;
    }
    auto pre = work.back();
    work.pop_back();
    st.paths++;
    Exec ex(pre, &work);
    std::string end = "return";
    try {
      ex.Main();
      st.endpaths++;
    } catch (Violation& v) {
      end = "violation " + v.kind + ": " + v.msg;
      if (ex.nextDec < ex.prefix.size()) {
        rep.inconclusive.push_back("replay divergence");
      } else {
        try {
          ex.PathViolation(v.kind, v.msg);
        } catch (Unsupported& u) {
          OnPathUnsupported(u);
        }
      }
    } catch (PathStop& p) {
      end = p.why;
    } catch (Unsupported& u) {
      // an unsupported path that cannot happen is of no interest
      Model m;
      end = "unsupported " + u.msg;
      if (CachedCheck(ex.pc, opt.tmo, &m) == UNSAT)
        st.infeasible++;
      else
        OnPathUnsupported(u);
    }
    st.steps += ex.steps;
    if (opt.verbose) {
      std::cerr << "path " << st.paths << " [";
      for (int d : pre) std::cerr << d;
      std::cerr << "] " << end << " steps=" << ex.steps << " pc=" << ex.pc.size()
                << " t=" << Elapsed() << " work=" << work.size() << "\n";
      if (opt.verbose2)
        for (auto* c : ex.pc) std::cerr << "   " << Show(c, 5) << "\n";
    }
    if ((int)rep.cex.size() >= opt.maxviol) break;
    if (rep.inconclusive.size() > 20) break;
  }
  (void)complete;
  if (opt.verbose2)
    for (auto& kv : g_forks) std::cerr << "FORKS " << kv.second << " " << kv.first << "\n";
  std::ostringstream o;
  o << "{\n";
  o << "\"entry\": " << J(opt.entry) << ", \"args\": [";
  for (size_t i = 0; i < opt.args.size(); i++) o << (i ? ", " : "") << opt.args[i];
  o << "],\n";
  o << "\"mode\": " << (int)g_mode << ", \"paths\": " << st.paths
    << ", \"completed\": " << st.endpaths << ", \"forks\": " << st.forks
    << ", \"infeasible\": " << st.infeasible << ", \"steps\": " << st.steps
    << ", \"throws\": " << st.throws << ",\n";
  o << "\"obligations\": " << st.oblig << ", \"by_constant\": " << st.obligConcrete
    << ", \"by_normal_form\": " << st.obligNorm << ", \"by_smt\": " << st.obligSmt
    << ", \"branch_queries\": " << st.branchSmt << ", \"confirmed\": " << st.confirmed
    << ",\n";
  o << "\"queries\": " << g_smt.queries << ", \"sat\": " << g_smt.sat
    << ", \"unsat\": " << g_smt.unsat << ", \"unknown\": " << g_smt.unknown
    << ", \"solver_seconds\": " << g_smt.seconds << ", \"seconds\": " << Elapsed()
    << ",\n";
  o << "\"loads\": " << st.loads << ", \"stores\": " << st.stores
    << ", \"symbolic_loads\": " << st.symloads << ", \"nodes\": " << g_pool.all.size()
    << ",\n";
  o << "\"messages\": " << JMap(st.obligMsg) << ",\n";
  o << "\"reach\": " << JMap(st.reachSat) << ",\n";
  o << "\"functions\": " << JList(st.funcs) << ",\n";
  o << "\"lines\": " << st.lines.size() << ",\n";
  o << "\"externs\": " << JList(st.externs) << ",\n";
  o << "\"global_stores\": " << JList(st.globalStores) << ",\n";
  o << "\"inconclusive\": " << JList(rep.inconclusive) << ",\n";
  o << "\"confirm_tried\": " << st.confirmTried << ",\n";
  auto list = [&](const char* nm, const std::vector<Cex>& v) {
  o << "\"" << nm << "\": [";
  for (size_t i = 0; i < v.size(); i++) {
    auto& c = v[i];
    o << (i ? ",\n" : "\n") << " {\"kind\": " << J(c.kind) << ", \"msg\": " << J(c.msg)
      << ", \"note\": " << J(c.note) << ", \"vars\": [";
    for (size_t k = 0; k < c.vars.size(); k++)
      o << (k ? ", " : "") << "[" << J(c.vars[k].name) << ", "
        << J(std::string(1, c.vars[k].kind)) << ", " << J(c.vars[k].value) << "]";
    o << "]}";
  }
  o << "]";
  };
  list("witness", rep.witness);
  o << ",\n";
  list("cex", rep.cex);
  o << "\n}\n";
  if (opt.out.empty()) {
    std::cout << o.str();
  } else {
    std::ofstream f(opt.out);
    f << o.str();
  }
}

static int g_rc = 0;
static void* ThreadMain(void*) {
  try {
    RunAll();
  } catch (Unsupported& u) {
    std::cerr << "symx: unsupported: " << u.msg << "\n";
    g_rc = 3;
  } catch (Violation& v) {
    std::cerr << "symx: " << v.msg << "\n";
    g_rc = 3;
  } catch (std::exception& e) {
    std::cerr << "symx: " << e.what() << "\n";
    g_rc = 3;
  } catch (z3::exception& e) {
    std::cerr << "symx: z3: " << e.msg() << "\n";
    g_rc = 3;
  }
  return nullptr;
}

int main(int argc, char** argv) {
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto next = [&]() { return std::string(argv[++i]); };
    if (a == "--mode") {
      std::string m = next();
      g_mode = m == "real" ? M_REAL : m == "fp" ? M_FP : M_FPUF;
    } else if (a == "--entry") opt.entry = next();
    else if (a == "--args") {
      std::stringstream ss(next());
      std::string t;
      while (std::getline(ss, t, ',')) if (!t.empty()) opt.args.push_back(std::stoll(t));
    } else if (a == "--out") opt.out = next();
    else if (a == "--timeout") opt.tmo = std::stoul(next());
    else if (a == "--btimeout") opt.btmo = std::stoul(next());
    else if (a == "--budget") opt.budget = std::stod(next());
    else if (a == "--maxpaths") opt.maxpaths = std::stoull(next());
    else if (a == "--maxviol") opt.maxviol = std::stoi(next());
    else if (a == "--maxsteps") opt.maxsteps = std::stoull(next());
    else if (a == "--seed") opt.seed = std::stoull(next());
    else if (a == "--confirm") opt.confirm = std::stoull(next());
    else if (a == "--no-global-stores") opt.noGlobalStores = true;
    else if (a == "--lazy") opt.lazy = true;
    else if (a == "--generic") opt.generic = true;
    else if (a == "--reuse") opt.reuse = true;
    else if (a == "--round") opt.round = g_round = true;
    else if (a == "--no-fork-select") opt.forkSelect = false;
    else if (a == "-v") opt.verbose = true;
    else if (a == "-vv") opt.verbose = opt.verbose2 = true;
    else g_input = a;
  }
  g_rng.seed(opt.seed);
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstacksize(&at, 1ull << 30);
  pthread_t th;
  pthread_create(&th, &at, ThreadMain, nullptr);
  pthread_join(th, nullptr);
  fflush(nullptr);
  _exit(g_rc);
}
