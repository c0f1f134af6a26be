#include <chrono>
// Native runtime for harness replays: the same harness, compiled with the real
// code by an ordinary compiler, run on the inputs of a solver model.
//   exit 0  the run completed and every assertion held
//   exit 1  an assertion failed (its text on stderr)
//   exit 77 the inputs do not satisfy an assumption of the harness
// Uncaught exceptions, aborts and sanitizer reports end the process otherwise.
#include <dlfcn.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <ucontext.h>
#include <unistd.h>

#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <map>
#include <string>
#include <vector>

#include "sx.h"
#if defined(SX_VALGRIND)
#include <valgrind/memcheck.h>
#endif

namespace {
std::map<std::string, std::string> vars;
std::map<std::string, int> occ;
double rtol = 1e-6;
int mode = 0;
struct Prot {
  const unsigned char* p;
  std::vector<unsigned char> copy;
};
std::vector<Prot>& prots() {
  static std::vector<Prot> p;
  return p;
}
bool Lookup(const char* name, std::string* v) {
  std::string k = std::string(name) + "#" + std::to_string(occ[name]++);
  auto it = vars.find(k);
  if (it == vars.end()) return false;
  *v = it->second;
  return true;
}
[[noreturn]] void Fail(const char* msg, double a, double b) {
  fprintf(stderr, "REPLAY-ASSERT %s (%.17g vs %.17g)\n", msg, a, b);
  fflush(nullptr);
  _exit(1);
}
void CheckProtected() {
  for (auto& p : prots())
    if (memcmp(p.p, p.copy.data(), p.copy.size()) != 0) {
      fprintf(stderr, "REPLAY-ASSERT protected memory was modified\n");
      _exit(1);
    }
}
}  // namespace

// SX_WATCH=ADDR:SIZE (a static object, ADDR as nm prints it) or SX_WATCH=heap (blocks
// allocated while a function-level static is initialised): a store there after its
// initialisation ends the run. Pages are write protected; other stores to them are
// single-stepped.
namespace watch {
const long kPage = 4096;
bool on = false, heap = false;
char *lo = nullptr, *hi = nullptr;      // the watched bytes
char *plo = nullptr, *phi = nullptr;    // their pages
int depth = 0;
volatile bool open = false;
void Protect(bool ro) { mprotect(plo, phi - plo, ro ? PROT_READ : PROT_READ | PROT_WRITE); }
void OnSegv(int, siginfo_t* si, void* c) {
  char* a = (char*)si->si_addr;
  if (a < plo || a >= phi) {
    signal(SIGSEGV, SIG_DFL);
    return;
  }
  if (a >= lo && a < hi && depth == 0) {
    static const char m[] = "REPLAY-ASSERT store to a static object\n";
    if (write(2, m, sizeof m - 1)) {}
    _exit(1);
  }
  Protect(false);
  open = true;
  ((ucontext_t*)c)->uc_mcontext.gregs[REG_EFL] |= 0x100;
}
void OnTrap(int, siginfo_t*, void* c) {
  ((ucontext_t*)c)->uc_mcontext.gregs[REG_EFL] &= ~0x100L;
  if (open) Protect(true);
  open = false;
}
void Handlers() {
  struct sigaction s;
  memset(&s, 0, sizeof s);
  s.sa_flags = SA_SIGINFO;
  s.sa_sigaction = OnSegv;
  sigaction(SIGSEGV, &s, nullptr);
  s.sa_sigaction = OnTrap;
  sigaction(SIGTRAP, &s, nullptr);
}
void Start() {
  const char* e = getenv("SX_WATCH");
  if (!e) return;
  if (!strcmp(e, "heap")) {
    size_t n = 1 << 22;
    lo = plo = (char*)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    hi = phi = plo + n;
    heap = true;
  } else {
    Dl_info di;
    dladdr((void*)&Start, &di);
    char* end;
    lo = (char*)di.dli_fbase + strtoull(e, &end, 16);
    hi = lo + strtoull(end + 1, nullptr, 16);
    plo = (char*)((uintptr_t)lo / kPage * kPage);
    phi = (char*)(((uintptr_t)hi + kPage - 1) / kPage * kPage);
  }
  on = true;
  Handlers();
  Protect(true);
}
#if defined(SX_COUNT)
size_t used = 0;
void* Block(size_t n) {
  char* p = lo + used;
  used += (n + 15) / 16 * 16;
  return p + n < hi ? p : nullptr;
}
#endif
}  // namespace watch
extern "C" {
int __cxa_guard_acquire(long long* g) {
  if (*(volatile char*)g) return 0;
  if (watch::depth++ == 0 && watch::on) watch::Protect(false);
  return 1;
}
void __cxa_guard_release(long long* g) {
  *(volatile char*)g = 1;
  if (--watch::depth == 0 && watch::on) watch::Protect(true);
}
void __cxa_guard_abort(long long*) {
  if (--watch::depth == 0 && watch::on) watch::Protect(true);
}
}

#if defined(SX_COUNT)
static long live_blocks = 0;
static int fill_byte = -1;
extern "C" {
void* __real_malloc(size_t);
void __real_free(void*);
void* __wrap_malloc(size_t n) {
  if (watch::heap && watch::depth > 0) return watch::Block(n);
  void* p = __real_malloc(n);
  if (p) {
    live_blocks++;
    if (fill_byte >= 0) memset(p, fill_byte, n);
  }
  return p;
}
void __wrap_free(void* p) {
  if (watch::heap && p >= watch::lo && p < watch::hi) return;
  if (p) live_blocks--;
  __real_free(p);
}
}
void* operator new(size_t n) {
  void* p = __wrap_malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { __wrap_free(p); }
void operator delete[](void* p) noexcept { __wrap_free(p); }
void operator delete(void* p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void* p, size_t) noexcept { __wrap_free(p); }
#endif

extern "C" {
double sx_real(const char* n) {
  std::string v;
  if (!Lookup(n, &v)) return 0.0;
  return strtod(v.c_str(), nullptr);
}
int sx_bool(const char* n) {
  std::string v;
  return Lookup(n, &v) ? (strtol(v.c_str(), nullptr, 0) & 1) : 0;
}
int sx_int(const char* n) {
  std::string v;
  return Lookup(n, &v) ? (int)strtoll(v.c_str(), nullptr, 0) : 0;
}
int sx_choose(const char* n, int lo, int hi) {
  std::string v;
  int k = Lookup(n, &v) ? (int)strtoll(v.c_str(), nullptr, 0) : lo;
  if (k < lo || k > hi) _exit(77);
  return k;
}
void sx_assume(int c) {
  if (!c) _exit(77);
}
void sx_assert(int c, const char* m) {
  if (!c) Fail(m, c, 1);
}
void sx_assert_eq(double a, double b, const char* m) {
  if (a == b || (std::isnan(a) && std::isnan(b))) return;
  if (mode == 0) {
    double s = 1 + std::fmax(std::fabs(a), std::fabs(b));
    if (std::fabs(a - b) <= rtol * s) return;
  }
  Fail(m, a, b);
}
void sx_assert_le(double a, double b, const char* m) {
  if (a <= b) return;
  if (mode == 0) {
    double s = 1 + std::fmax(std::fabs(a), std::fabs(b));
    if (a - b <= rtol * s) return;
  }
  Fail(m, a, b);
}
void sx_reach(const char*) {}
void sx_protect(const void* p, size_t n) {
  Prot q;
  q.p = (const unsigned char*)p;
  q.copy.assign(q.p, q.p + n);
  prots().push_back(q);
}
void sx_unprotect(const void* p, size_t) {
  CheckProtected();
  auto& v = prots();
  for (size_t i = 0; i < v.size(); i++)
    if (v[i].p == p) {
      v.erase(v.begin() + i);
      return;
    }
}
void sx_poison(void* p, size_t n) {
#if defined(SX_VALGRIND)
  VALGRIND_MAKE_MEM_UNDEFINED(p, n);
#else
  memset(p, 0xFF, n);
#endif
}
int sx_prints() {
  fflush(nullptr);
  std::cout.flush();
  struct stat s;
  fstat(1, &s);
  return (int)s.st_size;
}
int sx_mode() { return mode; }
int sx_defined(double d) {
#if defined(SX_VALGRIND)
  return VALGRIND_CHECK_VALUE_IS_DEFINED(d) == 0;
#else
  (void)d;
  return 1;
#endif
}
long long sx_clock() {
  return std::chrono::duration_cast<std::chrono::nanoseconds>(
             std::chrono::high_resolution_clock::now().time_since_epoch())
      .count();
}
int sx_live() {
#if defined(SX_COUNT)
  return (int)live_blocks;
#else
  return 0;
#endif
}
void sx_show(double) {}
void sx_stop() {
  CheckProtected();
  _exit(0);
}
}

// usage: replay ENTRY MODE FILE [args...]
int main(int argc, char** argv) {
  if (argc < 4) return 3;
  mode = atoi(argv[2]);
  FILE* f = fopen(argv[3], "r");
  if (!f) return 3;
  char name[256], val[256], kind;
  while (fscanf(f, " %255s %c %255s", name, &kind, val) == 3) vars[name] = val;
  fclose(f);
  if (const char* s = getenv("SX_RTOL")) rtol = atof(s);
#if defined(SX_COUNT)
  if (const char* s = getenv("SX_FILL")) fill_byte = atoi(s);
#endif
  long a[12] = {0};
  for (int i = 4; i < argc && i < 16; i++) a[i - 4] = atol(argv[i]);
  void* h = dlopen(nullptr, RTLD_NOW);
  auto fn = (void (*)(int, int, int, int, int, int, int, int, int, int, int, int))dlsym(h, argv[1]);
  if (!fn) {
    fprintf(stderr, "no entry %s\n", argv[1]);
    return 3;
  }
  // the program's own output goes to a scratch file so that it can be counted
  char tmpl[] = "/tmp/sxreplayXXXXXX";
  int fd = mkstemp(tmpl);
  if (fd < 0) return 3;
  unlink(tmpl);
  fflush(stdout);
  dup2(fd, 1);
  watch::Start();
  fn(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11]);
  fflush(nullptr);
  _exit(0);
}
