#include "cl_sim.hh"
#include "proc.hh"
#include <algorithm>
#include <csetjmp>
#include <cstring>
#include <dlfcn.h>
#include <map>
#include <ucontext.h>
#include <unordered_map>
using namespace std;
namespace clsim {
long accesses = 0, phases = 0, commands = 0, launches = 0; int devices = 1, cpu_devices = 1; bool checked_kernels = false;
static int all(int n, const char *) { return n; } int (*execute_now)(int, const char *) = all; void (*on_wrong)(const string &) = nullptr;
void wrong(const string & m) { if (on_wrong) on_wrong(m); fprintf(stderr, "%s\n", m.c_str()); abort(); }
// ------------------------------------------------------------------ compiling kernels
static const char * PRELUDE = R"(#define kernel
#define __kernel
#define global
#define __global
#define local
#define __local
#define constant const
#define __constant const
#define restrict __restrict
typedef unsigned int uint; typedef unsigned long ulong; typedef unsigned char uchar; typedef unsigned short ushort; typedef unsigned long size_t;
enum { CLK_LOCAL_MEM_FENCE = 1, CLK_GLOBAL_MEM_FENCE = 2 };
extern "C" { size_t clsim_id(int, uint); void clsim_barrier(int); void clsim_atomic(volatile void *); }
static inline size_t get_global_id(uint d) { return clsim_id(0, d); } static inline size_t get_global_size(uint d) { return clsim_id(1, d); } static inline size_t get_local_id(uint d) { return clsim_id(2, d); } static inline size_t get_local_size(uint d) { return clsim_id(3, d); } static inline size_t get_num_groups(uint d) { return clsim_id(4, d); } static inline size_t get_group_id(uint d) { return clsim_id(5, d); } static inline size_t get_global_offset(uint d) { return clsim_id(6, d); } static inline uint get_work_dim() { return 1; }
#define barrier(f) clsim_barrier(f)
#define work_group_barrier(f) clsim_barrier(f)
static inline void mem_fence(int) {} static inline void read_mem_fence(int) {} static inline void write_mem_fence(int) {}
template<class T> static inline T min(T a, T b) { return a < b ? a : b; } template<class T> static inline T max(T a, T b) { return a > b ? a : b; } static inline int mul24(int a, int b) { return a * b; } static inline int mad24(int a, int b, int c) { return a * b + c; } template<class T, class S> static inline T select(T a, T b, S c) { return c ? b : a; }
#define NS __attribute__((no_sanitize("thread"))) static inline
NS int atomic_add(volatile int * p, int v) { clsim_atomic(p); int r = *p; *p = r + v; return r; } NS int atomic_sub(volatile int * p, int v) { clsim_atomic(p); int r = *p; *p = r - v; return r; } NS int atomic_inc(volatile int * p) { return atomic_add(p, 1); } NS int atomic_dec(volatile int * p) { return atomic_sub(p, 1); } NS int atomic_xchg(volatile int * p, int v) { clsim_atomic(p); int r = *p; *p = v; return r; } NS int atomic_or(volatile int * p, int v) { clsim_atomic(p); int r = *p; *p = r | v; return r; } NS int atomic_max(volatile int * p, int v) { clsim_atomic(p); int r = *p; *p = r > v ? r : v; return r; }
NS int atomic_min(volatile int * p, int v) { clsim_atomic(p); int r = *p; *p = r < v ? r : v; return r; } NS int atomic_and(volatile int * p, int v) { clsim_atomic(p); int r = *p; *p = r & v; return r; } NS int atomic_cmpxchg(volatile int * p, int c, int v) { clsim_atomic(p); int r = *p; if (r == c) *p = v; return r; }
#undef NS
static inline int clamp(int x, int a, int b) { return x < a ? a : x > b ? b : x; } static inline uint abs(int x) { return x < 0 ? -(uint)x : x; } static inline int popcount(int x) { return __builtin_popcount(x); }
#define __private
#define private
extern "C" {
)";
static map<string, Code> * cache; static string dir; static pid_t owner;   // built ahead of any controlled execution static pid_t owner;
struct Clean { ~Clean() { if (!dir.empty() && getpid() == owner) proc::wipe(dir); } };
static string quote(const string & s) { string r = "'"; for (char c : s) r += c == '\'' ? string("'\\''") : string(1, c); return r + "'"; }
Code build(const string & source, const string & options, bool checked) {
  if (!cache) cache = new map<string, Code>; string key = options + "\n" + (checked ? "1" : "0") + source; auto it = cache->find(key); if (it != cache->end()) return it->second;
  if (dir.empty() || owner != getpid()) { static Clean c; dir = proc::scratch(); owner = getpid(); } Code c; c.barriers = source.find("barrier") != string::npos; string base = dir + "/k" + to_string(cache->size());
  proc::spit(base + ".cc", string(PRELUDE) + source + "\n}\n"); string opts; { size_t i = 0; while (i < options.size()) { size_t k = options.find(' ', i); if (k == string::npos) k = options.size(); string o = options.substr(i, k - i); if (o.rfind("-D", 0) == 0) opts += " " + quote(o); i = k + 1; } }
  string cmd = "g++ -std=c++17 -w -O1 -fPIC -fno-gnu-unique -shared" + string(checked ? " -fsanitize=thread" : "") + opts + " -o " + quote(base + ".so.o") + (checked ? " -c " : " -c ") + quote(base + ".cc") + " 2> " + quote(base + ".log") + " && g++ -shared -o " + quote(base + ".so") + " " + quote(base + ".so.o") + " 2>> " + quote(base + ".log");
  if (system(cmd.c_str())) c.error = proc::slurp(base + ".log"); else { c.so = dlopen((base + ".so").c_str(), RTLD_NOW | RTLD_LOCAL); if (!c.so) c.error = dlerror(); }
  return (*cache)[key] = c;
}
// ------------------------------------------------------------------ running kernels
struct Region { uintptr_t a, e; bool writable, local; vector<unsigned char> def; };
static thread_local vector<Region> regions;
struct Touch { int w = -1, r = -1; bool many = false, atomic = false; int pw = -1, pr = -1; };   // last writer and readers: item, phase
static thread_local unordered_map<uintptr_t, Touch> * touch;
struct Item { ucontext_t u; vector<char> stack; int state = 0; int fence = 0; void * site = nullptr; };   // 0: not started, 1: runnable, 2: at a barrier, 3: finished
struct Run { const Launch * l; void * fn; vector<uintptr_t> args; size_t group = 0, lid = 0; ucontext_t back; vector<Item> items; string err; bool checked = false; int lphase = 0, gphase = 0; bool coroutines = false; jmp_buf out; };
static thread_local Run * cur;
void region(void * p, size_t n, bool defined, bool writable) { Region r {(uintptr_t)p, (uintptr_t)p + n, writable, false, {}}; r.def.assign(n, defined); regions.push_back(move(r)); }
void forget_regions() { regions.clear(); }
static void invoke(Run & r) {
  typedef uintptr_t U; auto & a = r.args; void * f = r.fn;
  switch (a.size()) {
    case 0: ((void (*)())f)(); break; case 1: ((void (*)(U))f)(a[0]); break; case 2: ((void (*)(U, U))f)(a[0], a[1]); break; case 3: ((void (*)(U, U, U))f)(a[0], a[1], a[2]); break; case 4: ((void (*)(U, U, U, U))f)(a[0], a[1], a[2], a[3]); break;
    case 5: ((void (*)(U, U, U, U, U))f)(a[0], a[1], a[2], a[3], a[4]); break; case 6: ((void (*)(U, U, U, U, U, U))f)(a[0], a[1], a[2], a[3], a[4], a[5]); break; case 7: ((void (*)(U, U, U, U, U, U, U))f)(a[0], a[1], a[2], a[3], a[4], a[5], a[6]); break;
    case 8: ((void (*)(U, U, U, U, U, U, U, U))f)(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]); break; case 9: ((void (*)(U, U, U, U, U, U, U, U, U))f)(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8]); break; default: r.err = "too many kernel arguments";
  }
}
static void entry() { Run & r = *cur; Item & i = r.items[r.lid]; invoke(r); i.state = 3; swapcontext(&i.u, &r.back); }
static void complain(const string & m) { if (cur->err.empty()) cur->err = m; }
static void leave() { Run & r = *cur; if (r.coroutines) swapcontext(&r.items[r.lid].u, &r.back); else longjmp(r.out, 1); }   // the item does not go on
string run(const Code & c, const string & function, const Launch & l, bool checked) {
  void * f = c.so ? dlsym(c.so, function.c_str()) : nullptr; if (!f) return "no kernel " + function + " " + c.error;
  if (!l.local || l.global % l.local) return "invalid work-group size"; ++launches;
  Run r; r.l = &l; r.fn = f; r.checked = checked; r.coroutines = c.barriers; vector<vector<unsigned char>> locals(l.args.size()); size_t keep = regions.size(); unordered_map<uintptr_t, Touch> t; touch = &t; cur = &r;
  for (size_t i = 0; i < l.args.size(); ++i) { auto & a = l.args[i]; uintptr_t v = 0; if (a.kind == 0) { cur = nullptr; touch = nullptr; return "argument " + to_string(i) + " is not set"; } if (a.kind == 1) memcpy(&v, a.value.data(), min(a.value.size(), sizeof v)); if (a.kind == 2) v = (uintptr_t)a.mem; if (a.kind == 3) { locals[i].assign(a.size + 64, 0x5A); v = (uintptr_t)locals[i].data(); } r.args.push_back(v); }
  size_t ng = l.global / l.local; r.items.resize(c.barriers ? l.local : 0); if (c.barriers) for (auto & i : r.items) i.stack.resize(32 << 10);
  for (size_t gi = 0; gi < ng && r.err.empty(); ++gi) {
    r.group = l.groups_backwards ? ng - 1 - gi : gi; regions.resize(keep); ++r.lphase; ++r.gphase;
    for (size_t i = 0; i < l.args.size(); ++i) if (l.args[i].kind == 3) { fill(locals[i].begin(), locals[i].end(), 0x5A); if (checked) { region(locals[i].data(), l.args[i].size, false, true); regions.back().local = true; } }
    auto nth = [&](size_t k) { return l.order.size() == l.local ? (size_t)l.order[k] : k; };
    if (!c.barriers) { for (size_t k = 0; k < l.local && r.err.empty(); ++k) { r.lid = nth(k); if (!setjmp(r.out)) invoke(r); } continue; }
    for (auto & i : r.items) i.state = 0;
    while (r.err.empty()) {
      ++phases; for (size_t k = 0; k < l.local && r.err.empty(); ++k) {
        r.lid = nth(k); Item & i = r.items[r.lid]; if (i.state == 3) continue;
        if (i.state == 0) { getcontext(&i.u); i.u.uc_stack.ss_sp = i.stack.data(); i.u.uc_stack.ss_size = i.stack.size(); i.u.uc_link = &r.back; makecontext(&i.u, entry, 0); }
        i.state = 1; swapcontext(&r.back, &i.u);
      }
      size_t fin = 0, bar = 0; int fence = 3; void * site = nullptr; bool sites = false; for (auto & i : r.items) { if (i.state == 3) ++fin; else { ++bar; fence &= i.fence; if (site && site != i.site) sites = true; site = i.site; } }
      if (!r.err.empty()) break; if (bar && fin) { complain(to_string(bar) + " items wait at a barrier that " + to_string(fin) + " items of their group do not reach"); break; } if (sites) { complain("items of a group wait at different barriers"); break; }
      if (!bar) break; if (r.lphase > 200000) { complain("the kernel does not end"); break; } if (fence & 1) ++r.lphase; if (fence & 2) ++r.gphase;
    }
  }
  regions.resize(keep); cur = nullptr; touch = nullptr; return r.err;
}
static void access(void * p, size_t n, bool w, bool atomic) {
  if (!cur || !cur->checked || !cur->err.empty()) return; uintptr_t a = (uintptr_t)p; ++accesses;
  if (cur->coroutines) { auto & s = cur->items[cur->lid].stack; if (a >= (uintptr_t)s.data() && a < (uintptr_t)s.data() + s.size()) return; } else { char here; if (a > (uintptr_t)&here - 65536 && a < (uintptr_t)&here + (1 << 20)) return; }
  Region * g = nullptr; for (auto & r : regions) if (a >= r.a && a + n <= r.e) g = &r;
  int item = (int)(cur->group * cur->l->local + cur->lid); string who = "item " + to_string(cur->lid) + " of group " + to_string(cur->group);
  if (!g) { string near; for (auto & r : regions) if (a >= r.a - 64 && a < r.e + 64) near = " (" + to_string((long)(a - r.a)) + " of " + to_string(r.e - r.a) + " bytes)"; complain(who + (w ? " writes" : " reads") + " outside all buffers" + near); leave(); }
  if (w && !g->writable) { complain(who + " writes a buffer that is only read"); leave(); }
  for (size_t i = 0; i < n; ++i) { if (!w && !g->def[a - g->a + i]) { complain(who + " reads memory that was never written (byte " + to_string(a - g->a + i) + ")"); leave(); } if (w) g->def[a - g->a + i] = 1; }
  int ph = g->local ? cur->lphase : cur->gphase, lo = (int)cur->l->local;
  Touch & t = (*touch)[a & ~3ull]; auto conflict = [&](int other, int oph) { if (other < 0 || other == item) return false; if (other / lo != item / lo) return !g->local; return oph == ph; };
  if (atomic && t.atomic) { t.w = item; t.pw = ph; return; }
  if (conflict(t.w, t.pw) || (w && (conflict(t.r, t.pr) || (t.many && t.pr == ph)))) { complain(who + (w ? " writes" : " reads") + " what another item " + (conflict(t.w, t.pw) ? "writes" : "reads") + " without a barrier in between"); leave(); }
  if (w) { t.w = item; t.pw = ph; t.atomic = atomic; } else { if (t.r >= 0 && t.r != item && t.pr == ph) t.many = true; else if (t.pr != ph) t.many = false; t.r = item; t.pr = ph; }
}
// ------------------------------------------------------------------ the queue
static void perform(Command & c) {
  ++commands;
  if (c.kind == 1) { if (!c.buffer || c.off + c.size > c.buffer->data.size()) wrong("a write beyond the end of a buffer"); memcpy(c.buffer->data.data() + c.off, c.src, c.size); fill(c.buffer->defined.begin() + c.off, c.buffer->defined.begin() + c.off + c.size, 1); return; }
  if (c.kind == 2) { if (!c.buffer || c.off + c.size > c.buffer->data.size()) wrong("a read beyond the end of a buffer"); memcpy(c.dst, c.buffer->data.data() + c.off, c.size); return; }
  Launch l; l.args = c.kernel.args; l.global = c.global; l.local = c.local ? c.local : c.global; l.offset = c.goff; auto keep = regions; regions.clear();
  for (size_t i = 0; i < l.args.size(); ++i) if (l.args[i].kind == 2) { auto & b = *c.kernel.buffers[i]; l.args[i].mem = b.data.data(); if (checked_kernels) { region(b.data.data(), b.data.size(), false, !(b.flags & 4)); regions.back().def = b.defined; } }
  string e = run(c.kernel.program->code, c.kernel.name, l, checked_kernels); if (!e.empty()) wrong("kernel " + c.kernel.name + ": " + e);
  if (checked_kernels) { size_t k = 0; for (size_t i = 0; i < l.args.size(); ++i) if (l.args[i].kind == 2) c.kernel.buffers[i]->defined = regions[k++].def; } regions = keep;
}
static void some(QueueState & q, int n) { for (int i = 0; i < n && !q.pending.empty(); ++i) { Command c = move(q.pending.front()); q.pending.erase(q.pending.begin()); perform(c); } }
int enqueue(QueueState & q, Command && c, bool blocking) {
  if (c.kind == 3) { if (!c.kernel.program || !c.kernel.program->built) return -45; if (c.global == 0) return -63; if (c.local && c.global % c.local) return -54; for (auto & a : c.kernel.args) if (!a.kind) return -52; }
  else { if (!c.buffer) return -38; if (c.off + c.size > c.buffer->data.size()) return -30; }
  q.pending.push_back(move(c)); if (blocking) { some(q, (int)q.pending.size()); return 0; } some(q, execute_now((int)q.pending.size(), "enqueue")); return 0;
}
int finish(QueueState & q) { some(q, (int)q.pending.size()); return 0; }
void drop(QueueState & q) { q.pending.clear(); }
}
using namespace clsim;
extern "C" {
size_t clsim_id(int k, unsigned d) { Run & r = *cur; if (d) return k == 0 || k == 2 || k == 5 || k == 6 ? 0 : 1; switch (k) { case 0: return r.l->offset + r.group * r.l->local + r.lid; case 1: return r.l->global; case 2: return r.lid; case 3: return r.l->local; case 4: return r.l->global / r.l->local; case 5: return r.group; default: return r.l->offset; } }
void clsim_barrier(int f) { Run & r = *cur; Item & i = r.items[r.lid]; i.state = 2; i.fence = f; i.site = __builtin_return_address(0); swapcontext(&i.u, &r.back); }
void clsim_atomic(volatile void * p) { access((void *)p, 4, true, true); }
}
#ifdef CLSIM_HOOKS
extern "C" {
void __tsan_init() {} void __tsan_func_entry(void *) {} void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void * p) { clsim::access(p, n, false, false); } void __tsan_write##n(void * p) { clsim::access(p, n, true, false); } void __tsan_unaligned_read##n(void * p) { clsim::access(p, n, false, false); } void __tsan_unaligned_write##n(void * p) { clsim::access(p, n, true, false); } void __tsan_volatile_read##n(void * p) { clsim::access(p, n, false, false); } void __tsan_volatile_write##n(void * p) { clsim::access(p, n, true, false); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void * p, unsigned long n) { for (unsigned long i = 0; i < n; i += 4) clsim::access((char *)p + i, 4, false, false); } void __tsan_write_range(void * p, unsigned long n) { for (unsigned long i = 0; i < n; i += 4) clsim::access((char *)p + i, 4, true, false); }
}
#endif
