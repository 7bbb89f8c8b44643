#include "mc.hh"
#include "proc.hh"
#include <atomic>
#include <deque>
#include <dlfcn.h>
#include <errno.h>
#include <link.h>
#include <limits.h>
#include <linux/futex.h>
#include <map>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <unordered_map>

namespace mc {
using namespace std;
enum { T_MAX = 32, P_MAX = 6000, R_MAX = 6000 };
enum Status { S_NONE, S_DONE, S_VIOL, S_PRUNED, S_LIMIT, S_DIVERGED, S_CRASHED };
struct Rec { u8 n, chosen; u32 costmask; u64 hash; u8 fresh; };
struct Slot {
  u32 np; u8 prefix[P_MAX]; u64 prefix_hash; u32 n; Rec rec[R_MAX]; int cost, start_cost; Status status; char msg[8192]; u64 outcome; u64 steps, history; u32 spurious, jumps, prog; bool noprune;
  char text[2048];
};
struct Shared { atomic<int> together[2]; atomic<u32> n_racy; u64 racy[64]; atomic<u64> states; u32 table_mask; };
static Shared * sh; static atomic<u64> * table_; static Slot * slot;   // slot: of this execution
static Options opt;

// ------------------------------------------------------------------ hashing
static inline u64 mix(u64 a, u64 b) { u64 x = a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15F39CC060ull + (a << 6) + (a >> 2)); x ^= x >> 30; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 27; x *= 0x94D049BB133111EBull; x ^= x >> 31; return x; }
u64 hash_str(const string & s, u64 h) { for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return mix(h, s.size()); }
u64 tree_digest(const string & dir) { u64 h = 7; for (auto & n : proc::ls(dir)) { string f = dir + "/" + n; h = mix(h, hash_str(n)); h = mix(h, proc::is_dir(f) ? tree_digest(f) : hash_str(proc::slurp(f))); } return h; }
// visited states: 48 bits of hash, 8 bits of cost
static bool visit(u64 h, int cost) {   // true: new, or reached with fewer deviations than before
  if (h < 4096) h += 4096; u64 key = h & ~255ull; u32 i = (u32)(h >> 20) & sh->table_mask;
  for (u32 k = 0; k < 4096; ++k, i = (i + 1) & sh->table_mask) {
    u64 c = table_[i].load();
    for (;;) {
      if (c == 0) { if (table_[i].compare_exchange_strong(c, key | (u64)cost)) { sh->states++; return true; } continue; }
      if ((c & ~255ull) != key) break;
      if ((int)(c & 255) <= cost) return false;
      if (table_[i].compare_exchange_strong(c, key | (u64)cost)) return true;
    }
  }
  return true;
}

// ------------------------------------------------------------------ threads and objects of one execution
enum Op { O_RUN, O_LOCK, O_COND, O_JOIN, O_SLEEP, O_PRED, O_DONE };
struct Obj { u64 name = 0, last = 0; int owner = -1, depth = 0; int readers = 0; u32 vc[T_MAX] = {0}; };
struct Thr {
  int id = 0; pthread_t real; atomic<int> go{0}; Op op = O_RUN; Obj * obj = nullptr; Obj * cond = nullptr; bool signalled = false, timed = false, timed_out = false, spurious = false, rd = false; int target = -1; const char * what = "";
  bool (*ready)(void *) = nullptr; void * arg = nullptr; u64 h = 0; u32 ev = 0; u32 vc[T_MAX] = {0}; bool fresh = false; u64 seen = 0; u64 ns = 0; u32 reads = 0; void * (*fn)(void *); void * fnarg; long wseq = 0; int tag = 0; bool leader = false, working = false; int held = 0; long handled = 0;
};
static Thr thr[T_MAX]; static int nthr = 0; static bool g_active = false; static int idle_polls = 0; static u64 total_jump = 0; static u64 g_extra = 0; static long wait_seq = 0; static u64 rnd_n = 0;
static unordered_map<void *, Obj> * objs;
static thread_local Thr * me __attribute__((tls_model("initial-exec"))) = nullptr;
static thread_local bool inside __attribute__((tls_model("initial-exec"))) = false;
struct In { bool old; In() : old(inside) { inside = true; } ~In() { inside = old; } };
bool active() { return g_active && me && !inside; }
int self() { return me ? me->id : -1; }
int tag() { return me ? me->tag : -1; }
void set_tag(int t) { if (me) { me->tag = t; me->leader = true; } }
const Options & options() { return opt; }

static vector<pair<uintptr_t, uintptr_t>> * ranges; static vector<string> * model_names;
static int phdr_cb(struct dl_phdr_info * i, size_t, void *) {
  string n = i->dlpi_name ? i->dlpi_name : ""; bool ok = false; for (auto & m : *model_names) if (n.find(m) != string::npos) ok = true;
  if (ok) for (int k = 0; k < i->dlpi_phnum; ++k) if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_X)) { uintptr_t a = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr; ranges->push_back({a, a + i->dlpi_phdr[k].p_memsz}); }
  return 0;
}
static void find_ranges() { if (!ranges) ranges = new vector<pair<uintptr_t, uintptr_t>>; ranges->clear(); dl_iterate_phdr(phdr_cb, nullptr); }
void model_object(const string & s) { if (!model_names) model_names = new vector<string>; model_names->push_back(s); find_ranges(); }
static bool modelled(void * pc) { if (!ranges) return false; for (auto & r : *ranges) if ((uintptr_t)pc >= r.first && (uintptr_t)pc < r.second) return true; return false; }
#define CTRL (g_active && me && !inside && modelled(__builtin_return_address(0)))
#define CTRL_ANY (g_active && me && !inside)

template<class F> static F real(F & cache, const char * n) { if (!cache) cache = (F)dlsym(RTLD_NEXT, n); return cache; }
static void fwait(Thr * t) { while (!t->go.load()) syscall(SYS_futex, &t->go, FUTEX_WAIT, 0, nullptr, nullptr, 0); t->go = 0; }
static void fwake(Thr * t) { t->go = 1; syscall(SYS_futex, &t->go, FUTEX_WAKE, 1, nullptr, nullptr, 0); }

static bool beyond;   // more choice points than are recorded
[[noreturn]] static void finish(Status s, string msg = "") {
  if (s == S_DONE && beyond) { s = S_LIMIT; msg = "too many choice points"; }
  g_active = false; slot->status = s; size_t l = min(msg.size(), sizeof slot->msg - 1); memcpy(slot->msg, msg.c_str(), l); slot->msg[l] = 0;
  fflush(stdout); fflush(stderr); _exit(0);
}
static string thread_states() {
  static const char * names[] = {"running", "waiting for a mutex", "waiting on a condition variable", "joining", "sleeping", "blocked", "finished"}; string r;
  for (int i = 0; i < nthr; ++i) { r += fmt("thread %d %s", i, names[thr[i].op]); if (thr[i].op == O_PRED) r += string(" in ") + thr[i].what; if (thr[i].op == O_JOIN) r += fmt(" thread %d", thr[i].target); if (thr[i].op == O_LOCK && thr[i].obj) r += fmt(" held by thread %d", thr[i].obj->owner); r += "; "; }
  return r;
}
void fail(const string & msg) { finish(S_VIOL, msg); }
void complete(const function<string()> & verdict) { g_active = false; me = nullptr; string r = verdict(); finish(r.empty() ? S_DONE : S_VIOL, r); }
void observe(const string & s) { slot->outcome = mix(slot->outcome, hash_str(s)); size_t l = strlen(slot->text); if (l + 2 < sizeof slot->text) { size_t k = min(s.size(), sizeof slot->text - l - 2); memcpy(slot->text + l, s.c_str(), k); slot->text[l + k] = ' '; slot->text[l + k + 1] = 0; } }

static Obj & object(void * p) { Obj & o = (*objs)[p]; if (!o.name) { o.name = mix(me->id + 1, me->ev + 77); o.last = o.name; } return o; }
static void ev(int op, Obj & o) { ++me->ev; me->h = mix(mix(me->h, op), mix(o.name, o.last)); o.last = me->h; }
static void acquire(u32 * vc) { for (int i = 0; i < nthr; ++i) if (vc[i] > me->vc[i]) me->vc[i] = vc[i]; }
static void release(u32 * vc) { for (int i = 0; i < nthr; ++i) if (me->vc[i] > vc[i]) vc[i] = me->vc[i]; ++me->vc[me->id]; }
void mix_state(u64 h) { g_extra = mix(g_extra, h); }

// ------------------------------------------------------------------ choices
static u64 g_overlap;
static u64 state_hash(int kind) {
  u64 s = mix(slot->history, g_extra + g_overlap); s = mix(s, total_jump + slot->spurious * 1000);
  for (int i = 0; i < nthr; ++i) { Thr & t = thr[i]; s += mix(mix(t.h, i * 16 + t.op), (t.obj ? t.obj->name : 0) + t.fresh * 3 + t.signalled * 5 + t.timed_out * 7 + t.target * 11 + t.held * 13); }
  return mix(s, me->id * 8 + kind);
}
static inline bool costly(u32 mask, int a) { return mask >> (a < 31 ? a : 31) & 1; }   // alternatives from 31 on share a bit
static int take(int n, u32 costmask, u64 hash) {
  if (n > 250) finish(S_LIMIT, "too many alternatives");
  if (slot->n >= R_MAX) { beyond = true; return 0; }   // goes on without alternatives: either it never ends or the bounds are too large
  u32 i = slot->n; Rec & r = slot->rec[i]; r.n = n; r.costmask = costmask; r.hash = hash; int c;
  if (i < slot->np) {
    c = slot->prefix[i]; r.fresh = 0;
    if (c >= n || (i + 1 == slot->np && slot->prefix_hash && slot->prefix_hash != hash)) finish(S_DIVERGED, fmt("replayed choice %u of %u: %d of %d alternatives", i, slot->np, c, n));
  } else {
    c = 0; r.fresh = 1;
    if (opt.prune && !slot->noprune && !visit(hash, slot->cost)) finish(S_PRUNED);
  }
  r.chosen = c; slot->n = i + 1; if (costly(costmask, c)) ++slot->cost;
  return c;
}
int choose(int n, u32 costmask, const char * what) {
  In g; if (n <= 1) return 0;
  int c = take(n, costmask, mix(me ? state_hash(1) : mix(slot->history, g_extra), hash_str(what)));
  if (me) { ++me->ev; me->h = mix(me->h, 1000 + c); } else slot->history = mix(slot->history, 1000 + c);
  return c;
}
static bool enabled(Thr & t) {
  if (t.held) return false;
  switch (t.op) {
    case O_RUN: return true;
    case O_LOCK: return t.rd ? t.obj->owner == -1 : t.obj->owner == -1 && t.obj->readers == 0;
    case O_COND: return t.signalled && t.obj->owner == -1;
    case O_JOIN: return thr[t.target].op == O_DONE;
    case O_PRED: return t.ready(t.arg);
    default: return false;
  }
}
// the calling thread has announced its next operation; returns when it has been chosen to perform it
static void schedule(bool leaving = false) {
  Thr * my = me; if (++slot->steps > (u64)opt.steps) finish(S_VIOL, fmt("no end after %d steps: ", opt.steps) + thread_states());
  int cand[2 * T_MAX + 8], kind[2 * T_MAX + 8], n = 0; u32 cost = 0; bool others = false;
  auto add = [&](int t, int k, bool costly) { if (n < 30) { if (costly && n) cost |= 1u << n; cand[n] = t; kind[n++] = k; } };
  bool cur = !leaving && enabled(*my); if (cur) add(my->id, 0, false);
  for (int d = 1; d <= nthr; ++d) { int i = (my->id + d) % nthr; if (i == my->id) continue; if (enabled(thr[i])) { add(i, 0, cur || !opt.free_blocking); others = true; } }
  for (int d = 0; d < nthr; ++d) { int i = (my->id + d) % nthr; if (thr[i].op == O_SLEEP && !thr[i].fresh) add(i, 0, true); }
  bool any = cur || others;
  if (!any) { bool sleepers = false; int held = 0; for (int i = 0; i < nthr; ++i) { sleepers |= thr[i].op == O_SLEEP; held = max(held, thr[i].held); }
    for (int i = 0; i < nthr; ++i) if (thr[i].held) { if (sleepers && held > 1) { if (thr[i].held > 1) --thr[i].held; } else { thr[i].held = 0; if (!others) n = 0, cost = 0; add(i, 0, true); others = true; } } }
  if (n == 0) { for (int d = 0; d < nthr; ++d) { int i = (my->id + d) % nthr; if (thr[i].op == O_SLEEP) add(i, 0, true); } }
  for (int i = 0; i < nthr; ++i) if (thr[i].op == O_COND && !thr[i].signalled && thr[i].timed && thr[i].obj->owner == -1) add(i, 1, true);
  if (n == 0) finish(S_VIOL, "deadlock: " + thread_states());
  if (!any) { if (++idle_polls > opt.idle) finish(S_VIOL, "no thread can make progress, polling forever: " + thread_states()); } else if (others) idle_polls = 0;
  if ((int)slot->spurious < opt.spurious) for (int i = 0; i < nthr; ++i) if (thr[i].op == O_COND && !thr[i].signalled && thr[i].obj->owner == -1) add(i, 2, true);
  if (opt.holds_only) n = 1;
  int c = n > 1 ? take(n, cost, state_hash(0)) : 0; Thr * t = &thr[cand[c]];
  if (kind[c] == 1) t->timed_out = t->signalled = true; if (kind[c] == 2) { t->signalled = true; ++slot->spurious; }
  for (int i = 0; i < nthr; ++i) if (&thr[i] != t) thr[i].fresh = false;
  if (t != my) { fwake(t); if (!leaving) fwait(my); }
  if (!leaving) { ++my->ev; my->h = mix(my->h, 98); }   // progress: a later point is never taken for this one
}
// ------------------------------------------------------------------ work of the threads
Watch watch; function<void(Moment)> on_master; static Obj * clock_obj;
int threads() { return nthr; }
bool worker(int t) { return t && !thr[t].leader; }
bool waiting(int t) { return thr[t].op == O_COND ? !thr[t].signalled : (thr[t].op == O_PRED || thr[t].op == O_SLEEP) && !enabled(thr[t]); }
bool working(int t) { return thr[t].working; }
u64 entered(int t) { return thr[t].ev; }
int group(int t) { return thr[t].tag; }
long handled(int t) { return thr[t].handled; }
u64 clock_now() { return total_jump + thr[0].ns; }
static void clock_event() { Obj & o = object(&clock_obj); ev(30, o); }   // orders all readings and changes of the clock
static void master(Moment m) { if (me->id == 0 && opt.watch && on_master) on_master(m); }
static vector<pair<u32, u32>> overlaps;
static void rehash() { u64 h = 0; for (auto & c : overlaps) h = mix(h, ((u64)c.first << 32) + c.second); g_overlap = h; }
static void rest() { if (!me->working) return; me->working = false; vector<pair<u32, u32>> now; for (auto c : overlaps) if (!(c.first >> me->id & 1) || (c.second >> me->id & 1)) now.push_back(c); overlaps = now; rehash(); }
static bool position_entry(void * pc) {   // a function that makes a curve from a position
  static unordered_map<void *, bool> known; auto it = known.find(pc); if (it != known.end()) return it->second;
  Dl_info d; bool y = dladdr(pc, &d) && d.dli_sname && !strncmp(d.dli_sname, "_ZN5CurveC", 10) && strlen(d.dli_sname) > 12 && strncmp(d.dli_sname + 12, "ERKS_", 5) && strncmp(d.dli_sname + 12, "EOS_", 4) && strncmp(d.dli_sname + 12, "Ev", 2);
  return known[pc] = y;
}
static void note_position();
static void func_entry(void * pc) {
  if (!opt.watch || !g_active || !me || inside || me->leader || !me->id) return; In g; if (!position_entry(pc)) return;
  ++watch.positions; ++me->handled; if (opt.position_ns) { clock_event(); total_jump += opt.position_ns; }
  if (opt.slow && !me->working) { int k = 0; for (int i = 1; i < me->id; ++i) k += worker(i); if (opt.slow >> k & 1) { ++me->ev; me->h = mix(me->h, 33); me->held = opt.slow_polls; me->working = true; me->op = O_RUN; note_position(); schedule(); return; } }
  if ((opt.concurrency || opt.holds_only) && !me->working) { ++me->ev; me->h = mix(me->h, 31); if (take(2, 2, state_hash(4))) { me->h = mix(me->h, 32); me->held = 8; me->working = true; me->op = O_RUN; note_position(); schedule(); return; } }
  note_position();
}
static void note_position() {
  // sets of threads that are all between two positions of their packages
  u32 bit = 1u << me->id; me->working = true; vector<pair<u32, u32>> now; u32 all = 0; for (int i = 0; i < nthr; ++i) if (thr[i].working) all |= 1u << i;
  for (auto c : overlaps) { if (c.first & bit) c.second |= bit; if (c.first == c.second) { for (int k = 0; k <= (watch.positions > watch.after); ++k) { atomic<int> & m = sh->together[k]; int n = __builtin_popcount(c.first), o = m; while (o < n && !m.compare_exchange_weak(o, n)) {} } } else now.push_back(c); }
  now.push_back({all, 0}); overlaps = now; rehash();
}
// ------------------------------------------------------------------ operations
static void do_lock(Obj & o, bool rd = false) { In g; if (rd) ++o.readers; else { o.owner = me->id; o.depth = 1; } acquire(o.vc); ev(1, o); me->op = O_RUN; me->obj = nullptr; }
static void m_lock(void * m, bool rec, bool rd = false) {
  In g; Obj & o = object(m); if (rec && o.owner == me->id) { ++o.depth; return; }
  me->op = O_LOCK; me->obj = &o; me->rd = rd; schedule(); do_lock(o, rd);
}
static void m_unlock(void * m) { In g; Obj & o = object(m); if (o.readers && o.owner != me->id) { --o.readers; release(o.vc); ev(2, o); return; } if (o.owner != me->id) return; if (--o.depth) return; o.owner = -1; release(o.vc); ev(2, o); }
static int m_trylock(void * m, bool rec) { In g; Obj & o = object(m); me->op = O_RUN; schedule(); if (rec && o.owner == me->id) { ++o.depth; return 0; } if (o.owner != -1 || o.readers) { ev(3, o); return EBUSY; } do_lock(o); return 0; }
static int rw_try(void * m, bool rd) { In g; Obj & o = object(m); me->op = O_RUN; schedule(); if (o.owner != -1 || (!rd && o.readers)) { ev(3, o); return EBUSY; } do_lock(o, rd); return 0; }
struct Futex { unsigned * a, v; };
static int c_wait(void * c, void * m, bool timed) {
  In g; Obj & co = object(c), & mo = object(m);
  rest();   // a point before the wait: the waiter is not registered yet
  me->op = O_RUN; schedule(); ev(4, co);
  mo.owner = -1; release(mo.vc); ev(2, mo);
  me->op = O_COND; me->obj = &mo; me->cond = &co; me->signalled = false; me->timed = timed; me->timed_out = false; me->wseq = ++wait_seq;
  schedule(); bool to = me->timed_out; me->cond = nullptr; me->timed = me->timed_out = me->signalled = false; do_lock(mo); return to ? ETIMEDOUT : 0;
}
static void c_signal(void * c, bool all) {
  In g; master(M_SIGNAL); Obj & co = object(c); me->op = O_RUN; schedule(); ev(all ? 6 : 5, co);
  vector<int> w; for (int i = 0; i < nthr; ++i) if (thr[i].op == O_COND && thr[i].cond == &co && !thr[i].signalled) w.push_back(i);
  if (w.empty()) return; sort(w.begin(), w.end(), [](int a, int b) { return thr[a].wseq < thr[b].wseq; });
  if (all) { for (int i : w) thr[i].signalled = true; return; }
  int k = w.size() > 1 ? take((int)w.size(), ~1u, mix(state_hash(2), w.size())) : 0; me->h = mix(me->h, k); thr[w[k]].signalled = true;
}
void block(bool (*ready)(void *), void * arg, void * object_, const char * what) {
  In g; rest(); me->ready = ready; me->arg = arg; me->op = ready ? O_PRED : O_RUN; me->what = what; schedule(); me->op = O_RUN;
  if (object_) { Obj & o = object(object_); acquire(o.vc); release(o.vc); ev(7, o); }
}
void event(void * p) { In g; Obj & o = object(p); acquire(o.vc); release(o.vc); ev(8, o); }
static void m_sleep(u64 ns) { In g; rest(); master(M_SLEEP); me->ns += ns; me->op = O_SLEEP; me->fresh = true; schedule(); me->op = O_RUN; me->fresh = false; ++me->ev; me->h = mix(me->h, 9); master(M_AWAKE); }
u64 (*rnd_hook)(u64) = nullptr;
u64 rnd() { if (!slot) return rnd_hook ? rnd_hook(++rnd_n) : mix(0x5EED, ++rnd_n); if (me) { In g; u64 r = mix(0x5EED + slot->prog, mix(me->id, ++rnd_n)); return rnd_hook ? rnd_hook(r) : r; } return mix(0x5EED, ++rnd_n + slot->prog * 1000); }
static u64 now_ns() {
  In g; u64 t = me->ns + ++me->reads * 1000; if (opt.position_ns) clock_event(); master(M_CLOCK);
  if ((int)slot->jumps < opt.jumps) { ++me->ev; me->h = mix(me->h, 10); if (take(2, 2, state_hash(3))) { ++slot->jumps; total_jump += 400ull * 1000000000ull; me->h = mix(me->h, 11); } }
  return 1700000000ull * 1000000000ull + t + total_jump;
}
static void * trampoline(void * a) {
  Thr * t = (Thr *)a; fwait(t); me = t; void * r = t->fn(t->fnarg);
  { In g; ++me->ev; me->h = mix(me->h, 12); me->op = O_DONE; ++me->vc[me->id]; schedule(true); } me = nullptr; return r;
}
static int m_create(pthread_t * p, const pthread_attr_t * at, void * (*fn)(void *), void * arg) {
  static int (*rc)(pthread_t *, const pthread_attr_t *, void * (*)(void *), void *); In g; if (nthr >= T_MAX) finish(S_LIMIT, "too many threads");
  Thr & t = thr[nthr]; t.id = nthr; t.tag = me->tag; t.fn = fn; t.fnarg = arg; t.op = O_RUN; ++me->ev; me->h = mix(me->h, 13); t.h = mix(me->h, 14); memcpy(t.vc, me->vc, sizeof t.vc); t.vc[t.id] = 1; ++me->vc[me->id];
  int r = real(rc, "pthread_create")(p, at, trampoline, &t); if (r) return r; t.real = *p; ++nthr; me->op = O_RUN; schedule(); return 0;
}
static int m_join(pthread_t p, void ** ret, bool & mine) {
  static int (*rj)(pthread_t, void **); In g; mine = false; int k = -1; for (int i = 0; i < nthr; ++i) if (i != me->id && thr[i].real == p) k = i; if (k < 0) return 0; mine = true;
  me->op = O_JOIN; me->target = k; schedule(); me->op = O_RUN; me->target = -1; acquire(thr[k].vc); ++me->ev; me->h = mix(mix(me->h, 15), thr[k].h); return real(rj, "pthread_join")(p, ret);
}
void begin() { nthr = 1; me = &thr[0]; me->id = 0; me->real = pthread_self(); me->h = 99; me->vc[0] = 1; objs = new unordered_map<void *, Obj>; find_ranges(); g_active = true; }
void end() { g_active = false; me = nullptr; }
static string * cur_dir;   // of this execution
int program(const function<int()> & f) {
  fflush(stdout); fflush(stderr); ++slot->prog; pid_t p = fork(); if (p < 0) { perror("fork"); finish(S_DIVERGED, "fork"); }
  if (p == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); begin(); int rc = f(); end(); fflush(stdout); fflush(stderr); _exit(rc & 255); }
  int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  if (slot->status != S_NONE) _exit(0);
  int rc = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st); slot->history = mix(mix(slot->history, rc + 5000), tree_digest(*cur_dir)); return rc;
}

int direct(const function<int()> & f) { ++slot->prog; begin(); int rc = f(); end(); fflush(stdout); return rc; }

// ------------------------------------------------------------------ the explorer
struct Prefix { vector<u8> c; u64 hash; };
struct Job { int state = 0; pid_t pid; Slot * s; int mem; string dir; double t0; Prefix p; int kind; };
static double wall() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void launch(Job & j, const Scenario & sc, const Prefix & p, int index, bool noprune) {
  Slot * s = j.s; s->np = p.c.size(); if (s->np > P_MAX) { fprintf(stderr, "prefix too long\n"); exit(3); } memcpy(s->prefix, p.c.data(), s->np); s->prefix_hash = p.hash; s->n = 0; s->cost = 0; s->status = S_NONE; s->msg[0] = 0; s->outcome = 17; s->steps = 0; s->history = 23; s->spurious = s->jumps = s->prog = 0; s->text[0] = 0; s->noprune = noprune;
  j.p = p; j.t0 = wall(); if (ftruncate(j.mem, 0)) perror("ftruncate"); fflush(stdout); fflush(stderr);
  pid_t pid = fork(); if (pid < 0) { perror("fork"); exit(3); }
  if (pid == 0) {
    setpgid(0, 0); prctl(PR_SET_PDEATHSIG, SIGKILL); slot = s; lseek(j.mem, 0, SEEK_SET); dup2(j.mem, 1); dup2(j.mem, 2);
    cpu_set_t cs; CPU_ZERO(&cs); int nc = sysconf(_SC_NPROCESSORS_ONLN); CPU_SET(index % nc, &cs); sched_setaffinity(0, sizeof cs, &cs);
    struct rlimit rl { 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
    if (proc::exists(j.dir)) proc::wipe(j.dir); mkdir(j.dir.c_str(), 0755);
    cur_dir = &j.dir; string r = sc.run(j.dir); finish(r.empty() ? S_DONE : S_VIOL, r);
  }
  setpgid(pid, pid); j.pid = pid; j.state = 1;
}
static string tail_of(int mem) { string r; char b[1500]; off_t e = lseek(mem, 0, SEEK_END); lseek(mem, e > 1400 ? e - 1400 : 0, SEEK_SET); ssize_t n = read(mem, b, 1400); if (n > 0) r.assign(b, n); return r; }
static string caseid(const string & name, const vector<u8> & c) { string r = name + " | "; size_t l = c.size(); while (l && !c[l - 1]) --l; for (size_t i = 0; i < l;) { size_t k = i; while (k < l && c[k] == c[i]) ++k; r += (i ? "," : ""); r += k - i > 1 ? fmt("%dx%zu", c[i], k - i) : fmt("%d", c[i]); i = k; } return r; }
static string verdict(Job & j, int st, bool killed) {   // "" if nothing is wrong
  Slot * s = j.s; if (killed) return fmt("the program does not end (%d choices made)\n", s->n) + tail_of(j.mem);
  if (s->status == S_VIOL) return string(s->msg) + (tail_of(j.mem).empty() ? "" : "\nprogram output: " + tail_of(j.mem));
  if (s->status == S_NONE) return fmt("the program ends abnormally (%s %d)\n", WIFSIGNALED(st) ? "signal" : "status", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)) + tail_of(j.mem);
  return "";
}
bool explore(Report & R, const Scenario & sc, const Options & o) {
  if (R.single) { if (R.only.rfind(sc.name + " | ", 0) != 0) return false; }
  opt = o; R.set(sc.name); double t0 = wall();
  static vector<Job> jobs; static string root;
  if (!sh) {
    sh = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); u32 bits = R.thorough() ? 27 : 23; sh->table_mask = (1u << bits) - 1;
    table_ = (atomic<u64> *)mmap(0, (size_t)(1u << bits) * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); root = proc::scratch(); static struct Rm { string d; pid_t p = getpid(); ~Rm() { if (!d.empty() && getpid() == p) proc::wipe(d); } } rm; rm.d = root;
    int n = max(1, (int)min<long>(8, sysconf(_SC_NPROCESSORS_ONLN)));
    for (int i = 0; i < n; ++i) { Job j; j.s = (Slot *)mmap(0, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); j.mem = memfd_create("mc", 0); j.dir = root + fmt("/s%d", i); jobs.push_back(j); }
  }
  auto run_alone = [&](const Prefix & p, string & v, bool noprune = true) { Job & j = jobs[0]; int st; launch(j, sc, p, 0, noprune); bool killed = false; double lim = wall() + 3 * o.timeout; while (true) { pid_t w = waitpid(j.pid, &st, WNOHANG); if (w == j.pid) break; if (wall() > lim) { kill(-j.pid, SIGKILL); waitpid(j.pid, &st, 0); killed = true; break; } usleep(500); } kill(-j.pid, SIGKILL); j.state = 0; v = verdict(j, st, killed); };
  if (R.single && R.only == sc.name + " | all executions") R.set(R.only);
  else if (R.single) {
    Prefix p; p.hash = 0; string c = R.only.substr(sc.name.size() + 3); R.set(R.only); char * e = (char *)c.c_str(); while (*e) { long v = strtol(e, &e, 10), k = 1; if (*e == 'x') k = strtol(e + 1, &e, 10); while (k--) p.c.push_back(v); if (*e == ',') ++e; else break; }
    sh->n_racy = 0; string v; run_alone(p, v); if (v.empty() && jobs[0].s->status == S_DIVERGED) { fprintf(stderr, "diverged: %s\n", jobs[0].s->msg); exit(3); }
    R.eval(); if (!v.empty()) R.violation(v); return true;
  }
  Totals T; set<u64> outcomes; bool bad = false, timeup = false; sh->n_racy = 0; sh->together[0] = sh->together[1] = 0;
  for (int round = 0; round < 3 && !bad && !timeup; ++round) {
    u32 racy0 = sh->n_racy; memset((void *)table_, 0, 0); if (round || true) { madvise((void *)table_, (size_t)(sh->table_mask + 1) * 8, MADV_REMOVE); } sh->states = 0;
    vector<deque<Prefix>> level(o.bound + 1); level[0].push_back({{}, 0}); T.bound_completed = -1; int detcheck = 0; u64 first_outcome = 0;
    for (int c = 0; c <= o.bound && !bad && !timeup; ++c) {
      int running = 0;
      while (!bad && (running || !level[c].empty())) {
        for (size_t i = 0; i < jobs.size() && !level[c].empty() && !timeup; ++i) if (!jobs[i].state) { Prefix p = std::move(level[c].back()); level[c].pop_back(); launch(jobs[i], sc, p, (int)i, false); ++running; if (c == 0 && level[0].empty() && running == 1 && T.executions == 0) break; }
        int st; pid_t w = waitpid(-1, &st, WNOHANG); bool killed = false;
        if (w <= 0) { double t = wall(); for (auto & j : jobs) if (j.state && t - j.t0 > o.timeout) { kill(-j.pid, SIGKILL); waitpid(j.pid, &st, 0); w = j.pid; killed = true; break; } if (!killed) { usleep(20); } }
        if (o.seconds && wall() - t0 > o.seconds) timeup = true;
        if (timeup && !running) break;
        if (w <= 0) continue;
        Job * j = nullptr; for (auto & x : jobs) if (x.state && x.pid == w) j = &x; if (!j) continue;
        j->state = 0; --running; kill(-w, SIGKILL); Slot * s = j->s; ++T.executions; T.transitions += s->n; T.steps += s->steps; if ((long)s->n > T.max_points) T.max_points = s->n;
        if (s->status == S_DIVERGED || s->status == S_LIMIT) { fprintf(stderr, "%s: %s\n", sc.name.c_str(), s->msg); exit(3); }
        string v = verdict(*j, st, killed);
        vector<u8> full(s->n); for (u32 i = 0; i < s->n; ++i) full[i] = s->rec[i].chosen;
        if (!v.empty()) {
          for (auto & x : jobs) if (x.state) { kill(-x.pid, SIGKILL); int st2; waitpid(x.pid, &st2, 0); x.state = 0; }
          running = 0; Prefix p; p.c = full; p.hash = 0; string v2; run_alone(p, v2);   // once more before reporting
          if (v2.empty()) { fprintf(stderr, "%s: not reproducible: %s\nschedule %s\n", sc.name.c_str(), v.c_str(), caseid(sc.name, full).c_str()); exit(3); }
          R.id = caseid(sc.name, full); R.violation(fmt("(%d deviations from the default schedule) ", s->cost) + v2, R.id); bad = true; break;
        }
        if (s->status == S_PRUNED) ++T.pruned; else { ++T.completed; outcomes.insert(s->outcome); if (T.completed == 1) first_outcome = s->outcome; R.samples.size() < R.max_samples && (T.completed % 7 == 1) ? R.samples.push_back("schedule " + caseid(sc.name, full) + " -> " + s->text) : (void)0; }
        if (getenv("MC_TRACE")) { fprintf(stderr, "c=%d status %d n=%u np=%zu cost %d:", c, s->status, s->n, j->p.c.size(), s->cost); for (u32 i = 0; i < s->n; ++i) fprintf(stderr, " %d/%d%s%x", s->rec[i].chosen, s->rec[i].n, s->rec[i].fresh ? "f" : "o", s->rec[i].costmask); fprintf(stderr, "\n"); }
        // alternatives at the new points
        int cost = 0; for (u32 i = 0; i < s->n; ++i) {
          Rec & r = s->rec[i];
          if (r.fresh) for (int a = 1; a < r.n; ++a) { int cc = cost + costly(r.costmask, a); if (cc > o.bound) { continue; } Prefix p; p.c.assign(full.begin(), full.begin() + i); p.c.push_back(a); p.hash = r.hash; level[cc].push_back(std::move(p)); }
          if (costly(r.costmask, r.chosen)) ++cost;
        }
        // determinism: the first complete executions are run twice
        if (s->status == S_DONE && detcheck < 3 && running == 0) { ++detcheck; u64 oc = s->outcome, stp = s->steps; u32 n = s->n; u64 hh = n ? s->rec[n - 1].hash : 0; Prefix p; p.c = full; p.hash = 0; string v2; run_alone(p, v2); Slot * q = jobs[0].s; if (!v2.empty() || q->outcome != oc || q->steps != stp || q->n != n || (n && q->rec[n - 1].hash != hh)) { fprintf(stderr, "%s: two runs of one schedule differ (steps %llu %llu)\n%s\n", sc.name.c_str(), stp, q->steps, v2.c_str()); exit(3); } ++T.replayed; }
      }
      if (!bad && !timeup) T.bound_completed = c;
    }
    T.states = sh->states; T.racy = sh->n_racy; if (o.races || sh->n_racy == racy0) break;
  }
  if (timeup && T.bound_completed < o.bound) { T.exhaustive = false; R.exhaustive = false; }
  for (auto & x : jobs) if (x.state) { kill(-x.pid, SIGKILL); int st; waitpid(x.pid, &st, 0); x.state = 0; }
  if (o.concurrency && !bad && !timeup) { R.count("concurrency_reached", (int)sh->together[0]); for (int k = 0; k < 2; ++k) if (sh->together[k] < (k ? o.concurrency_later : o.concurrency)) { R.id = sc.name + " | all executions"; R.violation(fmt("in no execution do more than %d of the workers handle packages at the same time%s (%ld executions explored), expected %d", (int)sh->together[k], k ? " after the first packages" : "", T.executions, k ? o.concurrency_later : o.concurrency), R.id); break; } }
  R.eval(0); R.count("executions", T.executions); R.count("executions_completed", T.completed); R.count("executions_merged_into_known_states", T.pruned); R.count("states", T.states); R.count("transitions", T.transitions); R.count("traces_validated_against_impl", T.completed); R.count("distinct_outcomes", outcomes.size()); R.count("schedules_replayed_identically", T.replayed); R.count("scheduled_steps", T.steps);
  R.n["max_choice_points"] = max(R.n["max_choice_points"], (long long)T.max_points); R.count(fmt("scenarios_complete_to_bound_%d", T.bound_completed)); if (T.racy) R.count("racy_instructions", T.racy);
  if (getenv("MC_VERBOSE")) fprintf(stderr, "%-60s bound %d/%d executions %ld completed %ld pruned %ld states %ld max points %ld outcomes %zu %.1fs\n", sc.name.c_str(), T.bound_completed, o.bound, T.executions, T.completed, T.pruned, T.states, T.max_points, outcomes.size(), wall() - t0);
  return true;
}

// ------------------------------------------------------------------ data races: vector clocks per 8 byte granule
enum { TM = T_MAX };
struct Cell { u64 tag; u32 wc[TM], rc[TM]; u8 wm[TM], rm[TM]; void * wpc[TM], * rpc[TM]; };
enum { CELLS = 1 << 18 };
static Cell * cells;
static Cell * cell(u64 g) { u32 i = (u32)(g & (CELLS - 1)); for (int k = 0; k < 64; ++k) { Cell * c = &cells[(i + k * 4099) & (CELLS - 1)]; if (c->tag == g) return c; if (!c->tag) { c->tag = g; return c; } } return nullptr; }
static string where(void * pc) { Dl_info d; if (dladdr(pc, &d) && d.dli_fname) { string f = d.dli_fname; size_t k = f.rfind('/'); return (d.dli_sname ? string(d.dli_sname) : string("?")) + fmt(" (%s+0x%lx)", f.substr(k + 1).c_str(), (long)((char *)pc - (char *)d.dli_fbase)); } return "?"; }
static u64 pcid(void * pc) { Dl_info d; return dladdr(pc, &d) && d.dli_fbase ? (u64)((char *)pc - (char *)d.dli_fbase) : (u64)pc; }
static void race(const char * a, void * pa, const char * b, void * pb, int tb) {
  if (opt.races) finish(S_VIOL, fmt("data race: %s by thread %d in ", a, me->id) + where(pa) + fmt(" not ordered with %s by thread %d in ", b, tb) + where(pb));
  for (void * p : {pa, pb}) { u64 id = pcid(p); bool known = false; u32 n = sh->n_racy; for (u32 i = 0; i < n && i < 64; ++i) if (sh->racy[i] == id) known = true; if (!known && n < 63) { sh->racy[n] = id; sh->n_racy = n + 1; } }
}
static void granule(u64 a, int size, bool w, void * pc) {
  if (!cells) cells = (Cell *)mmap(0, sizeof(Cell) * CELLS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  Cell * c = cell(a >> 3); if (!c) return; u8 m = (u8)(((1u << size) - 1) << (a & 7)); int t = me->id; u32 e = me->vc[t];
  if (w ? (c->wc[t] == e && (c->wm[t] & m) == m) : ((c->rc[t] == e && (c->rm[t] & m) == m) || (c->wc[t] == e && (c->wm[t] & m) == m))) return;
  for (int i = 0; i < nthr; ++i) if (i != t) {
    if (c->wc[i] > me->vc[i] && (c->wm[i] & m)) race(w ? "write" : "read", pc, "write", c->wpc[i], i);
    if (w && c->rc[i] > me->vc[i] && (c->rm[i] & m)) race("write", pc, "read", c->rpc[i], i);
  }
  if (w) { c->wm[t] = c->wc[t] == e ? c->wm[t] | m : m; c->wc[t] = e; c->wpc[t] = pc; } else { c->rm[t] = c->rc[t] == e ? c->rm[t] | m : m; c->rc[t] = e; c->rpc[t] = pc; }
}
static void access(void * p, u64 n, bool w, void * pc) {
  if (!g_active || !me || inside || !n) return; In g;
  if (sh->n_racy && !opt.races) { u64 id = pcid(pc); u32 k = sh->n_racy; for (u32 i = 0; i < k; ++i) if (sh->racy[i] == id) { me->op = O_RUN; schedule(); ev(w ? 20 : 21, object((void *)((u64)p & ~7ull))); break; } }
  if (nthr == 1) { }
  u64 a = (u64)p, e = a + n; while (a < e) { u64 s = min<u64>(8 - (a & 7), e - a); granule(a, (int)s, w, pc); a += s; }
}
static void forget(void * p, u64 n) { if (!cells || n > (1 << 20)) { if (!cells) return; n = min<u64>(n, 1 << 20); } for (u64 a = (u64)p & ~7ull, e = (u64)p + n; a < e; a += 8) { u64 g = a >> 3; u32 i = (u32)(g & (CELLS - 1)); for (int k = 0; k < 64; ++k) { Cell * c = &cells[(i + k * 4099) & (CELLS - 1)]; if (c->tag == g) { memset((char *)c + 8, 0, sizeof(Cell) - 8); break; } if (!c->tag) break; } } }
static void atomic_op(void * a, bool acq, bool rel, bool point, void * pc) {
  if (!g_active || !me || inside) return; In g; if (point && opt.atomics_points) { me->op = O_RUN; schedule(); }
  Obj & o = object(a); if (acq) acquire(o.vc); if (rel) release(o.vc); if (point) ev(22, o);
}
} // namespace mc

using namespace mc;
extern "C" {
// ---- pthread
static int kind(pthread_mutex_t * m) { return m->__data.__kind & 3; }
int pthread_mutex_lock(pthread_mutex_t * m) { static int (*r)(pthread_mutex_t *); if (CTRL) { m_lock(m, kind(m) == 1); return 0; } return real(r, "pthread_mutex_lock")(m); }
int pthread_mutex_unlock(pthread_mutex_t * m) { static int (*r)(pthread_mutex_t *); if (CTRL) { m_unlock(m); return 0; } return real(r, "pthread_mutex_unlock")(m); }
int pthread_mutex_trylock(pthread_mutex_t * m) { static int (*r)(pthread_mutex_t *); if (CTRL) return m_trylock(m, kind(m) == 1); return real(r, "pthread_mutex_trylock")(m); }
int pthread_mutex_timedlock(pthread_mutex_t * m, const struct timespec * t) { static int (*r)(pthread_mutex_t *, const struct timespec *); if (CTRL) { m_lock(m, kind(m) == 1); return 0; } return real(r, "pthread_mutex_timedlock")(m, t); }
int pthread_mutex_clocklock(pthread_mutex_t * m, clockid_t c, const struct timespec * t) { static int (*r)(pthread_mutex_t *, clockid_t, const struct timespec *); if (CTRL) { m_lock(m, kind(m) == 1); return 0; } return real(r, "pthread_mutex_clocklock")(m, c, t); }
int pthread_rwlock_rdlock(pthread_rwlock_t * m) { static int (*r)(pthread_rwlock_t *); if (CTRL) { m_lock(m, false, true); return 0; } return real(r, "pthread_rwlock_rdlock")(m); }
int pthread_rwlock_wrlock(pthread_rwlock_t * m) { static int (*r)(pthread_rwlock_t *); if (CTRL) { m_lock(m, false); return 0; } return real(r, "pthread_rwlock_wrlock")(m); }
int pthread_rwlock_unlock(pthread_rwlock_t * m) { static int (*r)(pthread_rwlock_t *); if (CTRL) { m_unlock(m); return 0; } return real(r, "pthread_rwlock_unlock")(m); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t * m) { static int (*r)(pthread_rwlock_t *); if (CTRL) return rw_try(m, true); return real(r, "pthread_rwlock_tryrdlock")(m); }
int pthread_rwlock_trywrlock(pthread_rwlock_t * m) { static int (*r)(pthread_rwlock_t *); if (CTRL) return rw_try(m, false); return real(r, "pthread_rwlock_trywrlock")(m); }
int pthread_once(pthread_once_t * o, void (*f)()) {   // the C++ library unwinds through here, so a throwing function leaves the flag unset
  static int (*r)(pthread_once_t *, void (*)()); if (!CTRL) return real(r, "pthread_once")(o, f);
  m_lock(o, true); struct Un { void * o; ~Un() { m_unlock(o); } } un {o}; if (*o != 2) { f(); *o = 2; } return 0; }
int pthread_cond_wait(pthread_cond_t * c, pthread_mutex_t * m) { static int (*r)(pthread_cond_t *, pthread_mutex_t *); if (CTRL_ANY) return c_wait(c, m, false); return real(r, "pthread_cond_wait")(c, m); }
int pthread_cond_timedwait(pthread_cond_t * c, pthread_mutex_t * m, const struct timespec * t) { static int (*r)(pthread_cond_t *, pthread_mutex_t *, const struct timespec *); if (CTRL_ANY) return c_wait(c, m, true); return real(r, "pthread_cond_timedwait")(c, m, t); }
int pthread_cond_clockwait(pthread_cond_t * c, pthread_mutex_t * m, clockid_t k, const struct timespec * t) { static int (*r)(pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *); if (CTRL_ANY) return c_wait(c, m, true); return real(r, "pthread_cond_clockwait")(c, m, k, t); }
int pthread_cond_signal(pthread_cond_t * c) { static int (*r)(pthread_cond_t *); if (CTRL_ANY) { c_signal(c, false); return 0; } return real(r, "pthread_cond_signal")(c); }
int pthread_cond_broadcast(pthread_cond_t * c) { static int (*r)(pthread_cond_t *); if (CTRL_ANY) { c_signal(c, true); return 0; } return real(r, "pthread_cond_broadcast")(c); }
int pthread_create(pthread_t * p, const pthread_attr_t * a, void * (*f)(void *), void * x) { static int (*r)(pthread_t *, const pthread_attr_t *, void * (*)(void *), void *); if (CTRL_ANY) return m_create(p, a, f, x); return real(r, "pthread_create")(p, a, f, x); }
int pthread_join(pthread_t p, void ** ret) { static int (*r)(pthread_t, void **); if (CTRL_ANY) { bool mine; int k = m_join(p, ret, mine); if (mine) return k; } return real(r, "pthread_join")(p, ret); }
// ---- time
int nanosleep(const struct timespec * t, struct timespec * rem) { if (CTRL_ANY) { m_sleep(t->tv_sec * 1000000000ull + t->tv_nsec); return 0; } return syscall(SYS_nanosleep, t, rem); }
int clock_nanosleep(clockid_t c, int fl, const struct timespec * t, struct timespec * rem) { if (CTRL_ANY) { m_sleep(fl ? 50000000 : t->tv_sec * 1000000000ull + t->tv_nsec); return 0; } return syscall(SYS_clock_nanosleep, c, fl, t, rem) ? errno : 0; }
int usleep(useconds_t u) { struct timespec t {(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; return nanosleep(&t, nullptr); }
unsigned sleep(unsigned s) { struct timespec t {(time_t)s, 0}; nanosleep(&t, nullptr); return 0; }
int sched_yield() { if (CTRL_ANY) { m_sleep(0); return 0; } return syscall(SYS_sched_yield); }
int clock_gettime(clockid_t c, struct timespec * t) { if (CTRL_ANY && (c == CLOCK_REALTIME || c == CLOCK_MONOTONIC)) { u64 n = now_ns(); t->tv_sec = n / 1000000000; t->tv_nsec = n % 1000000000; return 0; } return syscall(SYS_clock_gettime, c, t); }
int gettimeofday(struct timeval * t, void *) { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0; }
time_t time(time_t * p) { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); if (p) *p = s.tv_sec; return s.tv_sec; }
// ---- randomness
unsigned int _ZNSt13random_device9_M_getvalEv(void *) { return (unsigned int)rnd(); }
// ---- futures
bool _ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(void *, unsigned * a, unsigned v, bool has, long s, long ns) {
  if (!CTRL_ANY) { syscall(SYS_futex, a, FUTEX_WAIT, v, nullptr, nullptr, 0); return true; } Futex f {a, v}; if (has) { m_sleep(1000); return __atomic_load_n(a, __ATOMIC_SEQ_CST) != v; }
  block([](void * x) { auto f = (Futex *)x; return __atomic_load_n(f->a, __ATOMIC_SEQ_CST) != f->v; }, &f, a, "a future"); return true; }
void _ZNSt28__atomic_futex_unsigned_base19_M_futex_notify_allEPj(void *, unsigned * a) { if (CTRL_ANY) { event(a); return; } syscall(SYS_futex, a, FUTEX_WAKE, INT_MAX, nullptr, nullptr, 0); }
// ---- function-local statics
int __cxa_guard_acquire(long long * g) { if (__atomic_load_n((u8 *)g, __ATOMIC_ACQUIRE)) { if (CTRL) atomic_op(g, true, false, false, nullptr); return 0; } if (CTRL) { m_lock(g, true); if (*(u8 *)g) { m_unlock(g); return 0; } return 1; } return 1; }
void __cxa_guard_release(long long * g) { __atomic_store_n((u8 *)g, 1, __ATOMIC_RELEASE); if (CTRL) m_unlock(g); }
void __cxa_guard_abort(long long * g) { if (CTRL) m_unlock(g); }
// ---- memory (shadow of freed memory is forgotten)
void * __libc_malloc(size_t); void __libc_free(void *); size_t malloc_usable_size(void *);
void free(void * p) { if (p && g_active && me) { forget(p, malloc_usable_size(p)); } __libc_free(p); }
// ---- compiler instrumentation of the code under test
#define PC __builtin_return_address(0)
void __tsan_init() {} void __tsan_func_entry(void *) { mc::func_entry(PC); } void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void * p) { mc::access(p, n, false, PC); } void __tsan_write##n(void * p) { mc::access(p, n, true, PC); } void __tsan_unaligned_read##n(void * p) { mc::access(p, n, false, PC); } void __tsan_unaligned_write##n(void * p) { mc::access(p, n, true, PC); } void __tsan_volatile_read##n(void * p) { mc::access(p, n, false, PC); } void __tsan_volatile_write##n(void * p) { mc::access(p, n, true, PC); } void __tsan_read_write##n(void * p) { mc::access(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void * p, unsigned long n) { mc::access(p, n, false, PC); } void __tsan_write_range(void * p, unsigned long n) { mc::access(p, n, true, PC); }
void __tsan_vptr_update(void ** p, void *) { mc::access(p, 8, true, PC); } void __tsan_vptr_read(void ** p) { mc::access(p, 8, false, PC); }
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
static bool pt(int mo) { return mo != __ATOMIC_ACQ_REL; }   // reference counts of shared pointers are acq_rel
#define AT(bits, T) \
 T __tsan_atomic##bits##_load(const volatile T * a, int mo) { atomic_op((void *)a, true, false, true, PC); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
 void __tsan_atomic##bits##_store(volatile T * a, T v, int mo) { atomic_op((void *)a, false, true, true, PC); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##bits##_exchange(volatile T * a, T v, int mo) { atomic_op((void *)a, true, true, pt(mo), PC); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##bits##_fetch_add(volatile T * a, T v, int mo) { atomic_op((void *)a, true, true, pt(mo), PC); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##bits##_fetch_sub(volatile T * a, T v, int mo) { atomic_op((void *)a, true, true, pt(mo), PC); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##bits##_fetch_and(volatile T * a, T v, int mo) { atomic_op((void *)a, true, true, pt(mo), PC); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##bits##_fetch_or(volatile T * a, T v, int mo) { atomic_op((void *)a, true, true, pt(mo), PC); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##bits##_fetch_xor(volatile T * a, T v, int mo) { atomic_op((void *)a, true, true, pt(mo), PC); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
 int __tsan_atomic##bits##_compare_exchange_strong(volatile T * a, T * c, T v, int mo, int fmo) { atomic_op((void *)a, true, true, pt(mo), PC); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
 int __tsan_atomic##bits##_compare_exchange_weak(volatile T * a, T * c, T v, int mo, int fmo) { atomic_op((void *)a, true, true, pt(mo), PC); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##bits##_compare_exchange_val(volatile T * a, T c, T v, int mo, int fmo) { atomic_op((void *)a, true, true, pt(mo), PC); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, u8) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void * __wrap_memcpy(void * d, const void * s, size_t n) { mc::access((void *)s, n, false, PC); mc::access(d, n, true, PC); return memcpy(d, s, n); }
void * __wrap_memmove(void * d, const void * s, size_t n) { mc::access((void *)s, n, false, PC); mc::access(d, n, true, PC); return memmove(d, s, n); }
void * __wrap_memset(void * d, int c, size_t n) { mc::access(d, n, true, PC); return memset(d, c, n); }
}
