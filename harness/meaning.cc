// C30: what element tables, packages and their contributions are, in every context: whatever was computed before, in
// every thread and process, at every time, on every machine, and whatever memory held before.
#include "expect.hh"
#include "report.hh"
#include "single_curve_fp.hh"
#include <functional>
#include <malloc.h>
#include <random>
#include <sys/syscall.h>
#include <sys/utsname.h>
#include <thread>
#include <time.h>
using namespace std;
typedef unsigned int u32; typedef unsigned long long u64;
// ---- the surroundings of the process
static bool g_sim = false; static u64 g_rnd = 0, g_time = 0, g_step = 0; static int g_pid = 0; static unsigned g_cores = 1;
extern "C" {
int clock_gettime(clockid_t c, struct timespec * t) { if (!g_sim) return (int)syscall(SYS_clock_gettime, c, t); t->tv_sec = g_time / 1000000000; t->tv_nsec = g_time % 1000000000; g_time += g_step; return 0; }
time_t time(time_t * t) { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); if (t) *t = s.tv_sec; return s.tv_sec; }
int gettimeofday(struct timeval * t, void *) { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0; }
clock_t clock() { struct timespec s; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &s); return s.tv_sec * CLOCKS_PER_SEC + s.tv_nsec / 1000; }
pid_t getpid() { return g_sim && g_pid ? g_pid : (pid_t)syscall(SYS_getpid); }
int gethostname(char * n, size_t l) { snprintf(n, l, "host%d", g_pid); return 0; }
ssize_t getrandom(void * b, size_t n, unsigned f) { if (!g_sim) return syscall(SYS_getrandom, b, n, f); for (size_t i = 0; i < n; ++i) ((char *)b)[i] = (char)(g_rnd >> i % 8 * 8); return n; }
int getentropy(void * b, size_t n) { return getrandom(b, n, 0) == (ssize_t)n ? 0 : -1; }
}
std::random_device::result_type std::random_device::_M_getval() { u32 r = (u32)g_rnd; if (g_sim) g_rnd = g_rnd * 6364136223846793005ull + 1442695040888963407ull; else getrandom(&r, sizeof r, 0); return r; }
unsigned std::thread::hardware_concurrency() noexcept { return g_cores; }
// ---- what things are
struct Fld { u32 p, e; };
static u64 mix(u64 h, u64 x) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdull; }
static string table(const Fld & f) {
  FqElementTable t(f.p, f.e); u32 q = t.zero_index() + 1; u64 h = q; for (u32 i = 0; i < q; ++i) h = mix(h, glue::element(t, f.p, f.e, i)); for (u32 n = 1; n < 8; ++n) for (u32 c : t.power_coset_representatives(n)) h = mix(h, c);
  return fmt("table of %u^%u: generator %u, entries %016llx\n", f.p, f.e, glue::element(t, f.p, f.e, q > 2 ? 1 : 0), h);
}
static string few(const Fld & f, u32 g, int packages, u32 size) {   // the first packages of an enumeration that is too large
  auto t = make_shared<FqElementTable>(f.p, f.e); auto rt = make_shared<ReductionTable>(f.p, f.e); string r; int i = 0;
  for (CurveIterator it(*t, g, false, size); !it.is_end() && i < packages; it.step(), ++i) {
    auto st = create_store_factory(StoreType::EC)->create(); auto blk = it.as_block(); for (BlockIterator b(blk); !b.is_end(); b.step()) { Curve c(t, b.as_position()); if (!c.has_squarefree_rhs()) continue; c.count(rt); st->register_curve(c); }
    stringstream ss; st->insert(ss); r += fmt("%u^%u genus %u package (", f.p, f.e, g) + expect::blockstr(blk) + "): " + ss.str() + "\n"; }
  return r;
}
static string all_packages(u32 p, u32 e, u32 g, bool m, u32 k, u32 size) { auto w = expect::run(p, e, g, m, k, size, false); string r; for (auto & b : w.blocks) { r += w.name + ": (" + b + "):"; for (auto & x : w.part[b]) r += " " + x.first + ":" + res::dec(x.second); r += "\n"; } return r; }
// ---- what happened before
struct Op { string name; function<void()> f; };
static void counted(const Fld & f, vector<u32> ex, u32 k) { auto t = make_shared<FqElementTable>(f.p, f.e); u32 z = t->zero_index(); for (u32 & x : ex) x = x == 99 ? z : x % z; Curve c(t, ex); for (u32 i = k; i > 0; --i) { ReductionTable T(f.p, f.e * i); c.count(T); } c.has_squarefree_rhs(); c.ramification_type(); }
static void naive(const Fld & f) { auto t = make_shared<FqElementTable>(f.p, f.e); Curve c(t, {0, 1 % t->zero_index(), t->zero_index(), 0}); c.count_naive_nmod(f.e); Curve d(t, {0, 1 % t->zero_index(), t->zero_index(), 0}); d.count_naive_zech(f.e); }
static vector<shared_ptr<FqElementTable>> kept;
static vector<Op> operations() {
  auto tab = [](u32 p, u32 e) { return Op {fmt("table %u^%u", p, e), [=] { FqElementTable t(p, e); }}; };
  return {tab(3, 1), tab(7, 1), tab(3, 2), tab(5, 3), tab(65537, 1), tab(65539, 1), tab(110017, 1), {"kept table 65539", [] { kept.push_back(make_shared<FqElementTable>(65539, 1)); }}, {"kept table 9", [] { kept.push_back(make_shared<FqElementTable>(3, 2)); }},
    {"curve over 5^1", [] { counted({5, 1}, {0, 1, 2, 99, 0}, 3); }}, {"curve over 3^2", [] { counted({3, 2}, {1, 99, 3, 5, 99, 2, 1}, 2); }}, {"naive counts over 7", [] { naive({7, 1}); }}, {"naive counts over 3^2", [] { naive({3, 2}); }}, {"reduction table of 65539", [] { ReductionTable t(65539, 1); }}, {"curve over 65539", [] { counted({65539, 1}, {1, 2, 0, 1}, 1); }},
    {"census of F_3", [] { expect::run(3, 1, 1, true, 2, 7, false); }}, {"census of F_9", [] { expect::run(3, 2, 1, false, 1, 500, false); }},
    {"factoring random polynomials", [] { flint_rand_t s; flint_randinit(s); nmod_poly_t f; nmod_poly_init(f, 101); for (int i = 0; i < 5; ++i) { nmod_poly_randtest_irreducible(f, s, 4); nmod_poly_factor_t fac; nmod_poly_factor_init(fac); nmod_poly_factor(fac, f); nmod_poly_factor_clear(fac); } nmod_poly_clear(f); flint_randclear(s); }},
    {"random numbers", [] { srand(5); for (int i = 0; i < 7; ++i) rand(); random(); drand48(); }}, {"clean up", [] { flint_cleanup(); }}};
}
static string T1() { return table({65539, 1}) + table({3, 2}) + table({7, 1}) + few({65539, 1}, 1, 2, 2) + all_packages(3, 1, 1, true, 2, 7); }
static string T2() { return table({65537, 1}) + table({110017, 1}) + table({5, 3}) + few({65537, 1}, 1, 1, 2) + few({3, 2}, 2, 3, 3) + all_packages(3, 2, 1, true, 1, 60); }
static string root;
static string child(const function<string()> & f, string & what) { auto r = proc::in_child(root, 120, [&] { string s = f(); fwrite(s.data(), 1, s.size(), stdout); fflush(stdout); _exit(0); return 0; }); what = r.out; return r.timeout ? "does not end" : r.rc ? fmt("ends with status %d: ", r.rc) + r.err : ""; }
static string first_difference(const string & a, const string & b) { stringstream x(a), y(b); string l, m; while (getline(x, l)) { if (!getline(y, m)) return "\"" + l + "\" is missing"; if (l != m) return "\"" + l.substr(0, 300) + "\" is \"" + m.substr(0, 300) + "\" here"; } return a == b ? "" : "more than in a fresh process"; }
int main(int argc, char ** argv) {
  Report R(argc, argv); bool th = R.thorough(); root = proc::scratch(); auto ops = operations(); string w1, w2, e1 = child(T1, w1), e2 = child(T2, w2);
  if (R.begin("fresh process")) { R.eval(); R.check(e1.empty() && e2.empty(), e1 + e2); R.sample(w1.substr(0, 60)); }
  auto ask = [&](const string & what, const function<void()> & before, bool second) { string g, e = child([&] { before(); return second ? T2() : T1(); }, g); R.eval(); R.nontrivial(); R.sample(what); string d = e.empty() ? first_difference(second ? w2 : w1, g) : e; if (!d.empty()) R.violation(what + ": " + d); };
  // histories
  int depth = th ? 3 : 2; u64 A = ops.size();
  for (int l = 1; l <= depth; ++l) for (u64 c = 0; c < orc::ipow(A, l); ++c) for (int s = 0; s < 2; ++s) { string n = "after"; vector<int> q; u64 x = c; for (int i = 0; i < l; ++i) { q.push_back(x % A); n += (i ? ", " : " ") + ops[x % A].name; x /= A; } n += s ? " (second)" : " (first)"; if (!R.begin(n)) continue; R.count("histories"); ask(n, [&] { for (int i : q) ops[i].f(); }, s); }
  // surroundings
  struct Env { string name; function<void()> set; }; vector<Env> es;
  for (u64 t : {0ull, 1ull, 1000000000ull * 86400 * 365, 1700000000123456789ull, 4102444800000000001ull}) for (u64 st : {0ull, 1ull, 420000000000ull}) for (u64 r : {0ull, 1ull, 0xffffffffull, 0x123456789abcdefull}) for (int p : {2, 4711}) es.push_back({fmt("time %llu step %llu, random numbers from %llu, process %d", t, st, r, p), [=] { g_sim = true; g_time = t; g_step = st; g_rnd = r; g_pid = p; g_cores = p; }});
  for (int m : {0x01, 0x55, 0xaa, 0xff}) es.push_back({fmt("memory filled with %02x", m), [=] { mallopt(M_PERTURB, m); mallopt(M_MMAP_THRESHOLD, 1 << 30); }});
  for (const char * v : {"LANG=de_DE.UTF-8", "LC_ALL=C", "TZ=UTC-9", "HOME=/nowhere", "OMP_NUM_THREADS=5", "FLINT_NUM_THREADS=3", "PATH="}) es.push_back({string("environment ") + v, [=] { putenv(strdup(v)); setlocale(LC_ALL, ""); }});
  es.push_back({"without environment", [] { clearenv(); }}); es.push_back({"other folder", [] { if (chdir("/")) exit(9); }}); es.push_back({"stack limit", [] { struct rlimit rl { 1 << 20, 1 << 20 }; setrlimit(RLIMIT_STACK, &rl); }}); es.push_back({"many threads for FLINT", [] { flint_set_num_threads(4); }});
  for (auto & e : es) for (int s = 0; s < 2; ++s) { string n = e.name + (s ? " (second)" : " (first)"); if (!R.begin(n)) continue; R.count("surroundings"); ask(n, e.set, s); }
  // other threads: one after another and at the same time, k threads
  for (int k = 1; k <= (th ? 8 : 4); ++k) for (int par = 0; par < 2; ++par) for (int s = 0; s < 4; ++s) { string n = fmt("%d threads %s (%s)", k, par ? "at once" : "one after another", s == 0 ? "first" : s == 1 ? "second" : s == 2 ? "alternating" : "after the main thread"); if (!R.begin(n)) continue; R.count("threads"); R.eval(); R.nontrivial(); string g, e = child([&] {
      string r; if (s == 3) r = first_difference(w1, T1()); vector<string> out(k); vector<thread> ts; for (int i = 0; i < k; ++i) { ts.emplace_back([&, i] { bool b = s == 1 || (s == 2 && i % 2); out[i] = first_difference(b ? w2 : w1, b ? T2() : T1()); }); if (!par) ts.back().join(); } if (par) for (auto & t : ts) t.join(); for (int i = 0; i < k; ++i) if (r.empty() && !out[i].empty()) r = fmt("thread %d: ", i) + out[i]; return r; }, g); if (e.empty()) e = g; if (!e.empty()) R.violation(n + ": " + e); }
  proc::wipe(root); return R.finish();
}
