// C27: after every sequence of operations, repeated, memory, open files and threads are what they were before.
#include "curves.hh"
#include "results.hh"
#include "store/store_factory.hh"
#include "store/file_store.hh"
#include "single_curve_fp.hh"
#include <atomic>
#include <fstream>
#include <iostream>
#include <cerrno>
#include <cstring>
#include <sstream>
#include <sys/syscall.h>
#include <time.h>
#include <yaml-cpp/yaml.h>
using namespace std;
extern "C" int hycu_threaded_main(int, char **); extern "C" int hycu_merger_main(int, char **); extern "C" int hycu_single_main(int, char **);
// ---- the ledger: every allocation of the process
typedef unsigned int u32; typedef unsigned long long u64;
static atomic<long> blocks(0), bytes(0);
extern "C" {
void * __libc_malloc(size_t); void __libc_free(void *); void * __libc_calloc(size_t, size_t); void * __libc_realloc(void *, size_t); void * __libc_memalign(size_t, size_t);
// exact sizes: in front of every block is its size, its distance to the start of what the C library gave out, and a mark
struct Head { u32 mark, offset; u64 size; };
static const u32 MARK = 0x68796375;
static void * in(void * base, size_t offset, size_t n) { if (!base) return nullptr; char * p = (char *)base + offset; Head h {MARK, (u32)offset, n}; memcpy(p - sizeof h, &h, sizeof h); ++blocks; bytes += n; return p; }
static bool mine(void * p, Head & h) { memcpy(&h, (char *)p - sizeof h, sizeof h); return h.mark == MARK; }
void * malloc(size_t n) { return in(__libc_malloc(n + 16), 16, n); }
void free(void * p) { if (!p) return; Head h; if (!mine(p, h)) { __libc_free(p); return; } --blocks; bytes -= h.size; memset((char *)p - sizeof h, 0, sizeof h); __libc_free((char *)p - h.offset); }
void * calloc(size_t n, size_t m) { size_t k; if (__builtin_mul_overflow(n, m, &k)) { errno = ENOMEM; return nullptr; } return in(__libc_calloc(1, k + 16), 16, k); }
void * realloc(void * p, size_t n) { if (!p) return malloc(n); if (!n) { free(p); return nullptr; } Head h; if (!mine(p, h)) return __libc_realloc(p, n); void * q = malloc(n); if (!q) return nullptr; memcpy(q, p, h.size < n ? h.size : n); free(p); return q; }
void * memalign(size_t a, size_t n) { if (a < 16) a = 16; return in(__libc_memalign(a, n + a), a, n); }
void * aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void ** p, size_t a, size_t n) { void * q = memalign(a, n); if (!q) return ENOMEM; *p = q; return 0; }
// sleeping threads do not hold up the enumeration
int nanosleep(const struct timespec *, struct timespec *) { usleep(200); return 0; }
int clock_nanosleep(clockid_t, int, const struct timespec *, struct timespec *) { usleep(200); return 0; }
int usleep(useconds_t us) { static int (*r)(useconds_t) = nullptr; (void)r; struct timespec t { 0, (long)us * 1000 }; fd_set f; FD_ZERO(&f); pselect(0, &f, nullptr, nullptr, &t, nullptr); return 0; }
}
// simulated time: every look at the clock is seven minutes after the last, so that results are saved all the time
static atomic<bool> hasty(false); static atomic<long> ticks(0); static thread_local bool looks = false; static long seen[200000]; static int nseen = 0;
extern "C" int clock_gettime(clockid_t c, struct timespec * t) {
  long r = syscall(SYS_clock_gettime, c, t); if (r || !hasty || c != CLOCK_REALTIME) return (int)r;
  t->tv_sec += 420 * ++ticks; if (looks && nseen < 200000) seen[nseen++] = blocks; return 0;
}
struct Held { long blocks, bytes, fds, threads; };
static int entries(const char * d) { int n = 0; DIR * D = opendir(d); if (!D) return -1; while (dirent * e = readdir(D)) if (e->d_name[0] != '.') ++n; closedir(D); return n; }
static Held held() { flint_cleanup(); Held h; h.fds = entries("/proc/self/fd"); h.threads = entries("/proc/self/task"); h.blocks = blocks; h.bytes = bytes; return h; }
static const int TIMES = 5;
// runs f several times; what grows every time is never given back
static string repeat(const function<void()> & f) {
  Held h[TIMES + 1]; f(); f(); h[0] = held(); for (int i = 1; i <= TIMES; ++i) { f(); h[i] = held(); }
  auto grows = [&](long Held::* m) { for (int i = 1; i <= TIMES; ++i) if (h[i].*m <= h[i - 1].*m) return false; return true; };
  string r; auto say = [&](long Held::* m, const char * what) { if (grows(m)) r += (r.empty() ? "" : ", ") + fmt("%ld more %s", h[TIMES].*m - h[0].*m, what); };
  say(&Held::blocks, "blocks of memory"); say(&Held::bytes, "bytes of memory"); say(&Held::fds, "open files"); say(&Held::threads, "threads"); return r.empty() ? r : r + fmt(" held after %d repetitions", TIMES);
}
static int quiet(int (*m)(int, char **), vector<string> args) {
  stringstream o, e; auto bo = cout.rdbuf(o.rdbuf()), be = cerr.rdbuf(e.rdbuf()); vector<char *> v; for (auto & s : args) v.push_back(&s[0]); v.push_back(nullptr); int rc = -1; try { rc = m((int)args.size(), v.data()); } catch (exception & x) { e << x.what(); } cout.rdbuf(bo); cerr.rdbuf(be); if (getenv("LDBG")) { string t; for (auto & a : args) t += a + " "; fprintf(stderr, "%s rc %d %s\n", t.c_str(), rc, e.str().c_str()); } return rc;
}
// ---- objects and operations
struct World {
  u32 p, e; shared_ptr<FqElementTable> t; vector<shared_ptr<ReductionTable>> rt; shared_ptr<StoreFactoryInterface> fac; shared_ptr<StoreInterface> store; shared_ptr<Curve> c; vector<vector<u32>> polys; u32 next = 0, nb = 0; string dir; stringstream sink;
  World(u32 p, u32 e, const string & root) : p(p), e(e), t(make_shared<FqElementTable>(p, e)), dir(root + "/w") {
    for (u32 k = 1; k <= 3; ++k) rt.push_back(make_shared<ReductionTable>(p, e * k)); fac = create_store_factory(StoreType::EC); store = fac->create(); mkdir(dir.c_str(), 0755); u32 z = t->zero_index(), q = z + 1;
    polys = {{0, z, z, z, z, 0}, {z, 0, z, z, 0}, {1 % z, 0, z, 1 % z, z, z, 1 % z}, {0, z, z, 0}, {z, z, 1 % z, z, 0}}; (void)q;   // odd and even degree, not squarefree, reducible
    begin();
  }
  void begin() { next = 0; c = make_shared<Curve>(t, polys[0]); }
  ConfigNode config(const string & sub) { ConfigNode n; n.prime = p; n.prime_exponent = e; n.genus = 1; n.with_marked_point = false; n.count_exponent = 1; n.package_size = 5; n.result_path = dir + "/" + sub; mkdir((dir + "/" + sub).c_str(), 0755); return n; }
};
typedef function<void(World &)> Do; struct Op { const char * name; Do f; };
static vuu_block block(u32 i) { return {make_tuple(i, i + 1), make_tuple(0u, 3u)}; }
static const char * ENTRY = "- Prime: 7\n  PrimeExponent: 2\n  Genus: 2\n  CountExponent: 2\n  PackageSize: 10\n  ResultPath: a\n";
static vector<Op> OPS = {
  {"next-curve", [](World & w) { w.next = (w.next + 1) % w.polys.size(); w.c = make_shared<Curve>(w.t, w.polys[w.next]); }},
  {"copy", [](World & w) { w.c = make_shared<Curve>(*w.c); }},
  {"count1", [](World & w) { w.c->count(w.rt[0]); }},
  {"count2", [](World & w) { w.c->count(w.rt[1]); }},
  {"naive-nmod", [](World & w) { w.c->count_naive_nmod(w.e); }},
  {"naive-zech", [](World & w) { w.c->count_naive_zech(w.e * 2); }},
  {"squarefree", [](World & w) { w.sink.str(""); w.sink << w.c->has_squarefree_rhs(); }},
  {"ramification", [](World & w) { if (w.c->has_squarefree_rhs()) { auto r = w.c->ramification_type(); if (r.empty()) abort(); } }},
  {"offsets", [](World & w) { w.c->hasse_weil_offsets(); w.c->number_of_points(); w.c->max_prime_exponent(); }},
  {"print", [](World & w) { w.sink.str(""); w.sink << *w.c; }},
  {"support", [](World & w) { w.c->rhs_support(); w.c->rhs_coeff_exponents(); w.c->convert_poly_coeff_exponents(*w.rt[1]); w.t->power_coset_representatives(4); }},
  {"register", [](World & w) { if (w.c->has_squarefree_rhs()) { w.c->count(w.rt[0]); w.store->register_curve(*w.c); } }},
  {"write-store", [](World & w) { w.sink.str(""); w.store->insert(w.sink); }},
  {"read-store", [](World & w) { stringstream s; w.store->insert(s); w.store->extract(s); }},
  {"big-counts", [](World & w) { auto s = w.fac->create(); string t = "1,1;0:123456789012345678901234567890\n1,2;-1:-98765432109876543210987\n1,2;1:-98765432109876543210987\n"; s->extract(stringstream(t)); s->extract(stringstream(t)); w.sink.str(""); s->insert(w.sink); s->flush_to_static_store(block(1)); s->flush_static_store(); }},
  {"new-store", [](World & w) { w.store = w.fac->create(); }},
  {"flush-emit", [](World & w) { w.store->flush_to_static_store(block(w.nb++ % 7)); w.store->flush_static_store(); }},
  {"emit", [](World & w) { w.store->flush_static_store(); }},
  {"table", [](World & w) { w.t = make_shared<FqElementTable>(w.p, w.e); w.begin(); }},
  {"reduction-table", [](World & w) { w.rt[2] = make_shared<ReductionTable>(w.p, w.e * 2); w.rt[2]->compute_tables(); }},
  {"enumerate", [](World & w) { for (CurveIterator it(*w.t, 1, false, 50); !it.is_end(); it.step()) { BlockIterator b(it.as_block()); for (int i = 0; i < 60 && !b.is_end(); ++i, b.step()) b.as_position(); it.as_position(); } }},
  {"multiplicity", [](World & w) { fmpz_t f; fmpz_init(f); for (u32 p : {3u, 7u, 65537u}) for (u32 q : {p, p == 65537u ? p : p * p}) CurveIterator::multiplicity(f, p, q, {0, 3, 5, 10}); fmpz_clear(f); (void)w; }},
  {"save", [](World & w) { auto n = w.config("s"); { FileStore fs(n); fs.save(make_tuple(string("0 1 2 3 \n"), string("1,1;0:5\n"))); } proc::wipe_inside(w.dir + "/s"); }},
  {"load", [](World & w) { auto n = w.config("l"); if (proc::ls(w.dir + "/l").empty()) for (auto b : {"a", "b"}) { proc::spit(w.dir + "/l/" + b + ".hycu_record", string(b[0] == 'a' ? "0 1 2 3 \n" : "0 1 4 5 \n")); proc::spit(w.dir + "/l/" + b + ".hycu_store", "1,1;0:5\n"); } FileStore fs(n); vuu_block x {make_tuple(0u, 1u), make_tuple(2u, 3u)}; if (!fs.contains(x)) abort(); }},
  {"unwritable", [](World & w) { auto bo = cerr.rdbuf(nullptr); FileStore::write(make_tuple(string("0 1 \n"), string("1;0:5\n")), w.dir + "/none/a.hycu_record", w.dir + "/none/a.hycu_store"); cerr.rdbuf(bo); cerr.clear(); }},
  {"config", [](World & w) { auto n = YAML::Load(ENTRY); for (auto x : n) { auto k = x.as<ConfigNode>(); k.verify(); YAML::Node out; out = k; w.sink.str(""); w.sink << out; } }},
  {"bad-config", [](World &) { auto bo = cerr.rdbuf(nullptr); for (auto s : {"Prime: 7\n", "Prime: 4\nPrimeExponent: 1\nGenus: 1\nPackageSize: 1\nResultPath: a\n", "Prime: x\nPrimeExponent: 1\nGenus: 1\nPackageSize: 1\nResultPath: a\n"}) try { auto k = YAML::Load(s).as<ConfigNode>(); k.verify(); } catch (exception &) {} cerr.rdbuf(bo); cerr.clear(); }},
};
static void sequences(Report & R, const string & root, u32 p, u32 e, int depth) {
  int n = (int)OPS.size(); long total = 1; for (int i = 0; i < depth; ++i) total *= n; u32 q = (u32)orc::ipow(p, e);
  for (int first = 0; first < n; ++first) {
    if (!R.begin(fmt("q=%u^%u sequences of %d from %s", p, e, depth, OPS[first].name))) continue;
    if (q > 200) {}
    for (long s = 0; s < total / n; ++s) {
      vector<int> seq{first}; for (long x = s, i = 1; i < depth; ++i, x /= n) seq.push_back((int)(x % n));
      string why; { World w(p, e, root); why = repeat([&] { w.begin(); for (int o : seq) OPS[o].f(w); }); w.store->flush_static_store(); } proc::wipe(root + "/w");
      string t; for (int o : seq) t += string(t.empty() ? "" : ", ") + OPS[o].name; R.eval(TIMES + 2); R.nontrivial(depth > 1); R.count("sequences"); if (!why.empty()) { R.violation(t + ": " + why, "q=" + fmt("%u^%u ", p, e) + t); break; } R.sample(t);
    }
  }
}
// fields without tabulated generator
static void large(Report & R, bool th) {
  vector<u32> ps; for (u32 p = 65537; ps.size() < (th ? 24u : 10u); p += 2) { bool prime = true; for (u32 d = 3; d * d <= p; d += 2) if (p % d == 0) prime = false; if (prime) ps.push_back(p); }
  for (u32 p : ps) if (R.begin(fmt("table of F_%u", p))) { R.eval(TIMES + 2); R.nontrivial(); string r = repeat([&] { FqElementTable t(p, 1); }); if (!r.empty()) R.violation(r); }
}
// building everything from nothing
static void objects(Report & R, u32 bound) {
  for (u32 p = 3; p < bound; p += 2) { bool prime = true; for (u32 d = 3; d * d <= p; d += 2) if (p % d == 0) prime = false; if (!prime) continue;
    for (u32 e = 1, q = p; q < bound; ++e, q *= p) { if (!R.begin(fmt("objects over %u^%u", p, e))) continue; R.eval(TIMES + 2);
      string r = repeat([&] { auto t = make_shared<FqElementTable>(p, e); auto rt = make_shared<ReductionTable>(p, e); u32 z = t->zero_index(); for (auto f : vector<vector<u32>>{{0, z, 1 % z, z, z, 0}, {1 % z, 0, z, z, 0, 0, 0}}) { Curve c(t, f); c.has_squarefree_rhs(); c.count(rt); if (c.has_squarefree_rhs()) c.ramification_type(); stringstream s; s << c; } });
      if (!r.empty()) R.violation(r); R.nontrivial(e > 1); } }
}
static void programs(Report & R, const string & root, bool th) {
  auto go = [&](const string & name, const function<void()> & f) { if (!R.begin("program " + name)) return; R.eval(TIMES + 2); R.nontrivial(); string w = repeat(f); if (!w.empty()) R.violation(w); proc::wipe_inside(root); };
  auto entry = [](u32 p, u32 e, u32 g, u32 k, u32 size, const string & path) { return fmt("- Prime: %u\n  PrimeExponent: %u\n  Genus: %u\n  CountExponent: %u\n  PackageSize: %u\n  ResultPath: %s\n", p, e, g, k, size, path.c_str()); };
  auto threaded = [&](const string & yaml, int workers, bool clean) { proc::spit(root + "/c.yaml", "Moduli:\n" + yaml); string out = root + "/out"; mkdir(out.c_str(), 0755); quiet(hycu_threaded_main, {"hycu-threaded", "-n" + to_string(workers), root + "/c.yaml", out}); for (auto & d : proc::ls(out)) R.count("result_files", proc::ls(out + "/" + d).size()); if (clean) proc::wipe_inside(out); };
  for (int w = 1; w <= (th ? 4 : 3); ++w) {
    go(fmt("threaded workers=%d one modulus", w), [&] { threaded(entry(3, 1, 1, 1, 5, "a"), w, true); });
    go(fmt("threaded workers=%d three moduli", w), [&] { threaded(entry(3, 1, 1, 2, 10, "a") + entry(5, 1, 1, 1, 30, "b") + entry(3, 2, 1, 1, 1000, "c"), w, true); });
    go(fmt("threaded workers=%d nothing left to do", w), [&] { threaded(entry(3, 1, 1, 1, 5, "a"), w, false); });
  }
  // within one run that saves all the time: what is held late in the run against what was held earlier
  for (int w = 1; w <= (th ? 4 : 3); ++w) for (int g = 1; g <= 2; ++g) if (R.begin(fmt("within a run workers=%d genus=%d", w, g))) {
    R.eval(); R.nontrivial(); nseen = 0; looks = true; hasty = true; threaded(g == 1 ? entry(3, 1, 1, 1, 1, "a") : entry(3, 1, 2, 1, 3, "a"), w, true); hasty = false; looks = false;
    int n = nseen; R.count("moments_within_runs", n); if (n < 60) { if (n < 4) R.count("runs_that_did_not_look_at_the_clock"); continue; }
    long early = *max_element(seen + n / 4, seen + n / 2), late = *min_element(seen + 3 * n / 4, seen + n); if (late > early + n / 8) R.violation(fmt("%ld blocks of memory more are held at the end of the run than before its middle, %d looks at the clock, although everything finished is saved at once", late - early, n));
  }
  go("threaded bad settings", [&] { threaded(entry(4, 1, 1, 1, 5, "a"), 1, true); });
  go("merger", [&] { string in = root + "/in", out = root + "/out"; for (auto & d : {in, out}) mkdir(d.c_str(), 0755); for (int i = 0; i < 3; ++i) { proc::spit(in + fmt("/f%d.hycu_record", i), fmt("0 1 %d 9 \n", i)); proc::spit(in + fmt("/f%d.hycu_store", i), "1,1;0:5\n1,2;-1:3\n1,2;1:3\n"); } proc::spit(in + "/other.txt", "x"); quiet(hycu_merger_main, {"hycu-merger", in, out}); proc::wipe_inside(out); });
  go("merger record without store", [&] { string in = root + "/in", out = root + "/out"; for (auto & d : {in, out}) mkdir(d.c_str(), 0755); proc::spit(in + "/f.hycu_record", "0 1 \n"); quiet(hycu_merger_main, {"hycu-merger", in, out}); });
  for (auto o : {"", "--naivenmod", "--naivezech"}) for (auto & l : vector<vector<string>>{{"7", "1", "0", "0", "0", "0", "1"}, {"11", "3", "1", "0", "0", "1"}, {"9", "1", "0", "1"}, {"7", "x"}}) { vector<string> a{"hycu-single"}; if (*o) a.push_back(o); a.insert(a.end(), l.begin(), l.end()); string n; for (auto & s : a) n += s + " "; go(n, [&] { quiet(hycu_single_main, a); }); }
}
int main(int argc, char ** argv) {
  Report R(argc, argv); bool th = R.thorough(); string root = proc::scratch();
  objects(R, th ? 400 : 130); large(R, th); programs(R, root, th);
  sequences(R, root, 7, 1, 2); sequences(R, root, 3, 2, 2); sequences(R, root, 3, 1, 3); if (th) { sequences(R, root, 5, 1, 3); sequences(R, root, 3, 2, 3); sequences(R, root, 5, 2, 2); sequences(R, root, 3, 1, 4); }
  proc::wipe(root); return R.finish();
}
