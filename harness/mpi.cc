// C21: the real hycu-mpi program, every rank a thread of one controlled execution with its own copy of the code.
#include "mpi_sim.hh"
#include "fs.hh"
#include "expect.hh"
#include "watch.hh"
#include "calls.hh"
#include <exception>
#include <iostream>
#include <sys/stat.h>
#include <dlfcn.h>
#include <pthread.h>
#include <fstream>
#include <thread>
using namespace std;
static unsigned g_cores = 1;   // of the machine, for runs that do not say how many threads to use
unsigned std::thread::hardware_concurrency() noexcept { return g_cores; }
struct Mod { u32 p, e, g; bool marked; u32 k, package; string path; };
typedef vector<vector<int>> Pre;
struct Plan { vector<Mod> ms; int ranks = 2, workers = 1; sim::Sends sends = sim::BUFFERED; map<string, Pre> pre; string bad; bool old_form = false; };   // bad: a kind of invalid invocation
static string yaml(const vector<Mod> & ms) { string y = "Moduli:\n"; for (auto & m : ms) y += fmt("  - Prime: %u\n    PrimeExponent: %u\n    Genus: %u\n    WithMarkedPoint: %s\n    CountExponent: %u\n    ResultPath: %s\n    PackageSize: %u\n", m.p, m.e, m.g, m.marked ? "true" : "false", m.k, m.path.c_str(), m.package); return y; }
static map<string, expect::Run> RUNS;
static const expect::Run & want(const Mod & m) { string k = fmt("%u %u %u %d %u %u", m.p, m.e, m.g, m.marked, m.k, m.package); auto it = RUNS.find(k); if (it == RUNS.end()) it = RUNS.emplace(k, expect::run(m.p, m.e, m.g, m.marked, m.k, m.package)).first; return it->second; }
static vector<int (*)(int, char **)> mains; static string copies;
static void load(int n) {   // every rank has its own globals
  const char * so = getenv("HYCU_SO"); if (!so) { fprintf(stderr, "HYCU_SO is not set\n"); exit(3); } if (copies.empty()) copies = proc::scratch();
  while ((int)mains.size() < n) { string f = copies + fmt("/rank%zu.hycu.so", mains.size()); proc::spit(f, proc::slurp(so)); void * h = dlopen(f.c_str(), RTLD_NOW | RTLD_LOCAL); if (!h) { fprintf(stderr, "%s\n", dlerror()); exit(3); } mains.push_back((int (*)(int, char **))dlsym(h, "hycu_mpi_main")); if (!mains.back()) { fprintf(stderr, "%s\n", dlerror()); exit(3); } }
}
struct Call { int rank; vector<string> args; int rc; };
static void * rank_main(void * a) { Call & c = *(Call *)a; mc::set_tag(c.rank); vector<char *> v; for (auto & s : c.args) v.push_back((char *)s.c_str()); int n = v.size(); v.push_back(nullptr); c.rc = mains[c.rank](n, v.data()); return nullptr; }
static void prepare(const string & dir, const Plan & pl) {
  for (auto & x : pl.pre) {
    const Mod * m = nullptr; for (auto & y : pl.ms) if (y.path == x.first) { m = &y; break; }
    auto & w = want(*m); mkdir((dir + "/out").c_str(), 0755); string d = dir + "/out/" + x.first; mkdir(d.c_str(), 0755); int i = 100;
    for (auto & l : x.second) { res::Store st; string rec, s; for (int b : l) { rec += w.blocks[b] + " \n"; for (auto & y : w.part.at(w.blocks[b])) st[y.first] += y.second; } for (auto & y : st) s += y.first + ":" + res::dec(y.second) + "\n"; proc::spit(d + fmt("/%d.hycu_store", i), s); proc::spit(d + fmt("/%d.hycu_record", i), rec); ++i; }
  }
}
static string judge(const string & dir, const Plan & pl) {
  map<string, vector<Mod>> by; for (auto & m : pl.ms) by[m.path].push_back(m);
  for (auto & x : by) {
    const Mod & m = x.second[0]; auto & w = want(m); expect::Folder f; string why;
    if (!expect::read_folder(dir + "/out/" + m.path, f, why) || !expect::consistent(f, w, why) || !expect::complete(f, w, why)) return m.path + " (" + w.name + "): " + why;
    if (!f.orphans.empty()) return m.path + ": store file without a record: " + f.orphans[0];
    string ob = m.path + " pairs"; vector<string> recs; for (auto & p : f.pairs) { string r; for (auto & b : p.rec) r += "[" + b + "]"; recs.push_back(fmt("%zu", p.rec.size()) + (p.rec.size() < w.blocks.size() ? r : "")); } sort(recs.begin(), recs.end()); for (auto & r : recs) ob += " " + r; mc::observe(ob);
  }
  return "";
}
static int start(vector<Call> & cs) { int n = cs.size(); vector<pthread_t> t(n); mc::set_tag(0); for (int i = 1; i < n; ++i) pthread_create(&t[i], nullptr, rank_main, &cs[i]); rank_main(&cs[0]); for (int i = 1; i < n; ++i) pthread_join(t[i], nullptr); return 0; }
static int session(const string & dir, const Plan & pl) {
  vector<Call> cs(pl.ranks); for (int i = 0; i < pl.ranks; ++i) { cs[i].rank = i; cs[i].rc = -1; cs[i].args = {"hycu-mpi", "--nmb-threads=" + to_string(pl.workers), dir + "/c.yaml", dir + "/out"}; }
  sim::setup(pl.ranks, pl.sends, [&](int code) { return fmt("MPI_Abort(%d)", code); }); start(cs); for (auto & c : cs) if (c.rc) return c.rc; return 0;
}
static string execute(const string & dir, const Plan & pl) {
  prepare(dir, pl); string y = yaml(pl.ms); if (pl.bad == "composite") y = yaml({{4, 1, 1, true, 1, 10, "r"}}); if (pl.bad == "second") { auto v = pl.ms; v.push_back({3, 1, 0, true, 1, 10, "z"}); y = yaml(v); } if (pl.bad == "store type") y = "StoreType: XX\n" + y;
  proc::spit(dir + "/c.yaml", y); if (pl.bad == "output is a file") proc::spit(dir + "/out", "x");
  vector<Call> cs(pl.ranks);
  for (int i = 0; i < pl.ranks; ++i) { auto & c = cs[i]; c.rank = i; c.rc = -1; c.args = {"hycu-mpi", "--nmb-threads=" + to_string(pl.workers)}; if (pl.bad == "help") c.args.push_back("--help"); if (pl.bad != "no arguments") c.args.push_back(dir + (pl.bad == "no such file" ? "/d.yaml" : "/c.yaml")); if (pl.bad != "no arguments" && pl.bad != "no output path") c.args.push_back(dir + "/out"); }
  bool valid = pl.bad.empty() || pl.bad == "help";
  sim::setup(pl.ranks, pl.sends, [&](int code) -> string { if (valid) return fmt("MPI_Abort(%d) in a valid run", code); return code ? "" : "MPI_Abort(0) for an invalid call"; });
  mc::direct([&] { return start(cs); });
  string st; for (auto & c : cs) st += fmt(" %d", c.rc);
  if (!sim::all_finalized()) return "MPI_Finalize was not called by every process; exit status" + st;
  string u = sim::undelivered(); if (!u.empty()) return "messages nobody received:" + u;
  if (!valid) { if (!cs[0].rc) return "an invalid call (" + pl.bad + ") ends with exit status 0"; if (pl.bad == "second") return judge(dir, pl); return ""; }
  for (auto & c : cs) if (c.rc) return "exit status of the processes:" + st;
  if (pl.bad == "help") return ""; return judge(dir, pl);
}
static string title(const Plan & pl) {
  string r = fmt("ranks=%d workers=%d%s %s", pl.ranks, pl.workers, pl.workers < 0 ? fmt(" cores=%u", g_cores).c_str() : "", pl.sends == sim::BUFFERED ? "buffered" : pl.sends == sim::SYNCHRONOUS ? "synchronous" : "buffered or synchronous"); for (auto & m : pl.ms) r += fmt("; %u^%u g%u%s x%u /%u -> %s", m.p, m.e, m.g, m.marked ? "m" : "", m.k, m.package, m.path.c_str());
  for (auto & x : pl.pre) { r += "; " + x.first + " has"; for (auto & l : x.second) r += " {" + str(l) + "}"; } if (!pl.bad.empty()) r += "; " + pl.bad; return r;
}
static Mod small(string path = "r") { return {3, 1, 1, true, 1, 10, path}; }
static Plan left(int packages, int ranks, int workers, sim::Sends s) { Plan pl; Mod m = small(); int n = (int)want(m).blocks.size(); pl.ms = {m}; pl.ranks = ranks; pl.workers = workers; pl.sends = s; if (packages < n) { vector<int> l; for (int i = packages; i < n; ++i) l.push_back(i); pl.pre["r"] = {l}; } return pl; }
static bool run(Report & R, const Plan & pl, mc::Options o) {
  for (auto & m : pl.ms) want(m); load(pl.ranks);
  return mc::explore(R, {title(pl) + fmt("; bound %d%s%s%s", o.bound, o.free_blocking ? "+" : "", o.spurious ? " spurious" : "", o.jumps ? fmt(" jumps %d", o.jumps).c_str() : "") + (o.slow ? fmt(" slow %x %d", o.slow, o.slow_polls) : ""), [=](const string & dir) { return execute(dir, pl); }}, o);
}
static mc::Options opts(int bound, int spurious = 0, int jumps = 0, bool free_blocking = false) { mc::Options o; o.bound = bound; o.spurious = spurious; o.jumps = jumps; o.free_blocking = free_blocking; return o; }
// ---- C21
static void protocol(Report & R, bool th) {
  using namespace sim;
  for (auto s : {BUFFERED, SYNCHRONOUS}) {
    run(R, left(0, 2, 1, s), opts(th ? 8 : 3, 1)); run(R, left(1, 2, 1, s), opts(th ? 5 : 2, 1)); run(R, left(2, 2, 1, s), opts(th ? 4 : 2)); run(R, left(3, 2, 1, s), opts(th ? 4 : 2, 0, th ? 1 : 0));
    run(R, left(1, 1, 1, s), opts(th ? 8 : 4)); run(R, left(2, 1, 2, s), opts(th ? 4 : 2, 0, 1)); run(R, left(5, 2, 2, s), opts(th ? 2 : 1, 0, 1)); run(R, left(5, 2, 1, s), opts(2, 0, th ? 2 : 1));
    run(R, left(2, 3, 1, s), opts(th ? 3 : 1)); run(R, left(5, 3, 1, s), opts(th ? 2 : 1, 0, 1)); run(R, left(5, 3, 2, s), opts(th ? 2 : 1)); run(R, left(4, 2, 3, s), opts(1)); if (th || s == BUFFERED) run(R, left(2, 2, 1, s), opts(1, 0, 0, true));
    if (th) { run(R, left(5, 4, 1, s), opts(2)); run(R, left(5, 4, 2, s), opts(1, 0, 1)); run(R, left(5, 3, 3, s), opts(1)); }
    for (const char * b : {"help", "no arguments", "no output path", "no such file", "store type", "composite", "second"}) for (int k = 1; k <= 3; ++k) { Plan pl = left(5, k, 1, s); pl.bad = b; run(R, pl, opts(th ? 3 : 1)); }
    for (int w : {0, -1}) for (int c = 0; c <= (w ? 2 : 0); ++c) { g_cores = c; Plan pl = left(3, 2, w, s); run(R, pl, opts(th ? 2 : 1)); }
    // several moduli
    Plan pl; pl.sends = s; pl.ms = {small("r"), {5, 1, 1, true, 1, 10, "s"}}; for (int k = 1; k <= 3; ++k) { pl.ranks = k; run(R, pl, opts(th ? 2 : 1, 0, 1)); }
    pl.ranks = 2; pl.workers = 2; pl.ms = {small("r"), {3, 1, 1, true, 2, 10, "s"}, {3, 2, 1, true, 1, 40, "t"}}; run(R, pl, opts(th ? 1 : 0, 0, 1)); pl.ms = {small("r"), {3, 1, 1, true, 1, 2, "s"}, small("r")}; run(R, pl, opts(th ? 1 : 0, 0, 1));
  }
  run(R, left(1, 2, 1, EITHER), opts(th ? 3 : 2)); run(R, left(3, 2, 1, EITHER), opts(th ? 3 : 2)); run(R, left(3, 3, 1, EITHER), opts(1)); run(R, left(5, 2, 2, EITHER), opts(1));
  // every subset of packages recorded before
  Mod m = small(); int n = want(m).blocks.size(); for (int x = 0; x < 1 << n; ++x) { Plan pl; pl.ms = {m}; pl.ranks = 2 + x % 2; pl.workers = 1 + x / 2 % 2; pl.sends = x / 4 % 2 ? SYNCHRONOUS : BUFFERED; vector<int> l; for (int i = 0; i < n; ++i) if (x >> i & 1) l.push_back(i); pl.pre["r"] = {l}; run(R, pl, opts(th ? 1 : 0)); }
}
static void races(Report & R, bool th) {
  using namespace sim;
  auto go = [&](const Plan & pl, mc::Options o) { o.races = true; run(R, pl, o); };
  go(left(1, 2, 1, BUFFERED), opts(th ? 4 : 2)); go(left(3, 2, 1, BUFFERED), opts(th ? 3 : 2, 0, 1)); go(left(5, 2, 2, SYNCHRONOUS), opts(th ? 2 : 1, 0, 1)); go(left(5, 3, 1, BUFFERED), opts(th ? 2 : 1)); if (th) go(left(5, 3, 2, BUFFERED), opts(1, 0, 1));
  Plan pl; pl.ms = {small("r"), {5, 1, 1, true, 1, 10, "s"}}; pl.workers = 1; go(pl, opts(th ? 2 : 1, 0, 1));
}
// ---- C15: the saved pairs of every process, whenever the periodic save fires and whichever workers are slow
static void saves(Report & R, bool th) {
  using namespace sim;
  for (auto s : {BUFFERED, SYNCHRONOUS}) {
    run(R, left(5, 2, 1, s), opts(th ? 4 : 2, 0, 2)); run(R, left(5, 3, 1, s), opts(th ? 3 : 2, 0, 1)); run(R, left(5, 2, 2, s), opts(th ? 2 : 1, 0, 1));
    Plan pl; pl.sends = s; pl.ranks = 2; pl.ms = {small("r"), {3, 1, 1, false, 1, 10, "u"}, small("r")}; run(R, pl, opts(th ? 2 : 1, 0, 1));
    for (int r = 2; r <= (th ? 8 : 6); ++r) for (u32 m = 1; m < 1u << r; ++m) for (int polls : {2, 8}) { Plan q; q.sends = s; q.ranks = r; q.ms = {{3, 1, 1, false, 1, r < 4 ? 10u : 3u, "u"}, small("r")}; if (r > 4 && !th && (m & (m - 1))) { u32 c = (1u << r) - 1 - m; if (c & (c - 1)) continue; } auto o = opts(r < 4 && polls > 2 || th && r < 5 ? 1 : 0, 0, 1); o.watch = true; o.slow = m; o.slow_polls = polls; run(R, q, o); }
  }
}
// ---- C16: all processes of a run are killed, and the run is started again
static string crash(const string & dir, const Plan & pl, const fsx::Faults & f, int kills) {
  fsx::set_budget(kills); prepare(dir, pl); proc::spit(dir + "/c.yaml", yaml(pl.ms)); int rc, n = 0;
  do { rc = mc::program([&] { fsx::control(dir, f); return session(dir, pl); }); mc::mix_state(fsx::spent()); } while (rc == 137 && ++n < 9);
  if (rc) return fmt("a run after %d kills ends with status %d", n, rc);
  for (auto & m : pl.ms) { expect::Folder fo; string why; auto & w = want(m); if (!expect::read_folder(dir + "/out/" + m.path, fo, why) || !expect::consistent(fo, w, why) || !expect::complete(fo, w, why)) return fmt("after %d kills: ", n) + m.path + ": " + why; }
  return "";
}
static void crashes(Report & R, bool th) {
  using namespace sim;
  auto go = [&](Plan pl, int kills, mc::Options o) { for (auto & m : pl.ms) want(m); load(pl.ranks); fsx::Faults f; f.kill = true; f.torn = th ? 12 : 3; mc::explore(R, {title(pl) + fmt("; %d kills; bound %d jumps %d", kills, o.bound, o.jumps), [=](const string & dir) { return crash(dir, pl, f, kills); }}, o); };
  go(left(1, 2, 1, BUFFERED), th ? 2 : 1, opts(th ? 2 : 1)); go(left(3, 2, 1, BUFFERED), 1, opts(th ? 2 : 1)); go(left(5, 2, 1, BUFFERED), 1, opts(th ? 3 : 2, 0, 1)); go(left(5, 3, 1, BUFFERED), 1, opts(th ? 2 : 1));
}
// ---- C26, C28
static vector<long> positions(const Plan & pl) { vector<long> r; long n = 0; for (auto & m : pl.ms) { auto & w = want(m); set<int> skip; auto it = pl.pre.find(m.path); if (it != pl.pre.end()) for (auto & l : it->second) for (int b : l) skip.insert(b); for (size_t i = 0; i < w.sizes.size(); ++i) if (!skip.count(i)) n += w.sizes[i]; r.push_back(n); } return r; }
static bool follow(Report & R, const Plan & pl, mc::Options o, bool idling, bool saving, int together, int later, u32 seconds = 0) {
  load(pl.ranks); o.watch = true; o.concurrency = together; o.concurrency_later = later; o.position_ns = seconds * 1000000000ull; auto ends = positions(pl); long total = ends.back(); int package = 0; for (auto & m : pl.ms) for (auto s : want(m).sizes) package = max<int>(package, s); int workers = pl.ranks * pl.workers, first = workers * package;
  return mc::explore(R, {title(pl) + fmt("; bound %d%s%s", o.bound, o.holds_only ? " holds" : o.slow ? fmt(" slow %x %d", o.slow, o.slow_polls).c_str() : "", saving ? fmt(" position %us", seconds).c_str() : ""), [=](const string & dir) {
    mc::watch.after = first; watch::Monitor m; m.total = total; m.ends = ends; m.package = package; m.workers = workers; m.idling = idling; m.grace = 1; m.saving = saving; m.position_ns = seconds * 1000000000ull; m.folder = dir + "/out/" + pl.ms[0].path; m.start(); string r = execute(dir, pl); return r.empty() ? m.verdict() : r; }}, o);
}
static void share(Report & R, bool th) {
  using namespace sim; auto all = [&](const Plan & pl, bool later) { int w = pl.ranks * pl.workers; auto o = opts(w - 1 + th); o.holds_only = true; follow(R, pl, o, true, false, w, later ? w : 0); };
  auto go = [&](const Plan & pl, int bound) { follow(R, pl, opts(bound), true, false, 0, 0); };
  for (auto s : {BUFFERED, SYNCHRONOUS}) { go(left(5, 2, 1, s), th ? 2 : 1); go(left(5, 2, 2, s), 1); if (th) go(left(5, 3, 1, s), 1); Plan pu; pu.sends = s; pu.ms = {{3, 1, 1, true, 1, 1, "r"}}; pu.ranks = 3; go(pu, th ? 1 : 0); pu.workers = 2; go(pu, th ? 1 : 0);
    // slower workers, and workers that were idle at the end of a modulus
    auto slow = [&](const Plan & pl, u32 mask, int bound) { auto o = opts(bound); o.slow = mask; follow(R, pl, o, true, false, 0, 0); };
    for (int r = 2; r <= 3; ++r) for (int w = 1; w <= 2; ++w) { Plan q; q.sends = s; q.ranks = r; q.workers = w; for (u32 m = 1; m < 1u << r * w; ++m) { q.ms = {{3, 1, 1, false, 1, 3, "u"}}; slow(q, m, 0); }
      q.ms = {{3, 1, 1, true, 1, 30, "r"}, {3, 1, 1, false, 1, 3, "u"}}; go(q, th ? 1 : 0); q.ms = {{3, 1, 1, true, 1, 100, "r"}, {3, 1, 1, true, 1, 100, "s"}, {3, 1, 1, false, 1, 3, "u"}}; go(q, th ? 1 : 0); }
    for (int r = 1; r <= 5; ++r) all(left(r, r, 1, s), false); all(left(2, 1, 2, s), false); all(left(4, 2, 2, s), false); if (th) all(left(4, 1, 4, s), false);
    Plan pl; pl.sends = s; pl.ms = {{3, 1, 1, false, 1, 3, "u"}}; for (int r = 1; r <= 4; ++r) for (int w = 1; r * w <= (th ? 6 : 4); ++w) { pl.ranks = r; pl.workers = w; all(pl, true); }
    pl.ms[0].package = 1; pl.ranks = 3; pl.workers = 2; { auto o = opts(th ? 2 : 1); o.holds_only = true; follow(R, pl, o, true, false, 0, 0); } }
}
static void periodic(Report & R, bool th) {
  using namespace sim; auto go = [&](const Mod & m, int ranks, int w, u32 seconds, int bound, Sends s) { Plan pl; pl.ms = {m}; pl.ranks = ranks; pl.workers = w; pl.sends = s; follow(R, pl, opts(bound), false, true, 0, 0, seconds); };
  Mod a = small(), s {5, 1, 1, true, 1, 2, "s"}; a.package = 1; go(a, 1, 1, 100, th ? 3 : 1, BUFFERED); go(a, 2, 1, 100, 1, BUFFERED); go(a, 2, 1, 60, th ? 1 : 0, SYNCHRONOUS); go(a, 3, 1, 100, th ? 1 : 0, BUFFERED); go(s, 2, 1, 40, 1, BUFFERED);
  // some of the workers take much longer for every package than the others
  auto slow = [&](int ranks, int w, u32 mask, int polls, u32 seconds, Sends sends) { Plan pl; pl.ms = {{3, 1, 1, false, 1, 1, "u"}}; pl.ranks = ranks; pl.workers = w; pl.sends = sends; auto o = opts(0); o.slow = mask; o.slow_polls = polls; follow(R, pl, o, false, true, 0, 0, seconds); };
  for (int r = 2; r <= (th ? 4 : 3); ++r) for (int w = 1; w <= 2; ++w) for (u32 all = (1u << r * w) - 1, m = 1; m < all; ++m) if (th || r * w <= 4 || !(m & (m - 1)) || !((all ^ m) & ((all ^ m) - 1))) for (int polls : {8, 30}) slow(r, w, m, polls, 100, BUFFERED);
}
// ---- C29: command lines, configurations and output paths of the MPI program; the job ends when a process aborts or does not return
static struct { string what; int ok; map<string, string> before, all; bool help; string where; } g_call;   // ok: see calls::Kind
static string judge_call(int rc, const string & how) {
  auto & g = g_call; cout.flush(); fflush(stdout); struct stat st; bool message = !fstat(2, &st) && st.st_size > 0; string e;
  auto refused = [&] { return !rc ? string("ends with exit status 0, although it cannot be carried out") : !message ? "ends without any message" : calls::differ(g.before, calls::tree(false)); };
  if (g.help) e = rc ? "asks for help and ends with" + how : !message ? "prints no help" : calls::differ(g.all, calls::tree(true));
  else if (g.ok == 1) e = rc ? "ends with" + how : calls::census(g.where); else if (g.ok == 0) e = refused();
  else if (g.ok == 3) { string why; expect::Folder f; string w = calls::root + "/out/r"; if (!rc) e = "ends with exit status 0"; else if (proc::is_dir(w) && (!expect::read_folder(w, f, why) || !expect::consistent(f, calls::W, why))) e = why; } else if (rc) e = refused();
  return e.empty() ? e : g.what + ": " + e;
}
static string one_call(const string & dir, int ranks, sim::Sends sends, const vector<string> & args) {
  string w = "hycu-mpi"; for (auto & a : args) w += " " + a; g_call.what = w + (g_call.what.empty() ? "" : "; " + g_call.what); if (chdir(dir.c_str())) return "chdir"; g_call.before = calls::tree(false); g_call.all = calls::tree(true);
  set_terminate([] { string m = " an exception"; try { if (auto e = current_exception()) rethrow_exception(e); } catch (exception & e) { m += string(": ") + e.what(); } catch (...) {} fprintf(stderr, "terminated by%s\n", m.c_str()); mc::complete([&] { return judge_call(134, m); }); });
  vector<Call> cs(ranks); for (int i = 0; i < ranks; ++i) { cs[i].rank = i; cs[i].rc = -1; cs[i].args = {"hycu-mpi"}; for (auto & a : args) cs[i].args.push_back(a); }
  sim::setup(ranks, sends, [&](int code) { return judge_call(code, fmt(" MPI_Abort(%d)", code)); }); mc::direct([&] { return start(cs); });
  if (!sim::all_finalized()) return g_call.what + ": MPI_Finalize was not called by every process"; string u = sim::undelivered(); if (!u.empty()) return g_call.what + ": messages nobody received:" + u;
  int rc = 0; string how = " status"; for (auto & c : cs) { how += fmt(" %d", c.rc); if (c.rc) rc = c.rc; } return judge_call(rc, how);
}
static void command_lines(Report & R, bool th) {
  using namespace calls; using sim::BUFFERED; W = expect::run(3, 1, 1, true, 1, 10); load(3); auto cs = configurations(), os = outputs(); auto o = opts(0); (void)th;
  Spec T {"mpi", nullptr, {{"help", 'h', 0}, {"config-file", 'c', 's'}, {"output-path", 0, 's'}, {"nmb-threads", 'n', 'i'}, {"nmb-threads-per-gpu", 'g', 'u'}}, {"config-file", "output-path"}, "", {"cfg", "out", "new/er", "f", "missing", "-n1", "-n", "2", "-nx", "-c", "--output-path=out", "--help", "--unknown", "-g0", "--"}};
  auto pick = [](size_t n, const char * w) { return (size_t)mc::choose((int)n, 0, w); };
  for (int k = 1; k <= 3; ++k) for (auto s : {BUFFERED, sim::SYNCHRONOUS}) {
    for (int l = 0; l <= (th ? 4 : k < 3 ? 3 : 2); ++l) mc::explore(R, {fmt("ranks=%d %s: %d arguments", k, s == BUFFERED ? "buffered" : "synchronous", l), [=](const string & dir) -> string {
      root = dir; build(); vector<string> t; for (int i = 0; i < l; ++i) t.push_back(T.tokens[pick(T.tokens.size(), "argument")]); Args a; Parse pr = parse(T, t, a); if (pr == UNCLEAR) return "";
      g_call.what = ""; g_call.help = pr == GOOD && a.count("help"); bool ok = pr == GOOD && a.count("config-file") && a.count("output-path"); if (ok) { string c = abs(a["config-file"][0]), o = abs(a["output-path"][0]); ok = c == root + "/cfg" && o != root + "/f" && o != root + "/cfg"; g_call.ok = ok; g_call.where = o + "/r"; } else g_call.ok = 0;
      return one_call(dir, k, s, t); }}, o);
    mc::explore(R, {fmt("ranks=%d %s: configurations and output paths", k, s == BUFFERED ? "buffered" : "synchronous"), [=](const string & dir) -> string {
      root = dir; build(); auto & c = cs[pick(cs.size(), "configuration")]; auto & u = os[pick(os.size(), "output")]; c.make(); u.make(); g_call.help = false; g_call.where = root + "/out/r"; g_call.what = "configuration: " + c.name + "; output: " + u.name; g_call.ok = c.ok == 0 ? 0 : c.ok == 2 ? 2 : u.ok == 0 ? 0 : u.ok == 2 ? 2 : c.ok;
      return one_call(dir, k, s, {"-n1", "cfg", "out"}); }}, o);
  }
}
int main(int argc, char ** argv) {
  Report R(argc, argv); bool th = R.thorough(); mc::model_object(".hycu.so"); using namespace sim;
  static struct Rm { pid_t p = getpid(); ~Rm() { if (!copies.empty() && getpid() == p) proc::wipe(copies); } } rm;
  if (R.mode == "try") { mc::Options o; o.bound = atoi(getenv("B")); o.free_blocking = getenv("F"); o.spurious = getenv("S") ? 1 : 0; o.jumps = getenv("J") ? atoi(getenv("J")) : 0; o.races = getenv("RACES"); Plan pl = left(atoi(getenv("N")), atoi(getenv("K")), atoi(getenv("W")), (Sends)atoi(getenv("M"))); if (getenv("BAD")) pl.bad = getenv("BAD"); run(R, pl, o); return R.finish(); }
  if (R.mode == "protocol") protocol(R, th);
  if (R.mode == "races") races(R, th);
  if (R.mode == "crash") crashes(R, th);
  if (R.mode == "share") share(R, th);
  if (R.mode == "periodic") periodic(R, th); if (R.mode == "saves") saves(R, th);
  if (R.mode == "calls") command_lines(R, th);
  return R.finish();
}
