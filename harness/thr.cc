// C13 C14 C15 C18 C20: the real hycu-threaded program under the controlled scheduler.
#include "mc.hh"
#include "expect.hh"
#include "watch.hh"
#include <thread>
using namespace std;
extern "C" int hycu_threaded_main(int, char **);

static unsigned g_cores = 1;   // of the machine, for runs that do not say how many threads to use
unsigned std::thread::hardware_concurrency() noexcept { return g_cores; }
struct Mod { u32 p, e, g; bool marked; u32 k, package; string path; };
typedef vector<vector<int>> Pre;   // blocks recorded by earlier runs: one list per record file
struct Plan { vector<Mod> ms; int workers; map<string, Pre> pre; vector<int> runs; int extra = 0; };   // runs: lengths of the prefixes of the list that are run one after another
static string yaml(const vector<Mod> & ms) { string y = "Moduli:\n"; for (auto & m : ms) y += fmt("  - Prime: %u\n    PrimeExponent: %u\n    Genus: %u\n    WithMarkedPoint: %s\n    CountExponent: %u\n    ResultPath: %s\n    PackageSize: %u\n", m.p, m.e, m.g, m.marked ? "true" : "false", m.k, m.path.c_str(), m.package); return y; }
static map<string, expect::Run> RUNS;
static const expect::Run & want(const Mod & m) { string k = fmt("%u %u %u %d %u %u", m.p, m.e, m.g, m.marked, m.k, m.package); auto it = RUNS.find(k); if (it == RUNS.end()) it = RUNS.emplace(k, expect::run(m.p, m.e, m.g, m.marked, m.k, m.package)).first; return it->second; }
static void prepare(const string & dir, const Plan & pl) {
  for (auto & x : pl.pre) {
    const Mod * m = nullptr; for (auto & y : pl.ms) if (y.path == x.first) { m = &y; break; }
    auto & w = want(*m); mkdir((dir + "/out").c_str(), 0755); string d = dir + "/out/" + x.first; mkdir(d.c_str(), 0755); int i = 100;
    for (auto & l : x.second) {
      res::Store st; string rec, s; for (int b : l) { rec += w.blocks[b] + " \n"; for (auto & y : w.part.at(w.blocks[b])) st[y.first] += y.second; } for (auto & y : st) s += y.first + ":" + res::dec(y.second) + "\n";
      proc::spit(d + fmt("/%d.hycu_store", i), s); proc::spit(d + fmt("/%d.hycu_record", i), rec); ++i;
    }
    // files that are not records, listing packages that are not recorded: bit mask
    string all; for (auto & b : w.blocks) all += b + " \n"; string fake = "1;0:7\n";
    if (pl.extra & 1) proc::spit(d + "/7.hycu_store", fake); if (pl.extra & 2) proc::spit(d + "/8.hycu_record.tmp", all), proc::spit(d + "/8.hycu_store.tmp", fake); if (pl.extra & 4) proc::spit(d + "/hycu_record", all), proc::spit(d + "/9.hycu_recordx", all), proc::spit(d + "/9.txt", all);
    if (pl.extra & 8) { mkdir((d + "/sub").c_str(), 0755); proc::spit(d + "/sub/1.hycu_record", all); proc::spit(d + "/sub/1.hycu_store", fake); mkdir((d + "/dir.hycu_record").c_str(), 0755); proc::spit(d + "/dir.hycu_record/1.hycu_record", all); }
  }
}
static int call(const string & dir, const vector<Mod> & ms, int workers, bool one) {
  proc::spit(dir + "/c.yaml", yaml(ms));
  auto f = [&] { string n = workers < 0 ? fmt("--nmb-threads=%d", workers) : "-n" + to_string(workers), c = dir + "/c.yaml", o = dir + "/out"; char * a[] = {(char *)"hycu-threaded", (char *)n.c_str(), (char *)c.c_str(), (char *)o.c_str(), nullptr}; return hycu_threaded_main(4, a); };
  return one ? mc::direct(f) : mc::program(f);
}
static string check(const string & dir, const vector<Mod> & ms, int rc, int extra) {
  if (rc) return fmt("exit status %d", rc);
  map<string, vector<Mod>> by; for (auto & m : ms) by[m.path].push_back(m);
  for (auto & x : by) {
    const Mod & m = x.second[0]; auto & w = want(m); expect::Folder f; string why;
    if (extra & 8) rename((dir + "/out/" + m.path + "/dir.hycu_record").c_str(), (dir + "/out/" + m.path + "/dir").c_str());
    if (!expect::read_folder(dir + "/out/" + m.path, f, why) || !expect::consistent(f, w, why) || !expect::complete(f, w, why)) return m.path + " (" + w.name + "): " + why;
    string ob = m.path + " pairs"; vector<string> recs; for (auto & p : f.pairs) { string r; for (auto & b : p.rec) r += "[" + b + "]"; recs.push_back(fmt("%zu", p.rec.size()) + (p.rec.size() < w.blocks.size() ? r : "")); } sort(recs.begin(), recs.end()); for (auto & r : recs) ob += " " + r; mc::observe(ob);
    if (extra & 1) f.orphans.erase(remove(f.orphans.begin(), f.orphans.end(), "7.hycu_store"), f.orphans.end());
    if (!f.orphans.empty()) return m.path + ": store file without a record: " + f.orphans[0];
  }
  return "";
}
static string execute(const string & dir, const Plan & pl) {
  prepare(dir, pl); bool one = pl.runs.size() <= 1; if (pl.runs.empty()) return check(dir, pl.ms, call(dir, pl.ms, pl.workers, true), pl.extra);
  for (int n : pl.runs) { vector<Mod> ms(pl.ms.begin(), pl.ms.begin() + n); string r = check(dir, ms, call(dir, ms, pl.workers, one), pl.extra); if (!r.empty()) return fmt("after the run over the first %d moduli: ", n) + r; }
  return "";
}
static string title(const Plan & pl) {
  string r = fmt("workers=%d", pl.workers); for (auto & m : pl.ms) r += fmt("; %u^%u g%u%s x%u /%u -> %s", m.p, m.e, m.g, m.marked ? "m" : "", m.k, m.package, m.path.c_str());
  for (auto & x : pl.pre) { r += "; " + x.first + " has"; for (auto & l : x.second) r += " {" + str(l) + "}"; } if (!pl.runs.empty()) r += "; runs " + str(pl.runs); if (pl.extra) r += fmt("; other files %d", pl.extra); return r;
}
// q=3, genus 1, marked, package size 10: five packages; all but the given number recorded before
static Mod small(string path = "r") { return {3, 1, 1, true, 1, 10, path}; }
static Plan left(int packages, int workers) { Plan pl; Mod m = small(); int n = (int)want(m).blocks.size(); pl.ms = {m}; pl.workers = workers; if (packages < n) { vector<int> l; for (int i = packages; i < n; ++i) l.push_back(i); pl.pre["r"] = {l}; } return pl; }
static bool run(Report & R, const Plan & pl, mc::Options o) {
  for (auto & m : pl.ms) want(m);
  return mc::explore(R, {title(pl) + fmt("; bound %d%s%s%s", o.bound, o.free_blocking ? "+" : "", o.spurious ? " spurious" : "", o.jumps ? fmt(" jumps %d", o.jumps).c_str() : ""), [=](const string & dir) { return execute(dir, pl); }}, o);
}

static mc::Options opts(int bound, int spurious = 0, int jumps = 0, bool free_blocking = false) { mc::Options o; o.bound = bound; o.spurious = spurious; o.jumps = jumps; o.free_blocking = free_blocking; return o; }
// ---- C13: termination and exact census in every schedule
static void termination(Report & R, bool th) {
  run(R, left(0, 1), opts(20, 1)); run(R, left(0, 2), opts(th ? 8 : 4, 1)); run(R, left(1, 1), opts(20, 1)); run(R, left(2, 1), opts(th ? 20 : 6, 1));
  run(R, left(1, 2), opts(th ? 5 : 3, 1)); run(R, left(2, 2), opts(th ? 4 : 2, 1)); run(R, left(3, 2), opts(th ? 4 : 2, 1)); run(R, left(2, 3), opts(th ? 3 : 2, 1)); run(R, left(5, 2), opts(th ? 3 : 2)); run(R, left(5, 3), opts(2));
  run(R, left(2, 2), opts(th ? 3 : 2, 0, 0, true)); run(R, left(3, 2), opts(th ? 2 : 1, 0, 0, true)); run(R, left(4, 4), opts(th ? 2 : 1));
  if (th) { run(R, left(3, 1), opts(8, 1)); run(R, left(3, 3), opts(3)); run(R, left(2, 2), opts(3, 2, 1)); run(R, left(5, 1), opts(6)); }
  // no number of threads, or none at all: as many as there are cores, and at least one
  for (int c : {0, 1, 2, 3}) for (int w : {0, -1, -7}) { Plan pl = left(3, w); Plan two = pl; g_cores = c; auto o = opts(w && c > 1 ? 1 + th : 2); two.ms.push_back({5, 1, 1, true, 1, 10, "s"}); for (auto & m : two.ms) want(m);
    for (auto & x : {pl, two}) { mc::explore(R, {title(x) + fmt("; %d cores; bound %d", c, o.bound), [=](const string & dir) { g_cores = c; return execute(dir, x); }}, o); if (w == -7) break; } }
  // many workers
  for (int w : {8, 9, 16, 17, 28}) { Plan q; q.ms = {{3, 1, 1, false, 1, 3, "u"}, small("r")}; q.workers = w; run(R, q, opts(th && w < 17 ? 1 : 0)); run(R, left(5, w), opts(th && w < 17 ? 1 : 0)); }
  // two moduli: the workers wait, work and wait again; saves in between
  Plan pl; pl.ms = {small("r"), {5, 1, 1, true, 1, 10, "s"}}; for (int w = 1; w <= 2; ++w) { pl.workers = w; run(R, pl, opts(th ? 3 : w == 1 ? 2 : 1, 1, w == 1)); }
}
// ---- C14: no unordered conflicting accesses
static void races(Report & R, bool th) {
  auto go = [&](const Plan & pl, mc::Options o) { o.races = true; run(R, pl, o); };
  go(left(0, 2), opts(3)); go(left(1, 2), opts(th ? 4 : 2)); go(left(2, 2), opts(th ? 4 : 3, 1)); go(left(3, 2), opts(th ? 4 : 2, 0, 1)); go(left(3, 3), opts(th ? 3 : 2)); go(left(5, 2), opts(th ? 3 : 2, 0, 1)); go(left(5, 3), opts(th ? 3 : 1, 0, 1)); go(left(2, 2), opts(th ? 2 : 1, 0, 0, true));
  Plan pl; pl.ms = {small("r"), {5, 1, 1, true, 1, 10, "s"}}; pl.workers = 2; go(pl, opts(th ? 3 : 2, 0, 1)); pl.ms = {small("r"), {3, 1, 1, true, 2, 10, "s"}, small("r")}; go(pl, opts(th ? 2 : 1, 0, 1));
}
// ---- C15: every saved pair is consistent, whenever the periodic save fires
static void saves(Report & R, bool th) {
  run(R, left(3, 1), opts(th ? 5 : 3, 0, 2)); run(R, left(5, 1), opts(th ? 5 : 3, 0, 3)); run(R, left(2, 2), opts(th ? 4 : 3, 0, 1)); run(R, left(3, 2), opts(th ? 4 : 2, 0, 2)); run(R, left(5, 2), opts(th ? 3 : 2, 0, 2)); run(R, left(5, 3), opts(th ? 3 : 2, 0, 2)); run(R, left(4, 2), opts(th ? 2 : 1, 0, 1, true));
  Plan pl; pl.workers = 2; pl.ms = {{3, 1, 1, false, 1, 10, "u"}}; run(R, pl, opts(2, 0, 2)); pl.ms = {small("r"), {5, 1, 1, true, 1, 10, "s"}}; run(R, pl, opts(th ? 3 : 2, 0, 2)); pl.ms = {{3, 1, 1, true, 2, 2, "v"}}; run(R, pl, opts(th ? 3 : 2, 0, 2));
}
// records that share packages: what is new is exactly what no record lists
static string only_new(const string & dir, const Plan & pl) {
  prepare(dir, pl); int rc = call(dir, pl.ms, pl.workers, true); if (rc) return fmt("exit status %d", rc); const Mod & m = pl.ms[0]; auto & w = want(m); expect::Folder f; string why; if (!expect::read_folder(dir + "/out/" + m.path, f, why)) return why;
  multiset<string> rec; set<string> old; for (auto & l : pl.pre.at(m.path)) for (int b : l) old.insert(w.blocks[b]); expect::Folder n;
  for (auto & p : f.pairs) { if (p.base.size() == 3 && p.base[0] == '1') continue; n.pairs.push_back(p); for (auto & b : p.rec) n.rec.insert(b); } if (!expect::consistent(n, w, why)) return why;
  for (auto & b : w.blocks) if (!old.count(b) && !n.rec.count(b)) return "package (" + b + "), which no record lists, is not processed"; for (auto & b : n.rec) if (old.count(b)) return "package (" + b + ") is processed although a record lists it";
  mc::observe(fmt("%zu new", n.rec.size())); return "";
}
static void overlaps(Report & R, const Mod & m, const vector<vector<int>> & files, int bound) {
  Plan pl; pl.ms = {m}; pl.workers = 2; pl.pre[m.path] = files; want(m); auto o = opts(bound); mc::explore(R, {title(pl) + fmt("; sharing; bound %d", bound), [=](const string & dir) { return only_new(dir, pl); }}, o);
}
// ---- C18: exactly the blocks that no record lists are processed
static void restarts(Report & R, bool th) {
  Mod m = small(); int n = want(m).blocks.size();
  auto go = [&](const Mod & x, Pre pre, int w, int bound) { Plan pl; pl.ms = {x}; pl.workers = w; Pre q; for (auto & l : pre) if (!l.empty() || pre.size() == 1) q.push_back(l); pl.pre[x.path] = q; run(R, pl, opts(bound)); };
  vector<int> d(n, 0); while (true) {   // every block: not recorded, or in one of three files (files in canonical order)
    int mx = 0; bool canon = true; for (int i = 0; i < n; ++i) { if (d[i] > mx + 1) canon = false; mx = max(mx, d[i]); }
    if (canon) { Pre pre(max(1, mx)); for (int i = 0; i < n; ++i) if (d[i]) pre[d[i] - 1].push_back(i); go(m, pre, 2, th ? 3 : mx < 2 ? 2 : 1); }
    int i = 0; while (i < n && d[i] == (th ? 4 : 3)) d[i++] = 0; if (i == n) break; ++d[i];
  }
  Mod u {3, 1, 1, false, 1, 10, "u"}; int k = want(u).blocks.size(); for (int s = 0; s < 1 << k; ++s) { vector<int> l; for (int i = 0; i < k; ++i) if (s >> i & 1) l.push_back(i); go(u, {l}, 1 + s % 2, th ? 2 : 0); }
  Mod g {5, 1, 1, true, 2, 2, "g"}; k = want(g).blocks.size(); for (int a = 0; a <= k; ++a) for (int b = a; b <= k; ++b) { vector<int> l; for (int i = a; i < b; ++i) l.push_back(i); go(g, {l}, 2, 0); }
  for (int x = 1; x < 16; ++x) for (int s = 0; s < 4; ++s) { Plan pl; pl.ms = {m}; pl.workers = 2; pl.extra = x; pl.pre["r"] = {vector<vector<int>> {{}, {0}, {1, 3}, {0, 1, 2, 3, 4}}[s]}; run(R, pl, opts(th ? 1 : 0)); }
  // records that share packages, or list one twice, in either order
  for (int a = 1; a < 1 << n; ++a) for (int b = 1; b < 1 << n; ++b) if (a & b) for (int r = 0; r < (th ? 4 : 1); ++r) { vector<int> A, B; for (int i = 0; i < n; ++i) { if (a >> i & 1) A.push_back(i); if (b >> i & 1) B.push_back(i); } if (r & 1) reverse(A.begin(), A.end()); if (r & 2) reverse(B.begin(), B.end()); overlaps(R, m, {A, B}, 0); }
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int l = 0; l < n; ++l) if (i == j || i == l || j == l) { overlaps(R, m, {{i, j, l}}, 0); if (th) for (int x = 0; x < n; ++x) overlaps(R, m, {{i, j, l}, {x}, {l, x}}, 1); }
  // several folders, several runs: the second run finds the records of the first
  Plan pl; pl.workers = 2; pl.ms = {small("r"), {5, 1, 1, true, 1, 10, "s"}}; pl.pre["s"] = {{1, 2}}; pl.runs = {1, 2, 2}; run(R, pl, opts(th ? 3 : 2)); pl.pre["r"] = {{0}, {4}}; run(R, pl, opts(th ? 1 : 0, 0, th ? 1 : 0));
}
// ---- C20: sequences of moduli
static void sequences(Report & R, bool th) {
  vector<Mod> al = {small("a"), {5, 1, 1, true, 1, 10, "b"}, {3, 1, 1, false, 1, 10, "c"}, {3, 1, 1, true, 2, 10, "d"}, {3, 2, 1, true, 1, 40, "e"}, {3, 1, 2, true, 1, 100, "f"}, {5, 1, 1, true, 1, 2, "g"}, {3, 2, 1, true, 2, 300, "h/i"}};
  auto go = [&](vector<int> s, int w, vector<int> runs, int bound) { Plan pl; for (int i : s) pl.ms.push_back(al[i]); pl.workers = w; pl.runs = runs; run(R, pl, opts(bound)); };
  int n = al.size(); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { go({i, j}, 2, {}, th ? 2 : i < 4 && j < 4 ? 1 : 0); go({i, j}, 1, {1, 2}, 0); if (th) go({i, j}, 3, {}, 1); }
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int k = 0; k < n; ++k) if (th || (i < 5 && j < 5 && k < 5)) { go({i, j, k}, 2, {}, th && i < 4 && j < 4 && k < 4 ? 1 : 0); if (th || (i < 3 && j < 3 && k < 3)) go({i, j, k}, 1, {2, 3}, 0); }
  if (th) for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) for (int k = 0; k < 4; ++k) for (int l = 0; l < 4; ++l) go({i, j, k, l}, 2, {1, 2, 3, 4}, 0);
}
// ---- C26, C28
static vector<long> positions(const Plan & pl) { vector<long> r; long n = 0; for (auto & m : pl.ms) { auto & w = want(m); set<int> skip; auto it = pl.pre.find(m.path); if (it != pl.pre.end()) for (auto & l : it->second) for (int b : l) skip.insert(b); for (size_t i = 0; i < w.sizes.size(); ++i) if (!skip.count(i)) n += w.sizes[i]; r.push_back(n); } return r; }
static bool follow(Report & R, const Plan & pl, mc::Options o, bool idling, bool saving, int together, int later, int workers, u32 seconds = 0) {
  o.watch = true; o.concurrency = together; o.concurrency_later = later; o.position_ns = seconds * 1000000000ull; auto ends = positions(pl); long total = ends.back(); int package = 0; for (auto & m : pl.ms) for (auto s : want(m).sizes) package = max<int>(package, s); int first = workers * package;
  return mc::explore(R, {title(pl) + fmt("; bound %d%s%s%s", o.bound, o.holds_only ? " holds" : o.slow ? fmt(" slow %x %d", o.slow, o.slow_polls).c_str() : "", saving ? fmt(" position %us", seconds).c_str() : "", o.jumps ? fmt(" jumps %d", o.jumps).c_str() : ""), [=](const string & dir) {
    mc::watch.after = first; watch::Monitor m; m.total = total; m.ends = ends; m.package = package; m.workers = workers; m.idling = idling; m.saving = saving; m.position_ns = seconds * 1000000000ull; m.folder = dir + "/out/" + pl.ms[0].path; m.start(); string r = execute(dir, pl); return r.empty() ? m.verdict() : r; }}, o);
}
static void share(Report & R, bool th) {
  auto go = [&](const Plan & pl, int bound, int jumps = 0) { follow(R, pl, opts(bound, 0, jumps), true, false, 0, 0, pl.workers); };
  auto all = [&](const Plan & pl, int later) { auto o = opts(pl.workers - 1 + th); o.holds_only = true; follow(R, pl, o, true, false, pl.workers, later, pl.workers); };
  go(left(2, 1), th ? 6 : 3); go(left(1, 2), th ? 4 : 3); go(left(2, 2), th ? 4 : 3); go(left(3, 3), th ? 3 : 2); go(left(4, 2), th ? 3 : 2); go(left(5, 2), th ? 3 : 2);
  Plan pl; Mod m = small(); m.package = 1; pl.ms = {m}; for (int w = 1; w <= 2; ++w) { pl.workers = w; go(pl, th ? 3 : w < 2 ? 2 : 1); } pl.pre["r"] = {{0, 2, 4}, {6, 12}}; go(pl, th ? 3 : 1); pl.pre.clear();
  pl.ms = {{5, 1, 1, true, 1, 2, "s"}}; pl.workers = 3; go(pl, th ? 2 : 1); pl.workers = 4; go(pl, th ? 2 : 1);
  // many workers
  for (int w : {9, 17, 28}) { pl.ms = {{3, 1, 1, false, 1, 1, "u"}}; pl.workers = w; go(pl, th && w < 17 ? 1 : 0); }
  // workers that are slower than the others, any of them
  auto slow = [&](const Plan & pl, u32 mask, int bound) { auto o = opts(bound); o.slow = mask; follow(R, pl, o, true, false, 0, 0, pl.workers); };
  for (int w = 2; w <= (th ? 6 : 4); ++w) for (u32 m = 1; m < 1u << w; ++m) { pl.ms = {{3, 1, 1, false, 1, 3, "u"}}; pl.workers = w; slow(pl, m, th || w < 4 ? 1 : 0); pl.ms = {small("r"), {3, 1, 1, false, 1, 10, "u"}}; slow(pl, m, th || w < 4 ? 1 : 0); }
  pl.ms = {{3, 1, 1, false, 1, 1, "u"}}; for (int w : {6, 8, 9, 12, 16, 17, 28}) { pl.workers = w; u32 all = (1u << w) - 1; for (u32 m : {all & ~1u, all & ~(1u << (w - 1)), all & ~(1u << (w / 2)), all & ~3u, all & 0x55555555u, all & 0x92492492u, all & ~(all >> w / 2)}) slow(pl, m, 0); }
  // the workers that were idle at the end of a modulus take part in the next one
  for (int w = 2; w <= 6; ++w) { pl.workers = w; pl.ms = {{3, 1, 1, true, 1, 30, "r"}, {3, 1, 1, false, 1, 3, "u"}}; go(pl, th || w < 4 ? 1 : 0); pl.ms = {{3, 1, 1, true, 1, 100, "r"}, {3, 1, 1, true, 1, 100, "s"}, {3, 1, 1, false, 1, 3, "u"}}; go(pl, th || w < 4 ? 1 : 0); }
  // everybody at work at once
  for (int w = 1; w <= 5; ++w) all(left(w, w), 0); pl.ms = {{3, 1, 1, false, 1, 3, "u"}}; for (int w = 1; w <= (th ? 8 : 6); ++w) { pl.workers = w; all(pl, w); }
}
static void periodic(Report & R, bool th) {
  auto go = [&](const Mod & m, int w, u32 seconds, int bound, int jumps = 0) { Plan pl; pl.ms = {m}; pl.workers = w; follow(R, pl, opts(bound, 0, jumps), false, true, 0, 0, w, seconds); };
  Mod a = small(), u {3, 1, 1, false, 1, 3, "u"}, s {5, 1, 1, true, 1, 3, "s"}; a.package = 1;
  go(a, 1, 100, th ? 4 : 2); go(a, 1, 299, th ? 3 : 1); go(a, 1, 301, th ? 3 : 1); go(a, 2, 100, th ? 3 : 1); go(a, 2, 60, th ? 2 : 1); go(u, 1, 20, th ? 2 : 1); go(u, 2, 25, th ? 2 : 1); go(s, 1, 60, th ? 3 : 2); if (th) { go(a, 3, 100, 2); go(u, 3, 20, 1); }
  // some of the workers take much longer for every package than the others
  for (int w = 2; w <= (th ? 6 : 4); ++w) for (u32 m = 1; m + 1 < 1u << w; ++m) for (int polls : {8, 30}) { Plan pl; pl.ms = {{3, 1, 1, false, 1, 1, "u"}}; pl.workers = w; auto o = opts(th && w < 4 ? 1 : 0); o.slow = m; o.slow_polls = polls; follow(R, pl, o, false, true, 0, 0, w, 100); }
}
#ifdef WITH_OPENCL
// ---- C25: workers with (simulated) devices next to workers without
#include "cl_sim.hh"
#include "opencl/interface.hh"
static int moment(int n, const char *) { return mc::active() ? (mc::choose(2, 2, "device") ? 0 : n) : n; }
static void devices(Report & R, bool th) {
  clsim::devices = 1; { OpenCLInterface i; i.program_evaluation(3); i.program_evaluation(4); i.program_evaluation(5); } clsim::execute_now = moment;   // kernels are compiled before any execution
  clsim::devices = 1; run(R, left(1, 0), opts(th ? 4 : 2, 1)); run(R, left(2, 0), opts(th ? 3 : 2)); run(R, left(2, 1), opts(th ? 4 : 2, 1)); run(R, left(3, 1), opts(th ? 3 : 2)); run(R, left(5, 1), opts(th ? 3 : 2)); run(R, left(5, 2), opts(th ? 2 : 1));
  Plan pl; pl.ms = {{5, 1, 1, true, 1, 10, "s"}, {3, 1, 1, false, 2, 10, "u"}, small("r")}; for (int w = 0; w <= 2; ++w) { pl.workers = w; run(R, pl, opts(th ? 2 : w < 2 ? 1 : 0, 0, 1)); }
  // more workers than packages at the end of a modulus: in any order they become idle, the next one is shared out among them
  for (int w = 3; w <= (th ? 6 : 4); ++w) { Plan q; q.ms = {{5, 1, 1, true, 1, 10, "s"}, small("r")}; q.workers = w; run(R, q, opts(th ? 2 : 1)); }
  clsim::devices = 2; run(R, left(3, 0), opts(th ? 3 : 1)); run(R, left(3, 1), opts(th ? 2 : 1)); run(R, left(5, 2), opts(th ? 2 : 1)); pl.ms = {{3, 2, 1, true, 1, 40, "e"}, small("r")}; pl.workers = 1; run(R, pl, opts(th ? 2 : 1)); clsim::devices = 0; run(R, left(3, 2), opts(1));
}
#endif
int main(int argc, char ** argv) {
  Report R(argc, argv); bool th = R.thorough(); mc::model_object(".hycu.so"); mc::Options o;
  if (R.mode == "try") { o.bound = atoi(getenv("B")); o.free_blocking = getenv("F"); o.spurious = getenv("S") ? 1 : 0; o.jumps = getenv("J") ? atoi(getenv("J")) : 0; o.races = getenv("RACES"); run(R, left(atoi(getenv("N")), atoi(getenv("W"))), o); }
  if (R.mode == "termination") termination(R, th);
  if (R.mode == "races") races(R, th);
  if (R.mode == "saves") saves(R, th);
  if (R.mode == "restarts") restarts(R, th);
  if (R.mode == "sequences") sequences(R, th);
  if (R.mode == "share") share(R, th);
  if (R.mode == "periodic") periodic(R, th);
#ifdef WITH_OPENCL
  if (R.mode == "devices") devices(R, th);
#endif
  return R.finish();
}
