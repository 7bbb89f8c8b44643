// C16 C17: hycu-threaded and hycu-merger killed, cut short or made to fail at every file operation, then run again.
#include "fs.hh"
#include "expect.hh"
using namespace std;
extern "C" int hycu_threaded_main(int, char **);
extern "C" int hycu_merger_main(int, char **);
struct Mod { u32 p, e, g; bool marked; u32 k, package; string path; };
struct Plan { string name; vector<Mod> ms; int workers = 1; vector<vector<int>> pre; fsx::Faults f; int faults = 1; bool old_output = false; };
static map<string, expect::Run> RUNS;
static const expect::Run & want(const Mod & m) { string k = fmt("%u %u %u %d %u %u", m.p, m.e, m.g, m.marked, m.k, m.package); auto it = RUNS.find(k); if (it == RUNS.end()) it = RUNS.emplace(k, expect::run(m.p, m.e, m.g, m.marked, m.k, m.package)).first; return it->second; }
static string yaml(const vector<Mod> & ms) { string y = "Moduli:\n"; for (auto & m : ms) y += fmt("  - Prime: %u\n    PrimeExponent: %u\n    Genus: %u\n    WithMarkedPoint: %s\n    CountExponent: %u\n    ResultPath: %s\n    PackageSize: %u\n", m.p, m.e, m.g, m.marked ? "true" : "false", m.k, m.path.c_str(), m.package); return y; }
static int threaded(const string & dir, int workers, const fsx::Faults * f) {
  int rc = mc::program([&] { if (f) fsx::control(dir, *f); string n = "-n" + to_string(workers), c = dir + "/c.yaml", o = dir + "/out"; char * a[] = {(char *)"hycu-threaded", (char *)n.c_str(), (char *)c.c_str(), (char *)o.c_str(), nullptr}; return hycu_threaded_main(4, a); });
  mc::mix_state(fsx::spent()); return rc;
}
static int merger(const string & in, const string & out, const string & dir, const fsx::Faults * f) {
  int rc = mc::program([&] { if (f) fsx::control(dir, *f); char * a[] = {(char *)"hycu-merger", (char *)in.c_str(), (char *)out.c_str(), nullptr}; return hycu_merger_main(3, a); });
  mc::mix_state(fsx::spent()); return rc;
}
static string listing(const string & d) { string r = "\nfiles:"; for (auto & n : proc::ls(d)) { string t = proc::slurp(d + "/" + n); r += "\n  " + n + fmt(" (%zu bytes)", t.size()); if (n.find("record") != string::npos) { for (auto & c : t) if (c == '\n') c = '|'; r += " " + t.substr(0, 200); } } return r; }
static void prepare(const string & dir, const Plan & pl) {
  proc::spit(dir + "/c.yaml", yaml(pl.ms)); mkdir((dir + "/merged").c_str(), 0755); if (pl.pre.empty()) return;
  auto & w = want(pl.ms[0]); string d = dir + "/out/" + pl.ms[0].path; mkdir((dir + "/out").c_str(), 0755); mkdir(d.c_str(), 0755); int i = 100;
  for (auto & l : pl.pre) { res::Store st; string rec, s; for (int b : l) { rec += w.blocks[b] + " \n"; for (auto & y : w.part.at(w.blocks[b])) st[y.first] += y.second; } for (auto & y : st) s += y.first + ":" + res::dec(y.second) + "\n"; proc::spit(d + fmt("/%d.hycu_store", i), s); proc::spit(d + fmt("/%d.hycu_record", i), rec); ++i; }
}
// the merged pair: "" if it is exactly the census
static string merged_wrong(const string & base, const expect::Run & w) {
  multiset<string> rec, all(w.blocks.begin(), w.blocks.end()); res::Store st; string why;
  if (!proc::exists(base + ".hycu_record") || !proc::exists(base + ".hycu_store")) return "merged file is missing";
  if (!res::parse_record(proc::slurp(base + ".hycu_record"), rec, why) || !res::parse_store(proc::slurp(base + ".hycu_store"), st, why)) return why;
  if (rec != all) return fmt("merged record lists %zu of %zu packages", rec.size(), all.size()); if (st != w.census) return "merged store is not the census: " + res::diff(st, w.census); return "";
}
static string output_of(const string & dir, const Mod & m) { return dir + "/merged/" + m.path; }
// crashes: run until a run completes, then merge until a merger completes; the result is the census
static string crashes(const string & dir, const Plan & pl) {
  fsx::set_budget(pl.faults); prepare(dir, pl); int rc, n = 0; string hist;
  do { rc = threaded(dir, pl.workers, &pl.f); hist += fmt(" run:%d", rc); ++n; } while (rc == 137 && n < 9);
  if (rc) return "the run started again after a kill ends with status " + to_string(rc) + hist;
  for (auto & m : pl.ms) {
    string base = output_of(dir, m), in = dir + "/out/" + m.path, why; auto & w = want(m);
    if (pl.old_output) { proc::spit(base + ".hycu_record", w.blocks[0] + " \n"); proc::spit(base + ".hycu_store", "1;0:1\n"); }
    n = 0; do {
      rc = merger(in, base, dir, &pl.f); hist += fmt(" merger:%d", rc);
      // what an interrupted merger leaves: a record only next to a complete store
      if (rc == 137 && proc::exists(base + ".hycu_record")) { string r = proc::slurp(base + ".hycu_record"); bool untouched = pl.old_output && r == w.blocks[0] + " \n" && proc::slurp(base + ".hycu_store") == "1;0:1\n"; if (!untouched) { string e = merged_wrong(base, w); if (!e.empty()) return "an interrupted merger leaves a record, but " + e + hist + listing(dir + "/merged"); } }
    } while (rc == 137 && ++n < 9);
    if (rc) return "the merger ends with status " + to_string(rc) + hist + listing(in);
    why = merged_wrong(base, w); if (!why.empty()) return why + hist + listing(in);
  }
  mc::observe("after" + hist); return "";
}
// failures: two runs and a merge that may meet failing operations, then a clean run and a clean merge
static string failures(const string & dir, const Plan & pl) {
  fsx::set_budget(pl.faults); prepare(dir, pl); string hist; int rc;
  for (int i = 0; i < 2; ++i) { rc = threaded(dir, pl.workers, &pl.f); hist += fmt(" run:%d", rc); }
  rc = threaded(dir, pl.workers, nullptr); hist += fmt(" clean run:%d", rc); if (rc) return "a run after a failure ends with status " + to_string(rc) + hist;
  for (auto & m : pl.ms) {
    string base = output_of(dir, m), in = dir + "/out/" + m.path, why; auto & w = want(m);
    if (pl.old_output) { proc::spit(base + ".hycu_record", w.blocks[0] + " \n"); proc::spit(base + ".hycu_store", "1;0:1\n"); }
    rc = merger(in, base, dir, &pl.f); hist += fmt(" merger:%d", rc);
    if (rc == 0) { why = merged_wrong(base, w); if (!why.empty()) return "the merger reports success, but " + why + hist + listing(in); }
    else if (!fsx::spent()) return "the merger ends with status " + to_string(rc) + hist + listing(in);
    else if (proc::exists(base + ".hycu_record")) { string r = proc::slurp(base + ".hycu_record"); bool untouched = pl.old_output && r == w.blocks[0] + " \n" && proc::slurp(base + ".hycu_store") == "1;0:1\n"; if (!untouched) { string e = merged_wrong(base, w); if (!e.empty()) return "a failed merger leaves a record, but " + e + hist + listing(dir + "/merged"); } }
    rc = merger(in, base, dir, nullptr); hist += fmt(" clean merger:%d", rc); if (rc) return "the merger ends with status " + to_string(rc) + hist + listing(in);
    why = merged_wrong(base, w); if (!why.empty()) return why + hist + listing(in);
  }
  mc::observe("after" + hist); return "";
}
static bool explore(Report & R, const Plan & pl, mc::Options o, bool crash) {
  for (auto & m : pl.ms) want(m);
  return mc::explore(R, {pl.name + fmt("; workers=%d faults %d bound %d%s", pl.workers, pl.faults, o.bound, o.jumps ? fmt(" jumps %d", o.jumps).c_str() : ""), [=](const string & dir) { return crash ? crashes(dir, pl) : failures(dir, pl); }}, o);
}
static mc::Options opts(int bound, int jumps) { mc::Options o; o.bound = bound; o.jumps = jumps; return o; }
int main(int argc, char ** argv) {
  Report R(argc, argv); bool th = R.thorough(); mc::model_object(".hycu.so");
  Mod r {3, 1, 1, true, 1, 10, "r"}, s {5, 1, 1, true, 1, 10, "s"}; Plan pl;
  if (R.mode == "crash") {
    pl.f.kill = true; pl.f.torn = -1;
    pl.name = "one modulus"; pl.ms = {r}; explore(R, pl, opts(1, 0), true);
    pl.name = "one modulus, earlier results"; pl.pre = {{1}, {3, 4}}; explore(R, pl, opts(1, 0), true);
    pl.name = "one modulus, earlier results, earlier output"; pl.old_output = true; explore(R, pl, opts(1, 0), true); pl.old_output = false; pl.pre.clear();
    pl.f.torn = th ? -1 : 4; pl.name = "one modulus, periodic saves"; explore(R, pl, opts(2, 2), true);
    pl.f.torn = th ? 12 : 3; pl.name = "one modulus, two kills"; pl.faults = 2; explore(R, pl, opts(2, 0), true); pl.name = "one modulus, two kills, a periodic save"; explore(R, pl, opts(th ? 3 : 2, 1), true);
    pl.name = "two moduli"; pl.ms = {r, s}; pl.faults = 1; pl.f.torn = th ? -1 : 5; explore(R, pl, opts(th ? 2 : 1, 1), true);
    pl.name = "two workers"; pl.ms = {r}; pl.workers = 2; pl.f.torn = th ? 12 : 3; explore(R, pl, opts(th ? 3 : 2, 1), true);
    if (th) { pl.name = "three kills"; pl.workers = 1; pl.faults = 3; pl.f.torn = 2; explore(R, pl, opts(3, 0), true); pl.name = "two moduli, two kills"; pl.ms = {r, s}; pl.faults = 2; explore(R, pl, opts(2, 0), true); }
  }
  if (R.mode == "fail") {
    pl.f.errors = pl.f.shorts = pl.f.reads = pl.f.lost = true;
    pl.name = "one modulus"; pl.ms = {r}; explore(R, pl, opts(1, 0), false);
    pl.name = "one modulus, earlier results"; pl.pre = {{1}, {3, 4}}; explore(R, pl, opts(1, 0), false);
    pl.name = "one modulus, earlier results, earlier output"; pl.old_output = true; explore(R, pl, opts(1, 0), false); pl.old_output = false; pl.pre.clear();
    pl.name = "one modulus, periodic saves"; explore(R, pl, opts(2, 2), false);
    pl.name = "one modulus, two failures"; pl.faults = 2; explore(R, pl, opts(2, 0), false);
    pl.name = "two moduli"; pl.ms = {r, s}; pl.faults = 1; explore(R, pl, opts(th ? 2 : 1, 1), false);
    pl.name = "two workers"; pl.ms = {r}; pl.workers = 2; explore(R, pl, opts(th ? 3 : 2, 1), false);
    pl.name = "one modulus, a failure and a kill"; pl.workers = 1; pl.f.kill = true; pl.f.torn = 2; pl.f.reads = pl.f.lost = false; pl.faults = 2; explore(R, pl, opts(2, 0), false);
    if (th) { pl.name = "two moduli, two failures"; pl.ms = {r, s}; pl.f.kill = false; pl.f.reads = pl.f.lost = true; explore(R, pl, opts(2, 0), false); pl.name = "three failures"; pl.ms = {r}; pl.faults = 3; explore(R, pl, opts(3, 0), false); }
  }
  return R.finish();
}
