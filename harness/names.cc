// C19: random numbers that collide with existing result files.
#include "mc.hh"
#include "expect.hh"
#include "store/file_store.hh"
using namespace std; using mc::u64;
extern "C" int hycu_threaded_main(int, char **);
// Draws come in segments, one per name: a segment is the stream of one seed.  The seeds 1..M give the names of the
// existing files; everything else is fresh.
static int g_len = 2, g_m = 0, g_pos = 0, g_seed = 0, g_fresh = 0; static bool g_dry = false; static long g_draws = 0;
static u64 stream(int seed, int i) { return mc::hash_str(fmt("stream %d %d", seed, i)); }
static u64 draw(u64) {
  ++g_draws; if (g_dry) return stream(g_seed, g_pos++);
  if (g_pos % g_len == 0) { int c = mc::choose(g_m + 1, ~1u, "name"); g_seed = c ? c : 1000 + g_fresh++; g_pos = 0; }
  return stream(g_seed, g_pos++);
}
static ConfigNode node(const string & path) { ConfigNode n; n.prime = 3; n.prime_exponent = 1; n.genus = 1; n.package_size = 10; n.result_path = path; n.with_marked_point = true; n.count_exponent = 1; return n; }
static vector<string> NAMES;   // base names of the seeds 1..M
// in the child, before anything else: the names that the real code makes of the streams
static string learn(const string & dir, int m) {
  for (int s = 1; s <= m; ++s) {
    string d = dir + fmt("/dry%d", s); mkdir(d.c_str(), 0755); g_dry = true; g_seed = s; g_pos = 0;
    mc::begin(); mc::rnd_hook = draw; FileStore(node(d)).save(make_tuple(string("r\n"), string("s\n"))); mc::end();
    for (auto & f : proc::ls(d)) { auto k = f.rfind(".hycu_record"); if (k != string::npos) NAMES.push_back(f.substr(0, k)); } if ((int)NAMES.size() != s) return "saving into an empty folder does not leave one record";
  }
  return "";
}
struct Plan { string name; int m, saves; vector<int> kinds; };   // kinds: bit 0 record, bit 1 store exist already
static string saves(const string & dir, const Plan & pl, int len) {
  g_len = len; g_m = pl.m; NAMES.clear(); string d = dir + "/in"; mkdir(d.c_str(), 0755);
  string rc_file = dir + "/why";
  // learning happens in a process of its own so that the controlled one starts from the beginning
  int rc = mc::program([&] { mc::end(); string e = learn(dir, pl.m); string all = e; if (e.empty()) for (auto & n : NAMES) all += n + "\n"; proc::spit(rc_file, all); mc::begin(); return e.empty() ? 0 : 1; }); string l = proc::slurp(rc_file); if (rc) return l.empty() ? fmt("saving ends with status %d", rc) : l;
  { stringstream ss(l); string n; while (getline(ss, n)) NAMES.push_back(n); }
  map<string, string> before; for (int i = 0; i < pl.m; ++i) { if (pl.kinds[i] & 1) before[NAMES[i] + ".hycu_record"] = fmt("0 1 2 %d \n", i); if (pl.kinds[i] & 2) before[NAMES[i] + ".hycu_store"] = fmt("1;0:%d\n", i); } before["notes.txt"] = "x";
  for (auto & b : before) proc::spit(d + "/" + b.first, b.second);
  vector<pair<string, string>> texts; for (int i = 0; i < pl.saves; ++i) texts.push_back({fmt("5 6 7 %d \n", i), fmt("1,1;2:%d\n", 100 + i)}); if (pl.saves > 2) texts[1] = {"", ""};
  rc = mc::program([&] { mc::rnd_hook = draw; for (auto & t : texts) { FileStore f(node(d)); f.save(make_tuple(t.first, t.second)); } return 0; });
  if (rc) return fmt("saving ends with status %d", rc);
  multiset<pair<string, string>> got, wanted(texts.begin(), texts.end());
  for (auto & b : before) if (!proc::exists(d + "/" + b.first)) return b.first + " is gone"; else if (proc::slurp(d + "/" + b.first) != b.second) return b.first + " was overwritten";
  for (auto & n : proc::ls(d)) if (!before.count(n)) {
    auto k = n.rfind('.'); string base = n.substr(0, k), ext = n.substr(k); if (ext == ".hycu_store" && !proc::exists(d + "/" + base + ".hycu_record")) return n + " has no record"; if (ext != ".hycu_record") continue;
    if (before.count(base + ".hycu_store")) return n + " was put next to an existing store"; if (!proc::exists(d + "/" + base + ".hycu_store")) return n + " has no store"; got.insert({proc::slurp(d + "/" + n), proc::slurp(d + "/" + base + ".hycu_store")});
  }
  if (got != wanted) return fmt("%zu new pairs with the saved contents instead of %zu", got.size(), wanted.size());
  mc::observe(fmt("files %zu", proc::ls(d).size())); return "";
}
// the whole program over a folder with colliding names
static map<string, expect::Run> RUNS;
static string whole(const string & dir, int m, int kinds, int len, const expect::Run & w) {
  g_len = len; g_m = m; NAMES.clear(); string wf = dir + "/why"; int rc = mc::program([&] { mc::end(); string e = learn(dir, m); string all = e; if (e.empty()) for (auto & n : NAMES) all += n + "\n"; proc::spit(wf, all); mc::begin(); return e.empty() ? 0 : 1; }); string l = proc::slurp(wf); if (rc) return l; { stringstream ss(l); string n; while (getline(ss, n)) NAMES.push_back(n); }
  mkdir((dir + "/out").c_str(), 0755); string d = dir + "/out/r"; mkdir(d.c_str(), 0755);
  for (int i = 0; i < m; ++i) { bool full = kinds >> i & 1; res::Store st = w.part.at(w.blocks[i]); string s; for (auto & y : st) s += y.first + ":" + res::dec(y.second) + "\n"; proc::spit(d + "/" + NAMES[i] + ".hycu_store", s); if (full) proc::spit(d + "/" + NAMES[i] + ".hycu_record", w.blocks[i] + " \n"); }
  proc::spit(dir + "/c.yaml", "Moduli:\n  - Prime: 3\n    PrimeExponent: 1\n    Genus: 1\n    WithMarkedPoint: true\n    CountExponent: 1\n    ResultPath: r\n    PackageSize: 10\n");
  map<string, string> before; for (auto & n : proc::ls(d)) before[n] = proc::slurp(d + "/" + n);
  rc = mc::program([&] { mc::rnd_hook = draw; string c = dir + "/c.yaml", o = dir + "/out"; char * a[] = {(char *)"hycu-threaded", (char *)"-n1", (char *)c.c_str(), (char *)o.c_str(), nullptr}; return hycu_threaded_main(4, a); });
  if (rc) return fmt("exit status %d", rc); for (auto & b : before) if (proc::slurp(d + "/" + b.first) != b.second) return b.first + " was changed";
  string why; if (!expect::folder_complete(d, w, why)) return why; return "";
}
int main(int argc, char ** argv) {
  Report R(argc, argv); bool th = R.thorough(); mc::model_object(".hycu.so"); mc::Options o;
  int len = 0; { string d = proc::scratch(); mc::Options q; // draws per name
    pid_t p = fork(); int fd[2]; (void)p; if (p == 0) { g_dry = true; g_seed = 1; mc::rnd_hook = draw; FileStore(node(d)).save(make_tuple(string("r\n"), string("s\n"))); _exit((int)min(200l, g_draws)); } int st; waitpid(p, &st, 0); proc::wipe(d); (void)fd; len = WIFEXITED(st) ? WEXITSTATUS(st) : 0; }
  R.count("draws_per_name", len); if (!len) len = 1;
  int M = th ? 3 : 2;
  for (int m = 1; m <= M; ++m) for (int s = 1; s <= 3; ++s) { int lim = 1 << 2 * m; for (int k = 0; k < lim; ++k) { Plan pl; pl.m = m; pl.saves = s; for (int i = 0; i < m; ++i) pl.kinds.push_back(k >> 2 * i & 3); o.bound = th ? 4 : 3; pl.name = "saves=" + to_string(s) + " existing=" + str(pl.kinds); mc::explore(R, {pl.name, [=](const string & dir) { return saves(dir, pl, len); }}, o); } }
  expect::Run w = expect::run(3, 1, 1, true, 1, 10);
  for (int m = 1; m <= M; ++m) for (int k = 0; k < 1 << m; ++k) { o.bound = th ? 3 : 2; o.jumps = 1; mc::explore(R, {fmt("program, %d existing names, records %d", m, k), [=](const string & dir) { return whole(dir, m, k, len, w); }}, o); }
  return R.finish();
}
