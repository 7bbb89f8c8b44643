// C12: the merger on all small result folders, with every order in which the directory may be listed.
#include <algorithm>
#include "results.hh"
#include "report.hh"
#include <dlfcn.h>
using namespace std;
extern "C" int hycu_merger_main(int, char **);
// ---- directory order under our control
static vector<int> g_perm; static bool g_control = false;
struct DirState { vector<dirent> e; size_t i; };
static map<DIR *, DirState> * dirs;
static dirent * ordered(DIR * d, dirent * (*real)(DIR *)) {
  if (!dirs) dirs = new map<DIR *, DirState>;
  auto it = dirs->find(d);
  if (it == dirs->end()) {
    DirState s; s.i = 0; vector<dirent> v; while (dirent * e = real(d)) v.push_back(*e);
    sort(v.begin(), v.end(), [](const dirent & a, const dirent & b) { return strcmp(a.d_name, b.d_name) < 0; });
    for (auto & e : v) if (e.d_name[0] == '.' && (!e.d_name[1] || (e.d_name[1] == '.' && !e.d_name[2]))) s.e.push_back(e);
    vector<dirent> f; for (auto & e : v) if (!(e.d_name[0] == '.' && (!e.d_name[1] || (e.d_name[1] == '.' && !e.d_name[2])))) f.push_back(e);
    if (g_perm.size() == f.size()) for (int k : g_perm) s.e.push_back(f[k]); else s.e.insert(s.e.end(), f.begin(), f.end());
    it = dirs->emplace(d, s).first;
  }
  if (it->second.i >= it->second.e.size()) return nullptr;
  return &it->second.e[it->second.i++];
}
extern "C" dirent * readdir(DIR * d) { static auto real = (dirent * (*)(DIR *))dlsym(RTLD_NEXT, "readdir"); return g_control ? ordered(d, real) : real(d); }
extern "C" dirent64 * readdir64(DIR * d) { return (dirent64 *)readdir(d); }
extern "C" int closedir(DIR * d) { static auto real = (int (*)(DIR *))dlsym(RTLD_NEXT, "closedir"); if (g_control && dirs) dirs->erase(d); return real(d); }

struct Piece { vector<string> blocks; res::Store store; };
static vector<Piece> PIECES;
static string rec_text(const vector<string> & b) { string r; for (auto & x : b) r += x + " \n"; return r; }
static string store_text(const res::Store & s) { string r; for (auto & x : s) r += x.first + ":" + res::dec(x.second) + "\n"; return r; }
struct World { string root, in, out; Report & R; World(Report & R) : R(R) { root = proc::scratch(); in = root + "/in"; out = root + "/out"; mkdir(in.c_str(), 0755); mkdir(out.c_str(), 0755); } ~World() { proc::wipe(root); }
  void clean() { proc::wipe_inside(in); proc::wipe_inside(out); }
  proc::Res merge(const string & from, const string & to, const vector<int> & perm = {}, int open_files = 0) {
    R.count("merger_runs");
    return proc::in_child(root, 60, [&] { if (open_files) { struct rlimit rl { (rlim_t)open_files, (rlim_t)open_files }; setrlimit(RLIMIT_NOFILE, &rl); } g_perm = perm; g_control = true; vector<string> a{"hycu-merger", from, to}; vector<char *> v; for (auto & s : a) v.push_back((char *)s.c_str()); v.push_back(nullptr); return hycu_merger_main(3, v.data()); });
  }
  bool verify(const string & base, const multiset<string> & rec, const res::Store & st, const string & what) {
    string why; multiset<string> r; res::Store s; string fr = base + ".hycu_record", fs = base + ".hycu_store";
    if (!proc::exists(fr) || !proc::exists(fs)) { R.violation(what + ": output missing"); return false; }
    if (!res::parse_record(proc::slurp(fr), r, why) || !res::parse_store(proc::slurp(fs), s, why, false)) { R.violation(what + ": " + why); return false; }
    if (r != rec) { string g; for (auto & x : r) g += "(" + x + ")"; R.violation(what + ": merged record " + g); return false; }
    if (s != st) { R.violation(what + ": merged store: " + res::diff(s, st)); return false; }
    return true;
  }
};
static void put(const string & dir, const string & base, const vector<const Piece *> & ps, multiset<string> & rec, res::Store & st) {
  vector<string> b; res::Store s; for (auto p : ps) { for (auto & x : p->blocks) { b.push_back(x); if (!rec.count(res::norm_block(x))) rec.insert(res::norm_block(x)); } for (auto & x : p->store) { s[x.first] += x.second; st[x.first] += x.second; } }
  proc::spit(dir + "/" + base + ".hycu_record", rec_text(b)); proc::spit(dir + "/" + base + ".hycu_store", store_text(s));
}
int main(int argc, char ** argv) {
  Report R(argc, argv); bool th = R.thorough(); World W(R);
  PIECES = { {{"0 1 0 1", "0 1 1 2"}, {{"1,1;0", 3}, {"1,2;-2,4", res::num("4611686018427387903")}}}, {{"0 1 2 3"}, {{"1,2;-2,4", 5}, {"1,2;2,4", res::num("18446744073709551617")}}}, {{"1 2 0 3"}, {{"1,1;0", 4}}}, {{"2 3 0 1", "10 11 0 1"}, {{"1,2;-2,4", res::num("4611686018427387904")}, {"3;1", 1}}} };
  size_t N = PIECES.size();
  static const char * names[4] = {"10", "2", "9223372036854775807", "a"};
  // A: every distribution of the pieces over up to three files, every listing order
  for (int code = 0; code < 81; ++code) {
    vector<int> of(N); int t = code; for (auto & x : of) { x = t % 3; t /= 3; } 
    int used = 0; bool canon = true; for (int x : of) { if (x > used) canon = false; if (x == used) ++used; } if (!canon) continue;
    vector<int> perm; for (int i = 0; i < 2 * used; ++i) perm.push_back(i);
    int k = 0; do {
      if (!R.begin(fmt("distribution %d order %d", code, k++))) continue;
      W.clean(); multiset<string> rec; res::Store st;
      for (int f = 0; f < used; ++f) { vector<const Piece *> ps; for (size_t i = 0; i < N; ++i) if (of[i] == f) ps.push_back(&PIECES[i]); put(W.in, names[f], ps, rec, st); }
      auto r = W.merge(W.in, W.out + "/m", perm); R.eval(); R.nontrivial(used > 1);
      if (r.rc || r.timeout) { R.violation(fmt("exit status %d ", r.rc) + r.err); return R.finish(); }
      W.verify(W.out + "/m", rec, st, "merging " + to_string(used) + " files listed as " + str(perm)); R.sample(fmt("pieces in files %s, directory order %s", str(of).c_str(), str(perm).c_str()));
      if (R.viol.size() > 3) return R.finish();
    } while (next_permutation(perm.begin(), perm.end()));
  }
  // B: other folder contents, all subsets
  struct Extra { const char * name; int kind; };   // kind 0: extra file, 1: directory, 2: orphan store, 3: empty pair, 4: pair with overlapping blocks
  vector<Extra> X{{"orphan.hycu_store", 2}, {"notes.txt", 0}, {"b.hycu_record.bak", 0}, {"dir.hycu_record", 1}, {"empty", 3}, {"overlap", 4}, {"noext", 0}, {"sub", 1}, {".hidden", 0}};
  for (u_int m = 0; m < 1u << X.size(); ++m) for (int ord = 0; ord < (th ? 4 : 2); ++ord) {
    if (!R.begin(fmt("extras %u order %d", m, ord))) continue;
    W.clean(); multiset<string> rec; res::Store st; put(W.in, "10", {&PIECES[0], &PIECES[2]}, rec, st); put(W.in, "77", {&PIECES[1]}, rec, st);
    for (size_t i = 0; i < X.size(); ++i) if (m >> i & 1) {
      string f = W.in + "/" + X[i].name;
      if (X[i].kind == 0) proc::spit(f, "0 1 5 6 \n"); else if (X[i].kind == 1) { mkdir(f.c_str(), 0755); proc::spit(f + "/5.hycu_record", "7 8 \n"); proc::spit(f + "/5.hycu_store", "9;9:9\n"); }
      else if (X[i].kind == 2) proc::spit(f, "1,1;0:1000\n"); else if (X[i].kind == 3) { proc::spit(f + ".hycu_record", ""); proc::spit(f + ".hycu_store", ""); }
      else { Piece p{{"0 1 0 1", "5 6 5 6"}, {{"1,1;0", 50}}}; put(W.in, "overlap", {&p}, rec, st); }
    }
    size_t n = proc::ls(W.in).size(); vector<int> perm; for (size_t i = 0; i < n; ++i) perm.push_back((int)(ord & 1 ? n - 1 - i : i)); if (ord & 2) rotate(perm.begin(), perm.begin() + n / 2, perm.end());
    auto r = W.merge(W.in, W.out + "/m", perm); R.eval(); R.nontrivial(m != 0);
    if (r.rc || r.timeout) { R.violation(fmt("exit status %d ", r.rc) + r.err); if (R.viol.size() > 3) return R.finish(); continue; }
    W.verify(W.out + "/m", rec, st, "merging with extra entries"); if (R.viol.size() > 3) return R.finish();
    R.sample(fmt("extra entries mask %x", m));
  }
  // C: a record without its store
  for (int n = 0; n < 3; ++n) for (int kind = 0; kind < 2; ++kind) for (int pre = 0; pre < 2; ++pre) {
    vector<int> perm; int cnt = 2 * n + 1 + kind; for (int i = 0; i < cnt; ++i) perm.push_back(i); int k = 0;
    do {
      if (!R.begin(fmt("missing store files=%d kind=%d pre=%d order %d", n, kind, pre, k++))) continue;
      W.clean(); multiset<string> rec; res::Store st; for (int f = 0; f < n; ++f) put(W.in, names[f], {&PIECES[f]}, rec, st);
      proc::spit(W.in + "/5.hycu_record", "0 1 9 10 \n"); if (kind) mkdir((W.in + "/5.hycu_store").c_str(), 0755);
      if (pre) { proc::spit(W.out + "/m.hycu_record", "old \n"); proc::spit(W.out + "/m.hycu_store", "old:1\n"); }
      auto r = W.merge(W.in, W.out + "/m", perm); R.eval(); R.nontrivial();
      if (r.rc == 0 || r.timeout) R.violation("a record without store is accepted");
      vector<string> left = proc::ls(W.out), want; if (pre) want = {"m.hycu_record", "m.hycu_store"};
      if (left != want || (pre && (proc::slurp(W.out + "/m.hycu_record") != "old \n" || proc::slurp(W.out + "/m.hycu_store") != "old:1\n"))) R.violation("output written although a store is missing: " + [&] { string s; for (auto & x : left) s += x + " "; return s; }());
      if (R.viol.size() > 3) return R.finish();
    } while (next_permutation(perm.begin(), perm.end()) && k < 130);
  }
  // D: several steps
  for (int code = 0; code < 81; ++code) {
    if (!R.begin(fmt("steps %d", code))) continue;
    W.clean(); multiset<string> rec; res::Store st; int t = code; vector<vector<const Piece *>> g(3); for (size_t i = 0; i < N; ++i) { g[t % 3].push_back(&PIECES[i]); t /= 3; }
    string s1 = W.root + "/s1", s2 = W.root + "/s2", mid = W.root + "/mid"; for (auto & d : {s1, s2, mid}) { if (proc::exists(d)) proc::wipe(d); mkdir(d.c_str(), 0755); }
    put(s1, "1", g[0], rec, st); if (code % 2) put(s1, "3", {}, rec, st); put(s2, "2", g[1], rec, st); put(mid, "4", g[2], rec, st);
    auto r1 = W.merge(s1, mid + "/x"), r2 = W.merge(s2, mid + "/y"), r3 = W.merge(mid, W.out + "/z"), r4 = W.merge(W.out, W.root + "/fin"); R.eval(4); R.nontrivial(4);
    if (r1.rc || r2.rc || r3.rc || r4.rc) { R.violation("exit status " + r1.err + r2.err + r3.err + r4.err); continue; }
    W.verify(W.out + "/z", rec, st, "merging in several steps"); W.verify(W.root + "/fin", rec, st, "merging the merged file again"); proc::wipe(W.root + "/fin.hycu_record"); proc::wipe(W.root + "/fin.hycu_store");
    R.sample(fmt("two partial merges, then a merge of their outputs (code %d)", code));
  }
  // E: existing output is replaced, wrong arguments are refused, empty folder
  if (R.begin("existing output")) {
    for (int big = 0; big < 2; ++big) { W.clean(); multiset<string> rec; res::Store st; put(W.in, "10", {&PIECES[0]}, rec, st); proc::spit(W.out + "/m.hycu_record", big ? string(5000, '1') + "\n" : ""); proc::spit(W.out + "/m.hycu_store", big ? string(5000, '2') + "\n" : ""); auto r = W.merge(W.in, W.out + "/m"); R.eval(); if (r.rc) R.violation("exit status"); else W.verify(W.out + "/m", rec, st, "replacing an existing output"); }
    W.clean(); auto r = W.merge(W.in, W.out + "/m"); R.eval(); if (r.rc) R.violation("empty folder: exit status"); else W.verify(W.out + "/m", {}, {}, "empty folder");
  }
  // F: more results than files that may be open, and a merge that repeats
  for (int n : {1, 2, 3, 5, 9, 20, 40, th ? 3000 : 700}) for (int lim : {16, 32, 64, 1024}) {
    if (!R.begin(fmt("many files %d limit %d", n, lim))) continue;
    W.clean(); multiset<string> rec; res::Store st;
    for (int f = 0; f < n; ++f) { Piece p{{fmt("%d %d 0 1", 5 * f, 5 * f + 1), fmt("%d %d 1 2", 5 * f, 5 * f + 1)}, {{"1,2;-2,4", f + 1}, {fmt("%d,1;0", f % 7), 3}}}; put(W.in, to_string(1000000007ull * f), {&p}, rec, st); }
    auto r = W.merge(W.in, W.out + "/m", {}, lim); R.eval(); R.nontrivial();
    if (r.rc || r.timeout) { R.violation(fmt("merging %d results with at most %d open files: exit status %d ", n, lim, r.rc) + r.err); continue; }
    W.verify(W.out + "/m", rec, st, fmt("merging %d results with at most %d open files", n, lim)); R.sample(fmt("%d results, at most %d open files", n, lim));
  }
  // G: names of result files, all subsets of a list, and a result twice under different names
  vector<string> odd {"1.5", "1.7", "1", "1.hycu_record", "1.hycu_store", "q3.g1 final", "-4", "--help", ".x", string(200, 'n')};
  for (u_int m = 0; m < 1u << odd.size(); ++m) {
    if (!R.begin(fmt("names %x", m))) continue;
    W.clean(); multiset<string> rec; res::Store st; int f = 0;
    for (size_t i = 0; i < odd.size(); ++i) if (m >> i & 1) { Piece p{{fmt("%zu %zu 0 1", i, i + 1)}, {{"1,2;-2,4", 1 << i}, {fmt("%d,1;0", f++ % 3), 3}}}; put(W.in, odd[i], {&p}, rec, st); }
    auto r = W.merge(W.in, W.out + "/m"); R.eval(); R.nontrivial(f > 1); string what = "merging results named"; for (size_t i = 0; i < odd.size(); ++i) if (m >> i & 1) what += " " + odd[i].substr(0, 20);
    if (r.rc || r.timeout) R.violation(what + fmt(": exit status %d ", r.rc) + r.err); else W.verify(W.out + "/m", rec, st, what); if (R.viol.size() > 3) return R.finish();
  }
  // ... an orphan store next to a result with a similar name
  for (auto & a : odd) for (auto & b : odd) if (a != b && R.begin("orphan " + b + " next to " + a)) {
    W.clean(); multiset<string> rec; res::Store st; put(W.in, a, {&PIECES[0]}, rec, st); if (proc::exists(W.in + "/" + b + ".hycu_store")) continue; proc::spit(W.in + "/" + b + ".hycu_store", "1,1;0:1000\n");
    auto r = W.merge(W.in, W.out + "/m"); R.eval(); R.nontrivial(); if (r.rc || r.timeout) R.violation(fmt("exit status %d ", r.rc) + r.err); else W.verify(W.out + "/m", rec, st, "result " + a + ", store without record " + b);
    unlink((W.in + "/" + a + ".hycu_store").c_str()); proc::wipe_inside(W.out); r = W.merge(W.in, W.out + "/m"); R.eval(); if (!r.rc || r.timeout || !proc::ls(W.out).empty()) R.violation("record " + a + " without its store is accepted next to store " + b);
  }
  // H: names of the folder and of the output
  { vector<string> folders {"in", "in.d", "i n", "in.hycu_record", "in/", "./in", "in/.", "a.b/c.d", "in/../in"}, outs {"out/m", "out/m.1", "out/m.1.2", "out/m.hycu_record", "out/-m", "out.d/m", "o ut/m n", "out/../out/m", "./out//m", "in/m", "m"};
    for (auto & i : folders) for (auto & o : outs) for (int rel = 0; rel < 2; ++rel) for (int pre = 0; pre < 2; ++pre) if (R.begin(fmt("folder %s, output %s, %s, %s", i.c_str(), o.c_str(), rel ? "relative" : "absolute", pre ? "earlier output" : ""))) {
      proc::wipe_inside(W.root); for (string d : {"in", "in.d", "i n", "in.hycu_record", "a.b", "a.b/c.d", "out", "out.d", "o ut"}) mkdir((W.root + "/" + d).c_str(), 0755);
      multiset<string> rec; res::Store st; put(W.root + "/" + i, "1", {&PIECES[0]}, rec, st); put(W.root + "/" + i, "2.1", {&PIECES[1]}, rec, st); if (pre && o.substr(0, 3) != "in/") { proc::spit(W.root + "/" + o + ".hycu_record", "0 1 7 8 \n"); proc::spit(W.root + "/" + o + ".hycu_store", "1,1;0:70\n"); }
      if (rel && chdir(W.root.c_str())) exit(3); auto r = W.merge(rel ? i : W.root + "/" + i, rel ? o : W.root + "/" + o); R.eval(); R.nontrivial();
      if (r.rc || r.timeout) R.violation(fmt("exit status %d ", r.rc) + r.err); else W.verify(W.root + "/" + o, rec, st, "merging " + i + " to " + o);
      if (rel && chdir("/")) exit(3); if (R.viol.size() > 3) return R.finish();
    }
    proc::wipe_inside(W.root); mkdir(W.in.c_str(), 0755); mkdir(W.out.c_str(), 0755); }
  // I: the same packages in several files count as often as they are stored
  for (int k = 2; k <= 5; ++k) for (size_t i = 0; i < N; ++i) for (int order = 0; order < 2; ++order) if (R.begin(fmt("result %zu %d times, order %d", i, k, order))) {
    W.clean(); multiset<string> rec; res::Store st; for (int f = 0; f < k; ++f) put(W.in, to_string(f), {&PIECES[i]}, rec, st); vector<int> perm; for (int j = 0; j < 2 * k; ++j) perm.push_back(order ? 2 * k - 1 - j : j);
    auto r = W.merge(W.in, W.out + "/m", perm); R.eval(); R.nontrivial(); if (r.rc || r.timeout) R.violation(fmt("exit status %d ", r.rc) + r.err); else W.verify(W.out + "/m", rec, st, "a result in several files");
  }
  // J: records and stores without lines next to ones with lines, and names that agree in all but the last characters
  for (u_int m = 1; m < 256; ++m) for (int order = 0; order < 2; ++order) if (R.begin(fmt("empty parts %x order %d", m, order))) {
    W.clean(); multiset<string> rec; res::Store st; int f = 0; for (int i = 0; i < 8; ++i) if (m >> i & 1) { Piece p = PIECES[i / 2 % N]; if (i % 4 == 2) p.store.clear(); if (i % 4 == 3) { p.blocks.clear(); p.store.clear(); } if (i >= 4) for (auto & b : p.blocks) b += " 1 9"; put(W.in, string(18, '8') + to_string(i), {&p}, rec, st); ++f; }
    vector<int> perm; for (int j = 0; j < 2 * f; ++j) perm.push_back(order ? 2 * f - 1 - j : j); auto r = W.merge(W.in, W.out + "/m", perm); R.eval(); R.nontrivial(f > 1); if (r.rc || r.timeout) R.violation(fmt("exit status %d ", r.rc) + r.err); else W.verify(W.out + "/m", rec, st, fmt("results with and without lines %x", m));
    if (R.viol.size() > 3) return R.finish();
  }
  for (int kind = 0; kind < 3; ++kind) if (R.begin(fmt("empty record without a store %d", kind))) { W.clean(); multiset<string> rec; res::Store st; if (kind) put(W.in, "3", {&PIECES[0]}, rec, st); proc::spit(W.in + (kind == 2 ? "/1.hycu_record" : "/7.hycu_record"), ""); auto r = W.merge(W.in, W.out + "/m"); R.eval(); R.nontrivial(); if (!r.rc || r.timeout || !proc::ls(W.out).empty()) R.violation("an empty record without a store is accepted"); }
  if (R.begin("arguments")) {
    W.clean(); multiset<string> rec; res::Store st; put(W.in, "10", {&PIECES[0]}, rec, st);
    for (auto a : vector<vector<string>>{{"m"}, {"m", W.in}, {"m", W.root + "/none", W.out + "/m"}, {"m", W.in + "/10.hycu_store", W.out + "/m"}}) { auto r = proc::call_main(hycu_merger_main, W.root, a); R.eval(); R.nontrivial(); if (r.rc == 0 || r.timeout) R.violation("wrong arguments accepted: " + fmt("%zu", a.size())); if (!proc::ls(W.out).empty()) R.violation("output written for wrong arguments"); }
    auto r = proc::call_main(hycu_merger_main, W.root, {"m", "--input-path", W.in, "--output-file", W.out + "/n"}); R.eval(); if (r.rc) R.violation("named arguments: exit status"); else W.verify(W.out + "/n", rec, st, "named arguments");
  }
  return R.finish();
}
