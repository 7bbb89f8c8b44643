// C29: every short command line and every kind of configuration, output path and input, for the threaded, merger and
// single programs: what cannot be carried out is refused and changes nothing, everything else is done.
#include "expect.hh"
#include "report.hh"
#include "calls.hh"
#include <sys/syscall.h>
using namespace std; using namespace calls;
extern "C" int hycu_threaded_main(int, char **); extern "C" int hycu_merger_main(int, char **); extern "C" int hycu_single_main(int, char **);
// polls are shortened
extern "C" int nanosleep(const struct timespec *, struct timespec *) { timespec t {0, 100000}; syscall(SYS_nanosleep, &t, nullptr); return 0; }
extern "C" int clock_nanosleep(clockid_t, int, const struct timespec *, struct timespec *) { timespec t {0, 100000}; syscall(SYS_nanosleep, &t, nullptr); return 0; }
static proc::Res run(const Spec & sp, const vector<string> & t, bool nobody = false) {
  vector<string> a{"hycu-" + sp.name}; a.insert(a.end(), t.begin(), t.end());
  return proc::in_child(root, 20, [&] { struct rlimit rl { 3u << 30, 3u << 30 }; setrlimit(RLIMIT_AS, &rl); if (chdir(root.c_str())) return 99; if (nobody && (setgid(65534) || setuid(65534))) return 99; vector<char *> v; for (auto & s : a) v.push_back(strdup(s.c_str())); v.push_back(nullptr); return sp.main((int)a.size(), v.data()); });
}
static string refused(const proc::Res & r, const map<string, string> & before) {
  if (r.timeout) return "does not end"; if (!r.rc) return "ends with exit status 0, although it cannot be carried out"; if (r.err.empty() && r.out.empty()) return fmt("ends with status %d without any message", r.rc);
  return differ(before, tree(false));
}
static string one(const Spec & sp, const vector<string> & t, bool & clear, int & kind) {
  Args a; Parse pr = parse(sp, t, a); clear = pr != UNCLEAR; if (!clear) return ""; kind = 0; build(); auto before = tree(false), all = tree(true); auto r = run(sp, t); if (r.timeout) return "does not end";
  if (pr == GOOD && a.count("help")) { kind = 1; if (r.rc) return fmt("asks for help and ends with status %d", r.rc); if (r.err.empty() && r.out.empty()) return "prints no help"; return differ(all, tree(true)); }
  bool ok = pr == GOOD; string d;
  if (ok && sp.name == "threaded") {
    ok = a.count("config-file") && a.count("output-path"); if (ok) { string c = abs(a["config-file"][0]), o = abs(a["output-path"][0]); ok = c == root + "/cfg" && o != root + "/f" && o != root + "/cfg"; if (ok) { kind = 2; if (r.rc) return fmt("ends with status %d: ", r.rc) + r.err; return census(o + "/r"); } }
  } else if (ok && sp.name == "merger") {
    ok = a.count("input-path") && a.count("output-file"); if (ok) { string i = abs(a["input-path"][0]); string o = abs(a["output-file"][0]); ok = i == root + "/in" && proc::is_dir(o.substr(0, o.rfind('/'))) ; if (ok) { kind = 2; if (r.rc) return fmt("ends with status %d: ", r.rc) + r.err; return merged(abs(a["output-file"][0])); } }
  } else if (ok) {
    ok = a.count("field_size") && a["coefficients"].size() >= 2; for (auto & c : a["coefficients"]) ok = ok && integer(c, true); if (ok) ok = integer(a["field_size"][0], false) && orc::is_prime(atoi(a["field_size"][0].c_str())) && a["field_size"][0] != "2"; if (a.count("naivenmod") && a.count("naivezech")) ok = false;
    if (ok) { int p = atoi(a["field_size"][0].c_str()); bool nc = false; for (size_t i = 1; i < a["coefficients"].size(); ++i) if (atoi(a["coefficients"][i].c_str()) % p) nc = true; if (!nc) return refused(r, before); kind = 2; if (r.rc) return fmt("ends with status %d: ", r.rc) + r.err; return r.out.find("number of points:") == string::npos ? "prints no points" : ""; }
  }
  return refused(r, before);
}
static void lines(Report & R, const Spec & sp, int len) {
  int A = sp.tokens.size(); for (int l = 0; l <= len; ++l) for (u64 hi = 0, H = l > 1 ? (u64)A * (l > 2 ? A : 1) : 1; hi < H; ++hi) {
    if (!R.begin(fmt("%s: %d arguments, part %d", sp.name.c_str(), l, (int)hi))) continue; u64 low = l > 2 ? 2 : l > 1 ? 1 : 0, N = orc::ipow(A, l - low);
    for (u64 c = 0; c < N; ++c) { vector<string> t; u64 x = c; for (u64 i = 0; i < l - low; ++i) { t.push_back(sp.tokens[x % A]); x /= A; } x = hi; for (u64 i = 0; i < low; ++i) { t.push_back(sp.tokens[x % A]); x /= A; }
      bool clear; int kind = 0; string r = one(sp, t, clear, kind), s = sp.name; for (auto & y : t) s += " " + y; if (!clear) continue; R.eval(); R.nontrivial(l > 0); R.count(kind == 0 ? "refused" : kind == 1 ? "help" : "carried_out"); R.sample(s); if (!r.empty()) { R.violation(s + ": " + r); break; } }
  }
}
int main(int argc, char ** argv) {
  Report R(argc, argv); bool th = R.thorough(); root = proc::scratch(); chmod(root.c_str(), 0755); W = expect::run(3, 1, 1, true, 1, 10);
  Spec T {"threaded", hycu_threaded_main, {{"help", 'h', 0}, {"config-file", 'c', 's'}, {"output-path", 0, 's'}, {"nmb-threads", 'n', 'i'}, {"nmb-threads-per-gpu", 'g', 'u'}}, {"config-file", "output-path"}, "", {"cfg", "out", "new/er", "f", "missing", "-n1", "-n", "2", "-nx", "-c", "--output-path=out", "--help", "--unknown", "-g0", "--"}};
  Spec M {"merger", hycu_merger_main, {{"help", 'h', 0}, {"input-path", 0, 's'}, {"output-file", 0, 's'}}, {"input-path", "output-file"}, "", {"in", "merged", "f", "missing", "missing/merged", "--input-path", "--input-path=in", "--output-file=merged", "-h", "-x", "--unknown", "--"}};
  Spec S {"single", hycu_single_main, {{"help", 'h', 0}, {"naivenmod", 0, 0}, {"naivezech", 0, 0}}, {"field_size"}, "coefficients", {"7", "4", "1", "0", "x", "-1", "--naivenmod", "--naivezech", "--help", "--unknown", "--"}};
  S.opts.push_back({"field_size", 0, 'i'}); S.opts.push_back({"coefficients", 0, 'i'}); lines(R, T, th ? 5 : 4); lines(R, M, th ? 5 : 4); lines(R, S, th ? 6 : 4);
  auto cs = configurations(), os = outputs();
  auto judge = [&](const string & name, int ok, bool nobody, const vector<string> & t, const string & where) {
    auto before = tree(false); auto r = run(T, t, nobody); R.eval(); R.nontrivial(); string e;
    if (r.timeout) e = "does not end"; else if (ok == 1) e = r.rc ? fmt("ends with status %d: ", r.rc) + r.err : census(where); else if (ok == 0) e = refused(r, before); else if (ok == 3) { string why; expect::Folder f; if (!r.rc) e = "ends with exit status 0"; else if (proc::is_dir(where) && (!expect::read_folder(where, f, why) || !expect::consistent(f, W, why))) e = why; }
    else if (r.rc) e = refused(r, before);
    R.count(ok == 1 ? "carried_out" : "refused"); R.sample(name); if (!e.empty()) R.violation(name + ": " + e);
  };
  for (auto & c : cs) for (auto & o : os) { string n = "configuration: " + c.name + "; output: " + o.name; if (!R.begin(n)) continue; build(); c.make(); o.make(); judge(n, c.ok == 0 ? 0 : c.ok == 2 ? 2 : o.ok == 0 ? 0 : o.ok == 2 ? 2 : c.ok, false, {"-n1", "cfg", "out"}, root + "/out/r"); }
  // without permission
  struct Perm { string name; int ok; function<void()> make; };
  auto own = [] { for (auto x : {"", "/out", "/out/r", "/in", "/cfg", "/out/r/100.hycu_record", "/out/r/100.hycu_store"}) if (chown((root + x).c_str(), 65534, 65534)) exit(3); };
  for (auto & p : vector<Perm> {{"all allowed", 1, [] {}}, {"configuration unreadable", 0, [] { chmod((root + "/cfg").c_str(), 0); }}, {"output root not writable, result folder missing", 0, [] { proc::wipe(root + "/out/r"); chmod((root + "/out").c_str(), 0555); }}, {"output root missing and not to be created", 0, [] { proc::wipe(root + "/out"); chmod(root.c_str(), 0555); }}, {"result folder not writable", 0, [] { chmod((root + "/out/r").c_str(), 0555); }}, {"result folder not searchable", 0, [] { chmod((root + "/out/r").c_str(), 0444); }}, {"result folder not readable", 0, [] { chmod((root + "/out/r").c_str(), 0333); }}, {"earlier record not readable", 0, [] { chmod((root + "/out/r/100.hycu_record").c_str(), 0); }}}) {
    if (!R.begin("permission: " + p.name)) continue; build(); own(); p.make(); judge("permission: " + p.name, p.ok, true, {"-n1", "cfg", "out"}, root + "/out/r"); if (chown(root.c_str(), 0, 0)) exit(3); chmod(root.c_str(), 0755); }
  struct In { string name; int ok; function<void()> make; };
  for (auto & p : vector<In> {{"all in order", 1, [] {}}, {"record without store", 0, [] { unlink((root + "/in/1.hycu_store").c_str()); }}, {"store is a folder", 0, [] { unlink((root + "/in/1.hycu_store").c_str()); mkdir((root + "/in/1.hycu_store").c_str(), 0755); }}, {"output record is a folder", 0, [] { mkdir((root + "/merged.hycu_record").c_str(), 0755); proc::spit(root + "/merged.hycu_record/x", "x"); }}, {"output store is a folder", 0, [] { mkdir((root + "/merged.hycu_store").c_str(), 0755); proc::spit(root + "/merged.hycu_store/x", "x"); }}, {"store not readable", 0, [] { chmod((root + "/in/2.hycu_store").c_str(), 0); }}, {"record not readable", 0, [] { chmod((root + "/in/1.hycu_record").c_str(), 0); }}, {"folder not readable", 0, [] { chmod((root + "/in").c_str(), 0333); }}, {"output not writable", 0, [] { chmod(root.c_str(), 0555); }}, {"input is a link", 1, [] { rename((root + "/in").c_str(), (root + "/real").c_str()); if (symlink("real", (root + "/in").c_str())) exit(3); }}}) {
    if (!R.begin("merger: " + p.name)) continue; build(); if (chown(root.c_str(), 65534, 65534) || chown((root + "/in").c_str(), 65534, 65534)) exit(3); p.make(); auto before = tree(false); auto r = run(M, {"in", "merged"}, true); if (chown(root.c_str(), 0, 0)) exit(3); chmod(root.c_str(), 0755);
    R.eval(); R.nontrivial(); string e = r.timeout ? "does not end" : p.ok ? (r.rc ? fmt("ends with status %d: ", r.rc) + r.err : merged(root + "/merged")) : refused(r, before); if (!e.empty()) R.violation("merger: " + p.name + ": " + e); }
  proc::wipe(root); return R.finish();
}
