// C25: counting through a (simulated) OpenCL device that executes queued commands at any time.
#include "cl_sim.hh"
#include "curves.hh"
#include "proc.hh"
#include <iostream>
#include <sstream>
using namespace std;
extern "C" int hycu_single_main(int, char **);
static int eager(int n, const char *) { return n; }
static int lazy(int, const char *) { return 0; }
// enumeration of the moments of execution: a path of choices, extended in depth-first order
static vector<int> path, width; static size_t at;
static int choose(int n, const char *) { if (at == path.size()) { path.push_back(0); width.push_back(n + 1); } return path[at++] % (n + 1); }
static bool next() { path.resize(at); width.resize(at); while (!path.empty() && path.back() + 1 == width.back()) { path.pop_back(); width.pop_back(); } if (path.empty()) return false; ++path.back(); return true; }
struct Dev {   // tables of one field on a device
  shared_ptr<OpenCLInterface> iface; map<pair<u32, u32>, shared_ptr<ReductionTable>> tab;
  Dev() : iface(make_shared<OpenCLInterface>()) {}
  ReductionTable & T(u32 p, u32 e) { auto & t = tab[{p, e}]; if (!t) t = make_shared<ReductionTable>(p, e, iface); return *t; }
};
static string compare(Space & S, const vector<u32> & ex, const Curve & c, const vector<u32> & ks) {
  auto f = S.elements(ex); auto & got = c.number_of_points();
  for (u32 k : ks) { auto w = S.want(f, k); auto it = got.find(k * S.e); if (it == got.end()) return show(S, ex) + fmt(", extension %u: not counted", k); if (get<0>(it->second) != w.unram || get<1>(it->second) != w.ram) return show(S, ex) + fmt(", extension %u: counted (%u,%u), by definition (%u,%u)", k, get<0>(it->second), get<1>(it->second), w.unram, w.ram); }
  if (got.size() != set<u32>(ks.begin(), ks.end()).size()) return show(S, ex) + ": extensions counted";
  return "";
}
static pair<int, string> call(const vector<string> & args) {
  stringstream o, e; auto bo = cout.rdbuf(o.rdbuf()), be = cerr.rdbuf(e.rdbuf()); vector<string> copy(args); vector<char *> v; for (auto & s : copy) v.push_back(&s[0]); v.push_back(nullptr);
  int rc = -1; try { rc = hycu_single_main((int)args.size(), v.data()); } catch (exception & ex) { rc = 134; }
  cout.rdbuf(bo); cerr.rdbuf(be); return {rc, o.str()};
}
int main(int argc, char ** argv) {
  Report R(argc, argv); bool th = R.thorough(); Space * S = nullptr; Dev * D = nullptr; string last; long n = 0; clsim::cpu_devices = 1; clsim::on_wrong = [](const string & m) { fprintf(stderr, "device: %s\n", m.c_str()); _exit(65); };
  // ---- families of curves, executed as early and as late as possible
  auto once = [&](u32 kmax, u64 lim) { return [&, kmax, lim](Space & S, const vector<u32> & ex) {
    if (R.id != last || !D) { delete D; D = nullptr; clsim::execute_now = eager; D = new Dev; last = R.id; n = 0; }
    clsim::execute_now = n++ & 1 ? eager : lazy; Curve c(S.B.table, ex); u32 km = 0; u64 Q = S.q; while (km < kmax && Q <= lim) { ++km; Q *= S.q; }
    vector<u32> ks; for (u32 k = km; k > 0; --k) { c.count(D->T(S.p, S.e * k)); ks.push_back(k); R.eval(); }
    string r = compare(S, ex, c, ks); if (!r.empty()) R.violation(r); R.nontrivial(S.elements(ex).size() > 2); R.sample(show(S, ex) + fmt(", extensions 1..%u", km));
  }; };
  full(R, S, 3, 1, th ? 8 : 6, 0, once(th ? 5 : 4, 300), 1); full(R, S, 5, 1, th ? 6 : 5, 0, once(3, 130), 1); full(R, S, 7, 1, th ? 5 : 4, 0, once(2, 50), 1); full(R, S, 3, 2, th ? 5 : 4, 0, once(2, 90), 1); full(R, S, 11, 1, th ? 4 : 3, 0, once(2, 130), 1); full(R, S, 5, 2, 2, 0, once(2, 700), 1); full(R, S, 3, 3, 3, 0, once(1, 30), 1);
  for (u32 p = 3; p < (th ? 300u : 100u); p += 2) if (orc::is_prime(p)) { u64 q = p; for (u32 e = 1; q < (th ? 300 : 100); ++e, q *= p) corners(R, S, p, e, 4, 0, once(2, th ? 3000 : 400), 4); }
  for (u32 p : {3, 5, 7}) corners(R, S, p, 1, 10, 0, once(2, 50), 2);
  for (u32 p : {1009u, 4093u, 65521u}) corners(R, S, p, 1, 3, 0, once(1, 70000), 3, "large"); corners(R, S, 3, 8, 4, 0, once(1, 7000), 2, "large");
  // ---- every moment of execution, for histories over one device: h = sequence of steps
  // steps: create a table (c), drop it (d), count a cubic (1), a quartic (2), a line (3) with a fresh curve, with the table of the base field or an extension
  struct Step { char what; u32 e; }; vector<pair<string, vector<Step>>> hist {
    {"one count", {{'1', 1}}}, {"two counts", {{'1', 1}, {'2', 1}}}, {"same degree twice", {{'1', 1}, {'4', 1}, {'1', 1}}}, {"two tables", {{'1', 2}, {'1', 1}}}, {"two tables, two degrees", {{'2', 2}, {'2', 1}, {'1', 1}}},
    {"table without count", {{'c', 1}, {'d', 1}, {'c', 1}, {'1', 1}}}, {"other table without count", {{'c', 2}, {'d', 2}, {'1', 1}}}, {"table again", {{'1', 1}, {'d', 1}, {'2', 1}}}, {"lines", {{'3', 1}, {'1', 1}, {'3', 1}}}, {"device dropped", {{'c', 1}, {'c', 2}}}};
  if (th) { hist.push_back({"four counts", {{'1', 1}, {'2', 1}, {'3', 1}, {'4', 1}}}); hist.push_back({"three tables", {{'1', 3}, {'1', 2}, {'1', 1}, {'2', 2}}}); hist.push_back({"changes", {{'1', 1}, {'d', 1}, {'2', 2}, {'d', 2}, {'1', 1}}}); }
  for (u32 p : {3u, 5u, 7u}) for (auto & h : hist) {
    if (!R.begin(fmt("moments p=%u ", p) + h.first)) continue; clsim::execute_now = lazy; Space T(p, 1); path.clear(); width.clear(); string r; long k = 0;
    do {
      at = 0; { Dev d; clsim::execute_now = choose; vector<char> junk;
        for (auto & s : h.second) {
          if (s.what == 'c') { d.T(p, s.e); continue; } if (s.what == 'd') { d.tab.erase({p, s.e}); junk.assign(4096, 0x77); continue; }
          vector<u32> ex; switch (s.what) { case '1': ex = {1 % (p - 1), p - 1, p - 1, 0}; break; case '2': ex = {0, 1, p - 1, 0, 1 % (p - 1)}; break; case '3': ex = {0, 1 % (p - 1)}; break; default: ex = {p - 1, 0, 1 % (p - 1), p - 2}; }
          Curve c(T.B.table, ex); c.count(d.T(p, s.e)); r = compare(T, ex, c, {s.e}); R.eval(); if (!r.empty()) break;
        }
        clsim::execute_now = lazy; }
      ++k; R.nontrivial(); if (!r.empty()) { r += ", executing " + str(path) + " commands at the calls of the host"; break; }
    } while (next());
    R.count("execution_moments", k); if (!r.empty()) R.violation(r); R.sample(h.first + fmt(", p=%u: %ld ways to execute", p, k)); clsim::execute_now = eager;
  }
  // ---- all short histories of degrees on one table
  for (u32 p : {3u, 5u}) for (u32 e : {1u, 2u}) for (int code = 0, A = th ? 7 : 6, L = th ? 5 : 4; code < (int)orc::ipow(A, L); ++code) {
    if (!R.begin(fmt("degrees p=%u e=%u code=%d", p, e, code))) continue; for (int late = 0; late < 2; ++late) {
      clsim::execute_now = late ? lazy : eager; Space T(p, 1); Dev d; int t = code; string seq, r;
      for (int i = 0; i < L && r.empty(); ++i, t /= A) { u32 deg = 1 + t % A; vector<u32> ex(deg + 1, p - 1); for (u32 j = 0; j <= deg; ++j) ex[j] = (j * 2 + i) % p; ex[deg] = i % (p - 1); seq += fmt(" %u", deg); Curve c(T.B.table, ex); c.count(d.T(p, e)); R.eval(); r = compare(T, ex, c, {e}); }
      R.nontrivial(); if (!r.empty()) { R.violation("after counting degrees" + seq + " with one table: " + r); break; } R.sample("degrees" + seq); }
    clsim::execute_now = eager;
  }
  // ---- a table that takes over its device
  for (u32 p : {3u, 5u, 7u}) if (R.begin(fmt("device moved into a table, p=%u", p))) for (int late = 0; late < 2; ++late) {
    clsim::execute_now = late ? lazy : eager; Space T(p, 1); ReductionTable t(p, 1, make_shared<OpenCLInterface>()); vector<u32> ex {1 % (p - 1), p - 1, p - 1, 0}; R.eval();
    Curve c(T.B.table, ex); c.count(t); string r = compare(T, ex, c, {1}); if (!r.empty()) R.violation(r); if (!t.is_opencl_enabled()) R.violation("the device is not used"); clsim::execute_now = eager;
  }
  // ---- hycu-single
  for (u32 p : {3u, 5u, 7u, 11u, 13u, 31u, 101u, 257u}) for (int late = 0; late < 2; ++late) {
    if (!R.begin(fmt("single p=%u late=%d", p, late))) continue; clsim::execute_now = late ? lazy : eager;
    u32 al[5] = {0, 1, p - 1, 2, p + 2}; for (int len = 2; len <= (p < 12 ? 7 : p < 40 ? 5 : 4); ++len) { int A = len > 5 ? 2 : len > 4 ? 3 : 5; u64 N = orc::ipow(A, len); if (len > 6 && p > 5) continue;
      for (u64 i = 0; i < N; ++i) {
        vector<string> a {"hycu-single", to_string(p)}; u64 t = i; bool nc = false; for (int j = 0; j < len; ++j) { u32 c = al[t % A]; t /= A; a.push_back(to_string(c)); if (j && c % p) nc = true; } if (!nc) continue;
        auto w = call(a); auto b = a; b.insert(b.begin() + 1 + (i & 1) * (len + 1), "--opencl"); auto g = call(b); R.eval(); R.nontrivial(len > 2);
        if (w != g) { string s; for (auto & x : b) s += x + " "; R.violation(s + fmt("ends with %d and prints ", g.first) + g.second + fmt("; without --opencl %d, ", w.first) + w.second); break; }
      } }
    clsim::execute_now = eager;
  }
  R.count("device_commands", clsim::commands); R.count("kernel_launches", clsim::launches); delete D; return R.finish();
}
