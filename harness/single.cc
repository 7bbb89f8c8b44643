// C23: the real hycu-single program on all coefficient lists of a family, with every implementation option.
#include "curves.hh"
#include "proc.hh"
#include <set>
#include <sys/resource.h>
#include <iostream>
#include <sstream>
using namespace std;
extern "C" int hycu_single_main(int, char **);
struct Out { int rc; string out; };
static Out call(const vector<string> & args) {
  stringstream o, e; auto bo = cout.rdbuf(o.rdbuf()), be = cerr.rdbuf(e.rdbuf()); vector<string> copy(args); vector<char *> v; for (auto & s : copy) v.push_back(&s[0]); v.push_back(nullptr);
  int rc = -1; try { rc = hycu_single_main((int)args.size(), v.data()); } catch (exception & ex) { rc = 134; }   // an uncaught exception ends the program with a failure status
  cout.rdbuf(bo); cerr.rdbuf(be); return {rc, o.str()};
}
static string squeeze(const string & s) { string r; for (char c : s) if (!isspace((unsigned char)c)) r += c; return r; }
static vector<long> numbers(const string & s) { vector<long> r; for (size_t i = 0; i < s.size();) { if (isdigit((unsigned char)s[i]) || (s[i] == '-' && i + 1 < s.size() && isdigit((unsigned char)s[i + 1]))) { char * e; r.push_back(strtol(s.c_str() + i, &e, 10)); i = e - s.c_str(); } else ++i; } return r; }
static Space * S = nullptr;
static void check(Report & R, u32 p, const vector<long> & coef, int flag, int place) {
  vector<u32> f; bool neg = false, huge = false; for (long c : coef) { f.push_back((u32)((c % (long)p + p) % p)); if (c < 0) neg = true; if (c > 4294967295l || c < -2147483648l) huge = true; } while (!f.empty() && !f.back()) f.pop_back(); if (f.size() < 2) return;   // constant modulo p
  if (!S || S->p != p) { delete S; S = new Space(p, 1); }
  static const char * flags[3] = {"", "--naivenmod", "--naivezech"};
  vector<string> a{"hycu-single"}; if (flag && (place == 0 || neg)) a.push_back(flags[flag]); if (neg && place) a.push_back("--"); a.push_back(to_string(p)); if (neg && !place) a.push_back("--"); for (long c : coef) a.push_back(to_string(c)); if (flag && place == 1 && !neg) a.push_back(flags[flag]);
  string what; for (auto & s : a) what += s + " ";
  auto o = call(a); R.eval(); bool red = false; for (long c : coef) if (c >= (long)p || c < 0) red = true; R.nontrivial(f.size() > 2); if (red) R.count("with_coefficients_to_reduce"); if (f.size() < coef.size()) R.count("with_leading_zeros");
  if (o.rc && huge) { R.count("refused_beyond_32_bits"); return; }
  if (o.rc) { R.violation(what + fmt("ends with status %d", o.rc)); return; }
  vector<string> lines; { stringstream ss(o.out); string l; while (getline(ss, l)) lines.push_back(l); }
  auto field = [&](const string & name) -> string { for (auto & l : lines) if (l.rfind(name, 0) == 0) return l.substr(name.size()); return "?"; };
  // the curve itself
  string curve = "Y^2="; int d = (int)f.size() - 1; for (int i = d; i >= 0; --i) curve += fmt("(%u)*X^%d%s", f[i], i, i ? "+" : ""); curve += fmt("/F_%u", p);
  if (lines.empty() || squeeze(lines[0]) != curve) { R.violation(what + "prints the curve " + (lines.empty() ? "" : lines[0]) + " instead of " + curve); return; }
  int g = d % 2 ? (d - 1) / 2 : (d - 2) / 2; vector<long> pts, off; for (int k = 1; k <= g; ++k) { auto w = S->want(f, k); pts.push_back(w.unram); pts.push_back(w.ram); off.push_back((long)S->E(k).q + 1 - (long)w.unram - (long)w.ram); }
  if (numbers(field("number of points:")) != pts) { R.violation(what + "prints the points " + field("number of points:") + " instead of " + str(pts)); return; }
  if (numbers(field("hasse-weil offsets:")) != off) { R.violation(what + "prints the offsets " + field("hasse-weil offsets:") + " instead of " + str(off)); return; }
  auto ex = numbers(field("coefficient exponents:")); if (ex.size() != f.size()) { R.violation(what + "number of exponents"); return; }
  for (size_t i = 0; i < f.size(); ++i) if (ex[i] < 0 || ex[i] > (long)p - 1 || S->B.at[ex[i]] != f[i]) { R.violation(what + "prints the exponents " + field("coefficient exponents:")); return; }
  if (p < 2000) {
    auto pat = orc::factor_pattern(*S->B.K, f);
    if (orc::squarefree_pattern(pat)) { auto w = orc::ramification(pat, d); vector<long> v(w.begin(), w.end()); R.count("squarefree"); if (numbers(field("ramification type:")) != v) { R.violation(what + "prints the ramification " + field("ramification type:") + " instead of " + str(v)); return; } }
  }
  R.sample(what);
}
static void lists(Report & R, u32 p, int len, const vector<long> & al, int flags) {
  for (long top : al) {
    if (!R.begin(fmt("p=%u length=%d alphabet of %zu last=%ld", p, len, al.size(), top))) continue;
    u64 N = orc::ipow(al.size(), len - 1);
    for (u64 i = 0; i < N; ++i) { vector<long> c; u64 t = i; for (int j = 0; j + 1 < len; ++j) { c.push_back(al[t % al.size()]); t /= al.size(); } c.push_back(top); for (int f = 0; f < flags; ++f) check(R, p, c, f, (int)(i & 1)); if (R.viol.size() > 4) return; }
  }
}
static vector<long> upto(u32 n) { vector<long> r; for (u32 i = 0; i < n; ++i) r.push_back(i); return r; }
int main(int argc, char ** argv) {
  Report R(argc, argv); bool th = R.thorough();
  for (int l = 2; l <= (th ? 6 : 5); ++l) lists(R, 3, l, upto(6), 3);
  for (int l = 2; l <= (th ? 5 : 4); ++l) lists(R, 5, l, upto(th ? 11 : 8), 3);
  for (int l = 2; l <= 4; ++l) lists(R, 7, l, upto(th ? 15 : 9), th || l < 4 ? 3 : 1);
  lists(R, 5, 5, {0, 1, 2, 4, 6}, 3); lists(R, 7, 5, {0, 1, 3, 6, 8}, 3); lists(R, 3, 7, {0, 1, 2, 3}, th ? 3 : 1); if (th) lists(R, 3, 8, {0, 1, 2}, 1);
  for (u32 p : {11u, 13u, 17u, 31u}) { for (int l = 2; l <= (th ? 6 : 4); ++l) lists(R, p, l, {0, 1, (long)p - 1, (long)p, (long)p + 1, 2 * (long)p + 3, 4294967295l}, p < 30 && (th || l < 4) ? 3 : 1); }
  lists(R, 7, 6, {2, 6, 8, 0}, th ? 3 : 1); lists(R, 5, 7, {0, 1, 7}, 1);
  for (u32 p : {101u, 251u, 257u, 1009u}) lists(R, p, 4, {0, 1, p - 1, p + 2, 4000000000l}, 1);
  auto large = [&](u32 p) { if (th) { lists(R, p, 4, {0, 1, p - 1, p + 2}, 1); return; } lists(R, p, 4, {1, p + 2}, 1); lists(R, p, 4, {0, p - 1}, 1); lists(R, p, 3, {0, 1, p - 1, p + 2}, 1); };
  for (u32 p : {32749u, 65521u}) large(p);
  // primes without a tabulated polynomial, and products of a coefficient and a generator beyond 32 bits
  vector<u32> big{65537, 65539, 110017, 131071}; if (th) for (u32 p : {99991u, 262147u, 524287u, 1000003u, 1048583u}) big.push_back(p);
  for (u32 p : big) { large(p); lists(R, p, 2, {3, p - 2, 65536, 1000}, 1); }
  // negative coefficients, and ones beyond 32 bits
  for (u32 p : {3u, 5u, 7u, 13u}) for (int l = 2; l <= (p < 6 ? 5 : 4); ++l) lists(R, p, l, {0, -1, 1, -(long)p, -2147483648l}, l < 4 ? 3 : 1);
  for (u32 p : {101u, 65521u}) lists(R, p, 3, {-1, 2, -(long)p - 5}, 1);
  for (u32 p : {5u, 11u}) lists(R, p, 3, {4294967296l, -2147483649l, 5000000001l, 9223372036854775807l, 3, -2}, 1);
  // everything that has to be rejected
  if (R.begin("rejected calls")) {
    auto reject = [&](vector<string> a) { a.insert(a.begin(), "hycu-single"); string w; for (auto & s : a) w += s + " "; R.eval(); R.nontrivial(); auto o = call(a); if (o.rc == 0) R.violation(w + "is accepted"); };
    for (u32 n = 0; n < (th ? 20000 : 3000); ++n) if (!orc::is_prime(n)) reject({to_string(n), "1", "0", "1", "1"});
    for (u64 n : {4294967295ull, 4294836225ull, 4293001441ull, 65535ull, 4294049777ull}) if (!orc::is_prime(n)) reject({to_string(n), "1", "0", "1"});
    for (long n : {-3l, -7l, -4294967291l, -1l, 4294967299l, 4294967301l}) { reject({"--", to_string(n), "1", "0", "1", "1"}); }
    reject({}); for (string p : {"3", "7", "4"}) { reject({p}); reject({p, "1"}); reject({p, "0"}); for (string f : {"--naivenmod", "--naivezech"}) { reject({f}); reject({f, p}); reject({f, p, "2"}); } reject({"--naivenmod", "--naivezech", p, "1", "0", "1"}); reject({p, "1", "1", "--naivezech", "2", "1", "--naivenmod"}); reject({"--unknown", p, "1", "1"}); reject({p, "x", "1"}); }
  }
  // the largest field in which points are counted (the field itself for genus 0) has at least 2^31 elements
  string root = proc::scratch(); vector<u64> ps; for (u64 p = 3; p < 1000; p += 2) if (orc::is_prime(p)) ps.push_back(p);
  for (u64 p : {1289ull, 1291ull, 46349ull, 65519ull, 65537ull, 65539ull, 92683ull, 1000003ull, 16777259ull, 1073741827ull, 2147483659ull, 2147483693ull, 4294967279ull, 4294967291ull}) if (orc::is_prime(p)) ps.push_back(p);
  for (u64 p : ps) if (R.viol.size() < 5 && R.begin(fmt("fields beyond 32 bits, characteristic %lu", p))) {
    int g = 1; u64 q = p; while (q < 2147483648ull) { q *= p; ++g; }
    set<int> degrees {2 * g + 1, 2 * g + 2, 2 * g + 3, 2 * g + 8, 4 * g + 1}; if (p >= 2147483648ull) for (int d : {1, 2, 3, 4, 5}) degrees.insert(d);
    for (int d : degrees) for (int form = 0; form < (th ? 6 : 3) && R.viol.size() < 5; ++form) {
      vector<string> a {"hycu-single"}; if (form == 1) a.push_back("--naivenmod"); if (form == 4) a.push_back("--naivezech"); a.push_back(to_string(p)); for (int i = 0; i < d; ++i) a.push_back(form == 5 ? to_string(i % 3 + 1) : i ? "0" : "1"); a.push_back(form == 3 ? "2" : "1"); if (form == 2) for (int i = 0; i < 3; ++i) a.push_back(i == 1 ? to_string(p) : "0"); if (form == 2 && p > 4294967295ull) continue;
      static int (*bounded)(int, char **) = [](int n, char ** v) { struct rlimit l {2ul << 30, 2ul << 30}, f {1ul << 24, 1ul << 24}; setrlimit(RLIMIT_AS, &l); setrlimit(RLIMIT_FSIZE, &f); return hycu_single_main(n, v); };
      auto o = proc::call_main(bounded, root, a, 10); R.eval(); R.nontrivial(); R.count("calls_beyond_the_bound");
      bool abort_ok = o.rc == 134 && o.err.find("bad_alloc") == string::npos; if (o.rc == 0 || o.timeout || o.rc >= 128 && !abort_ok || !o.out.empty()) R.violation(fmt("p=%lu, degree %d, form %d: not refused, status %d%s, prints ", p, d, form, o.rc, o.timeout ? " (timeout)" : "") + o.out.substr(0, 100));
    }
  }
  proc::wipe(root);
  return R.finish();
}
