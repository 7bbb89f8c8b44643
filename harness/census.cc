// C08 (mode census): the weighted enumeration against a brute-force census.
// C09 (mode mult): multiplicities for all supports and field sizes, and marginals per factorization pattern.
#include "curves.hh"
#include "store/store_factory.hh"
#include <array>
#include <cmath>
#include <set>
#include <sstream>
using namespace std;
typedef unsigned __int128 u128;
static string dec(u128 x) { if (!x) return "0"; string r; while (x) { r = char('0' + (int)(x % 10)) + r; x /= 10; } return r; }

static string keystr(const orc::Key & k) { return str(k.first) + ";" + str(k.second); }
static void census(Report & R, u32 p, u32 e, u32 g, bool marked, int kmax, vector<u32> packages, bool trick) {
  string nm = fmt("census q=%u^%u genus=%u marked=%d exponents=%d", p, e, g, marked, kmax);
  if (!R.begin(nm)) return;
  glue::BaseField B(p, e); if (!B.check()) { R.count("skipped_broken_table"); return; }
  auto C = orc::census(*B.K, g, marked, kmax, trick); map<string, string> want; u64 polys = 0;
  for (auto & c : C) { want[keystr(c.first)] = to_string(c.second); polys += c.second; }
  vector<shared_ptr<ReductionTable>> rt; for (int k = kmax; k > 0; --k) rt.push_back(make_shared<ReductionTable>(p, e * k));
  for (u32 ps : packages) {
    auto st = create_store_factory(StoreType::EC)->create(); u64 reps = 0;
    for (CurveIterator it(*B.table, g, marked, ps); !it.is_end(); it.step()) for (BlockIterator b(it.as_block()); !b.is_end(); b.step()) {
      Curve c(B.table, b.as_position()); if (!c.has_squarefree_rhs()) continue; for (auto & t : rt) c.count(t); st->register_curve(c); ++reps;
    }
    stringstream ss; st->insert(ss); map<string, string> got; string l; bool dup = false;
    while (getline(ss, l)) { auto i = l.find(':'); if (!got.emplace(l.substr(0, i), i == string::npos ? "?" : l.substr(i + 1)).second) dup = true; }
    R.eval(); R.nontrivial(want.size() > 2); R.count("representatives", reps); R.count("polynomials_in_census", polys); R.count("keys", want.size());
    if (dup) R.violation(nm + ": a key occurs twice in the store");
    int shown = 0;
    for (auto & w : want) { auto it = got.find(w.first); if (it == got.end() || it->second != w.second) { if (shown++ < 3) R.violation(nm + fmt(" package size %u: ", ps) + w.first + " expected " + w.second + " got " + (it == got.end() ? "nothing" : it->second)); } }
    for (auto & w : got) if (!want.count(w.first) && shown++ < 3) R.violation(nm + fmt(" package size %u: ", ps) + "unexpected " + w.first + ":" + w.second);
  }
  R.sample(nm + fmt(": %llu squarefree polynomials in %zu classes, package sizes ", polys, want.size()) + str(packages));
}

// weight of a representative with the given support: the polynomials with the same normal form conditions,
// divided by the number of enumerated representatives, divided by two for the twist
static bool weight(u32 p, u64 q, const vector<u32> & sup, u128 & w) {
  u32 n = sup.back(); int s = (int)sup.size(); u32 a = s > 1 ? sup[s - 2] : ~0u, b = s > 2 ? sup[s - 3] : ~0u;
  u128 Q = q, q1 = q - 1;
  if (p > n) {
    if (a == n - 1) return false;
    if (s <= 2) w = Q * q1 / 2; else w = Q * q1 * q1 / orc::gcd(q - 1, a - b) / 2;
  } else if (n % p == 0) {
    if (a == n - 1) { if (b == n - 2) return false; w = b == n - 3 ? Q * q1 * q1 / orc::gcd(3, q - 1) / 2 : Q * q1 / 2; }
    else w = a == n - 2 ? q1 * q1 / 4 : q1 / 2;
  } else { if (a == n - 1) return false; w = a == n - 2 ? Q * q1 * q1 / 4 : Q * q1 / 2; }
  return true;
}
static void mult_all(Report & R, u32 p, u64 q, u32 nmax) {
  if (!R.begin(fmt("multiplicities p=%u q=%llu", p, q))) return;
  for (u32 n = 3; n <= nmax; ++n) for (u32 m = 0; m < 1u << n; ++m) {
    vector<u32> sup; for (u32 i = 0; i < n; ++i) if (m >> i & 1) sup.push_back(i); sup.push_back(n);
    u128 w; if (!weight(p, q, sup, w)) continue;
    fmpz_t f; fmpz_init(f); CurveIterator::multiplicity(f, p, (u32)q, sup); char * s = fmpz_get_str(NULL, 10, f); string got = s; flint_free(s); fmpz_clear(f);
    R.eval(); R.nontrivial(w > 1);
    if (got != dec(w)) { R.violation(fmt("q=%llu (p=%u) support %s: multiplicity %s, orbit size %s", q, p, str(sup).c_str(), got.c_str(), dec(w).c_str())); return; }
  }
  R.sample(fmt("q=%llu: all supports of degrees 3..%u", q, nmax));
}
static u128 binom(u128 n, u32 k) { if (n < k) return 0; u128 r = 1; for (u32 i = 0; i < k; ++i) r = r * (n - i) / (i + 1); return r; }
static u128 necklace(u64 q, u32 n) { __int128 s = 0; for (u32 d = 1; d <= n; ++d) if (n % d == 0) { u32 m = n / d; int mu = 1; for (u32 f = 2; f <= m; ++f) if (m % f == 0) { m /= f; if (m % f == 0) { mu = 0; break; } mu = -mu; } __int128 t = 1; for (u32 i = 0; i < d; ++i) t *= q; s += mu * t; } return s / n; }
static void partitions(int n, int mx, vector<u32> & cur, vector<vector<u32>> & out) { if (!n) { out.push_back(cur); return; } for (int k = min(n, mx); k >= 1; --k) { cur.push_back(k); partitions(n - k, k, cur, out); cur.pop_back(); } }
static void marginals(Report & R, u32 p, u32 e, u32 g, bool marked, bool types) {
  if (!R.begin(fmt("marginals q=%u^%u genus=%u marked=%d", p, e, g, marked))) return;
  auto table = make_shared<FqElementTable>(p, e); u64 q = orc::ipow(p, e);
  map<pair<u32, vector<u32>>, u128> got, want; map<u32, u128> total;
  for (CurveIterator it(*table, g, marked, 1000); !it.is_end(); it.step()) for (BlockIterator b(it.as_block()); !b.is_end(); b.step()) {
    Curve c(table, b.as_position()); u32 n = c.degree(); fmpz_t f; fmpz_init(f); CurveIterator::multiplicity(f, c.prime(), c.prime_power(), c.rhs_support());
    u128 m = (u128)fmpz_get_ui(f); fmpz_clear(f); total[n] += 2 * m; R.count("representatives");
    if (types && c.has_squarefree_rhs()) got[{n, c.ramification_type()}] += 2 * m;
  }
  R.eval(); R.nontrivial();
  for (u32 n = 2 * g + 1; n <= (marked ? 2 * g + 1 : 2 * g + 2); ++n) {
    u128 all = q - 1; for (u32 i = 0; i < n; ++i) all *= q;
    if (total[n] != all) { R.violation(fmt("q=%llu degree %u: the multiplicities sum to %s, there are %s polynomials", q, n, dec(total[n]).c_str(), dec(all).c_str())); return; }
    if (!types) continue;
    vector<vector<u32>> ps; vector<u32> cur; partitions(n, n, cur, ps);
    for (auto & lam : ps) { u128 c = q - 1; map<u32, u32> mult; for (u32 k : lam) ++mult[k]; for (auto & x : mult) c *= binom(necklace(q, x.first), x.second); auto t = lam; if (n % 2) t.push_back(1); sort(t.begin(), t.end()); if (c) want[{n, t}] = c; }
  }
  if (types) {
    for (auto & w : want) { u128 x = got.count(w.first) ? got[w.first] : 0; if (x != w.second) { R.violation(fmt("q=%llu degree %u type %s: weighted number %s, closed formula %s", q, w.first.first, str(w.first.second).c_str(), dec(x).c_str(), dec(w.second).c_str())); return; } R.count("pattern_totals"); }
    for (auto & x : got) if (!want.count(x.first)) R.violation(fmt("q=%llu: impossible type %s", q, str(x.first.second).c_str()));
  }
  R.sample(fmt("q=%llu genus %u marked %d: totals%s", q, g, marked, types ? " and all factorization patterns" : ""));
}
// supports of high degree: the six highest exponents below the degree in all ways, with three kinds of lower terms
static void mult_high(Report & R, u32 p, u64 q, u32 nmin, u32 nmax) {
  if (!R.begin(fmt("multiplicities p=%u q=%llu degrees %u..%u", p, q, nmin, nmax))) return;
  for (u32 n = nmin; n <= nmax; ++n) for (u32 gap = 0; gap <= n - 6; gap += gap < 8 ? 1 : 5) for (u32 m = 0; m < 64; ++m) for (int low = 0; low < 3; ++low) {
    set<u32> t {n}; for (u32 i = 0; i < 6; ++i) if (m >> i & 1) { if (n < 1 + i + (i ? gap : 0)) continue; t.insert(n - 1 - i - (i ? gap : 0)); } if (low == 1) t.insert(0); if (low == 2) for (u32 i = 0; i + 7 + gap < n; i += 2) t.insert(i);
    vector<u32> sup(t.begin(), t.end()); u128 w; if (!weight(p, q, sup, w)) continue;
    fmpz_t f; fmpz_init(f); CurveIterator::multiplicity(f, p, (u32)q, sup); char * s = fmpz_get_str(NULL, 10, f); string got = s; flint_free(s); fmpz_clear(f); R.eval(); R.nontrivial(w > 1);
    if (got != dec(w)) { R.violation(fmt("q=%llu (p=%u) support %s: multiplicity %s, orbit size %s", q, p, str(sup).c_str(), got.c_str(), dec(w).c_str())); return; }
  }
}
// whole iterators as boxes: every combination of zero and non-zero coefficients of every box, with its number of polynomials
static void boxes(Report & R, u32 p, u32 e, u32 g, bool marked) {
  if (!R.begin(fmt("boxes q=%u^%u genus=%u marked=%d", p, e, g, marked))) return;
  FqElementTable table(p, e); u64 q = orc::ipow(p, e), z = table.zero_index(); map<u32, u128> total; map<array<u32, 3>, vector<u128>> residues; long nb = 0;
  for (CurveIterator it(table, g, marked, ~0u); !it.is_end(); it.step()) {
    auto b = it.as_block(); int n = (int)b.size() - 1; ++nb;
    struct Side { u128 zero, non; u64 lo, hi; }; vector<Side> s; for (auto & x : b) { u64 lo = get<0>(x), hi = get<1>(x); bool has = lo <= z && z < hi; s.push_back({has ? (u128)1 : (u128)0, (u128)(hi - lo) - (has ? 1 : 0), lo, has ? hi - 1 : hi}); if (has && hi - 1 != z) { R.violation("an interval goes beyond the index of zero"); return; } }
    // tail[i]: number of positions of the coefficients below i
    vector<u128> tail(n + 2, 1); for (int i = 0; i <= n; ++i) tail[i + 1] = tail[i] * (s[i].zero + s[i].non);
    if (s[n].zero || !s[n].non) { R.violation("leading coefficient zero"); return; }
    auto leaf = [&](vector<u32> top, u128 count) {   // top: highest exponents first
      if (!count) return true; vector<u32> sup(top.rbegin(), top.rend()); u128 w; if (!weight(p, q, sup, w)) { R.violation("representative with support ..." + str(sup)); return false; }
      fmpz_t f; fmpz_init(f); CurveIterator::multiplicity(f, p, (u32)q, sup); u128 m = 0; { char * c = fmpz_get_str(NULL, 10, f); for (char * x = c; *x; ++x) m = m * 10 + (*x - '0'); flint_free(c); } fmpz_clear(f); R.eval();
      if (m != w) { R.violation("multiplicity of support " + str(sup)); return false; } total[n] += 2 * m * count; return true; };
    // classes of the coefficient that is determined up to powers: exponent differences modulo d, all coefficients below free
    auto classify = [&](u32 hi, u32 lo, u32 ref, u64 d, u128 others) { auto & v = residues[{(u32)n, hi, lo}]; v.resize(d); if (s[ref].hi - s[ref].lo != 1) { R.violation("the coefficient that fixes the scale is free"); return false; } u64 r = s[ref].lo % d, len = s[lo].hi - s[lo].lo; for (u64 k = 0; k < d; ++k) { u64 first = (r + k) % d; (void)first; u64 c = 0; u64 l = s[lo].lo, h = s[lo].hi; u64 t = (r + k) % d; u64 a = l % d <= t ? l + (t - l % d) : l + d - (l % d - t); if (a < h) c = (h - 1 - a) / d + 1; v[k] += others * c; } (void)len; return true; };
    bool ok = true; u128 c1 = s[n].non; int a = n - 1; u128 pre = c1;
    for (; a >= 0 && ok; --a) {   // a: second exponent; everything between is zero
      if (s[a].non) { u128 c2 = pre * s[a].non, pre2 = c2; int x = a - 1;
        if (p <= (u32)n && a == n - 2) ok = classify(n, a, n, 2, tail[a]);
        for (; x >= 0 && ok; --x) { if (s[x].non) { ok = leaf({(u32)n, (u32)a, (u32)x}, pre2 * s[x].non * tail[x]); if (ok && p > (u32)n) ok = classify(a, x, a, orc::gcd(q - 1, a - x), pre * tail[x]); if (ok && n % p == 0 && a == n - 1 && x == n - 3) ok = classify(a, x, n, orc::gcd(3, q - 1), s[a].non * tail[x]); } pre2 *= s[x].zero; if (!pre2) break; }
        if (x < 0 && ok && pre2) ok = leaf({(u32)n, (u32)a}, pre2); }
      pre *= s[a].zero; if (!pre) break;
    }
    if (!ok) return; if (a < 0 && pre) if (!leaf({(u32)n}, pre)) return;
  }
  R.count("boxes", nb); R.nontrivial();
  for (u32 n = 2 * g + 1; n <= (marked ? 2 * g + 1 : 2 * g + 2); ++n) { u128 all = q - 1; for (u32 i = 0; i < n; ++i) all *= q; if (total[n] != all) { R.violation(fmt("q=%llu degree %u: the multiplicities sum to %s, there are %s polynomials", q, n, dec(total[n]).c_str(), dec(all).c_str())); return; } total.erase(n); }
  if (!total.empty()) R.violation("representatives of another degree");
  for (auto & x : residues) for (auto & c : x.second) if (c != x.second[0]) { R.violation(fmt("q=%llu degree %u: representatives with exponents %u and %u fall into the classes unevenly", q, x.first[0], x.first[1], x.first[2])); return; }
}
int main(int argc, char ** argv) {
  Report R(argc, argv); bool th = R.thorough();
  if (R.mode == "census") {
    vector<u32> P{1, 3, 100, ~0u};
    auto both = [&](u32 p, u32 e, u32 g, int k, vector<u32> ps, bool trick) { census(R, p, e, g, false, k, ps, trick); census(R, p, e, g, true, k, ps, trick); };
    if (th) { // long ones first
      census(R, 11, 1, 2, false, 2, {100}, true); census(R, 13, 1, 2, true, 2, {100}, true); census(R, 13, 1, 2, false, 1, {100}, true); both(5, 1, 3, 3, {1, 100}, true); both(3, 2, 2, 2, {1, 100}, true); both(3, 1, 5, 4, {100}, true); both(7, 2, 1, 1, {7, 100}, true);
      census(R, 7, 1, 3, true, 2, {100}, true); census(R, 7, 1, 3, false, 1, {100}, true); census(R, 5, 1, 4, true, 2, {100}, true); census(R, 5, 1, 4, false, 1, {100}, true); both(3, 3, 1, 2, {50}, true); both(5, 2, 1, 2, {50}, true); census(R, 5, 2, 2, true, 1, {100}, true); census(R, 3, 4, 1, false, 1, {100}, true); census(R, 3, 3, 2, true, 1, {100}, true); census(R, 3, 1, 6, false, 3, {100}, true); census(R, 17, 1, 2, true, 1, {100}, true);
    } else { both(5, 1, 3, 2, {100}, true); both(3, 2, 2, 1, {100}, true); census(R, 11, 1, 2, true, 2, {100}, true); census(R, 3, 3, 1, false, 1, {50}, true); census(R, 5, 2, 1, false, 1, {50}, true); census(R, 7, 1, 3, true, 1, {100}, true); }
    both(7, 1, 2, 2, {1, 100}, true);
    both(3, 1, 1, 4, P, false); both(3, 1, 2, 3, P, false); both(3, 1, 3, 3, P, false); both(3, 1, 4, 3, {5, 100}, true); both(5, 1, 1, 3, P, false); both(5, 1, 2, 2, P, false); both(7, 1, 1, 2, P, false); both(3, 2, 1, 2, P, false);
    both(11, 1, 1, 2, P, false); both(13, 1, 1, 2, P, false); both(17, 1, 1, 1, {2, 100}, false); both(19, 1, 1, 1, {2, 100}, false); both(23, 1, 1, 1, {100}, true); both(31, 1, 1, 1, {100}, true); census(R, 3, 3, 1, true, 1, {1, 50}, false); census(R, 5, 2, 1, true, 1, {1, 50}, false); both(3, 1, 2, 0, {100}, false);
  } else {
    for (u32 g = 1; g <= (th ? 12u : 9u); ++g) for (u32 p = 3; p < 5000; p += 2) if (orc::is_prime(p)) { u64 q = p; for (u32 e = 1; q < 5000; ++e, q *= p) { double l = log((double)q), free = p > 2 * g + 2 ? 2. * g : 2. * g + 1, nb = free * l - log(4294967295.); double discrete = log(p > 2 * g + 2 ? 30. * g * g * g : 6.); if ((nb > 0 ? nb : 0) + discrete > log(th ? 3e6 : 2e5) || (2 * g + 3) * l > 120 * log(2.)) continue; boxes(R, p, e, g, true); boxes(R, p, e, g, false); } }
    for (u64 q : {3ull, 9ull, 27ull, 5ull, 25ull, 3125ull, 7ull, 49ull, 11ull, 13ull, 17ull, 19ull, 23ull, 29ull, 31ull, 37ull, 961ull, 2209ull, 101ull, 65537ull, 2147483647ull}) { u32 p = 3; while (q % p) ++p; if (q > 60000) p = (u32)q; mult_high(R, p, q, 13, 20); mult_high(R, p, q, 21, 40); mult_high(R, p, q, 41, 66); if (th) mult_high(R, p, q, 67, 140); }
    for (u32 p = 3; p < (th ? 20000u : 2000u); p += 2) if (orc::is_prime(p)) { u64 q = p; while (q < (th ? 20000u : 2000u)) { mult_all(R, p, q, 9); q *= p; } }
    for (u32 p : {3u, 5u, 7u, 11u, 13u, 17u, 19u, 23u, 37u, 61u, 181u, 1621u, 65521u, 65537u}) { u64 q = p; for (; q < 1ull << 32; q *= p) mult_all(R, p, q, 12); }
    for (u64 c : {32768ull, 46341ull, 65536ull, 92682ull, 2097152ull, 2642246ull, 16777216ull, 1ull << 31, 3037000500ull, 4294967296ull}) { int k = 0; for (u64 p = c - 1; k < 6; --p) if (orc::is_prime(p)) { mult_all(R, p, p, 12); ++k; } k = 0; for (u64 p = c + 1; k < 6 && p < 1ull << 32; ++p) if (orc::is_prime(p)) { mult_all(R, p, p, 12); ++k; } }
    for (u32 p = 3; p < (th ? 420u : 130u); p += 2) if (orc::is_prime(p)) { u64 q = p; for (u32 e = 1; q < (th ? 420 : 130); ++e, q *= p) { marginals(R, p, e, 1, true, true); if (q < (th ? 140 : 60)) marginals(R, p, e, 1, false, true); else if (p <= 4 || q < 130 || th) marginals(R, p, e, 1, false, false); } }
    for (auto pe : {make_pair(3, 1), make_pair(5, 1), make_pair(7, 1), make_pair(3, 2), make_pair(11, 1), make_pair(13, 1)}) { if (th || pe.first < 11) marginals(R, pe.first, pe.second, 2, false, true); marginals(R, pe.first, pe.second, 2, true, true); }
    marginals(R, 3, 1, 3, false, true); marginals(R, 3, 1, 4, false, true); marginals(R, 5, 1, 3, false, true); marginals(R, 3, 1, 5, false, true); marginals(R, 7, 1, 3, true, true);
    if (th) { marginals(R, 7, 1, 3, false, true); marginals(R, 5, 1, 4, false, true); marginals(R, 5, 2, 2, true, true); marginals(R, 3, 3, 2, true, true); marginals(R, 17, 1, 2, true, true); marginals(R, 3, 1, 6, false, true); marginals(R, 3, 2, 3, true, true); marginals(R, 11, 1, 3, true, false); }
  }
  return R.finish();
}
