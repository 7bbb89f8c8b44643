// C01 (mode count): table-driven counts against the definition.  C02 (mode naive): naive implementations and call sequences.
#include "curves.hh"
using namespace std;
static map<u32, orc::Counts> memo; static vector<u32> memo_f; static u32 memo_s;
static void compare(Report & R, Space & S, const vector<u32> & ex, const Curve & c, const vector<u32> & f, const set<u32> & counted) {
  if (memo_f != f || memo_s != S.id) { memo.clear(); memo_f = f; memo_s = S.id; }
  auto & got = c.number_of_points(); auto off = c.hasse_weil_offsets();
  if (got.size() != counted.size() || off.size() != counted.size()) { R.violation(show(S, ex) + ": number of counted exponents"); return; }
  u32 kk = 0; while (counted.count(kk + 1)) ++kk;
  for (u32 k : counted) {
    if (!memo.count(k)) memo[k] = S.want(f, k);
    auto w = memo[k]; auto it = got.find(k * S.e); int wo = (int)(S.E(k).q + 1) - (int)(w.unram + w.ram);
    if (it == got.end() || get<0>(it->second) != w.unram || get<1>(it->second) != w.ram) { R.violation(show(S, ex) + fmt(", extension %u: counted (%d,%d), by definition (%u,%u)", k, it == got.end() ? -1 : (int)get<0>(it->second), it == got.end() ? -1 : (int)get<1>(it->second), w.unram, w.ram)); return; }
    if (off[k * S.e] != wo) { R.violation(show(S, ex) + fmt(", extension %u: offset %d, by definition %d", k, off[k * S.e], wo)); return; }
    if (!c.has_counted(k * S.e)) { R.violation(show(S, ex) + ": has_counted"); return; }
  }
  if (kk) {
    if (c.max_prime_exponent() != kk * S.e) { R.violation(show(S, ex) + ": max_prime_exponent"); return; }
    auto v = c.number_of_points(kk * S.e); auto o = c.hasse_weil_offsets(kk * S.e);
    bool ok = v.size() == kk && o.size() == kk;
    for (u32 k = 1; ok && k <= kk; ++k) ok = get<0>(v[k - 1]) == memo[k].unram && get<1>(v[k - 1]) == memo[k].ram && o[k - 1] == (int)(S.E(k).q + 1) - (int)(memo[k].unram + memo[k].ram);
    if (!ok) R.violation(show(S, ex) + ": list of counts or offsets");
  }
}
int main(int argc, char ** argv) {
  Report R(argc, argv); bool th = R.thorough(); Space * S = nullptr;
  auto once = [&](u32 kmax, u64 lim) { return [&R, kmax, lim](Space & S, const vector<u32> & ex) {
    auto f = S.elements(ex); Curve c(S.B.table, ex); set<u32> done;
    if (!R.check(c.degree() == f.size() - 1, show(S, ex) + ": degree")) return;
    // larger extensions first, as the programs do
    u32 km = 0; u64 Q = S.q; while (km < kmax && Q <= lim) { ++km; Q *= S.q; }
    for (u32 k = km; k > 0; --k) { c.count(S.T(k)); done.insert(k); R.eval(); }
    compare(R, S, ex, c, f, done); R.nontrivial(f.size() > 2); R.sample(show(S, ex) + fmt(", extensions 1..%u", km));
  }; };
  // every order and repetition of count calls over a few extensions
  auto orders = [&](u32 kmax, int depth) { return [&R, kmax, depth](Space & S, const vector<u32> & ex) {
    auto f = S.elements(ex); u64 N = orc::ipow(kmax, depth);
    for (u64 s = 0; s < N; ++s) {
      Curve c(S.B.table, ex); set<u32> done; u64 t = s; string seq;
      for (int i = 0; i < depth; ++i) { u32 k = 1 + t % kmax; t /= kmax; c.count(*S.T(k)); done.insert(k); seq += to_string(k) + " "; R.eval(); compare(R, S, ex, c, f, done); }
      R.count("call_sequences");
    }
    R.nontrivial(f.size() > 2);
  }; };
  // one naive implementation and the table, alone
  auto naive = [&](u32 kmax, u64 lim) { return [&R, kmax, lim](Space & S, const vector<u32> & ex) {
    auto f = S.elements(ex); u32 km = 0; u64 Q = S.q; while (km < kmax && Q <= lim) { ++km; Q *= S.q; }
    for (int impl = 0; impl < 3; ++impl) {
      Curve c(S.B.table, ex); set<u32> done;
      for (u32 k = km; k > 0; --k) { if (impl == 0) c.count(S.T(k)); else if (impl == 1) c.count_naive_nmod(k * S.e); else c.count_naive_zech(k * S.e); done.insert(k); R.eval(); }
      compare(R, S, ex, c, f, done);
    }
    R.nontrivial(f.size() > 2); R.sample(show(S, ex) + fmt(", three implementations, extensions 1..%u", km));
  }; };
  // every sequence of calls over implementations x extensions
  auto mixed = [&](u32 kmax, int depth) { return [&R, kmax, depth](Space & S, const vector<u32> & ex) {
    auto f = S.elements(ex); u64 A = 3 * kmax, N = orc::ipow(A, depth);
    for (u64 s = 0; s < N; ++s) {
      Curve c(S.B.table, ex); set<u32> done; u64 t = s; string seq;
      for (int i = 0; i < depth; ++i) {
        u32 a = t % A; t /= A; u32 k = 1 + a / 3; R.eval();
        if (a % 3 == 0) c.count(S.T(k)); else if (a % 3 == 1) c.count_naive_nmod(k * S.e); else c.count_naive_zech(k * S.e);
        seq += fmt("%s(%u) ", a % 3 == 0 ? "table" : a % 3 == 1 ? "nmod" : "zech", k); done.insert(k);
        size_t v = R.viol.size(); compare(R, S, ex, c, f, done); if (R.viol.size() > v) { R.viol.back().msg += " after " + seq; return; }
      }
      R.count("call_sequences");
    }
    R.nontrivial(f.size() > 2); R.sample(show(S, ex) + fmt(", all sequences of %d calls over 3 implementations and %u extensions", depth, kmax));
  }; };
  // a few right hand sides over extensions beyond the usual sizes of words and mantissas
  auto large = [&](u32 p, u32 e, u32 k, int polys) {
    if (!R.begin(fmt("q=%u^%u extension %u", p, e, k))) return; delete S; S = new Space(p, e); if (!S->B.ok) { R.count("skipped_broken_table"); return; } u32 z = S->q - 1, a = 1 % z, b = z - 1; R.count("elements_of_large_fields", S->E(k).q);
    vector<vector<u32>> fs {{b, z, a, 0}, {0, a, z, z, a}, {z, 0, a, z, z, b}, {0, z, z, z, z, z, 0}, {a, b, 0, z, a, b, z, a}, {z, 0}};
    for (int i = 0; i < polys; ++i) { auto f = S->elements(fs[i]); Curve c(S->B.table, fs[i]); set<u32> done {k}; c.count(S->T(k)); R.eval(); R.nontrivial(); compare(R, *S, fs[i], c, f, done); R.sample(show(*S, fs[i]) + fmt(", extension %u", k)); if (S->E(k).q > 70000) R.count("curves_over_large_fields"); }
  };
  if (R.mode == "large") {
    large(4099, 1, 2, th ? 6 : 2); large(257, 1, 3, th ? 6 : 2); large(3, 1, 15, th ? 6 : 2); if (th) { large(3, 1, 16, 3); large(3, 2, 8, 3); large(5, 1, 11, 2); large(17, 2, 3, 6); large(4099, 2, 1, 2); }
    for (auto x : {make_tuple(257, 1, 2), make_tuple(41, 1, 3), make_tuple(3, 1, 11), make_tuple(3, 2, 6), make_tuple(3, 3, 4), make_tuple(5, 1, 7), make_tuple(7, 1, 6), make_tuple(13, 1, 5), make_tuple(17, 2, 2), make_tuple(65537, 1, 1), make_tuple(65539, 1, 1), make_tuple(110017, 1, 1), make_tuple(997, 1, 2), make_tuple(11, 2, 3), make_tuple(5, 3, 3)}) large(get<0>(x), get<1>(x), get<2>(x), 6);
  } else if (R.mode == "count") {
    full(R, S, 3, 1, th ? 9 : 7, 0, once(th ? 6 : 5, 1000), th ? 2 : 1);
    full(R, S, 5, 1, th ? 7 : 5, 0, once(4, 700), th ? 2 : 1);
    full(R, S, 7, 1, th ? 6 : 5, 0, once(3, th ? 400 : 60), 1);
    full(R, S, 3, 2, th ? 5 : 4, 0, once(3, 800), 1);
    full(R, S, 11, 1, th ? 5 : 4, 0, once(2, 130), 1);
    full(R, S, 13, 1, th ? 5 : 4, 0, once(2, 200), 1);
    full(R, S, 17, 1, 4, 0, once(1, 20), 1); full(R, S, 19, 1, 4, 0, once(1, 20), 1); full(R, S, 23, 1, 4, 0, once(1, 23), 1);
    full(R, S, 5, 2, th ? 4 : 3, 0, once(2, 700), 1); full(R, S, 3, 3, th ? 4 : 3, 0, once(2, 800), 1); full(R, S, 7, 2, 3, 0, once(2, th ? 2500 : 50), 1);
    for (auto pe : {make_pair(3, 4), make_pair(11, 2), make_pair(5, 3), make_pair(13, 2), make_pair(3, 5)}) full(R, S, pe.first, pe.second, 2, 0, once(1, 300), 1);
    for (u32 p = 3; p < (th ? 700u : 170u); p += 2) if (orc::is_prime(p)) { u64 q = p; for (u32 e = 1; q < (th ? 700 : 170); ++e, q *= p) { corners(R, S, p, e, 4, 0, once(2, th ? 10000 : 1000)); corners(R, S, p, e, 6, 0, once(2, th ? 400 : 50), 3); } }
    for (u32 p : {3, 5, 7}) corners(R, S, p, 1, 11, 0, once(3, th ? 400 : 30), 2);
    for (u32 p : {3, 5, 7}) corners(R, S, p, 2, 9, 0, once(2, 90), 2);
    // boundary of the table for larger fields
    for (u32 p : {251u, 257u, 509u, 1009u, 4093u, 8191u}) corners(R, S, p, 1, 4, 0, once(1, 10000), th ? 5 : 3, "large");
    for (auto pe : {make_pair(3, 8), make_pair(5, 5), make_pair(7, 4), make_pair(13, 3), make_pair(61, 2)}) corners(R, S, pe.first, pe.second, 4, 0, once(1, 10000), 3, "large");
    // high degrees: every sparse support
    sparse(R, S, 3, 1, 11, th ? 45 : 30, 3, once(3, 30)); sparse(R, S, 5, 1, 8, th ? 36 : 24, 3, once(2, 30)); sparse(R, S, 3, 2, 8, th ? 30 : 20, 3, once(1, 9)); sparse(R, S, 11, 1, 8, 20, 3, once(1, 11)); sparse(R, S, 3, 1, 30, th ? 100 : 70, 2, once(4, 81)); sparse(R, S, 37, 1, 30, 42, 2, once(1, 37)); sparse(R, S, 7, 2, 10, 17, 2, once(1, 49));
    full(R, S, 3, 1, 5, 0, orders(4, 3), 1); full(R, S, 5, 1, 4, 0, orders(3, 3), 1); full(R, S, 3, 2, 3, 0, orders(2, 3), 1); full(R, S, 7, 1, 4, 0, orders(2, 3), 1);
    corners(R, S, 3, 1, 9, 0, orders(4, 2), 2, "orders"); corners(R, S, 5, 2, 4, 0, orders(2, 3), 3, "orders");
  } else {
    full(R, S, 3, 1, th ? 7 : 6, 0, naive(4, 100), 1); full(R, S, 5, 1, th ? 5 : 4, 0, naive(3, 130), 1); full(R, S, 7, 1, 4, 0, naive(2, 50), 1);
    full(R, S, 3, 2, th ? 4 : 3, 0, naive(2, 90), 1); full(R, S, 5, 2, th ? 3 : 2, 0, naive(2, 700), 1); full(R, S, 11, 1, 3, 0, naive(2, 130), 1); full(R, S, 13, 1, 3, 0, naive(2, 170), 1); full(R, S, 3, 3, 2, 0, naive(2, 730), 1);
    for (u32 p = 3; p < (th ? 350u : 120u); p += 2) if (orc::is_prime(p)) { u64 q = p; for (u32 e = 1; q < (th ? 350 : 120); ++e, q *= p) corners(R, S, p, e, 4, 0, naive(1, 1000), 3); }
    for (u32 p : {3, 5}) corners(R, S, p, 1, 9, 0, naive(2, 30), 2);
    for (u32 p : {1009u, 2003u}) corners(R, S, p, 1, 4, 0, naive(1, 10000), 2, "large");
    full(R, S, 3, 1, 4, 0, mixed(3, 2), 1); full(R, S, 3, 1, 3, 0, mixed(3, 3), 1); full(R, S, 5, 1, 3, 0, mixed(2, 2), 1); full(R, S, 3, 2, 2, 0, mixed(2, 2), 1); full(R, S, 7, 1, 3, 0, mixed(1, 3), 1);
    corners(R, S, 3, 1, 6, 0, mixed(2, 3), 2, "mixed"); corners(R, S, 5, 1, 5, 0, mixed(1, 3), 3, "mixed"); corners(R, S, 3, 2, 4, 0, mixed(1, 3), 2, "mixed");
  }
  return R.finish();
}
