// C04 (mode ram): ramification types for all subsets of counted extensions.  C05 (mode rhs): the right hand side.
#include "curves.hh"
using namespace std;
int main(int argc, char ** argv) {
  Report R(argc, argv); bool th = R.thorough(); Space * S = nullptr;
  auto ram = [&](u32 kmax, bool subsets) { return [&R, kmax, subsets](Space & S, const vector<u32> & ex) {
    auto f = S.elements(ex); u64 pt = S.pattern(f); if (!pt) return;
    auto want = orc::PatternSieve::ram(pt, f.size() - 1);
    vector<u32> masks; if (subsets) for (u32 m = 0; m < 1u << kmax; ++m) masks.push_back(m); else for (u32 k = 0; k <= kmax; ++k) masks.push_back((1u << k) - 1);
    for (u32 m : masks) {
      Curve c(S.B.table, ex); for (u32 k = kmax; k > 0; --k) if (m >> (k - 1) & 1) c.count(S.T(k));
      auto got = c.ramification_type(); R.eval();
      if (got != want) { R.violation(show(S, ex) + fmt(", counted extensions mask %x: type %s, factor degrees %s", m, str(got).c_str(), str(want).c_str())); return; }
    }
    R.nontrivial(want.size() > 1); R.count("types_" + str(want, "_")); R.sample(show(S, ex) + ": type " + str(want) + fmt(" for %zu sets of counted extensions", masks.size()));
  }; };
  auto rhs = [&]() { return [&R](Space & S, const vector<u32> & ex) {
    auto f = S.elements(ex); int d = (int)f.size() - 1; Curve c(S.B.table, ex); R.eval();
    bool want = S.sieve && d <= S.D ? S.pattern(f) != 0 : f.size() > 10 ? orc::squarefree(*S.B.K, f) : orc::squarefree_pattern(orc::factor_pattern(*S.B.K, f));
    if (f.size() <= 10 && orc::squarefree(*S.B.K, f) != want) { R.violation("the two reference tests disagree on " + show(S, ex)); return; }
    if (c.has_squarefree_rhs() != want || c.has_squarefree_rhs() != want) { R.violation(show(S, ex) + fmt(": squarefree test says %d", !want)); return; }
    if ((int)c.degree() != d) { R.violation(show(S, ex) + fmt(": degree %u", c.degree())); return; }
    if (c.genus() != (u32)(d % 2 ? (d - 1) / 2 : (d - 2) / 2)) { R.violation(show(S, ex) + fmt(": genus %u", c.genus())); return; }
    vector<u32> supp; for (int i = 0; i <= d; ++i) if (f[i]) supp.push_back(i);
    if (c.rhs_support() != supp) { R.violation(show(S, ex) + ": support " + str(c.rhs_support())); return; }
    auto ce = c.rhs_coeff_exponents(); bool ok = (int)ce.size() == d + 1; for (int i = 0; ok && i <= d; ++i) ok = ce[i] < S.q && S.B.at[ce[i]] == f[i];
    if (!ok) { R.violation(show(S, ex) + ": coefficients " + str(ce)); return; }
    if (c.prime() != S.p || c.prime_exponent() != S.e || c.prime_power() != S.q) { R.violation(show(S, ex) + ": field"); return; }
    if (S.e == 1) {
      auto P = c.rhs_nmod_polynomial(); ok = nmod_poly_degree(&P) == d; for (int i = 0; ok && i <= d; ++i) ok = nmod_poly_get_coeff_ui(&P, i) == f[i];
      nmod_poly_clear(&P); if (!ok) { R.violation(show(S, ex) + ": exported polynomial"); return; }
    } else {
      auto P = c.rhs_polynomial(); ok = P.length == d + 1;
      for (int i = 0; ok && i <= d; ++i) { u32 v = 0; for (int j = (int)S.e - 1; j >= 0; --j) v = v * S.p + nmod_poly_get_coeff_ui(P.coeffs + i, j); ok = v == f[i]; }
      if (!ok) { R.violation(show(S, ex) + ": exported polynomial"); return; }
      // lifted exponents describe the same polynomial
    }
    for (u32 k = 1; k <= 2 && orc::ipow(S.q, k) < 3000; ++k) {
      auto v = c.convert_poly_coeff_exponents(*S.T(k)); u64 Q1 = orc::ipow(S.q, k) - 1; ok = v.size() == ce.size();
      for (size_t i = 0; ok && i < v.size(); ++i) ok = ce[i] == S.q - 1 ? v[i] == Q1 : v[i] == ce[i] * (Q1 / (S.q - 1));
      if (!ok) { R.violation(show(S, ex) + fmt(": exponents over extension %u: %s", k, str(v).c_str())); return; }
    }
    R.nontrivial(!want); R.count(want ? "squarefree" : "not_squarefree"); R.sample(show(S, ex) + (want ? ": squarefree" : ": not squarefree"));
  }; };
  // products of known irreducible factors, of high degree
  auto prod = [&](u32 kmax, u64 lim) { return [&R, kmax, lim](Space & S, const vector<u32> & ex, const vector<u32> & want, bool) {
    u32 km = 0; u64 Q = S.q; while (km < kmax && Q <= lim) { ++km; Q *= S.q; }
    if (ex.size() < 3) return;
    for (u32 m = 0; m < 1u << km; ++m) { if (m & (m + 1) && m != 1u << (km - 1)) continue;
      Curve c(S.B.table, ex); for (u32 k = km; k > 0; --k) if (m >> (k - 1) & 1) c.count(S.T(k));
      auto got = c.ramification_type(); R.eval();
      if (got != want) { R.violation(show(S, ex) + fmt(", counted extensions mask %x: type %s, factor degrees %s", m, str(got).c_str(), str(want).c_str())); return; }
    }
    R.nontrivial(want.size() > 1); R.sample(show(S, ex) + ": product of known factors, type " + str(want));
  }; };
  auto sqf = [&](Space & S, const vector<u32> & ex, const vector<u32> &, bool want) {
    Curve c(S.B.table, ex); R.eval(); int d = (int)ex.size() - 1;
    if (c.has_squarefree_rhs() != want) { R.violation(show(S, ex) + fmt(": squarefree test says %d", !want)); return; }
    if ((int)c.degree() != d || c.genus() != (u32)(d - 1) / 2) { R.violation(show(S, ex) + fmt(": degree %u, genus %u", c.degree(), c.genus())); return; }
    R.nontrivial(!want);
  };
  if (R.mode == "ram") {
    products(R, S, 3, 1, 3, 14, prod(3, 30), false); products(R, S, 5, 1, 2, 12, prod(2, 30), false); products(R, S, 3, 2, 1, 9, prod(1, 9), false);
    products(R, S, 3, 1, 6, 12, prod(8, 7000), false, 99, 2); products(R, S, 3, 1, 4, 12, prod(8, 7000), false, 5, 3); products(R, S, 3, 1, 10, 20, prod(8, 7000), false, 3, 2); products(R, S, 3, 2, 4, 8, prod(4, 7000), false, 99, 2); products(R, S, 5, 1, 5, 10, prod(5, 4000), false, 99, 2); if (th) { products(R, S, 3, 1, 8, 16, prod(10, 60000), false, 6, 2); products(R, S, 5, 1, 6, 12, prod(7, 80000), false, 5, 2); }
    full(R, S, 3, 1, th ? 9 : 7, th ? 8 : 6, ram(th ? 5 : 4, true), th ? 2 : 1);
    full(R, S, 5, 1, th ? 6 : 5, 6, ram(3, true)); if (th) full(R, S, 5, 1, 7, 6, ram(2, true), 2);
    full(R, S, 7, 1, th ? 6 : 5, 5, ram(th ? 3 : 2, true)); full(R, S, 3, 2, th ? 5 : 4, 4, ram(2, true)); full(R, S, 5, 2, 3, 3, ram(2, true)); full(R, S, 11, 1, 4, 4, ram(2, true)); full(R, S, 13, 1, th ? 5 : 4, 4, ram(1, true));
    full(R, S, 3, 3, 3, 2, ram(1, true)); 
    if (!th) { corners(R, S, 3, 1, 9, 8, ram(5, true), 3); corners(R, S, 5, 1, 7, 6, ram(2, false), 3); }
    corners(R, S, 3, 1, 11, 10, ram(6, false), 2); corners(R, S, 3, 1, 10, 10, ram(5, false), 3, th ? "c10" : "c10q");
    corners(R, S, 3, 2, 6, 5, ram(2, true), 3); corners(R, S, 3, 2, 7, 6, ram(2, false), 2);
  } else {
    for (bool sq : {false, true}) { products(R, S, 3, 1, 3, 14, sqf, sq); products(R, S, 5, 1, 2, 12, sqf, sq); products(R, S, 3, 2, 1, 9, sqf, sq); products(R, S, 7, 1, 2, 10, sqf, sq); products(R, S, 5, 2, 1, 10, sqf, sq); }
    for (auto pe : {make_pair(3, 1), make_pair(5, 1), make_pair(3, 2), make_pair(7, 1)}) sparse(R, S, pe.first, pe.second, 11, 17, 2, rhs());
    full(R, S, 3, 1, th ? 11 : 9, th ? 10 : 8, rhs(), 2); full(R, S, 5, 1, th ? 8 : 6, th ? 7 : 6, rhs(), 1); full(R, S, 7, 1, th ? 7 : 5, th ? 6 : 5, rhs());
    full(R, S, 3, 2, th ? 6 : 5, 5, rhs()); full(R, S, 5, 2, th ? 4 : 3, 3, rhs()); full(R, S, 3, 3, th ? 4 : 3, 3, rhs()); full(R, S, 7, 2, 3, 2, rhs()); full(R, S, 11, 1, 4, 4, rhs()); full(R, S, 13, 1, th ? 5 : 4, 4, rhs());
    corners(R, S, 3, 1, 12, 0, rhs(), 2); corners(R, S, 5, 1, 8, 0, rhs(), 2); corners(R, S, 3, 2, 7, 6, rhs(), 3);
    for (u32 p : {101u, 211u, 499u}) corners(R, S, p, 1, 4, 0, rhs(), 5);
  }
  return R.finish();
}
