// C03: element tables, all odd q up to a bound, and primes beyond the tabulated Conway polynomials.
#include "hycu_glue.hh"
#include "reduction_table.hh"
#include "report.hh"
using namespace std;
typedef unsigned int u32; typedef unsigned long long u64;

static void prime_table(Report & R, u32 p) {   // F_p without the oracle's field: everything is a small integer
  FqElementTable t(p, 1);
  vector<char> seen(p, 0); u64 g = t.at_nmod(1), a = 1;
  if (!R.check(t.is_prime_field(), "is_prime_field is false")) return;
  if (!R.check(t.zero_index() == p - 1, "zero index")) return;
  for (u32 i = 0; i + 1 < p; ++i) {
    u32 v = t.at_nmod(i), w = nmod_poly_get_coeff_ui(t.at(i), 0), x = nmod_poly_get_coeff_ui(t[i], 0);
    if (v != a || w != a || x != a) { R.violation(fmt("p=%u: entry %u is %u, the power of the generator %llu is %llu", p, i, v, g, a)); return; }
    if (a == 0 || seen[a]) { R.violation(fmt("p=%u: entry %u = %llu is zero or occurs twice", p, i, a)); return; }
    seen[a] = 1; a = a * g % p;
  }
  R.check(t.at_nmod(p - 1) == 0, fmt("p=%u: the zero entry is %u", p, t.at_nmod(p - 1)));
  R.eval(); R.nontrivial(p > 3 ? 1 : 0); R.count("elements", p);
}
static void group_part(Report & R, const FqElementTable & t, u32 q) {
  u32 m = q - 1;
  R.check(t.block_non_zero() == make_tuple(0u, m), fmt("q=%u block_non_zero", q));
  R.check(t.block_complete() == make_tuple(0u, q), fmt("q=%u block_complete", q));
  for (u32 i = 0; i < 3 * m + 2 && i < 20000; ++i) if (t.reduce_index(i) != i % m) { R.violation(fmt("q=%u reduce_index(%u)", q, i)); break; }
  for (u32 n = 1; n <= 40 && n <= 2 * m + 1; ++n) {
    auto r = t.power_coset_representatives(n); u32 g = orc::gcd(n, m); vector<char> s(g, 0); bool ok = r.size() == g;
    for (u32 x : r) { if (x >= m || s[x % g]) ok = false; else s[x % g] = 1; }
    R.eval(); R.count("coset_systems");
    if (!ok) { R.violation(fmt("q=%u: power_coset_representatives(%u) = %s is not one representative per class of n-th powers", q, n, str(r).c_str())); break; }
  }
}
// counts of y^2 = f over F_{q^k} with the table numbering of F_q taken for granted
static void consistent(Report & R, glue::BaseField & B, u32 kmax, u64 limit) {
  u64 Q = B.q;
  for (u32 k = 1; k <= kmax && Q <= limit; ++k, Q *= B.q) {
    orc::Field E(B.p, B.e * k); ReductionTable T(B.p, B.e * k);
    vector<u32> im = B.e == 1 ? vector<u32>() : orc::embed(*B.K, E);
    for (vector<u32> ex : {vector<u32>{1 % (B.q - 1), 2 % (B.q - 1), B.q - 1, 0}, vector<u32>{3 % (B.q - 1), 1 % (B.q - 1), B.q - 1, B.q - 1, 1 % (B.q - 1)}, vector<u32>{1 % (B.q - 1), 0}}) {
      vector<u32> f; for (u32 x : ex) f.push_back(B.e == 1 ? B.at[x] : im[B.at[x]]);
      Curve c(B.table, ex); c.count(T); auto got = c.number_of_points().at(B.e * k); auto want = orc::count_points(E, f.data(), f.size() - 1);
      R.eval(); R.count("counts_over_extensions");
      if (get<0>(got) != want.unram || get<1>(got) != want.ram) R.violation(fmt("q=%u k=%u exponents %s: the counting table disagrees with the element table: (%u,%u), expected (%u,%u)", B.q, k, str(ex).c_str(), get<0>(got), get<1>(got), want.unram, want.ram));
    }
  }
}
int main(int argc, char ** argv) {
  Report R(argc, argv); u32 qmax = R.thorough() ? 60000 : 5000;
  for (u32 p = 3; p <= qmax; p += 2) if (orc::is_prime(p)) {
    u64 q = p;
    for (u32 e = 1; q <= qmax; ++e, q *= p) {
      if (!R.begin(fmt("q=%u^%u", p, e))) continue;
      R.sample(fmt("table of F_{%u^%u}: all %llu entries", p, e, q));
      if (e == 1) prime_table(R, p);
      glue::BaseField B(p, e);
      if (!B.check()) { R.violation(fmt("F_{%u^%u}: %s", p, e, B.why.c_str())); continue; }
      R.check(B.table->is_prime_field() == (e == 1), "is_prime_field");
      if (e > 1) { R.eval(); R.nontrivial(); R.count("elements", q); }
      group_part(R, *B.table, q);
      consistent(R, B, 12, R.thorough() ? 20000 : 5000);
    }
  }
  // primes without a tabulated Conway polynomial
  u32 from = 65521, to = R.thorough() ? 135000 : 68300;
  auto big = [&](u32 p) { if (R.begin(fmt("prime=%u", p))) { R.sample(fmt("table of F_%u", p)); size_t v = R.viol.size(); prime_table(R, p); R.count("large_primes");
    if (R.viol.size() == v && (R.thorough() || p % 4 == 3)) { glue::BaseField B(p, 1); consistent(R, B, 1, p); } } };
  for (u32 p = from; p < to; ++p) if (orc::is_prime(p)) big(p);
  for (u32 p = 110017; p < (R.thorough() ? 110017u : 110100u); ++p) if (orc::is_prime(p)) big(p);
  return R.finish();
}
