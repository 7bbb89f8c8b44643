// Families of right hand sides shared by the curve harnesses.
#pragma once
#include "hycu_glue.hh"
#include "reduction_table.hh"
#include "report.hh"
#include <functional>
using std::vector; using std::string; using std::map; using std::tuple; using std::get; using std::shared_ptr; using std::make_shared; using std::make_tuple;
typedef unsigned int u32; typedef unsigned long long u64;

struct Space { static u32 serial() { static u32 n = 0; return ++n; } u32 id = serial();
  glue::BaseField B; u32 p, e, q; map<u32, std::unique_ptr<orc::Field>> ext; map<u32, vector<u32>> emb; map<u32, shared_ptr<ReductionTable>> tab;
  std::unique_ptr<orc::PatternSieve> sieve; int D;
  Space(u32 p_, u32 e_, int D_ = 0) : B(p_, e_), p(p_), e(e_), q((u32)orc::ipow(p_, e_)), D(D_) {
    if (!B.check()) { fprintf(stderr, "element table of %u^%u is broken (%s): see C03\n", p, e, B.why.c_str()); }
    if (D && B.ok) sieve.reset(new orc::PatternSieve(*B.K, D));
  }
  orc::Field & E(u32 k) { auto & x = ext[k]; if (!x) { x.reset(new orc::Field(p, e * k)); if (e > 1) emb[k] = orc::embed(*B.K, *x); } return *x; }
  shared_ptr<ReductionTable> T(u32 k) { auto & x = tab[k]; if (!x) x = make_shared<ReductionTable>(p, e * k); return x; }
  u32 lift(u32 a, u32 k) { E(k); return e > 1 ? emb[k][a] : a; }
  // f: exponents as used by the library; returns elements, leading zeros removed
  vector<u32> elements(const vector<u32> & ex) { vector<u32> f; for (u32 x : ex) f.push_back(B.at[x]); while (!f.empty() && f.back() == 0) f.pop_back(); return f; }
  orc::Counts want(const vector<u32> & f, u32 k) {
    orc::Field & F = E(k); static vector<u32> g; g.clear(); for (u32 a : f) g.push_back(lift(a, k)); return orc::count_points(F, g.data(), (int)g.size() - 1);
  }
  u64 pattern(const vector<u32> & f) {  // factorization pattern of f / lead; 0 if not squarefree
    int d = (int)f.size() - 1; u32 li = B.K->inv(f[d]); u64 idx = 0; for (int j = d - 1; j >= 0; --j) idx = idx * q + B.K->mul(f[j], li);
    return sieve->pat[d][idx];
  }
};
// all exponent vectors of the given length over F_q (including leading zeros); one group per value of the last `split` entries
inline void full(Report & R, Space *& S, u32 p, u32 e, int len, int D, const std::function<void(Space &, const vector<u32> &)> & f, int split = 1) {
  u32 q = (u32)orc::ipow(p, e); u64 G = orc::ipow(q, split), N = orc::ipow(q, len - split);
  for (u64 hi = 0; hi < G; ++hi) {
    string id = fmt("full q=%u^%u len=%d top=%llu", p, e, len, hi);
    if (!R.begin(id)) continue;
    if (!S || S->p != p || S->e != e || S->D != D) { delete S; S = nullptr; S = new Space(p, e, D); }
    if (!S->B.ok) { R.count("skipped_broken_table"); continue; }
    vector<u32> ex(len); u64 t = hi; for (int j = 0; j < split; ++j) { ex[len - 1 - j] = t % q; t /= q; }
    for (u64 i = 0; i < N; ++i) {
      t = i; for (int j = 0; j < len - split; ++j) { ex[j] = t % q; t /= q; }
      bool nonconst = false; for (int j = 1; j < len; ++j) if (ex[j] != q - 1) nonconst = true;
      if (nonconst) f(*S, ex);
      if (R.viol.size() > 4) return;
    }
  }
}
// exponent vectors with entries from {zero, 0, 1, (q-1)/2, q-2}; degree up to len-1
inline void corners(Report & R, Space *& S, u32 p, u32 e, int len, int D, const std::function<void(Space &, const vector<u32> &)> & f, int alpha = 5, const char * tag = "corners") {
  u32 q = (u32)orc::ipow(p, e);
  string id = fmt("%s q=%u^%u len=%d alpha=%d", tag, p, e, len, alpha);
  if (!R.begin(id)) return;
  if (!S || S->p != p || S->e != e || S->D != D) { delete S; S = nullptr; S = new Space(p, e, D); }
  if (!S->B.ok) { R.count("skipped_broken_table"); return; }
  u32 A[5] = {q - 1, 0, q - 2, 1 % (q - 1), (q - 1) / 2}; u64 N = orc::ipow(alpha, len); vector<u32> ex(len);
  for (u64 i = 0; i < N; ++i) {
    u64 t = i; for (int j = 0; j < len; ++j) { ex[j] = A[t % alpha]; t /= alpha; }
    bool nonconst = false; for (int j = 1; j < len; ++j) if (ex[j] != q - 1) nonconst = true;
    if (nonconst) f(*S, ex);
    if (R.viol.size() > 4) return;
  }
}
// sparse right hand sides of high degree: every support of up to `terms` exponents below len, coefficients from {1, generator^-1, generator}
inline void sparse(Report & R, Space *& S, u32 p, u32 e, int from, int len, int terms, const std::function<void(Space &, const vector<u32> &)> & f, int alpha = 2) {
  for (int d = from; d < len; ++d) {
    if (!R.begin(fmt("sparse q=%u^%u degree=%d terms=%d", p, e, d, terms))) continue;
    if (!S || S->p != p || S->e != e || S->D) { delete S; S = nullptr; S = new Space(p, e); }
    if (!S->B.ok) { R.count("skipped_broken_table"); continue; }
    u32 A[3] = {0, S->q - 2, 1 % (S->q - 1)}; vector<u32> ex(d + 1, S->q - 1);
    std::function<void(int, int)> go = [&](int top, int left) {
      f(*S, ex); if (!left || R.viol.size() > 4) return;
      for (int j = top - 1; j >= 0; --j) for (int a = 0; a < alpha; ++a) { ex[j] = A[a]; go(j, left - 1); ex[j] = S->q - 1; if (R.viol.size() > 4) return; }
    };
    for (int a = 0; a < alpha; ++a) { ex[d] = A[a]; go(d, terms - 1); }
    R.count("sparse_of_high_degree");
  }
}
// products of irreducible polynomials: every subset of the monic irreducibles of degree <= D (the first `most` of them),
// times each leading coefficient of two; the degrees of the factors are known by construction. square: one factor taken twice
inline void products(Report & R, Space *& S, u32 p, u32 e, int D, size_t most, const std::function<void(Space &, const vector<u32> &, const vector<u32> &, bool)> & f, bool square, size_t atmost = 99, size_t per = 99) {
  u32 q = (u32)orc::ipow(p, e); vector<orc::Poly> irr; vector<u32> index;
  auto setup = [&]() {
    if (!S || S->p != p || S->e != e || S->D) { delete S; S = nullptr; S = new Space(p, e); }
    if (!irr.empty() || !S->B.ok) return;
    orc::PatternSieve V(*S->B.K, D); index.assign(q, 0); for (u32 i = 0; i < q; ++i) index[S->B.at[i]] = i;
    for (int d = 1; d <= D; ++d) { size_t n = 0; for (u64 i = 0; i < V.pat[d].size() && irr.size() < most && n < per; ++i) if (V.pat[d][i] == V.irr(d)) { ++n; orc::Poly P; u64 t = i; for (int j = 0; j < d; ++j) { P.push_back(t % q); t /= q; } P.push_back(1); irr.push_back(P); } }
  };
  for (u32 hi = 0; hi < 16; ++hi) {
    if (!R.begin(fmt("products q=%u^%u D=%d of=%zu%s part=%u", p, e, D, most, square ? " square" : per < 99 ? fmt(" per=%zu", per).c_str() : "", hi))) continue;
    setup(); if (!S->B.ok) { R.count("skipped_broken_table"); continue; } auto & K = *S->B.K; u64 N = 1ULL << irr.size();
    for (u64 m = hi; m < N; m += 16) {
      if (!m || (size_t)__builtin_popcountll(m) > atmost) continue;
      orc::Poly F {1}; vector<u32> deg; auto mul = [&](const orc::Poly & P) { orc::Poly G(F.size() + P.size() - 1, 0); for (size_t a = 0; a < F.size(); ++a) for (size_t b = 0; b < P.size(); ++b) G[a + b] = K.add(G[a + b], K.mul(F[a], P[b])); F = G; };
      for (size_t i = 0; i < irr.size(); ++i) if (m >> i & 1) { mul(irr[i]); deg.push_back((u32)irr[i].size() - 1); }
      orc::Poly F0 = F; vector<u32> d0 = deg;
      for (size_t sq = 0; sq < (square ? irr.size() : 1); ++sq) {
        if (square) { if (!(m >> sq & 1)) continue; F = F0; mul(irr[sq]); deg = d0; deg.push_back((u32)irr[sq].size() - 1); }
        for (u32 lead : {S->B.at[0], S->B.at[1 % (q - 1)]}) {
          vector<u32> ex; for (u32 a : F) ex.push_back(index[K.mul(a, lead)]); vector<u32> d = deg; if ((F.size() - 1) % 2) d.push_back(1); std::sort(d.begin(), d.end());
          f(*S, ex, d, !square); if (R.viol.size() > 4) return;
        }
      }
      R.count("products_of_irreducibles");
    }
  }
}
inline string show(Space & S, const vector<u32> & ex) { return fmt("q=%u^%u coefficient exponents (low to high, %u means 0) %s", S.p, S.e, S.q - 1, str(ex).c_str()); }
