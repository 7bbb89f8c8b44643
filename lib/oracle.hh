// Independent reference arithmetic: finite fields, polynomials, factorization patterns, point counts.
// Uses nothing of FLINT and nothing of /repo.
#pragma once
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <set>
#include <string>
#include <tuple>
#include <utility>
#include <vector>

namespace orc {

typedef unsigned int u32;
typedef unsigned long long u64;

inline bool is_prime(u64 n) { if (n < 2) return false; for (u64 d = 2; d * d <= n; ++d) if (n % d == 0) return false; return true; }
inline u64 ipow(u64 b, unsigned e) { u64 r = 1; while (e--) r *= b; return r; }
inline u64 gcd(u64 a, u64 b) { while (b) { u64 t = a % b; a = b; b = t; } return a; }

// F_{p^n}; elements are integers 0..q-1 read as base-p digit vectors (coefficients of powers of X).
struct Field {
  u32 p, n, q;
  std::vector<u32> mod;          // monic modulus: X^n = sum mod[i] X^i
  std::vector<u32> lg, ex;       // discrete logarithm w.r.t. a primitive element, and its inverse
  std::vector<u32> addt;         // addition table for small q

  // a field with a modulus found by search: X is primitive
  Field(u32 p_, u32 n_) : p(p_), n(n_), q((u32)ipow(p_, n_)) {
    if (n == 1) {
      mod = {0};
      for (u32 g = 1; g < p; ++g) if (try_gen_prime(g)) break;
    } else {
      for (u64 c = 1; c < q; ++c) {
        mod.assign(n, 0); u64 t = c;
        for (u32 i = 0; i < n; ++i) { mod[i] = t % p; t /= p; }
        if (mod[0] == 0) continue;
        if (try_x_primitive()) break;
      }
    }
    if (lg.empty()) { fprintf(stderr, "oracle: no primitive element for %u^%u\n", p, n); exit(3); }
    make_addt();
  }
  // a field with the given modulus (X^n = sum mod_[i] X^i), which must be irreducible; ok()==false if it is not
  Field(u32 p_, const std::vector<u32> & mod_) : p(p_), n(mod_.size()), q((u32)ipow(p_, mod_.size())), mod(mod_) {
    if (n == 1) { for (u32 g = 1; g < p; ++g) if (try_gen_prime(g)) break; }
    else for (u32 g = 2; g < q; ++g) if (try_gen(g)) break;
    if (!lg.empty()) make_addt();
  }
  bool ok() const { return !lg.empty(); }

  u32 add_slow(u32 a, u32 b) const {
    if (n == 1) { u64 s = (u64)a + b; return s >= p ? s - p : s; }
    u32 r = 0, m = 1;
    for (u32 i = 0; i < n; ++i) { r += ((a % p + b % p) % p) * m; a /= p; b /= p; m *= p; }
    return r;
  }
  u32 neg(u32 a) const { u32 r = 0, m = 1; for (u32 i = 0; i < n; ++i) { r += ((p - a % p) % p) * m; a /= p; m *= p; } return r; }
  u32 add(u32 a, u32 b) const { return addt.empty() ? add_slow(a, b) : addt[(size_t)a * q + b]; }
  u32 sub(u32 a, u32 b) const { return add(a, neg(b)); }
  u32 mul(u32 a, u32 b) const { if (!a || !b) return 0; u64 s = (u64)lg[a] + lg[b]; if (s >= q - 1) s -= q - 1; return ex[s]; }
  u32 inv(u32 a) const { return ex[(q - 1 - lg[a]) % (q - 1)]; }
  u32 pow(u32 a, u64 e) const { if (e == 0) return 1; if (!a) return 0; return ex[(u64)((unsigned __int128)lg[a] * e % (q - 1))]; }
  bool is_square(u32 a) const { return a == 0 || lg[a] % 2 == 0; }   // q odd
  u32 eval(const u32 * f, int deg, u32 x) const { u32 r = f[deg]; for (int i = deg - 1; i >= 0; --i) r = add(mul(r, x), f[i]); return r; }
  u32 from_int(u64 c) const { return c % p; }
  // multiplication by schoolbook, without tables
  u32 mul_school(u32 a, u32 b) const {
    std::vector<u64> A(n), B(n), R(2 * n, 0);
    for (u32 i = 0; i < n; ++i) { A[i] = a % p; a /= p; B[i] = b % p; b /= p; }
    for (u32 i = 0; i < n; ++i) for (u32 j = 0; j < n; ++j) R[i + j] = (R[i + j] + A[i] * B[j]) % p;
    if (n > 1) for (int d = 2 * n - 2; d >= (int)n; --d) { for (u32 i = 0; i < n; ++i) R[d - n + i] = (R[d - n + i] + R[d] * mod[i]) % p; R[d] = 0; }
    u32 r = 0; for (int i = n - 1; i >= 0; --i) r = r * p + R[i]; return r;
  }

 private:
  bool try_gen_prime(u32 g) {
    std::vector<u32> e(q - 1), l(q, 0); u64 a = 1;
    for (u32 i = 0; i < q - 1; ++i) { if (i && a == 1) return false; e[i] = a; l[a] = i; a = a * g % p; }
    if (a != 1) return false;
    ex.swap(e); lg.swap(l); return true;
  }
  bool try_gen(u32 g) {
    std::vector<u32> e(q - 1), l(q, 0); u32 a = 1; std::vector<char> seen(q, 0);
    for (u32 i = 0; i < q - 1; ++i) { if (a == 0 || seen[a]) return false; seen[a] = 1; e[i] = a; l[a] = i; a = mul_school(a, g); }
    if (a != 1) return false;
    ex.swap(e); lg.swap(l); return true;
  }
  bool try_x_primitive() {
    u32 a = 1, top = q / p, mm = 0; for (int i = n - 1; i >= 0; --i) mm = mm * p + mod[i];
    // precompute c*mod
    std::vector<u32> cm(p, 0); for (u32 c = 1; c < p; ++c) cm[c] = add_slow(cm[c - 1], mm);
    // the powers of X first return to 1 at the order of X, and never if X is not invertible
    auto next = [&] { u32 c = a / top; a = add_slow((a % top) * p, cm[c]); };
    for (u32 i = 0; i < q - 1; ++i) { if ((i && a == 1) || a == 0) return false; next(); }
    if (a != 1) return false;
    ex.resize(q - 1); lg.assign(q, 0);
    for (u32 i = 0; i < q - 1; ++i) { ex[i] = a; lg[a] = i; next(); }
    return true;
  }
  void make_addt() {
    if (q > 2500 || n == 1) return;
    addt.resize((size_t)q * q);
    for (u32 a = 0; a < q; ++a) for (u32 b = 0; b < q; ++b) addt[(size_t)a * q + b] = add_slow(a, b);
  }
};

// Embedding of F_q (given by its modulus) into a larger field of the same characteristic.
// images[a] is the image of element a.
inline std::vector<u32> embed(const Field & small, const Field & big) {
  std::vector<u32> im(small.q);
  if (small.n == 1) { for (u32 a = 0; a < small.q; ++a) im[a] = a; return im; }
  for (u32 r = 0; r < big.q; ++r) {
    // is r a root of X^n - sum mod_i X^i ?
    u32 v = 0; for (int i = small.n - 1; i >= 0; --i) v = big.add(big.mul(v, r), small.mod[i]);
    if (big.pow(r, small.n) == v) {
      for (u32 a = 0; a < small.q; ++a) {
        u32 t = a, w = 0, rp = 1;
        for (u32 i = 0; i < small.n; ++i) { w = big.add(w, big.mul(t % small.p, rp)); rp = big.mul(rp, r); t /= small.p; }
        im[a] = w;
      }
      return im;
    }
  }
  fprintf(stderr, "oracle: no embedding\n"); exit(3);
}

struct Counts { u32 unram, ram; bool operator==(const Counts & o) const { return unram == o.unram && ram == o.ram; } };

// points of y^2 = f(x), f of degree deg (leading coefficient non-zero), coefficients already in K
inline Counts count_points(const Field & K, const u32 * f, int deg) {
  Counts c{0, 0};
  for (u32 x = 0; x < K.q; ++x) { u32 v = K.eval(f, deg, x); if (v == 0) ++c.ram; else if (K.is_square(v)) c.unram += 2; }
  if (deg % 2 == 1) ++c.ram; else if (K.is_square(f[deg])) c.unram += 2;
  return c;
}

typedef std::vector<u32> Poly;   // coefficients, low to high, no leading zeros; empty = 0
inline void trim(Poly & f) { while (!f.empty() && f.back() == 0) f.pop_back(); }
inline Poly rem(const Field & K, Poly a, const Poly & b) {
  u32 li = K.inv(b.back());
  while (a.size() >= b.size()) {
    u32 c = K.neg(K.mul(a.back(), li)); size_t s = a.size() - b.size();
    for (size_t i = 0; i < b.size(); ++i) a[s + i] = K.add(a[s + i], K.mul(c, b[i]));
    trim(a);
  }
  return a;
}
inline Poly divexact(const Field & K, Poly a, const Poly & b) {
  Poly quo(a.size() - b.size() + 1, 0); u32 li = K.inv(b.back());
  while (a.size() >= b.size()) {
    u32 c = K.mul(a.back(), li); size_t s = a.size() - b.size(); quo[s] = c; c = K.neg(c);
    for (size_t i = 0; i < b.size(); ++i) a[s + i] = K.add(a[s + i], K.mul(c, b[i]));
    trim(a);
  }
  return quo;
}

// factorization pattern by trial division with all monic polynomials of increasing degree:
// list of (degree, multiplicity) per distinct irreducible factor
inline std::vector<std::pair<int,int>> factor_pattern(const Field & K, Poly f) {
  std::vector<std::pair<int,int>> r; trim(f);
  for (int d = 1; 2 * d <= (int)f.size() - 1; ++d) {
    u64 N = ipow(K.q, d);
    for (u64 c = 0; c < N && 2 * d <= (int)f.size() - 1; ++c) {
      Poly g(d + 1); u64 t = c; for (int i = 0; i < d; ++i) { g[i] = t % K.q; t /= K.q; } g[d] = 1;
      int m = 0;
      while (f.size() >= g.size() && rem(K, f, g).empty()) { f = divexact(K, f, g); ++m; }
      if (m) r.push_back({d, m});
    }
  }
  if (f.size() > 1) r.push_back({(int)f.size() - 1, 1});
  return r;
}
inline bool squarefree_pattern(const std::vector<std::pair<int,int>> & r) { for (auto & x : r) if (x.second > 1) return false; return true; }
// squarefree by Euclid's algorithm on f and its derivative (finite fields are perfect); constants are
inline bool squarefree(const Field & K, Poly f) {
  trim(f); if (f.empty()) return false; Poly d;
  for (size_t i = 1; i < f.size(); ++i) { u32 s = 0; for (size_t j = 0; j < i % K.p; ++j) s = K.add(s, f[i]); d.push_back(s); }
  trim(d); while (!d.empty()) { Poly r = rem(K, f, d); f = d; d = r; }
  return f.size() == 1;
}
inline std::vector<u32> ramification(const std::vector<std::pair<int,int>> & r, int deg) {
  std::vector<u32> v; if (deg % 2) v.push_back(1);
  for (auto & x : r) for (int i = 0; i < x.second; ++i) v.push_back(x.first);
  std::sort(v.begin(), v.end()); return v;
}

// Factorization patterns of all monic polynomials of degree <= D over K, by a sieve.
// Index of monic f of degree d: its lower coefficients in base q. pattern 0 = not squarefree,
// else nibble (k-1) holds the number of irreducible factors of degree k.
struct PatternSieve {
  const Field & K; int D; std::vector<std::vector<u64>> pat; // pat[d][idx]
  static constexpr u64 UNSET = ~0ULL;
  PatternSieve(const Field & K_, int D_) : K(K_), D(D_), pat(D_ + 1) {
    for (int d = 0; d <= D; ++d) pat[d].assign(ipow(K.q, d), UNSET);
    pat[0][0] = 0; std::vector<std::vector<u64>> lowest(D + 1); // index of the smallest irreducible factor
    std::vector<u64> one(1, 0);
    u32 q = K.q;
    for (int e = 1; e <= D; ++e) {
      // all composites of degree e with a factor of degree <= e/2 were marked already; the rest is irreducible
      for (u64 i = 0; i < pat[e].size(); ++i) if (pat[e][i] == UNSET) pat[e][i] = irr(e);
      // multiples: irreducible P of degree e with cofactor Q of degree >= e
      for (u64 i = 0; i < pat[e].size(); ++i) {
        if (pat[e][i] != irr(e)) continue;
        Poly P(e + 1); { u64 t = i; for (int j = 0; j < e; ++j) { P[j] = t % q; t /= q; } P[e] = 1; }
        for (int c = e; c + e <= D; ++c) {
          Poly Q(c + 1), R(c + e + 1);
          u64 N = ipow(q, c);
          for (u64 k = 0; k < N; ++k) {
            u64 t = k; for (int j = 0; j < c; ++j) { Q[j] = t % q; t /= q; } Q[c] = 1;
            std::fill(R.begin(), R.end(), 0);
            for (int a = 0; a <= e; ++a) if (P[a]) for (int b = 0; b <= c; ++b) R[a + b] = K.add(R[a + b], K.mul(P[a], Q[b]));
            u64 idx = 0; for (int j = c + e - 1; j >= 0; --j) idx = idx * q + R[j];
            if (pat[c + e][idx] == UNSET) pat[c + e][idx] = PENDING | ((u64)e << 40) | i;
          }
        }
      }
    }
    // resolve pending ones by increasing degree: f = P*Q with P irreducible of least degree
    for (int d = 1; d <= D; ++d) for (u64 idx = 0; idx < pat[d].size(); ++idx) if (pat[d][idx] & PENDING) {
      int e = (pat[d][idx] >> 40) & 0xff; u64 i = pat[d][idx] & ((1ULL << 40) - 1);
      Poly P(e + 1), F(d + 1);
      { u64 t = i; for (int j = 0; j < e; ++j) { P[j] = t % q; t /= q; } P[e] = 1; }
      { u64 t = idx; for (int j = 0; j < d; ++j) { F[j] = t % q; t /= q; } F[d] = 1; }
      Poly Q = divexact(K, F, P); u64 qi = 0; for (int j = d - e - 1; j >= 0; --j) qi = qi * q + Q[j];
      u64 pq = pat[d - e][qi];
      if (pq == 0 || (Q.size() >= P.size() && rem(K, Q, P).empty())) pat[d][idx] = (d - e == 0) ? irr(e) : 0;
      else pat[d][idx] = pq + irr(e);
    }
  }
  static u64 irr(int e) { return 1ULL << (4 * (e - 1)); }
  static constexpr u64 PENDING = 1ULL << 63;
  static std::vector<u32> ram(u64 pattern, int deg) {
    std::vector<u32> v; if (deg % 2) v.push_back(1);
    for (int k = 1; k <= 15; ++k) for (u64 c = 0; c < ((pattern >> (4 * (k - 1))) & 15); ++c) v.push_back(k);
    std::sort(v.begin(), v.end()); return v;
  }
};

typedef std::pair<std::vector<u32>, std::vector<int>> Key;     // (ramification type, offsets)
typedef std::map<Key, u64> Census;

inline Census census(const Field & K, int g, bool marked, int kmax, bool monic_trick = false) {
  PatternSieve S(K, marked ? 2 * g + 1 : 2 * g + 2);
  std::vector<Field> ext; std::vector<std::vector<u32>> emb;
  for (int k = 1; k <= kmax; ++k) { if (K.n == 1) ext.emplace_back(K.p, k); else ext.emplace_back(K.p, K.n * k); }
  for (auto & E : ext) {
    if (K.n == 1) { std::vector<u32> id(K.q); for (u32 a = 0; a < K.q; ++a) id[a] = a; emb.push_back(id); }
    else emb.push_back(embed(K, E));
  }
  Census C;
  std::map<std::pair<u64,std::vector<int>>, u64> acc[2];
  for (int d = 2 * g + 1; d <= (marked ? 2 * g + 1 : 2 * g + 2); ++d) {
    u64 N = ipow(K.q, d); std::map<std::pair<u64,std::vector<int>>, u64> acc;
    std::vector<u32> f(d + 1), fe(d + 1); std::vector<int> off(kmax), tw(kmax);
    for (u64 idx = 0; idx < N; ++idx) {
      u64 pt = S.pat[d][idx]; if (pt == 0) continue;
      u64 t = idx; for (int j = 0; j < d; ++j) { f[j] = t % K.q; t /= K.q; } f[d] = 1;
      for (u32 lead = 1; lead < (monic_trick ? 2u : K.q); ++lead) {
        for (int k = 0; k < kmax; ++k) {
          for (int j = 0; j <= d; ++j) fe[j] = emb[k][K.mul(f[j], lead)];
          Counts c = count_points(ext[k], fe.data(), d);
          off[k] = (int)ext[k].q + 1 - (int)(c.unram + c.ram);
        }
        if (monic_trick) {
          acc[{pt, off}] += (K.q - 1) / 2;
          for (int k = 0; k < kmax; ++k) tw[k] = (k % 2 == 0) ? -off[k] : off[k];
          acc[{pt, tw}] += (K.q - 1) / 2;
        } else acc[{pt, off}] += 1;
      }
    }
    for (auto & a : acc) C[{PatternSieve::ram(a.first.first, d), a.first.second}] += a.second;
  }
  return C;
}

} // namespace orc
