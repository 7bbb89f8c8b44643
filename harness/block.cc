// C06 (mode visit): every position exactly once.  C07 (mode tile): packages tile the space and respect the package size.
#include "block_iterator.hh"
#include "curve_iterator.hh"
#include "report.hh"
#include <algorithm>
#include <functional>
#include <memory>
using namespace std;
typedef unsigned int u32; typedef unsigned long long u64;
typedef vector<u32> Pos;

struct Ix { int kind; u32 lo, n; size_t on; int pat; };   // kind 0 block [lo,lo+n), 1 set of n values, 2 dependent on index `on`
struct Shape { vector<Ix> ix; };
static const u32 VALS[4] = {7, 2, 9, 4};
static u32 dep_size(int pat, u32 key) { return pat == 0 ? 2 : pat == 1 ? 1 + key % 2 : 3 - key % 3; }
static u32 dep_val(size_t i, u32 key, u32 v) { return 20 + 31 * (u32)i + 5 * key + 3 * ((v * 2) % 3) ; }
static string name(const Shape & s) {
  string r; for (auto & x : s.ix) r += x.kind == 0 ? fmt("[%u,%u)", x.lo, x.lo + x.n) : x.kind == 1 ? fmt("set%u", x.n) : fmt("dep(%zu,%d)", x.on, x.pat); return r;
}
static void make(const Shape & s, map<size_t, tuple<u32,u32>> & b, map<size_t, vector<u32>> & sets, map<size_t, tuple<size_t, map<u32, vector<u32>>>> & dep) {
  for (size_t i = 0; i < s.ix.size(); ++i) {
    auto & x = s.ix[i];
    if (x.kind == 0) b[i] = make_tuple(x.lo, x.lo + x.n);
    else if (x.kind == 1) sets[i] = vector<u32>(VALS, VALS + x.n);
    else {
      map<u32, vector<u32>> m; auto & c = s.ix[x.on];
      for (u32 k = 0; k < c.n; ++k) { u32 key = c.kind == 0 ? c.lo + k : k; vector<u32> v; for (u32 j = 0; j < dep_size(x.pat, key); ++j) v.push_back(dep_val(i, key, j)); m[key] = v; }
      dep[i] = make_tuple(x.on, m);
    }
  }
}
static void expected(const Shape & s, vector<Pos> & out) {
  size_t L = s.ix.size(); out.clear(); vector<pair<Pos, Pos>> cur(1, {Pos(L, 0), Pos(L, 0)});   // (values, keys)
  for (int round = 0; round < 2; ++round) for (size_t i = 0; i < L; ++i) {
    auto & x = s.ix[i]; if ((x.kind == 2) != (round == 1)) continue;
    vector<pair<Pos, Pos>> nx;
    for (auto & c : cur) {
      u32 n = x.kind == 2 ? dep_size(x.pat, c.second[x.on]) : x.n;
      for (u32 v = 0; v < n; ++v) { auto d = c; if (x.kind == 0) d.first[i] = d.second[i] = x.lo + v; else if (x.kind == 1) { d.first[i] = VALS[v]; d.second[i] = v; } else d.first[i] = dep_val(i, c.second[x.on], v); nx.push_back(d); }
    }
    cur.swap(nx);
  }
  for (auto & c : cur) out.push_back(c.first); sort(out.begin(), out.end());
}
template<class It> bool run(It & it, size_t limit, vector<Pos> & got, string & why) {
  got.clear();
  while (!it.is_end()) { if (got.size() > limit) { why = "does not end"; return false; } got.push_back(it.as_position()); it.step(); }
  return true;
}
static bool same(vector<Pos> got, const vector<Pos> & want, string & why) {
  sort(got.begin(), got.end());
  for (size_t i = 0; i + 1 < got.size(); ++i) if (got[i] == got[i + 1]) { why = "position " + str(got[i]) + " visited twice"; return false; }
  for (auto & w : want) if (!binary_search(got.begin(), got.end(), w)) { why = "position " + str(w) + " never visited"; return false; }
  for (auto & g : got) if (!binary_search(want.begin(), want.end(), g)) { why = "position " + str(g) + " does not belong to the space"; return false; }
  return true;
}
static void past_end(Report & R, BlockIterator & it, const string & nm) {
  auto p = it.as_position(); for (int k = 0; k < 3; ++k) { it.step(); if (!it.is_end() || it.as_position() != p) { R.violation(nm + ": stepping past the end changes the iterator"); return; } }
}
static void visit(Report & R, const Shape & s) {
  map<size_t, tuple<u32,u32>> b; map<size_t, vector<u32>> sets; map<size_t, tuple<size_t, map<u32, vector<u32>>>> dep; make(s, b, sets, dep);
  vector<Pos> want, got; expected(s, want); string why, nm = name(s); R.eval();
  BlockIterator it(s.ix.size(), b, sets, dep);
  if (it.length() != s.ix.size()) { R.violation(nm + ": length"); return; }
  if (!run(it, want.size() + 5, got, why) || !same(got, want, why)) { R.violation(nm + ": " + why); return; }
  past_end(R, it, nm);
  bool blocks_only = sets.empty() && dep.empty();
  if (blocks_only) {
    vector<tuple<u32,u32>> bs; for (auto & x : b) bs.push_back(x.second);
    BlockIterator iv(bs); if (!run(iv, want.size() + 5, got, why) || !same(got, want, why)) { R.violation(nm + " (from bounds): " + why); return; } past_end(R, iv, nm);
  }
  R.nontrivial(want.size() > 1); R.sample(nm + fmt(": %zu positions", want.size()));
}
static u64 volume(const vuu_block & b) { u64 v = 1; for (auto & x : b) v *= get<1>(x) - get<0>(x); return v; }
static void unroll(const vuu_block & b, vector<Pos> & out) {
  Pos p; for (auto & x : b) p.push_back(get<0>(x));
  for (;;) { out.push_back(p); size_t i = 0; for (; i < p.size(); ++i) { if (++p[i] < get<1>(b[i])) break; p[i] = get<0>(b[i]); } if (i == p.size()) return; }
}
static bool package(Report & R, const string & nm, const vuu_block & blk, BlockIterator en, u32 ps, vector<Pos> & all) {
  string why;
  for (auto & x : blk) if (get<0>(x) >= get<1>(x)) { R.violation(nm + ": empty bounds in a package"); return false; }
  u64 v = volume(blk);
  if (v > ps) { R.violation(nm + fmt(": package of %llu positions for package size %u", v, ps)); return false; }
  vector<Pos> here, got; unroll(blk, here); vector<Pos> want = here; sort(want.begin(), want.end());
  if (!run(en, here.size() + 5, got, why) || !same(got, want, why)) { R.violation(nm + ": enumerator of a package: " + why); return false; }
  BlockIterator re(blk); if (!run(re, here.size() + 5, got, why) || !same(got, want, why)) { R.violation(nm + ": iterator rebuilt from the bounds of a package: " + why); return false; }
  all.insert(all.end(), here.begin(), here.end()); return true;
}
static void tile(Report & R, const Shape & s) {
  map<size_t, tuple<u32,u32>> b; map<size_t, vector<u32>> sets; map<size_t, tuple<size_t, map<u32, vector<u32>>>> dep; make(s, b, sets, dep);
  bool on_block = false; for (auto & x : s.ix) if (x.kind == 2 && s.ix[x.on].kind == 0) on_block = true;
  vector<Pos> want; expected(s, want); u64 vol = 1; for (auto & x : b) vol *= get<1>(x.second) - get<0>(x.second);
  for (u64 ps = 1; ps <= (on_block ? 1 : vol + 2); ++ps) {
    string why, nm = name(s) + fmt(" package size %llu", ps); vector<Pos> all; R.eval(); u64 np = 0;
    BlockIterator it(s.ix.size(), b, (u32)ps, sets, dep);
    while (!it.is_end()) { if (++np > want.size() + 5) { R.violation(nm + ": does not end"); return; } if (!package(R, nm, it.as_block(), it.as_block_enumerator(), ps, all)) return; it.step(); }
    past_end(R, it, nm);
    if (!same(all, want, why)) { R.violation(nm + ": packages do not tile the space: " + why); return; }
    R.nontrivial(np > 1 && ps > 1); R.count("packages", np); R.sample(nm + fmt(": %llu packages, %zu positions", np, want.size()));
  }
}
static void shapes(Report & R, size_t L, bool rich, const char * tag, void (*f)(Report &, const Shape &)) {
  // options of one index; the first index names the case
  vector<Ix> base; for (u32 n = 1; n <= (rich ? 4u : 3u); ++n) { base.push_back({0, 0, n, 0, 0}); if (rich) base.push_back({0, 3, n, 0, 0}); } for (u32 n = 1; n <= (rich ? 4u : 2u); ++n) base.push_back({1, 0, n, 0, 0});
  vector<Ix> opts = base; for (size_t on = 0; on < L; ++on) for (int pat = 0; pat < (rich ? 3 : 2); ++pat) opts.push_back({2, 0, 0, on, rich ? pat : 1 + pat});
  size_t A = opts.size(); u64 inner = 1; for (size_t i = 1; i < L; ++i) inner *= A;
  for (size_t a = 0; a < A; ++a) for (size_t a2 = 0; a2 < (L > 1 ? A : 1); ++a2) {
    if (!R.begin(fmt("%s length=%zu first=%zu second=%zu", tag, L, a, a2))) continue;
    u64 in2 = L > 1 ? inner / A : 1;
    for (u64 r = 0; r < in2; ++r) {
      Shape s; s.ix.push_back(opts[a]); if (L > 1) s.ix.push_back(opts[a2]); u64 t = r; for (size_t i = 2; i < L; ++i) { s.ix.push_back(opts[t % A]); t /= A; }
      bool ok = true; for (size_t i = 0; i < L; ++i) if (s.ix[i].kind == 2 && (s.ix[i].on == i || s.ix[s.ix[i].on].kind == 2)) ok = false;
      if (ok) f(R, s); if (R.viol.size() > 3) return;
    }
  }
}
// long shapes: up to three indices of a small alphabet anywhere, all others trivial ranges or one-element sets
static void longer(Report & R, size_t L, void (*f)(Report &, const Shape &)) {
  vector<Ix> opts; for (u32 n = 2; n <= 3; ++n) { opts.push_back({0, 0, n, 0, 0}); opts.push_back({0, 3, n, 0, 0}); opts.push_back({1, 0, n, 0, 0}); } opts.push_back({2, 0, 0, 0, 1}); opts.push_back({2, 0, 0, 0, 2});
  for (int triv = 0; triv < 3; ++triv) for (size_t i = 0; i < L; ++i) {
    if (!R.begin(fmt("long length=%zu trivial=%d first=%zu", L, triv, i))) continue;
    Shape base; for (size_t j = 0; j < L; ++j) base.ix.push_back(triv == 0 ? Ix{0, 0, 1, 0, 0} : triv == 1 ? Ix{1, 0, 1, 0, 0} : j % 2 ? Ix{0, 5, 1, 0, 0} : Ix{1, 0, 1, 0, 0});
    auto some = [&](size_t m) { return m < L ? opts : vector<Ix>(1, opts[0]); };   // index L stands for none
    for (auto & a : opts) for (size_t j = i + 1; j <= L; ++j) for (auto & b : some(j)) for (size_t k = min(j + 1, L); k <= L; ++k) for (auto & c : some(k)) {
      Shape s = base; s.ix[i] = a; if (j < L) s.ix[j] = b; if (k < L) s.ix[k] = c;
      bool ok = true; for (size_t m : {i, j, k}) if (m < L && s.ix[m].kind == 2) { size_t on = m == i ? (j < L ? j : (i + 1) % L) : i; s.ix[m].on = on; if (s.ix[on].kind == 2) ok = false; }
      if (ok) { f(R, s); R.count("long_shapes"); } if (R.viol.size() > 3) return;
    }
  }
}
// ranges far from zero, and long sets and dependent sets
static void far(Report & R, void (*f)(Report &, const Shape &)) {
  for (u32 lo : {1u, 5u, 126u, 250u, 32765u, 65530u, (1u << 24) - 3, (1u << 30) - 5, 2147483630u}) for (u32 n = 1; n <= 12; ++n) {
    if (!R.begin(fmt("far from=%u size=%u", lo, n))) continue;
    for (int k = 0; k < 5; ++k) for (u32 m = 1; m <= 3; ++m) { Shape s; Ix a {0, lo, n, 0, 0}; if (k == 0) s.ix = {a}; if (k == 1) s.ix = {a, {0, lo + 1, m, 0, 0}}; if (k == 2) s.ix = {{1, 0, m, 0, 0}, a}; if (k == 3) s.ix = {{0, 0, m, 0, 0}, a, {0, 3, 2, 0, 0}}; if (k == 4) s.ix = {a, {2, 0, 0, 0, 1}, {0, lo, m, 0, 0}}; f(R, s); if (R.viol.size() > 3) return; }
  }
}
static void long_sets(Report & R, bool th) {
  auto walk = [&](const string & nm, BlockIterator it, u64 want, function<bool(const Pos &)> ok) {
    set<Pos> seen; u64 n = 0; R.eval(); while (!it.is_end()) { auto p = it.as_position(); if (!ok(p)) { R.violation(nm + ": position " + str(p)); return; } if (!seen.insert(p).second) { R.violation(nm + ": position " + str(p) + " visited twice"); return; } if (++n > want + 5) break; it.step(); }
    if (n != want) { R.violation(nm + fmt(": %llu positions instead of %llu", n, want)); return; } past_end(R, it, nm); R.nontrivial();
  };
  for (u32 n : {255u, 256u, 257u, 1000u, 32767u, 32768u, 65535u, 65536u, 65537u, th ? 1000003u : 70001u}) for (int k = 0; k < 4; ++k) {
    if (!R.begin(fmt("long set of %u values, kind %d", n, k))) continue;
    vector<u32> v; for (u32 i = 0; i < n; ++i) v.push_back(3 * i + 1); auto in = [=](u32 x, u32 off) { return x >= off && (x - off) % 3 == 0 && (x - off) / 3 < n; };
    map<size_t, tuple<u32,u32>> b; map<size_t, vector<u32>> s; map<size_t, tuple<size_t, map<u32, vector<u32>>>> d; string nm = fmt("%u values, kind %d", n, k);
    if (k == 0) { s[0] = v; walk(nm, BlockIterator(1, b, 1, s, d), n, [&](const Pos & p) { return in(p[0], 1); }); }
    if (k == 1) { s[0] = v; s[1] = {4, 9}; b[2] = make_tuple(5u, 6u); walk(nm, BlockIterator(3, b, 1, s, d), 2ull * n, [&](const Pos & p) { return in(p[0], 1) && (p[1] == 4 || p[1] == 9) && p[2] == 5; }); }
    if (k == 2) { s[1] = {11, 12}; map<u32, vector<u32>> m; m[0] = v; m[1] = {8}; d[0] = make_tuple((size_t)1, m); walk(nm, BlockIterator(2, b, 1, s, d), n + 1ull, [&](const Pos & p) { return p[1] == 11 ? in(p[0], 1) : p[1] == 12 && p[0] == 8; }); }
    if (k == 3) { s[1] = v; map<u32, vector<u32>> m; for (u32 i = 0; i < n; ++i) m[i] = {i, i + 1}; d[0] = make_tuple((size_t)1, m); walk(nm, BlockIterator(2, b, 1, s, d), 2ull * n, [&](const Pos & p) { u32 i = (p[1] - 1) / 3; return in(p[1], 1) && (p[0] == i || p[0] == i + 1); }); }
  }
  for (u32 n : {255u, 256u, 65535u, 65536u, 70000u}) for (u32 lo : {0u, 3u, 2147480000u - 70000u}) if (R.begin(fmt("long range of %u from %u", n, lo))) { map<size_t, tuple<u32,u32>> b; b[0] = make_tuple(lo, lo + n); walk(fmt("range of %u", n), BlockIterator(1, b), n, [&](const Pos & p) { return p[0] >= lo && p[0] < lo + n; }); }
}
static void curves(Report & R, u32 p, u32 e, u32 g, bool marked, u32 psmax) {
  if (!R.begin(fmt("curves q=%u^%u genus=%u marked=%d", p, e, g, marked))) return;
  FqElementTable t(p, e); vector<Pos> want, all; string why;
  for (CurveIterator it(t, g, marked, 1); !it.is_end(); it.step()) { auto b = it.as_block(); if (volume(b) != 1) { R.violation("package size 1 gives a larger package"); return; } want.push_back(it.as_position()); for (size_t i = 0; i < b.size(); ++i) if (get<0>(b[i]) != want.back()[i]) { R.violation("package does not start at the position"); return; } }
  vector<Pos> w2 = want; sort(want.begin(), want.end()); if (!same(w2, want, why)) { R.violation("package size 1: " + why); return; }
  vector<u32> sizes; for (u32 s = 1; s <= psmax; ++s) sizes.push_back(s); for (u32 s : {50u, 97u, 128u, 1000u, 1u << 20, ~0u}) sizes.push_back(s);
  for (u32 ps : sizes) {
    all.clear(); set<vuu_block> blocks; u64 np = 0; string nm = fmt("curves over F_{%u^%u}, genus %u, marked %d, package size %u", p, e, g, marked, ps); R.eval();
    for (CurveIterator it(t, g, marked, ps); !it.is_end(); it.step()) {
      if (++np > want.size() + 5) { R.violation(nm + ": does not end"); return; }
      auto b = it.as_block(); blocks.insert(b); if (!package(R, nm, b, it.as_block_enumerator(), ps, all)) return;
    }
    if (blocks.size() != np) { R.violation(nm + ": the same package occurs twice"); return; }
    if (!same(all, want, why)) { R.violation(nm + ": packages do not tile the space: " + why); return; }
    R.nontrivial(np > 1 && ps > 1); R.count("packages", np);
  }
}
static void large(Report & R) {   // arithmetic on large bounds: volumes only
  for (u32 n : {1u << 16, 65537u, 1u << 24, (1u << 31) - 1}) for (u32 m : {1u, 3u, 1000u}) for (u32 ps : {1u << 14, 1000000u, 1u << 28, ~0u}) {
    if ((u64)n * m / ps > 20000) continue;
    if (!R.begin(fmt("large %u x %u package size %u", n, m, ps))) continue;
    u64 sum = 0, np = 0; set<vuu_block> seen; R.eval();
    map<size_t, tuple<u32,u32>> b; b[0] = make_tuple(0u, m); b[1] = make_tuple(0u, n);
    u64 bound = 4 * ((u64)n * m / ps + m + 2); bool bad = false;
    for (BlockIterator it(2, b, ps); !it.is_end(); it.step()) { auto k = it.as_block(); u64 v = volume(k); if (v > ps || get<1>(k[0]) > m || get<1>(k[1]) > n || !seen.insert(k).second || ++np > bound + (u64)n * m) { bad = true; break; } sum += v; }
    if (bad || sum != (u64)n * m) R.violation(fmt("%u x %u with package size %u: packages do not tile (sum of volumes %llu after %llu packages)", n, m, ps, sum, np));
    R.nontrivial(np > 1);
  }
}
int main(int argc, char ** argv) {
  Report R(argc, argv); bool th = R.thorough();
  if (R.mode == "visit") {
    for (size_t L = 1; L <= 3; ++L) shapes(R, L, true, "shape", visit);
    shapes(R, 4, th, "shape", visit); shapes(R, 5, false, "shape", visit);
    for (size_t L : {6, 7, 9, 12}) longer(R, L, visit); if (th) for (size_t L : {8, 16, 20}) longer(R, L, visit);
    far(R, visit); long_sets(R, th);
    if (R.begin("length zero")) { BlockIterator it(0, map<size_t, tuple<u32,u32>>{}); R.eval(); R.check(it.is_end() && it.step().is_end(), "an iterator of length zero is not at its end"); }
  } else {
    for (size_t L = 1; L <= 3; ++L) shapes(R, L, true, "shape", tile);
    shapes(R, 4, th, "shape", tile); if (th) shapes(R, 5, false, "shape", tile);
    for (auto pe : {make_pair(3, 1), make_pair(5, 1), make_pair(7, 1), make_pair(3, 2), make_pair(11, 1), make_pair(13, 1)}) for (int m = 0; m < 2; ++m) curves(R, pe.first, pe.second, 1, m, 40);
    for (int m = 0; m < 2; ++m) { curves(R, 3, 1, 2, m, 40); curves(R, 5, 1, 2, m, 12); curves(R, 7, 1, 2, m, th ? 40 : 9); curves(R, 3, 1, 3, m, 20); curves(R, 3, 1, 4, m, 9); if (th) { curves(R, 5, 1, 3, m, 20); curves(R, 3, 2, 2, m, 40); curves(R, 5, 2, 1, m, 40); curves(R, 3, 3, 1, m, 40); curves(R, 11, 1, 2, m, 5); } }
    longer(R, 7, tile); if (th) for (size_t L : {6, 8, 9, 12, 16}) longer(R, L, tile);
    large(R); far(R, tile);
  }
  return R.finish();
}
