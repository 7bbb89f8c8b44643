// C24: the OpenCL kernels, compiled from their sources, on every small input, layout and order of work items.
#include "cl_sim.hh"
#include "oracle.hh"
#include "report.hh"
#include "opencl/program.hh"
using namespace std; using orc::u32; using orc::u64;
#undef SIZE_PARTIAL_REDUCTION
static const string EVALUATE =
#include "opencl/evaluation.cl"
static const string REDUCE =
#include "opencl/reduction.cl"
static clsim::Arg mem(void * p) { clsim::Arg a; a.kind = 2; a.mem = p; return a; }
static clsim::Arg val(int v) { clsim::Arg a; a.kind = 1; a.size = 4; a.value.assign((unsigned char *)&v, (unsigned char *)&v + 4); return a; }
static clsim::Arg loc(size_t n) { clsim::Arg a; a.kind = 3; a.size = n; return a; }
static clsim::Code code(const string & src, const string & opt) { auto c = clsim::build(src, opt, true); if (!c.so) { fprintf(stderr, "kernel does not build with %s: %s\n", opt.c_str(), c.error.c_str()); exit(3); } return c; }
struct Evaluate {
  orc::Field F; int m; vector<int> red, inc, un, ra, co; vector<u32> f; clsim::Launch l;
  Evaluate(u32 p, u32 n) : F(p, n), m((int)F.q - 1) {
    for (int h = 0; h < 2; ++h) for (int i = 0; i < m; ++i) red.push_back(i);
    inc.assign(F.q, 0); for (int i = 0; i < m; ++i) { u32 s = F.add(1, F.ex[i]); inc[i] = s ? (int)F.lg[s] : m; }
  }
  // coefficients as exponents, m for zero
  string one(const vector<int> & c, bool backwards, size_t local) {
    int n = (int)c.size(); auto k = code(EVALUATE, "-DPOLY_SIZE=" + to_string(n)); co = c; un.assign(m, -7); ra.assign(m, -7); clsim::forget_regions();
    clsim::region(co.data(), 4 * co.size(), true, false); clsim::region(red.data(), 4 * red.size(), true, false); clsim::region(inc.data(), 4 * inc.size(), true, false); clsim::region(un.data(), 4 * un.size(), false, true); clsim::region(ra.data(), 4 * ra.size(), false, true);
    l.args = {mem(co.data()), val(m), mem(red.data()), mem(inc.data()), mem(un.data()), mem(ra.data())}; l.global = m; l.local = local ? local : m; l.order.clear(); l.groups_backwards = backwards; if (backwards) for (size_t i = 0; i < l.local; ++i) l.order.push_back((int)(l.local - 1 - i));
    string e = clsim::run(k, "evaluate", l, true); if (!e.empty()) return e;
    f.clear(); for (int x : c) f.push_back(x == m ? 0 : F.ex[x]);
    for (int i = 0; i < m; ++i) {
      u32 v = F.eval(f.data(), n - 1, F.ex[i]); int wu = v && F.is_square(v) ? 2 : 0, wr = v ? 0 : 1;
      if (un[i] != wu || ra[i] != wr) return fmt("at x=g^%d the kernel gives (%d,%d), by definition (%d,%d)", i, un[i], ra[i], wu, wr);
    }
    return "";
  }
};
static string evaluate_show(Evaluate & E, const vector<int> & c) { return fmt("q=%u, coefficient exponents %s (%d means 0)", E.F.q, str(c).c_str(), E.m); }
static string reduce(const clsim::Code & k, int s, int lsz, int groups, const vector<int> & as, const vector<int> & order, bool gb) {
  vector<int> a = as, sum(groups * s, -12345); clsim::forget_regions(); clsim::region(a.data(), 4 * a.size(), true, false); clsim::region(sum.data(), 4 * sum.size(), false, true);
  clsim::Launch l; l.args = {mem(a.data()), val((int)a.size()), loc(4 * lsz), mem(sum.data())}; l.global = (size_t)lsz * groups; l.local = lsz; l.order = order; l.groups_backwards = gb;
  string e = clsim::run(k, "reduce", l, true); if (!e.empty()) return e;
  unsigned want = 0, got = 0; for (int x : as) want += x; for (int x : sum) got += x;
  if (want != got) return fmt("the partial sums add up to %d, the values to %d", (int)got, (int)want);
  return "";
}
int main(int argc, char ** argv) {
  Report R(argc, argv); bool th = R.thorough();
  // ---- evaluation
  auto polys = [&](u32 p, u32 n, int len, int alpha, bool layouts) {   // alpha 0: every coefficient
    u32 q = (u32)orc::ipow(p, n); int A = alpha ? alpha : (int)q; int split = len > 2 ? 1 : 0;
    for (int top = 0; top < (split ? A : 1); ++top) {
      if (!R.begin(fmt("evaluate q=%u^%u len=%d alpha=%d top=%d", p, n, len, alpha, top))) continue;
      Evaluate E(p, n); int al[5] = {E.m, 0, E.m - 1, 1 % E.m, E.m / 2}; vector<int> c(len); u64 N = orc::ipow(A, len - split);
      for (u64 i = 0; i < N; ++i) {
        u64 t = i; for (int j = 0; j < len - split; ++j) { c[j] = alpha ? al[t % A] : (int)(t % A); t /= A; } if (split) c[len - 1] = alpha ? al[top] : top;
        string e = E.one(c, i & 1, 0); R.eval(E.m); R.nontrivial(len > 2);
        if (layouts) for (size_t l = 1; l <= (size_t)E.m && e.empty(); ++l) if (E.m % l == 0) { e = E.one(c, false, l); if (e.empty()) e = E.one(c, true, l); R.eval(2 * E.m); R.count("layouts", 2); }
        if (!e.empty()) { R.violation(evaluate_show(E, c) + ": " + e); break; }
      }
      R.sample(evaluate_show(E, c));
    }
  };
  polys(3, 1, 1, 0, true); polys(3, 1, 2, 0, true); polys(3, 1, 3, 0, true); polys(3, 1, 4, 0, true); polys(3, 1, th ? 10 : 8, 0, false); polys(5, 1, 3, 0, true); polys(5, 1, th ? 7 : 6, 0, false); polys(7, 1, 3, 0, true); polys(7, 1, th ? 6 : 5, 0, false); polys(3, 2, 2, 0, true); polys(3, 2, th ? 5 : 4, 0, false); polys(11, 1, th ? 5 : 4, 0, false); polys(13, 1, th ? 5 : 4, 0, false); polys(5, 2, 3, 0, false); polys(3, 3, 3, 0, false); polys(17, 1, 3, 0, false); polys(19, 1, 3, 0, false); polys(7, 2, 3, 0, false);
  for (u32 p = 3; p < (th ? 400u : 130u); p += 2) if (orc::is_prime(p)) { u64 q = p; for (u32 n = 1; q < (th ? 400 : 130); ++n, q *= p) { polys(p, n, 3, 5, false); if (th || q < 60) polys(p, n, 5, 5, false); } }
  for (auto pe : {make_pair(3, 6), make_pair(5, 4), make_pair(7, 3), make_pair(1009, 1)}) polys(pe.first, pe.second, 4, 3, false); polys(5, 1, 13, 2, false); polys(3, 2, 12, 2, false);
  // ---- reduction
  for (int s : {1, 2, 4, 8}) for (int lsz = s; lsz <= (th ? 256 : 64); lsz *= 2) for (int g = 1; g <= 4; ++g) {
    if (!R.begin(fmt("reduce partial=%d local=%d groups=%d", s, lsz, g))) continue;
    auto k = code(REDUCE, "-DSIZE_PARTIAL_REDUCTION=" + to_string(s)); vector<vector<int>> orders; vector<int> o(lsz); for (int i = 0; i < lsz; ++i) o[i] = i;
    if (lsz <= 4) { do orders.push_back(o); while (next_permutation(o.begin(), o.end())); } else { orders.push_back(o); reverse(o.begin(), o.end()); orders.push_back(o); for (int i = 0; i < lsz; ++i) o[i] = (i * 5 + 3) % lsz; orders.push_back(o); }
    int top = 3 * lsz * g + 3; bool bad = false;
    for (int len = 0; len <= top && !bad; ++len) {
      if (lsz > 32 && !th && len > 4 && len % lsz > 2 && len % lsz < lsz - 2) continue;
      vector<vector<int>> values; values.push_back(vector<int>(len, 1)); { vector<int> v(len); unsigned h = 12345; for (auto & x : v) { h = h * 1664525u + 1013904223u; x = (int)(h >> 8); } values.push_back(v); }
      if (len <= (th ? 64 : 24)) for (int i = 0; i < len; ++i) { vector<int> v(len, 0); v[i] = -1; values.push_back(v); }
      for (size_t oi = 0; oi < orders.size() && !bad; ++oi) for (size_t vi = 0; vi < (oi ? 2u : values.size()) && !bad; ++vi) {
        string e = reduce(k, s, lsz, g, values[vi], orders[oi], oi & 1); R.eval(); R.nontrivial(len > 1);
        if (!e.empty()) { R.violation(fmt("length %d, order %zu of the items: ", len, oi) + e); bad = true; }
      }
    }
    R.sample(fmt("%d groups of %d items, %d partial sums each, lengths 0..%d", g, lsz, s, top));
  }
  R.count("checked_accesses", clsim::accesses); R.count("phases_between_barriers", clsim::phases); R.count("kernel_launches", clsim::launches);
  return R.finish();
}
