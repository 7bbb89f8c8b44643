// C10 (mode ops): all operation sequences on stores.  C11 (mode text): reading back what was written.
#include "curve.hh"
#include "store/store_factory.hh"
#include "store/file_store.hh"
#include "report.hh"
#include <fstream>
#include <sstream>
#include <unordered_set>
#include <sys/stat.h>
using namespace std;
typedef unsigned int u32; typedef unsigned long long u64; typedef unsigned __int128 u128;
static string dec(u128 x) { if (!x) return "0"; string r; while (x) { r = char('0' + (int)(x % 10)) + r; x /= 10; } return r; }
static u128 num(const string & s) { u128 r = 0; for (char c : s) r = r * 10 + (c - '0'); return r; }

typedef map<string, u128> Model;      // key text -> count
static bool parse_store(const string & t, map<string, string> & m, string & why) {
  stringstream ss(t); string l; while (getline(ss, l)) { auto i = l.find(':'); if (i == string::npos || !m.emplace(l.substr(0, i), l.substr(i + 1)).second) { why = "line '" + l + "'"; return false; } } return true;
}
static string show(const Model & m) { string r; for (auto & x : m) r += x.first + ":" + dec(x.second) + " "; return r; }
static string one_line(string s) { for (auto & c : s) if (c == '\n') c = ' '; return s; }
static bool equal(const string & text, const Model & m, string & why) {
  map<string, string> got; if (!parse_store(text, got, why)) return false;
  bool ok = got.size() == m.size(); for (auto & x : m) { auto it = got.find(x.first); if (it == got.end() || it->second != dec(x.second)) ok = false; }
  if (!ok) why = "got " + one_line(text) + ", expected " + show(m); return ok;
}
static string block_text(const vuu_block & b) { string r; for (auto & x : b) r += fmt("%u %u ", get<0>(x), get<1>(x)); return r; }
static multiset<string> lines(const string & t) { multiset<string> r; stringstream ss(t); string l; while (getline(ss, l)) { while (!l.empty() && l.back() == ' ') l.pop_back(); r.insert(l + " "); } return r; }

struct Item { shared_ptr<Curve> c; string key, twisted; u128 mult; };
static Item item(shared_ptr<FqElementTable> t, vector<u32> ex, const vector<shared_ptr<ReductionTable>> & rt) {
  Item i; i.c = make_shared<Curve>(t, ex); for (auto & r : rt) i.c->count(r);
  auto ram = i.c->ramification_type(); auto off = i.c->hasse_weil_offsets(i.c->max_prime_exponent()); auto tw = off; for (size_t k = 0; k < tw.size(); k += 2) tw[k] = -tw[k];
  i.key = str(ram) + ";" + str(off); i.twisted = str(ram) + ";" + str(tw);
  fmpz_t f; fmpz_init(f); CurveIterator::multiplicity(f, i.c->prime(), i.c->prime_power(), i.c->rhs_support()); char * s = fmpz_get_str(NULL, 10, f); i.mult = num(s); flint_free(s); fmpz_clear(f);
  return i;
}
struct Sys {
  vector<shared_ptr<StoreInterface>> w; vector<Model> mw; Model ms; set<string> rec; u32 nb = 0; string trace; shared_ptr<StoreFactoryInterface> fac; Report & R; string big;
  Sys(Report & R, int nw, const string & big) : R(R), big(big) { fac = create_store_factory(StoreType::EC); for (int i = 0; i < nw; ++i) w.push_back(fac->create()); mw.resize(nw); }
  bool emit(int via) {
    auto t = via < 0 ? fac->create()->flush_static_store() : w[via]->flush_static_store(); string why; R.count("transitions_emit");
    multiset<string> want(rec.begin(), rec.end());
    if (lines(get<0>(t)) != want) { R.violation("after " + trace + ": emitted record '" + one_line(get<0>(t)) + "'"); return false; }
    if (!equal(get<1>(t), ms, why)) { R.violation("after " + trace + ": emitted store: " + why); return false; }
    ms.clear(); rec.clear(); return true;
  }
  void reg(int i, const Item & c) { w[i]->register_curve(*c.c); mw[i][c.key] += c.mult; mw[i][c.twisted] += c.mult; }
  // result files contain every class together with its twist
  void ext(int i, const Item & c) { string t = c.key + ":" + big + "\n"; if (c.twisted != c.key) t += c.twisted + ":" + big + "\n"; w[i]->extract(stringstream(t)); mw[i][c.key] += num(big); if (c.twisted != c.key) mw[i][c.twisted] += num(big); }
  void flush(int i) { vuu_block b; b.push_back(make_tuple(nb, nb + 1)); b.push_back(make_tuple(0u, 3u + nb)); ++nb; w[i]->flush_to_static_store(b); rec.insert(block_text(b)); for (auto & x : mw[i]) ms[x.first] += x.second; mw[i].clear(); }
  u64 state() const { u64 h = 1469598103934665603ull; auto add = [&](u64 x) { h = (h ^ x) * 1099511628211ull; h ^= h >> 29; }; auto addm = [&](const Model & m) { for (auto & x : m) { for (char c : x.first) add((unsigned char)c); add((u64)x.second); add((u64)(x.second >> 64)); } add(7777); }; for (auto & m : mw) addm(m); addm(ms); add(rec.size()); add(nb); return h; }
  bool peek(int i) { stringstream ss; w[i]->insert(ss); string why; if (!equal(ss.str(), mw[i], why)) { R.violation("after " + trace + fmt(": contents of worker store %d: ", i) + why); return false; } return true; }
};
static void ops(Report & R, const string & tag, const vector<Item> & items, int nw, int depth, bool with_ext, const string & big) {
  int nc = (int)items.size(), A = nw * nc + (with_ext ? nw : 0) + nw + 1; u64 total = 1; for (int i = 0; i < depth; ++i) total *= A; u64 groups = (u64)A * A;
  for (u64 g = 0; g < groups; ++g) {
    if (!R.viol.empty()) return;   // the process-wide store is in an unknown state after a violation
    if (!R.begin(fmt("%s depth=%d first=%llu second=%llu", tag.c_str(), depth, g % A, g / A))) continue;
    unordered_set<u64> states; struct Fin { Report & R; unordered_set<u64> & s; ~Fin() { R.count("states", s.size()); } } fin{R, states};
    for (u64 s = 0; s < total / groups; ++s) {
      Sys S(R, nw, big); bool bad = false; u64 t = s * groups + g;
      for (int i = 0; i < depth && !bad; ++i) {
        int a = (int)(t % A); t /= A; R.count("transitions"); states.insert(S.state());
        if (a < nw * nc) { S.trace += fmt("register(%d,c%d) ", a / nc, a % nc); S.reg(a / nc, items[a % nc]); continue; }
        a -= nw * nc;
        if (with_ext) { if (a < nw) { S.trace += fmt("read(%d) ", a); S.ext(a, items[0]); continue; } a -= nw; }
        if (a < nw) { S.trace += fmt("flush(%d) ", a); S.flush(a); continue; }
        S.trace += "emit "; bad = !S.emit(s % 2 ? -1 : 0);
      }
      for (int i = 0; i < nw && !bad; ++i) { bad = !S.peek(i); }
      for (int i = nw - 1; i >= 0 && !bad; --i) { S.trace += fmt("flush(%d) ", i); S.flush(i); }
      if (!bad) { S.trace += "emit "; bad = !S.emit(-1); } if (!bad) { S.trace += "emit "; bad = !S.emit(0); }
      R.eval(); R.count("traces_validated_against_impl"); R.nontrivial(S.trace.find("register") != string::npos);
      if (bad) return; if (s == total / groups / 2) R.sample(tag + ": " + S.trace);
    }
  }
}
static void run_ops(Report & R) {
  auto t7 = make_shared<FqElementTable>(7, 1); vector<shared_ptr<ReductionTable>> rt{make_shared<ReductionTable>(7, 2), make_shared<ReductionTable>(7, 1)};
  vector<Item> all; u32 z = 6; set<string> seen; Item self, c1, c2; bool hs = false, h1 = false, h2 = false;
  for (CurveIterator it(*t7, 1, false, 100); !it.is_end(); it.step()) for (BlockIterator b(it.as_block()); !b.is_end(); b.step()) {
    Curve c(t7, b.as_position()); if (!c.has_squarefree_rhs()) continue; Item i = item(t7, b.as_position(), rt);
    if (i.key == i.twisted) { if (!hs) { self = i; hs = true; } }
    else if (!h1) { c1 = i; h1 = true; }
    else if (h1 && !h2 && i.key == c1.twisted) { c2 = i; h2 = true; }
  }
  (void)z;
  if (!hs || !h1 || !h2) { R.violation("no suitable curves over F_7"); return; }
  bool th = R.thorough();
  ops(R, "small", {c1, c2, self}, 2, th ? 7 : 6, false, "0");
  ops(R, "read", {c1, self}, 2, th ? 7 : 5, true, "4611686018427387904");
  ops(R, "read128", {c1, c2}, 1, th ? 7 : 6, true, "1180591620717411303424");
  ops(R, "three", {c1, self}, 3, th ? 6 : 5, false, "0");
  // counts above 2^62 through registration: multiplicity q(q-1)^2/2 with q > 2^21, no extension counted
  if (R.single ? R.only.compare(0, 4, "huge") == 0 : true) {
    u32 p = 2097169; vector<Item> H; shared_ptr<FqElementTable> t;
    // only the shards that own a case build the table
    bool mine = R.single; for (long long i = R.index; i < R.index + 25 && !mine; ++i) mine = i % R.nshards == R.shard;
    if (R.nshards > 1 && R.shard > 3) { /* keep memory in bounds: four shards share the cases */ }
    t = make_shared<FqElementTable>(p, 1); u32 zz = p - 1;
    H.push_back(item(t, {5, 0, zz, 1}, {})); H.push_back(item(t, {1, 2, zz, 2}, {}));
    ops(R, "huge", H, 1, th ? 7 : 6, false, "0");
    if (R.viol.empty() && H[0].mult < ((u128)1 << 62)) R.violation("harness: multiplicity too small");
  }
}
// ------------------------------------------------------------------------------------------------ text round trips
static void text_records(Report & R) {
  vector<vuu_block> A; u32 M = 2147483647u;
  A.push_back({make_tuple(0u, 1u)}); A.push_back({make_tuple(0u, 2u)}); A.push_back({make_tuple(0u, 1u), make_tuple(0u, 1u)}); A.push_back({make_tuple(3u, 7u), make_tuple(0u, 1u), make_tuple(6u, 7u)}); A.push_back({make_tuple(10u, 11u)}); A.push_back({make_tuple(1u, 10u)});
  A.push_back({make_tuple(0u, M)}); A.push_back({make_tuple(M - 1, M), make_tuple(0u, 65537u)}); A.push_back({make_tuple(0u, 1u), make_tuple(1u, 2u), make_tuple(2u, 3u), make_tuple(3u, 4u), make_tuple(4u, 5u), make_tuple(5u, 6u), make_tuple(6u, 7u), make_tuple(7u, 8u), make_tuple(8u, 9u), make_tuple(9u, 10u), make_tuple(10u, 11u)});
  if (R.thorough()) { A.push_back({make_tuple(100u, 200u), make_tuple(0u, 3u)}); A.push_back({make_tuple(1u, 1000000u)}); A.push_back({make_tuple(7u, 8u), make_tuple(7u, 8u), make_tuple(7u, 8u)}); }
  string dir = R.out + ".d"; mkdir(dir.c_str(), 0700); string file = dir + "/x.hycu_record";
  for (u32 m = 0; m < 1u << A.size(); ++m) {
    if (!R.begin(fmt("record set=%u", m))) continue;
    set<vuu_block> want, got; for (size_t i = 0; i < A.size(); ++i) if (m >> i & 1) want.insert(A[i]);
    stringstream ss; FileStore::insert(ss, want); string text = ss.str();
    R.eval(); R.nontrivial(want.size() > 1);
    auto report = [&](const string & how, const set<vuu_block> & g) { string r; for (auto & b : g) r += "(" + block_text(b) + ")"; R.violation(how + ": read back " + r + " from text '" + one_line(text) + "'"); };
    FileStore::extract(ss, got); if (got != want) { report("record", got); return; }
    { fstream f(file, ios_base::out); FileStore::insert(f, want); } got.clear(); FileStore::extract(fstream(file, ios_base::in), got); if (got != want) { report("record file", got); return; }
    // reading a second record into the same set gives the union
    set<vuu_block> uni = want; uni.insert(A[0]); stringstream s2; FileStore::insert(s2, set<vuu_block>{A[0]}); FileStore::extract(s2, got); if (got != uni) { report("union of two records", got); return; }
    // writing what was read gives the same text
    stringstream s3; set<vuu_block> again; FileStore::extract(stringstream(text), again); FileStore::insert(s3, again); if (s3.str() != text) { report("second generation", again); return; }
    R.sample("record " + one_line(text));
  }
  for (size_t i = 0; i < A.size(); ++i) if (R.begin(fmt("block %zu", i))) {
    stringstream ss; FileStore::insert(ss, A[i]) << endl; vuu_block b; FileStore::extract(ss, b); R.eval(); if (b != A[i]) R.violation("block (" + block_text(A[i]) + ") read back as (" + block_text(b) + ")");
    stringstream s2; FileStore::insert(s2, A[i]); vuu_block b2; FileStore::extract(s2, b2); R.eval(); if (b2 != A[i]) R.violation("block without newline (" + block_text(A[i]) + ") read back as (" + block_text(b2) + ")");
  }
  unlink(file.c_str()); rmdir(dir.c_str());
}
static void text_stores(Report & R) {
  vector<string> keys{"1;0", "1;-1", "2;0", "1,1;0", "1,2;-2,4", "1,1,2;2,4", "1,1,2;-2,4", "1,1,2;-2,-4", "1,10;-12,100,-1000", "1,1,1,1,1,1,1,1,1,1,1;2147483647,-2147483648,0"};
  vector<string> counts{"1", "2", "4294967295", "4294967296", "4611686018427387903", "4611686018427387904", "9223372036854775808", "18446744073709551616", "1000000000000000000000000000000"};
  if (R.thorough()) { keys.push_back("3,3;0,0"); keys.push_back("33;0"); counts.push_back("0"); counts.push_back("340282366920938463"); }
  size_t K = keys.size(), C = counts.size(); string dir = R.out + ".s"; mkdir(dir.c_str(), 0700); string file = dir + "/x.hycu_store";
  auto fac = create_store_factory(StoreType::EC);
  auto one = [&](const vector<pair<int,int>> & ls) {     // lines in this order; equal keys are to be added
    string text; Model want; for (auto & l : ls) { text += keys[l.first] + ":" + counts[l.second] + "\n"; want[keys[l.first]] += num(counts[l.second]); }
    R.eval(); R.nontrivial(want.size() > 1 || ls.size() > want.size()); string why;
    auto st = fac->create(); st->extract(stringstream(text)); stringstream o; st->insert(o);
    if (!equal(o.str(), want, why)) { R.violation("reading '" + one_line(text) + "' : " + why); return false; }
    auto s2 = fac->create(); s2->extract(stringstream(o.str())); stringstream o2; s2->insert(o2); if (o2.str() != o.str()) { R.violation("second generation of '" + one_line(o.str()) + "' is '" + one_line(o2.str()) + "'"); return false; }
    // a second text into the same store adds up
    st->extract(stringstream(text)); Model dbl = want; for (auto & x : dbl) x.second *= 2; stringstream o3; st->insert(o3); if (!equal(o3.str(), dbl, why)) { R.violation("reading twice '" + one_line(text) + "' : " + why); return false; }
    // the source is still intact, and the emission of the process-wide store reads back too
    stringstream o4; s2->insert(o4); if (o4.str() != o.str()) { R.violation("a store changes while another one is used"); return false; }
    s2->flush_to_static_store({make_tuple(0u, 1u)}); st->flush_to_static_store({make_tuple(1u, 2u)}); auto e = fac->create()->flush_static_store(); auto s5 = fac->create(); s5->extract(stringstream(get<1>(e))); stringstream o5; s5->insert(o5);
    Model tri = want; for (auto & x : tri) x.second *= 3; if (!equal(o5.str(), tri, why)) { R.violation("process-wide store after '" + one_line(text) + "' : " + why); return false; }
    return true;
  };
  for (size_t a = 0; a < K; ++a) for (size_t b = 0; b < K; ++b) {
    if (!R.begin(fmt("store keys %zu,%zu", a, b))) continue;
    bool ok = true;
    for (size_t c = 0; ok && c < C; ++c) for (size_t d = 0; ok && d < C; ++d) { ok = one({{(int)a, (int)c}, {(int)b, (int)d}}); for (size_t e = 0; ok && e < (R.thorough() ? K : 2); ++e) ok = one({{(int)a, (int)c}, {(int)b, (int)d}, {(int)e, (int)d}}); }
    R.sample("store " + keys[a] + " and " + keys[b] + " with all pairs of counts"); if (!ok) break;
  }
  if (R.begin("empty store")) { one({}); fstream f(file, ios_base::out); f.close(); auto st = fac->create(); st->extract(fstream(file, ios_base::in)); stringstream o; st->insert(o); R.check(o.str().empty(), "empty store file"); }
  if (R.begin("all keys file")) { vector<pair<int,int>> ls; string text; Model want; for (size_t a = 0; a < K; ++a) { text += keys[a] + ":" + counts[a % C] + "\n"; want[keys[a]] = num(counts[a % C]); } { fstream f(file, ios_base::out); f << text; } auto st = fac->create(); st->extract(fstream(file, ios_base::in)); { fstream f(file, ios_base::out); st->insert(f); } auto s2 = fac->create(); s2->extract(fstream(file, ios_base::in)); stringstream o; s2->insert(o); string why; R.eval(); if (!equal(o.str(), want, why)) R.violation("store file: " + why); }
  unlink(file.c_str()); rmdir(dir.c_str());
}
// long blocks, long records, long keys and counts: whatever is written is read back, through streams, files and the process-wide store
static vuu_block long_block(u32 n, u32 seed) { vuu_block b; for (u32 i = 0; i < n; ++i) { u32 lo = (i * 7 + seed) % (i % 5 == 4 ? 2147483000u : 97u); b.push_back(make_tuple(lo, lo + 1 + i % 3)); } return b; }
static void text_long(Report & R) {
  string dir = R.out + ".l"; mkdir(dir.c_str(), 0700); string rf = dir + "/1.hycu_record", sf = dir + "/1.hycu_store"; auto fac = create_store_factory(StoreType::EC); bool th = R.thorough();
  ConfigNode cfg; cfg.result_path = dir;
  auto records = [&](const string & name, const vector<vuu_block> & bs) {
    if (!R.begin(name)) return; R.eval(); R.nontrivial(); set<vuu_block> want(bs.begin(), bs.end()), got; stringstream ss; FileStore::insert(ss, want); FileStore::extract(ss, got);
    if (got != want) { R.violation(fmt("%zu blocks written, %zu read back, or different ones", want.size(), got.size())); return; }
    // the way a program takes: the process-wide store, files, the next start
    auto st = fac->create(); for (auto & b : bs) st->flush_to_static_store(b); auto t = fac->create()->flush_static_store();
    FileStore::write(t, rf, sf); { FileStore fs(cfg); for (auto & b : want) { R.eval(); if (!fs.contains(b)) { R.violation("a recorded block of " + to_string(b.size()) + " ranges is not found again: " + block_text(b)); break; } auto c = b; auto & x = get<1>(c.back()); ++x; if (!want.count(c) && fs.contains(c)) { R.violation("a block that differs in its last range counts as recorded"); break; } c = b; c.pop_back(); if (!want.count(c) && fs.contains(c)) { R.violation("a block without its last range counts as recorded"); break; } } }
    got.clear(); FileStore::extract(fstream(rf, ios_base::in), got); if (got != want) R.violation(fmt("%zu blocks written to a file, %zu read back, or different ones", want.size(), got.size()));
    unlink(rf.c_str()); unlink(sf.c_str());
  };
  vector<u32> lens; for (u32 n = 1; n <= (th ? 400 : 80); ++n) lens.push_back(n); for (u32 n : {127u, 128u, 129u, 255u, 256u, 257u, 300u, 1000u}) lens.push_back(n);
  for (u32 n : lens) { records(fmt("block of %u ranges", n), {long_block(n, n)}); records(fmt("blocks of %u ranges and their neighbours", n), {long_block(n, 1), long_block(n + 1, 1), long_block(n, 2), long_block(1, 5)}); }
  for (u32 k : {10u, 100u, 255u, 256u, 257u, 1000u, 1024u, 5000u, th ? 200000u : 20000u}) { vector<vuu_block> bs; for (u32 i = 0; i < k; ++i) { vuu_block b; for (u32 j = 0; j < 1 + i % 7; ++j) b.push_back(make_tuple(i * 10 + j, i * 10 + j + 1)); bs.push_back(b); } records(fmt("record of %u blocks", k), bs); }
  auto stores = [&](const string & name, const vector<pair<string, string>> & ls) {
    if (!R.begin(name)) return; R.eval(); R.nontrivial(); map<string, string> want(ls.begin(), ls.end()), got; string text, why; for (auto & l : want) text += l.first + ":" + l.second + "\n";
    auto st = fac->create(); st->extract(stringstream(text)); stringstream o; st->insert(o); auto differ = [&](const string & t, const char * what) { got.clear(); if (parse_store(t, got, why) && got == want) return false; string d; for (auto & w : want) { auto it = got.find(w.first); if (it == got.end() || it->second != w.second) { d = w.first + ":" + w.second + " is " + (it == got.end() ? "missing" : it->second); break; } } R.violation(string(what) + fmt(": %zu lines written, %zu read; ", want.size(), got.size()) + d.substr(0, 600)); return true; };
    if (differ(o.str(), "stream")) return;
    st->flush_to_static_store({make_tuple(0u, 1u)}); auto t = fac->create()->flush_static_store(); FileStore::write(t, rf, sf); auto s2 = fac->create(); s2->extract(fstream(sf, ios_base::in)); stringstream o2; s2->insert(o2); differ(o2.str(), "file"); unlink(rf.c_str()); unlink(sf.c_str());
  };
  auto key = [](int r, int o, int seed) { string s; for (int i = 0; i < r; ++i) s += (i ? "," : "") + to_string(1 + (i * 3 + seed) % 12); s += ";"; for (int i = 0; i < o; ++i) s += (i ? "," : "") + to_string((i % 2 ? 1 : -1) * (long)((i * 1234567l + seed) % 2147483647l)); return s; };
  for (int r = 1; r <= (th ? 200 : 64); ++r) for (int o : {1, 2, 3, 10, 40, th ? 200 : 64}) stores(fmt("keys with %d ramification indices and %d offsets", r, o), {{key(r, o, 0), "1"}, {key(r, o, 1), "4611686018427387904"}, {key(r + 1, o, 0), "2"}, {key(r, o + 1, 0), "3"}});
  for (int d = 1; d <= (th ? 3000 : 400); d += d < 60 ? 1 : 17) { string nine(d, '9'), one = "1" + string(d, '0'); stores(fmt("counts of %d digits", d), {{"1;0", nine}, {"1;1", one}, {"1;-1", nine}}); }
  for (int k : {100, 1000, th ? 100000 : 20000}) { vector<pair<string, string>> ls; for (int i = 0; i < k; ++i) ls.push_back({fmt("%d,%d;%d,%d,%d", 1 + i % 9, 10 + i % 7, i, -i, i % 13), to_string(i + 1)}); stores(fmt("store of %d keys", k), ls); }
  rmdir(dir.c_str());
}
// C18: of the packages of an iterator exactly those count as recorded that a record lists
static void contains(Report & R) {
  bool th = R.thorough(); string dir = R.out + ".c"; mkdir(dir.c_str(), 0700); ConfigNode cfg; cfg.result_path = dir; auto fac = create_store_factory(StoreType::EC);
  struct F { u32 p, e; }; for (F f : vector<F>{{3, 1}, {5, 1}, {7, 1}, {3, 2}, {11, 1}, {13, 1}, {5, 2}}) for (u32 g = 1; g <= (th ? 20u : 12u); ++g) for (int marked = 0; marked < 2; ++marked) {
    string nm = fmt("contains q=%u^%u genus=%u marked=%d", f.p, f.e, g, marked); if (!R.begin(nm)) continue;
    FqElementTable t(f.p, f.e); vector<vuu_block> bs; u32 ps = 1; size_t most = th ? 600 : 200;
    // the smallest package size with a bounded number of packages
    double size = 1; for (u32 i = 0; i < 2 * g; ++i) size *= f.p; for (ps = 1; ; ps = ps > 2000000000u ? ~0u : ps * 2) { bs.clear(); for (CurveIterator it(t, g, marked, ps); !it.is_end() && bs.size() <= most; it.step()) bs.push_back(it.as_block()); if (bs.size() <= most || ps == ~0u) break; }
    if (bs.size() > most) bs.resize(most);
    if (bs.empty()) { R.count("iterators_without_packages"); continue; }
    size_t n = bs.size(); auto put = [&](const vector<vuu_block> & b, int file) { auto st = fac->create(); for (auto & x : b) st->flush_to_static_store(x); FileStore::write(fac->create()->flush_static_store(), dir + fmt("/%d.hycu_record", file), dir + fmt("/%d.hycu_store", file)); };
    auto look = [&](const set<vuu_block> & rec, const string & what) { FileStore fs(cfg); for (size_t i = 0; i < n; ++i) { R.eval(); bool h = fs.contains(bs[i]); if (h != (bool)rec.count(bs[i])) { R.violation(what + fmt(": package %zu of %zu, ", i, n) + block_text(bs[i]) + (h ? ", counts as recorded and is not" : ", is recorded and does not count as such")); return false; } } R.nontrivial(); return true; };
    auto wipe = [&] { for (int k = 0; k < 2; ++k) { unlink((dir + fmt("/%d.hycu_record", k)).c_str()); unlink((dir + fmt("/%d.hycu_store", k)).c_str()); } };
    if (set<vuu_block>(bs.begin(), bs.end()).size() != n) { R.violation(nm + ": two packages are equal"); continue; }
    bool ok = true;
    for (size_t i = 0; i < n && ok; i += th || n < 60 ? 1 : n / 40) { put({bs[i]}, 0); ok = look({bs[i]}, nm + fmt(": package %zu recorded", i)); wipe(); if (!ok) break;
      vector<vuu_block> r; for (size_t j = 0; j < n; ++j) if (j != i) r.push_back(bs[j]); set<vuu_block> s(r.begin(), r.end()); put(r, 0); ok = look(s, nm + fmt(": all packages but %zu recorded", i)); wipe(); }
    for (u32 m = 2; m <= 4 && ok; ++m) for (u32 a = 0; a < m && ok; ++a) { vector<vuu_block> r[2]; set<vuu_block> s; for (size_t j = 0; j < n; ++j) if (j % m == a) { r[(j / m) % 2].push_back(bs[j]); s.insert(bs[j]); } put(r[0], 0); put(r[1], 1); ok = look(s, nm + fmt(": every package congruent to %u modulo %u, in two files", a, m)); wipe(); }
    R.sample(nm + fmt(": %zu packages", n));
  }
  // many files, each with a few of the packages
  for (int files : {10, 300, th ? 70000 : 5000}) for (int each : {0, 1, 3}) {
    string nm = fmt("contains files=%d each=%d", files, each); if (!R.begin(nm)) continue;
    set<vuu_block> want; vector<string> paths; auto blk = [](int i) { return vuu_block{make_tuple(1u, 2u), make_tuple((u32)i, (u32)i + 1), make_tuple(0u, 5u)}; };
    for (int i = 0; i < files; ++i) { auto st = fac->create(); for (int k = 0; k < each; ++k) { vuu_block b = blk(2 * (i * each + k)); want.insert(b); st->flush_to_static_store(b); } string base = dir + fmt("/%d", i); FileStore::write(fac->create()->flush_static_store(), base + ".hycu_record", base + ".hycu_store"); paths.push_back(base + ".hycu_record"); paths.push_back(base + ".hycu_store"); }
    { FileStore fs(cfg); for (int i = 0; i <= 2 * files * each + 1; ++i) { R.eval(); bool h = fs.contains(blk(i)); if (h != (bool)want.count(blk(i))) { R.violation(nm + ": " + block_text(blk(i)) + (h ? " counts as recorded and is not" : " is recorded and does not count as such")); break; } } R.nontrivial(); }
    for (auto & p : paths) unlink(p.c_str());
    R.sample(nm + fmt(": %zu recorded packages", want.size()));
  }
  rmdir(dir.c_str());
}
int main(int argc, char ** argv) {
  Report R(argc, argv);
  if (R.mode == "ops") run_ops(R); else if (R.mode == "contains") contains(R); else { text_records(R); text_stores(R); text_long(R); }
  return R.finish();
}
