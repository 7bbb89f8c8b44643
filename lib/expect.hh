// What a run over one modulus has to produce: its packages, the contribution of each, and the brute-force census.
#pragma once
#include "curves.hh"
#include "results.hh"
#include "store/store_factory.hh"
namespace expect {
using std::string; using std::map; using std::vector;
struct Run { vector<string> blocks; vector<int> sizes; map<string, res::Store> part; res::Store census; string name; };
inline string keystr(const orc::Key & k) { return str(k.first) + ";" + str(k.second); }
inline string blockstr(const vuu_block & b) { string r; for (auto & x : b) r += (r.empty() ? "" : " ") + std::to_string(std::get<0>(x)) + " " + std::to_string(std::get<1>(x)); return r; }
// packages: in the order of the enumeration
inline Run run(unsigned p, unsigned e, unsigned g, bool marked, unsigned kmax, unsigned package, bool brute = true) {
  Run r; r.name = fmt("q=%u^%u genus=%u marked=%d exponents=%u package=%u", p, e, g, marked, kmax, package);
  glue::BaseField B(p, e); vector<std::shared_ptr<ReductionTable>> rt; for (int k = (int)kmax; k > 0; --k) rt.push_back(std::make_shared<ReductionTable>(p, e * k));
  for (CurveIterator it(*B.table, g, marked, package); !it.is_end(); it.step()) {
    auto st = create_store_factory(StoreType::EC)->create(); auto blk = it.as_block(); int size = 0;
    for (BlockIterator b(blk); !b.is_end(); b.step()) { ++size; Curve c(B.table, b.as_position()); if (!c.has_squarefree_rhs()) continue; for (auto & t : rt) c.count(t); st->register_curve(c); }
    std::stringstream ss; st->insert(ss); string why, n = blockstr(blk); r.blocks.push_back(n); r.sizes.push_back(size); res::parse_store(ss.str(), r.part[n], why);
    if (!brute) for (auto & x : r.part[n]) r.census[x.first] += x.second;
  }
  if (brute && B.check()) for (auto & c : orc::census(*B.K, (int)g, marked, (int)kmax, true)) r.census[keystr(c.first)] = c.second;
  return r;
}
// ---- reading a result folder
struct Pair { string base; std::multiset<string> rec; res::Store store; };
struct Folder { vector<Pair> pairs; std::multiset<string> rec; res::Store store; vector<string> orphans, others; };
inline bool read_folder(const string & dir, Folder & f, string & why) {
  for (auto & n : proc::ls(dir)) {
    auto d = n.rfind('.'); string ext = d == string::npos ? "" : n.substr(d), base = n.substr(0, d == string::npos ? n.size() : d);
    if (ext == ".hycu_store") { if (!proc::exists(dir + "/" + base + ".hycu_record")) f.orphans.push_back(n); continue; }
    if (ext != ".hycu_record") { f.others.push_back(n); continue; }
    Pair p; p.base = base; if (!res::parse_record(proc::slurp(dir + "/" + n), p.rec, why)) { why = n + ": " + why; return false; }
    if (!proc::exists(dir + "/" + base + ".hycu_store")) { why = n + " has no store"; return false; }
    if (!res::parse_store(proc::slurp(dir + "/" + base + ".hycu_store"), p.store, why)) { why = base + ": " + why; return false; }
    for (auto & b : p.rec) f.rec.insert(b); for (auto & s : p.store) f.store[s.first] += s.second; f.pairs.push_back(p);
  }
  return true;
}
// every recorded block is a package, recorded at most once over all pairs; every store is the sum of its record
inline bool consistent(const Folder & f, const Run & r, string & why) {
  for (auto & p : f.pairs) {
    res::Store want; for (auto & b : p.rec) { auto it = r.part.find(b); if (it == r.part.end()) { why = "recorded block (" + b + ") is not a package"; return false; } for (auto & s : it->second) want[s.first] += s.second; }
    if (want != p.store) { why = "store " + p.base + " does not match its record of " + std::to_string(p.rec.size()) + " blocks: " + res::diff(p.store, want); return false; }
  }
  for (auto it = f.rec.begin(); it != f.rec.end(); it = f.rec.upper_bound(*it)) if (f.rec.count(*it) > 1) { why = "block (" + *it + ") is recorded twice"; return false; }
  return true;
}
inline bool complete(const Folder & f, const Run & r, string & why) {
  std::multiset<string> all(r.blocks.begin(), r.blocks.end());
  if (f.rec != all) { int n = 0; why = fmt("%zu of %zu packages recorded", f.rec.size(), all.size()); for (auto & b : all) if (!f.rec.count(b) && n++ < 3) why += "; missing (" + b + ")"; for (auto & b : f.rec) if (!all.count(b) && n++ < 6) why += "; unexpected (" + b + ")"; return false; }
  if (f.store != r.census) { why = "stores do not sum to the census: " + res::diff(f.store, r.census); return false; }
  return true;
}
inline bool folder_complete(const string & dir, const Run & r, string & why) { Folder f; return read_folder(dir, f, why) && consistent(f, r, why) && complete(f, r, why); }
} // namespace expect
