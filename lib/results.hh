// Independent reading of result files.
#pragma once
#include "proc.hh"
#include <algorithm>
#include <sstream>
#include <set>
namespace res {
using std::string; using std::map; using std::multiset; using std::vector;
typedef unsigned __int128 u128;
inline string dec(u128 x) { if (!x) return "0"; string r; while (x) { r = char('0' + (int)(x % 10)) + r; x /= 10; } return r; }
inline u128 num(const string & s) { u128 r = 0; for (char c : s) r = r * 10 + (c - '0'); return r; }
inline bool number(const string & s) { if (s.empty()) return false; for (char c : s) if (c < '0' || c > '9') return false; return true; }
typedef map<string, u128> Store;
inline string norm_block(string l) { std::stringstream ss(l); string w, r; while (ss >> w) r += (r.empty() ? "" : " ") + w; return r; }
inline bool parse_record(const string & t, multiset<string> & rec, string & why) {
  std::stringstream ss(t); string l; if (!t.empty() && t.back() != '\n') { why = "record is cut off"; return false; }
  while (getline(ss, l)) { string b = norm_block(l); if (b.empty()) { why = "empty line in a record"; return false; } rec.insert(b); } return true;
}
inline bool parse_store(const string & t, Store & st, string & why, bool add = true) {
  std::stringstream ss(t); string l; if (!t.empty() && t.back() != '\n') { why = "store is cut off"; return false; }
  while (getline(ss, l)) {
    auto i = l.find(':'); if (i == string::npos || !number(l.substr(i + 1))) { why = "malformed store line '" + l + "'"; return false; }
    string k = l.substr(0, i); if (!add && st.count(k)) { why = "key twice in one store: " + k; return false; } st[k] += num(l.substr(i + 1));
  }
  return true;
}
inline string show(const Store & s, size_t mx = 12) { string r; for (auto & x : s) { if (!mx--) { r += "..."; break; } r += x.first + ":" + dec(x.second) + " "; } return r; }
inline string diff(const Store & got, const Store & want) {
  string r; int n = 0; for (auto & w : want) { auto it = got.find(w.first); if (it == got.end() || it->second != w.second) if (n++ < 4) r += w.first + ": " + (it == got.end() ? "missing" : dec(it->second)) + " instead of " + dec(w.second) + "; "; }
  for (auto & g : got) if (!want.count(g.first)) if (n++ < 6) r += g.first + ":" + dec(g.second) + " unexpected; ";
  return r;
}
} // namespace res
