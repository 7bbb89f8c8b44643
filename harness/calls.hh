// C29: command lines read independently, the world a call is made in, kinds of configurations and output paths.
#pragma once
#include "expect.hh"
#include <functional>
namespace calls {
using std::string; using std::map; using std::vector; using std::function; using std::multiset; using std::multimap;
struct Opt { string longname; char shortname; char kind; };   // kind: 0 flag, i int, u unsigned, s string
struct Spec { string name; int (*main)(int, char **); vector<Opt> opts; vector<string> pos; string rest; vector<string> tokens; };
typedef map<string, vector<string>> Args;
enum Parse { BAD, GOOD, UNCLEAR };
inline bool integer(const string & s, bool neg) { size_t i = 0; if (neg && i < s.size() && s[i] == '-') ++i; if (i == s.size() || s.size() > 9) return false; for (; i < s.size(); ++i) if (!isdigit((unsigned char)s[i])) return false; return true; }
// independent reading of a command line; UNCLEAR: an option that needs a value is followed by another option
inline Parse parse(const Spec & sp, const vector<string> & t, Args & a) {
  vector<string> pos; bool bad = false; auto add = [&](const string & n, const string & v) { a[n].push_back(v); };
  for (size_t i = 0; i < t.size(); ++i) {
    const string & x = t[i]; if (x == "--") { for (++i; i < t.size(); ++i) pos.push_back(t[i]); break; }
    if (x.size() < 2 || x[0] != '-') { pos.push_back(x); continue; }
    const Opt * o = nullptr; string v; bool adj = false;
    if (x[1] == '-') { auto e = x.find('='); string n = x.substr(2, e == string::npos ? e : e - 2); if (e != string::npos) { adj = true; v = x.substr(e + 1); } for (auto & p : sp.opts) if (p.longname == n) o = &p; }
    else { for (auto & p : sp.opts) if (p.shortname && p.shortname == x[1]) o = &p; if (x.size() > 2) { adj = true; v = x.substr(2); } }
    if (!o) { bad = true; continue; }
    if (!o->kind) { if (adj) bad = true; add(o->longname, ""); continue; }
    if (!adj) { if (i + 1 >= t.size()) { bad = true; continue; } if (t[i + 1][0] == '-') return UNCLEAR; v = t[++i]; }
    if (v.empty()) return UNCLEAR; if (o->kind != 's' && !integer(v, o->kind == 'i')) bad = true; add(o->longname, v);
  }
  for (size_t i = 0; i < pos.size(); ++i) { string n = i < sp.pos.size() ? sp.pos[i] : sp.rest; if (n.empty()) { bad = true; continue; } for (auto & o : sp.opts) if (o.longname == n && o.kind != 's' && !integer(pos[i], o.kind == 'i')) bad = true; add(n, pos[i]); }
  for (auto & x : a) if (x.first != sp.rest && x.second.size() > 1) bad = true;
  return bad ? BAD : GOOD;
}
// ---- the world a call is made in
inline string root; inline expect::Run W;
inline const char * ENTRY[] = {"Prime: 3", "PrimeExponent: 1", "Genus: 1", "WithMarkedPoint: true", "CountExponent: 1", "ResultPath: r", "PackageSize: 10"};
inline string entry(const string & indent, int without = -1, const string & instead = "") { string r; bool first = true; for (int i = 0; i < 7; ++i) { string l = i == without ? instead : ENTRY[i]; if (l.empty()) continue; r += (indent.empty() ? "" : first ? "  - " : indent) + l + "\n"; first = false; } return r; }
inline string valid() { return "Moduli:\n" + entry("    "); }
inline void earlier(const string & d, int b, const string & base) { res::Store st = W.part.at(W.blocks[b]); string s; for (auto & y : st) s += y.first + ":" + res::dec(y.second) + "\n"; proc::spit(d + "/" + base + ".hycu_store", s); proc::spit(d + "/" + base + ".hycu_record", W.blocks[b] + " \n"); }
inline void build() {   // cfg: a valid configuration; out: a result root with earlier results; in: a result folder to merge; f: a file
  proc::wipe_inside(root); proc::spit(root + "/cfg", valid()); mkdir((root + "/out").c_str(), 0755); mkdir((root + "/out/r").c_str(), 0755); earlier(root + "/out/r", 1, "100"); mkdir((root + "/in").c_str(), 0755); earlier(root + "/in", 0, "1"); earlier(root + "/in", 2, "2"); proc::spit(root + "/f", "x");
}
inline void scan(const string & d, const string & rel, map<string, string> & m, bool dirs) { for (auto & n : proc::ls(d)) { string f = d + "/" + n, r = rel + "/" + n; struct stat st; if (lstat(f.c_str(), &st)) continue; if (S_ISDIR(st.st_mode)) { if (dirs) m[r] = "dir"; scan(f, r, m, dirs); } else m[r] = S_ISREG(st.st_mode) ? proc::slurp(f) : fmt("kind %o", (unsigned)(st.st_mode & S_IFMT)); } }
inline map<string, string> tree(bool dirs) { map<string, string> m; scan(root, "", m, dirs); return m; }
inline string differ(const map<string, string> & a, const map<string, string> & b) { for (auto & x : a) { auto it = b.find(x.first); if (it == b.end()) return x.first + " is gone"; if (it->second != x.second) return x.first + " was changed"; } for (auto & x : b) if (!a.count(x.first)) return x.first + " was created"; return ""; }
inline string census(const string & dir) { string why; return expect::folder_complete(dir, W, why) ? "" : why; }
inline string merged(const string & base) {
  multiset<string> rec; res::Store st; string why; if (!proc::exists(base + ".hycu_record") || !proc::exists(base + ".hycu_store")) return "there is no output"; if (!res::parse_record(proc::slurp(base + ".hycu_record"), rec, why) || !res::parse_store(proc::slurp(base + ".hycu_store"), st, why)) return why;
  multiset<string> wr {W.blocks[0], W.blocks[2]}; res::Store ws = W.part.at(W.blocks[0]); for (auto & y : W.part.at(W.blocks[2])) ws[y.first] += y.second; if (rec != wr) return "merged record differs"; if (st != ws) return "merged store: " + res::diff(st, ws); return "";
}
inline string abs(const string & p) { return p[0] == '/' ? p : root + "/" + p; }
// ---- kinds of configurations and of output paths; the call itself is in order
struct Kind { string name; int ok; function<void()> make; };   // ok: 1 has to be done, 0 has to be refused, 2 either, 3 refused after the first modulus
inline vector<Kind> configurations() {
  auto text = [](const string & s) { return [s] { proc::spit(root + "/cfg", s); }; };
  string second = "\n  - Prime: 5\n    PrimeExponent: 1\n    Genus: 1\n    WithMarkedPoint: true\n    CountExponent: 1\n    ResultPath: s\n    PackageSize: 10\n";
  vector<Kind> cs {{"valid", 1, text(valid())}, {"entry without a list", 1, text(entry(""))}, {"store type", 1, text("StoreType: EC\n" + valid())}, {"comments", 1, text("# one\n---\n" + valid() + "\n# two\n")}, {"other settings", 1, text("Other: 5\n" + valid())},
    {"missing", 0, [] { unlink((root + "/cfg").c_str()); }}, {"folder", 0, [] { unlink((root + "/cfg").c_str()); mkdir((root + "/cfg").c_str(), 0755); }}, {"dangling link", 0, [] { unlink((root + "/cfg").c_str()); if (symlink("nowhere", (root + "/cfg").c_str())) exit(3); }}, {"link", 1, [] { rename((root + "/cfg").c_str(), (root + "/cfg2").c_str()); if (symlink("cfg2", (root + "/cfg").c_str())) exit(3); }}, {"fifo", 0, [] { unlink((root + "/cfg").c_str()); mkfifo((root + "/cfg").c_str(), 0644); }},
    {"empty", 0, text("")}, {"only a comment", 0, text("# nothing\n")}, {"null", 0, text("~\n")}, {"number", 0, text("5\n")}, {"list", 0, text("[]\n")}, {"list of entries", 2, text("- " + string("Prime: 3\n"))}, {"empty map", 0, text("{}\n")}, {"no list", 0, text("Moduli: 5\n")}, {"empty list", 2, text("Moduli: []\n")}, {"nothing in the list", 0, text("Moduli:\n")}, {"entry in place of the list", 0, text("Moduli:\n" + [] { string r, e = entry(""); for (size_t i = 0, j; (j = e.find('\n', i)) != string::npos; i = j + 1) r += "  " + e.substr(i, j - i + 1); return r; }())}, {"list of numbers", 0, text("Moduli: [5]\n")}, {"list of nothing", 0, text("Moduli: [~]\n")}, {"nested list", 0, text("Moduli: [[5]]\n")},
    {"open bracket", 0, text("Moduli: [\n")}, {"open quote", 0, text("StoreType: \"EC\n" + valid())}, {"two colons", 0, text("Moduli: a: b\n")}, {"tab", 0, text("Moduli:\n\t- Prime: 3\n")}, {"binary", 0, text(string("\0\1\2\xff\xfe", 5))}, {"cut off", 0, text(valid().substr(0, 70))},
    {"unknown store type", 0, text("StoreType: XX\n" + valid())}, {"empty store type", 0, text("StoreType: \"\"\n" + valid())}, {"list of store types", 0, text("StoreType: [EC]\n" + valid())}, {"store type with more behind", 0, text("StoreType: ECX\n" + valid())}, {"two store types", 0, text("StoreType: EC EC\n" + valid())}, {"store type in small letters", 0, text("StoreType: ec\n" + valid())},
    {"second entry invalid", 3, text(valid() + "  - Prime: 4\n    PrimeExponent: 1\n    Genus: 1\n    ResultPath: s\n    PackageSize: 10\n")}, {"second entry incomplete", 0, text(valid() + "  - Prime: 5\n    PrimeExponent: 1\n")}, {"second entry a number", 0, text(valid() + "  - 5\n")}};
  for (int i = 0; i < 7; ++i) { string n = string(ENTRY[i]).substr(0, string(ENTRY[i]).find(':')); if (i != 3 && i != 4) cs.push_back({"without " + n, 0, text("Moduli:\n" + entry("    ", i))}); if (i == 3 || i == 4) cs.push_back({"without " + n, i == 4 ? 1 : 2, text("Moduli:\n" + entry("    ", i))});
    for (string v : {"x", "[1]", "{a: 1}", "", "-1", "0", "1.5", "3 4", "99999999999"}) { if (i == 5 && v[0] != '[' && v[0] != '{') continue; cs.push_back({n + "=" + v, 0, text("Moduli:\n" + entry("    ", i, n + ": " + v))}); }
    if (i < 3 || i == 4 || i == 6) cs.push_back({n + " twice", 2, text("Moduli:\n" + entry("    ", i, string(ENTRY[i]) + "\n    " + ENTRY[i]))}); }
  cs.push_back({"field beyond 32 bits", 0, text("Moduli:\n" + entry("    ", 0, "Prime: 2147483659"))}); cs.push_back({"counted field beyond 32 bits", 0, text("Moduli:\n" + entry("    ", 4, "CountExponent: 20"))});
  cs.push_back({"composite field", 0, text("Moduli:\n" + entry("    ", 0, "Prime: 9"))}); cs.push_back({"even field", 0, text("Moduli:\n" + entry("    ", 0, "Prime: 2"))});
  return cs;
}
inline vector<Kind> outputs() {
  vector<Kind> os {{"earlier results", 1, [] {}}, {"new", 1, [] { proc::wipe(root + "/out"); }}, {"empty", 1, [] { proc::wipe(root + "/out/r"); }}, {"link to a folder", 1, [] { rename((root + "/out").c_str(), (root + "/real").c_str()); if (symlink("real", (root + "/out").c_str())) exit(3); }},
    {"file", 0, [] { proc::wipe(root + "/out"); proc::spit(root + "/out", "x"); }}, {"result folder is a file", 0, [] { proc::wipe(root + "/out/r"); proc::spit(root + "/out/r", "x"); }}, {"dangling link", 2, [] { proc::wipe(root + "/out"); if (symlink("nowhere", (root + "/out").c_str())) exit(3); }}, {"below a file", 0, [] { proc::wipe(root + "/out"); if (symlink("f/x", (root + "/out").c_str())) exit(3); }}};
  return os;
}
} // namespace calls
