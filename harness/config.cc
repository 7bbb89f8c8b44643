// C22: all combinations of present, omitted and zero settings, as values and through the real threaded program.
#include "expect.hh"
#include "report.hh"
#include "config/config_node.hh"
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <array>
#include <dlfcn.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <yaml-cpp/yaml.h>
using namespace std;
extern "C" int hycu_threaded_main(int, char **);
// the program polls with long sleeps; time plays no role here
extern "C" int nanosleep(const struct timespec *, struct timespec *) { struct timespec t {0, 300000}; syscall(SYS_nanosleep, &t, 0); return 0; }
extern "C" int clock_nanosleep(clockid_t, int, const struct timespec *, struct timespec *) { return nanosleep(0, 0); }

struct Ref { bool complete = true; u_int v[7] = {0}; string path; };   // prime, exponent, genus, marked, count, (path), package
static const char * FIELD[7] = {"Prime", "PrimeExponent", "Genus", "WithMarkedPoint", "CountExponent", "ResultPath", "PackageSize"};
static string text(const vector<string> & v, const string & indent, const string & first) { string r; bool f = true; for (int i = 0; i < 7; ++i) if (v[i] != "-") { r += (f ? first : indent) + FIELD[i] + ": " + v[i] + "\n"; f = false; } if (f) r = first + "{}\n"; return r; }
static Ref refof(const vector<string> & v) {
  Ref r; for (int i : {0, 1, 2, 5, 6}) if (v[i] == "-") r.complete = false;
  for (int i : {0, 1, 2, 4, 6}) if (v[i] != "-") r.v[i] = strtoul(v[i].c_str(), 0, 10);
  if (v[4] == "-") r.v[4] = r.v[2]; r.v[3] = v[3] == "true"; r.path = v[5]; return r;
}
static bool equal(const ConfigNode & c, const Ref & r) { return c.prime == r.v[0] && c.prime_exponent == r.v[1] && c.genus == r.v[2] && c.with_marked_point == (bool)r.v[3] && c.count_exponent == r.v[4] && c.result_path == path(r.path) && c.package_size == r.v[6]; }
static string show(const ConfigNode & c) { stringstream s; s << c.prime << " " << c.prime_exponent << " " << c.genus << " " << c.with_marked_point << " " << c.count_exponent << " " << c.result_path.native() << " " << c.package_size; return s.str(); }
static ConfigNode garbage(int k) { ConfigNode c; c.prime = 91 + k; c.prime_exponent = 92 + k; c.genus = 93 + k; c.with_marked_point = k & 1; c.count_exponent = 94 + k; c.result_path = "garbage"; c.package_size = 95 + k; return c; }
template<class O, class I> static ConfigNode transmit(const ConfigNode & c, int k) { stringstream ss; { O o(ss); o << c; } ConfigNode d = garbage(k); I i(ss); i >> d; return d; }
static void one(Report & R, const vector<string> & v, const ConfigNode * given, bool threw, const string & form) {
  Ref r = refof(v); R.eval(); R.nontrivial(r.complete);
  if (!r.complete) { if (!threw) R.violation(form + ": an entry without a mandatory field is accepted: " + show(*given)); return; }
  if (threw) { R.violation(form + ": a complete entry is rejected"); return; }
  if (!equal(*given, r)) { R.violation(form + ": decoded as " + show(*given)); return; }
  for (int k = 0; k < 2; ++k) {
    ConfigNode a = transmit<boost::archive::text_oarchive, boost::archive::text_iarchive>(*given, k), b = transmit<boost::archive::binary_oarchive, boost::archive::binary_iarchive>(*given, k);
    if (!equal(a, r) || !equal(b, r)) R.violation(form + ": transmitted as " + show(a));
    ConfigNode c = garbage(k); try { YAML::Node n = YAML::convert<ConfigNode>::encode(*given); if (!YAML::convert<ConfigNode>::decode(n, c) || !equal(c, r)) R.violation(form + ": encoding and decoding gives " + show(c));
      stringstream ss; ss << n; ConfigNode d = YAML::Load(ss.str()).as<ConfigNode>(); if (!equal(d, r)) R.violation(form + ": encoding as text and decoding gives " + show(d)); } catch (exception & e) { R.violation(form + ": encoding and decoding fails: " + e.what()); }
  }
}
static bool odd_prime(u_int p) { if (p < 3 || p % 2 == 0) return false; for (u_int d = 3; (unsigned long)d * d <= p; d += 2) if (p % d == 0) return false; return true; }
// tables are indexed by 32 bit integers: at most 2^31 - 1 elements
static bool small_field(u_int p, u_int e, u_int c) { if (p < 2) return true; unsigned long q = 1; for (unsigned long i = 0; i < (unsigned long)e * c; ++i) if ((q *= p) >= 2147483648ul) return false; return true; }
static void sizes(Report & R, bool th) {
  string root = proc::scratch(); vector<u_int> ps; u_int top = th ? 20000 : 3000; for (u_int p = 3; p < top; p += 2) if (odd_prime(p)) ps.push_back(p);
  for (u_int p : {46307u, 46309u, 46327u, 46337u, 46349u, 46351u, 46381u, 65519u, 65521u, 65537u, 65539u, 65543u, 92681u, 92683u, 92693u, 1000003u, 16777213u, 16777259u, 1073741789u, 1073741827u, 2147483549u, 2147483563u, 2147483579u, 2147483587u, 2147483629u, 2147483647u, 2147483659u, 2147483693u, 4294967279u, 4294967291u}) if (odd_prime(p)) ps.push_back(p);
  vector<u_int> ex; for (u_int e = 1; e <= 24; ++e) ex.push_back(e); for (u_int e : {31u, 32u, 33u, 63u, 64u, 65u, 127u, 128u, 255u, 256u, 257u, 65535u, 65536u, 65537u, 131072u, 16777216u, 1431655765u, 2147483647u, 2147483648u, 2147483649u, 4294967295u}) ex.push_back(e);
  for (u_int p : ps) if (R.begin(fmt("sizes of fields of characteristic %u", p))) {
    long in = 0, out = 0;
    for (u_int e : ex) for (u_int c : ex) {
      ConfigNode n = garbage(0); n.prime = p; n.prime_exponent = e; n.count_exponent = c; n.genus = 1 + (e + c) % 4; n.with_marked_point = c & 1; n.package_size = 1 + e; n.result_path = root + "/r"; bool want = small_field(p, e, c), ok = false; (want ? in : out)++; R.eval();
      try { ok = n.verify(); } catch (exception &) {} if (ok != want) R.violation(fmt("an entry with %u^(%u*%u) elements is %s", p, e, c, ok ? "accepted" : "rejected")); if (proc::is_dir(root + "/r") != want) R.violation(fmt("result folder of an entry with %u^(%u*%u) elements", p, e, c)); if (want) rmdir((root + "/r").c_str());
    }
    R.nontrivial(); if (in) R.count("sizes_below_the_bound", in); R.count("sizes_beyond_the_bound", out);
  }
  proc::wipe(root);
}
static void decode(Report & R, bool th) {
  vector<vector<string>> al{{"7", "0", "-"}, {"2", "0", "-"}, {"3", "0", "-"}, {"true", "false", "-"}, {"5", "0", "-", "3"}, {"q7g3", "a/b/c", "v1.2/q3.g1", "-"}, {"2500", "4294967295", "0", "-"}};
  for (auto x : {"9", "2", "1", "2147483659"}) al[0].push_back(x);
  if (th) { al[0].push_back("4294967291"); for (auto x : {"4", "15", "65536", "3", "4294967295", "49", "1105"}) al[0].push_back(x); al[4].push_back("1"); al[5].push_back("x y"); al[6].push_back("2147483647"); al[3].push_back("yes"); }
  vector<size_t> ix(7, 0); long k = 0; string root = proc::scratch();
  for (;;) {
    vector<string> v; for (int i = 0; i < 7; ++i) v.push_back(al[i][ix[i]]);
    if (v[3] == "yes") v[3] = "true";
    if (R.begin("decode " + [&] { string s; for (auto & x : v) s += x + " "; return s; }())) {
      ConfigNode c = garbage(0); bool threw = false; try { c = YAML::Load(text(v, "", "")).as<ConfigNode>(); } catch (exception &) { threw = true; } one(R, v, &c, threw, "single entry");
      // in a list, after and before a different entry
      vector<string> o{"3", "1", "1", "true", "2", "other", "4"}, o2{"5", "3", "2", "-", "-", "more", "6"};
      YAML::Node doc = YAML::Load("Moduli:\n" + text(o, "    ", "  - ") + text(v, "    ", "  - ") + text(o2, "    ", "  - ")); int i = 0;
      for (const auto & n : doc["Moduli"]) { ConfigNode d = garbage(i); bool t = false; try { d = n.as<ConfigNode>(); } catch (exception &) { t = true; } one(R, i == 0 ? o : i == 1 ? v : o2, &d, t, fmt("entry %d of a list", i)); ++i; }
      if (i != 3) R.violation("list length");
      // decoding into a used object, verification
      Ref r = refof(v);
      if (r.complete) {
        ConfigNode d = garbage(1); if (!YAML::convert<ConfigNode>::decode(YAML::Load(text(v, "", "")), d) || !equal(d, r)) R.violation("decoding into a used object gives " + show(d));
        d.prepend_output_path(root + "/hycu-scratch.x"); if (d.result_path != path(root + "/hycu-scratch.x/" + r.path)) R.violation("output path not prepended: " + d.result_path.native());
        bool want = true; for (int f : {0, 1, 2, 4, 6}) if (!r.v[f]) want = false;
        if (!odd_prime(r.v[0])) want = false; if (want && !small_field(r.v[0], r.v[1], r.v[4])) want = false;
        for (int again = 0; again < 2; ++again) { bool ok = false; try { ok = d.verify(); } catch (exception &) {} if (ok != want) R.violation(fmt("verification %d gives %d for ", again, (int)ok) + show(d)); if (want && !proc::is_dir(d.result_path.native())) R.violation("result folder not created"); }
        proc::wipe_inside(root);
      } else { ConfigNode d = garbage(1); if (YAML::convert<ConfigNode>::decode(YAML::Load(text(v, "", "")), d)) R.violation("decode accepts an incomplete entry"); }
      if (++k % 50 == 1) R.sample("settings " + [&] { string s; for (int i = 0; i < 7; ++i) s += string(FIELD[i]) + "=" + (v[i] == "-" ? "(omitted)" : v[i]) + " "; return s; }());
    }
    int i = 0; while (i < 7 && ++ix[i] == al[i].size()) ix[i++] = 0; if (i == 7) break;
  }
  proc::wipe(root);
}
static map<string, expect::Run> RUNS;
static const expect::Run & want(const Ref & r) { string k = fmt("%u %u %u %u %u %u", r.v[0], r.v[1], r.v[2], r.v[3], r.v[4], r.v[6]); auto it = RUNS.find(k); if (it == RUNS.end()) it = RUNS.emplace(k, expect::run(r.v[0], r.v[1], r.v[2], r.v[3], r.v[4], r.v[6])).first; return it->second; }
static void program(Report & R, bool th) {
  string root = proc::scratch(), cfg = root + "/config.yaml", out = root + "/out";
  auto run = [&](const string & yaml, const string & o, int n) { proc::spit(cfg, yaml); R.count("program_runs"); return proc::call_main(hycu_threaded_main, root, {"hycu-threaded", "-n" + to_string(n), cfg, o}, 60); };
  // valid settings
  vector<string> other{"3", "1", "1", "true", "1", "second", "1"};
  for (string m : {"-", "true", "false"}) for (string ce : {"-", "1", "2", "3"}) for (string pk : {"1", "4", "100"}) for (string rp : {"q3", "a/b/c", "v1.2/q3.g1", "x.hycu_record", "a b", "..r", "-n"}) for (int form = 0; form < 4; ++form) for (int pre = 0; pre < 3; ++pre) {
    if (!th && pre && rp != "a/b/c" || !th && rp != "q3" && rp != "a/b/c" && (ce == "2" || pk == "4" || form == 1)) continue;
    vector<string> v{"3", "1", "1", m, ce, rp, pk}; string id = fmt("program marked=%s count=%s package=%s path=%s form=%d existing=%d", m.c_str(), ce.c_str(), pk.c_str(), rp.c_str(), form, pre);
    if (!R.begin(id)) continue;
    proc::wipe_inside(root); if (pre) mkdir(out.c_str(), 0755); if (pre == 2) { mkdir((out + "/a").c_str(), 0755); mkdir((out + "/q3").c_str(), 0755); }
    string y = form == 0 ? text(v, "", "") : form == 1 ? "StoreType: EC\n" + text(v, "", "") : form == 2 ? "Moduli:\n" + text(v, "    ", "  - ") : "StoreType: EC\nModuli:\n" + text(other, "    ", "  - ") + text(v, "    ", "  - ");
    auto r = run(y, out, form == 1 ? 1 : 2); R.eval(); R.nontrivial(); string why;
    if (r.rc || r.timeout) { R.violation(fmt("the program fails with status %d%s: ", r.rc, r.timeout ? " (timeout)" : "") + r.err.substr(0, 300)); continue; }
    if (!expect::folder_complete(out + "/" + rp, want(refof(v)), why)) R.violation("result folder: " + why);
    if (form == 3 && !expect::folder_complete(out + "/second", want(refof(other)), why)) R.violation("result folder of the other entry: " + why);
    R.sample(id);
  }
  // negative and unreadable settings
  for (int f = 0; f < 7; ++f) for (string bad : {"-1", "-7", "4294967296", "x", "2.5", "[3]"}) for (int form = 0; form < 2; ++form) if (f != 5 && R.begin(fmt("value %s=%s form=%d", FIELD[f], bad.c_str(), form))) {
    vector<string> v{"7", "2", "3", "true", "5", "r", "25"}; v[f] = bad; R.eval(); R.nontrivial(); bool threw = false; ConfigNode c = garbage(0), d = garbage(0);
    try { c = form ? YAML::Load("Moduli:\n" + text(v, "    ", "  - "))["Moduli"][0].as<ConfigNode>() : YAML::Load(text(v, "", "")).as<ConfigNode>(); } catch (exception &) { threw = true; } if (!threw) R.violation("an entry with this value is decoded as " + show(c));
    threw = false; try { threw = !YAML::convert<ConfigNode>::decode(YAML::Load(text(v, "", "")), d); } catch (exception &) { threw = true; } if (!threw) R.violation("decode() accepts an entry with this value");
  }
  // incomplete or zero settings, wrong store type, missing files
  vector<string> good{"3", "1", "1", "true", "1", "q3", "2"};
  for (int f = 0; f < 7; ++f) for (string bad : {"-", "0", "-3", "1", "2", "4", "9", "15"}) for (int form = 0; form < 3; ++form) {
    if (bad != "-" && bad != "0" && bad != "-3" && f || bad == "-3" && f == 5) continue;
    if (f == 3 || f == 5 && bad == "0" || f == 4 && bad == "-") continue;
    if (!R.begin(fmt("program rejects %s=%s form=%d", FIELD[f], bad.c_str(), form))) continue;
    proc::wipe_inside(root); vector<string> v = good; v[f] = bad; string y = form == 0 ? text(v, "", "") : form == 1 ? "Moduli:\n" + text(v, "    ", "  - ") : "Moduli:\n" + text(other, "    ", "  - ") + text(v, "    ", "  - ");
    auto r = run(y, out, 1); R.eval(); R.nontrivial();
    if (r.rc == 0 || r.timeout) R.violation(fmt("accepted, status %d%s", r.rc, r.timeout ? " (timeout)" : ""));
    expect::Folder F; string why; if (proc::exists(out + "/q3") && (!expect::read_folder(out + "/q3", F, why) || !F.rec.empty())) R.violation("results for a rejected entry");
  }
  // fields beyond 32 bits; what is wrongly accepted is kept from taking memory or time without end
  for (auto t : vector<array<string, 4>>{{"65537", "1", "2", "-"}, {"65537", "1", "1", "2"}, {"65537", "2", "1", "-"}, {"46349", "1", "2", "-"}, {"2147483659", "1", "1", "-"}, {"4294967291", "1", "1", "-"}, {"3", "1", "1", "20"}, {"3", "20", "1", "-"}, {"3", "4", "5", "-"}, {"3", "1", "32", "-"}, {"3", "65536", "1", "65536"}, {"5", "2147483648", "1", "2"}}) for (int form = 0; form < 3; ++form) {
    if (R.viol.size() > 5 || !R.begin(fmt("program rejects field %s^%s, genus %s, counted extensions %s, form %d", t[0].c_str(), t[1].c_str(), t[2].c_str(), t[3].c_str(), form))) continue;
    proc::wipe_inside(root); vector<string> v {t[0], t[1], t[2], "true", t[3], "q3", "2"}; string y = form == 0 ? text(v, "", "") : form == 1 ? "Moduli:\n" + text(v, "    ", "  - ") : "Moduli:\n" + text(other, "    ", "  - ") + text(v, "    ", "  - ");
    proc::spit(cfg, y); R.count("program_runs"); static int (*bounded)(int, char **) = [](int n, char ** a) { struct rlimit l {2ul << 30, 2ul << 30}, f {1ul << 24, 1ul << 24}; setrlimit(RLIMIT_AS, &l); setrlimit(RLIMIT_FSIZE, &f); return hycu_threaded_main(n, a); };
    auto r = proc::call_main(bounded, root, {"hycu-threaded", "-n1", cfg, out}, 20); R.eval(); R.nontrivial();
    bool abort_ok = r.rc == 134 && r.err.find("bad_alloc") == string::npos; if (r.rc == 0 || r.timeout || r.rc >= 128 && !abort_ok || r.err.empty()) R.violation(fmt("not refused, status %d%s", r.rc, r.timeout ? " (timeout)" : ""));
    if (proc::exists(out + "/q3")) R.violation("a result folder for a rejected entry");
  }
  for (int k = 0; k < 6; ++k) {
    if (!R.begin(fmt("program arguments %d", k))) continue;
    proc::wipe_inside(root); proc::spit(cfg, (k == 0 ? "StoreType: XY\n" : "") + text(good, "", "")); R.eval(); R.nontrivial();
    vector<string> a{"hycu-threaded"}; if (k == 0) a.insert(a.end(), {"-n1", cfg, out}); if (k == 1) a.insert(a.end(), {"-n1", cfg}); if (k == 2) a.insert(a.end(), {"-n1"}); if (k == 3) a.insert(a.end(), {"-n1", root + "/none.yaml", out}); if (k == 4) a.insert(a.end(), {"-n1", root, out});
    if (k == 5) { proc::spit(out, "a file"); a.insert(a.end(), {"-n1", cfg, out}); }
    auto r = proc::call_main(hycu_threaded_main, root, a, 60); if (r.rc == 0 || r.timeout) R.violation(fmt("accepted (%d)", r.rc)); if (k == 5 && proc::slurp(out) != "a file") R.violation("output file damaged");
  }
  proc::wipe(root);
}
int main(int argc, char ** argv) { Report R(argc, argv); decode(R, R.thorough()); sizes(R, R.thorough()); program(R, R.thorough()); return R.finish(); }
