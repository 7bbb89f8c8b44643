// Monitors of C26 (nobody idles while packages are left) and C28 (finished work is saved every five minutes).
#pragma once
#include "mc.hh"
#include "proc.hh"
#include "results.hh"
namespace watch {
using std::string; using std::vector;
struct Monitor {
  long total = 0; vector<long> ends; int package = 0, workers = 0; bool idling = false, saving = false; string folder; unsigned long long position_ns = 0;
  string noted; void note(const string & s) { if (noted.empty()) { noted = s; mc::mix_state(4711); } }
  // the positions up to the end of the modulus that is being handled
  long goal() { for (long e : ends) if (mc::watch.positions < e || mc::watch.positions == e && e < total) return e; return total; }
  // C26
  vector<unsigned long long> before; vector<int> times; int grace = 0;   // grace: further polls that a worker may be idle
  void idle() {
    vector<unsigned long long> w; int busy = 0; unsigned long long h = 1;
    for (int t = 0; t < mc::threads(); ++t) if (mc::worker(t)) { bool i = mc::waiting(t) && !mc::working(t); w.push_back(i ? mc::entered(t) + 1 : 0); if (!i) ++busy; h = h * 131 + i; }
    bool left = goal() - mc::watch.positions > (long)busy * package;
    times.resize(w.size()); before.resize(w.size());
    for (size_t i = 0; i < w.size(); ++i) { times[i] = left && w[i] && w[i] == before[i] ? times[i] + 1 : left && w[i] ? 0 : -1; if (times[i] > grace) note(fmt("a worker is idle from one poll of the coordinator to the next although packages are left (%ld of %ld positions handled, %d of %zu workers busy)", mc::watch.positions, total, busy, w.size())); h = h * 131 + times[i]; }
    before = w; mc::mix_state(h * 2 + left);
  }
  // a process with an idle worker is passed over: it handles nothing while the others handle packages for everybody three times
  struct Since { unsigned long long e = 0; long at = 0, mine = 0; }; vector<Since> since;
  void passed() {
    int busy = 0, n = 0; for (int t = 0; t < mc::threads(); ++t) if (mc::worker(t)) { ++n; busy += !mc::waiting(t) || mc::working(t); }
    bool left = goal() - mc::watch.positions > (long)busy * package; since.resize(mc::threads());
    for (int t = 0; t < mc::threads(); ++t) if (mc::worker(t)) {
      unsigned long long e = mc::waiting(t) && !mc::working(t) ? mc::entered(t) + 1 : 0; long mine = 0; for (int o = 0; o < mc::threads(); ++o) if (mc::worker(o) && mc::group(o) == mc::group(t)) mine += mc::handled(o);
      Since & s = since[t]; if (!e || e != s.e || mine != s.mine) s = {e, mc::watch.positions, mine};
      else if (left && mc::watch.positions - s.at > 3l * n * package) note(fmt("the workers of process %d get no package while the others handle %ld positions, one of them is idle and packages are left (%ld of %ld positions handled, %d of %d workers busy)", mc::group(t), mc::watch.positions - s.at, mc::watch.positions, total, busy, n));
    }
  }
  // C28
  static const unsigned long long MIN = 60ull * 1000000000ull;
  struct At { unsigned long long t; long done; }; vector<At> past; long lines = 0, files = 0; long done_awake = 0; unsigned long long last_t = 0, last_save_t = 0; int saves = 0; string early; unsigned long long early_t = 0;
  long finished() { long u = 0; for (int t = 0; t < mc::threads(); ++t) if (mc::worker(t) && mc::working(t)) ++u; return std::max(0l, mc::watch.positions - u * package); }   // at least so many positions belong to finished packages
  void saved(mc::Moment m) {
    unsigned long long now = mc::clock_now(); long l = 0, f = 0;
    for (auto & n : proc::ls(folder)) if (n.size() > 12 && n.substr(n.size() - 12) == ".hycu_record") { ++f; for (char c : proc::slurp(folder + "/" + n)) l += c == '\n'; }
    if (f > files) {   // a save happened since the last moment
      if (!early.empty()) note(early); early = "";   // the one before was not the last
      if (saves && now - last_save_t < 5 * MIN) early = fmt("results are saved %.1f minutes after the last save", (double)(now - last_save_t) / MIN);
      if (l * package < done_awake) note(fmt("a save leaves out finished packages: %ld recorded although %ld positions were handled", l, done_awake));
      ++saves; last_save_t = last_t; files = f; lines = l;
    }
    unsigned long long slack = position_ns * package * workers * 2 + MIN;
    for (auto & p : past) if (p.t + 5 * MIN + slack < now && l * package < p.done) { note(fmt("packages with %ld positions that were finished %.1f minutes ago are not saved (%ld packages recorded)", p.done, (double)(now - p.t) / MIN, l)); break; }
    past.push_back({now, finished()}); last_t = now; if (m == mc::M_AWAKE) done_awake = finished();
  }
  void start() { mc::on_master = [this](mc::Moment m) { if (idling && m == mc::M_SLEEP) idle(); if (idling) passed(); if (saving) saved(m); }; }
  // at the end of an execution: what was noted only counts if the positions were followed correctly
  string verdict() { if (mc::watch.positions != total) { mc::observe(fmt("positions %ld of %ld", mc::watch.positions, total)); return ""; } if (saving) mc::observe(fmt("%d saves", saves)); return noted; }
};
} // namespace watch
