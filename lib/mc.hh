// Stateless model checker for the real program: one forked process per execution, threads under a controlled
// scheduler, choices enumerated by increasing number of deviations from the default schedule.
#pragma once
#include "report.hh"
#include <functional>
#include <string>
#include <vector>

namespace mc {
typedef unsigned int u32; typedef unsigned long long u64; typedef unsigned char u8;
struct Options {
  int bound = 1;               // deviations: preemptions, early polls, spurious wake-ups, clock jumps, injected faults
  bool free_blocking = false;  // choosing another enabled thread when the running one blocks costs nothing
  int spurious = 0;            // spurious wake-ups allowed in one execution
  int jumps = 0;               // clock jumps of more than the save delay allowed in one execution
  bool races = false;          // report data races (otherwise racy accesses become scheduling points)
  bool prune = true;           // do not continue from a state that was reached before at no higher cost
  int steps = 60000;           // longer executions count as not terminating
  int idle = 60;               // consecutive polls without any thread able to run: not terminating
  double seconds = 0;          // 0: no limit
  int timeout = 20;            // real seconds of one execution
  bool atomics_points = true;
  bool watch = false;          // follow the positions that workers handle (see Watch)
  u64 position_ns = 0;         // simulated time that one position takes
  bool holds_only = false;     // the only deviations: workers that stop between two positions while the others go on
  u32 slow = 0;                // bit k: worker k stops for several polls of the coordinator between two positions of every package
  int slow_polls = 8;          // of how many
  int concurrency = 0, concurrency_later = 0;         // so many workers have to be at work at once in some execution, from the start and after as many packages
};
enum Moment { M_SLEEP, M_AWAKE, M_CLOCK, M_SIGNAL };
struct Watch { long positions = 0, after = 0; };   // positions handled so far; concurrency counts again from the position "after"
extern Watch watch;
extern std::function<void(Moment)> on_master;     // called at operations of thread 0
int threads(); bool worker(int t); bool waiting(int t), working(int t); u64 clock_now(); u64 entered(int t);   // entered: identifies the current wait of a thread
int group(int t); long handled(int t);   // the tag it was started under; positions it handled
struct Totals { long executions = 0, completed = 0, pruned = 0, states = 0, transitions = 0, steps = 0, max_points = 0, replayed = 0, racy = 0, outcomes = 0; int bound_completed = -1; bool exhaustive = true; };

// A scenario runs inside a forked process; dir is an empty scratch directory of its own.  It returns a description
// of what is wrong, or "".  Its observable outcome (to count distinct outcomes and check determinism) goes to observe().
struct Scenario { std::string name; std::function<std::string(const std::string & dir)> run; };

// Explores all executions; violations are replayed once and reported.  Handles --case.
// Returns false if the report asked for another case.
bool explore(Report & R, const Scenario & s, const Options & o);

// ---- inside an execution
void begin(); void end();                 // scheduling is controlled between the two; the caller becomes thread 0
int program(const std::function<int()> & f);   // runs f in a process of its own under control; exit status, or 128+signal
int direct(const std::function<int()> & f);    // runs f in this process (no second program may follow)
void observe(const std::string & s);      // part of the outcome
void fail(const std::string & msg);       // report a violation and end the execution (does not return)
void complete(const std::function<std::string()> & verdict);   // all threads stop here; judge and end the execution (does not return)
int tag(); void set_tag(int t);           // of the calling thread; inherited by the threads it creates
int choose(int n, u32 costmask, const char * what);  // environment choice; bit i of costmask: alternative i is a deviation
void mix_state(u64 h);                    // the environment choice or state that h stands for belongs to the state
void block(bool (*ready)(void *), void * arg, void * object, const char * what);   // scheduling point; blocks until ready
void event(void * object);                // acquire and release on an object
u64 rnd();                                // deterministic stream for random_device
extern u64 (*rnd_hook)(u64);              // replaces the draws of the controlled program
int self();
bool active();
const Options & options();
u64 hash_str(const std::string & s, u64 h = 1469598103934665603ull);
u64 tree_digest(const std::string & dir);   // names and contents of all files below
// modelled code: pthread calls from these text ranges are controlled (shared objects with this name)
void model_object(const std::string & soname_part);
// called before every mutating system call if set (see fs.cc)
} // namespace mc
