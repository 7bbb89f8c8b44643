// File operations below a folder under control of the explorer: every mutating system call (and, if asked for, every
// open and read) is a choice point at which the process may be killed, cut short or made to fail.
#pragma once
#include "mc.hh"
namespace fsx {
struct Faults {
  bool kill = false;      // the process may be killed before the operation
  int torn = 0;           // killed inside a write: number of positions tried (0: none, negative: every byte)
  bool errors = false;    // the operation may fail
  bool shorts = false;    // a write may be cut short and all later writes fail (full disk)
  bool reads = false;     // opening for reading and reading may fail as well
  bool lost = false;      // closing may fail with the data lost
};
// from now on in this process (inside mc::program); faults are taken from a budget shared by all programs of an execution
void control(const std::string & root, const Faults & f);
void set_budget(int faults);     // at the start of an execution
int spent();
struct Op { std::string what; };
}
