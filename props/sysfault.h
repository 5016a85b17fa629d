// Stand-ins for the system calls the library makes.  They pass through unless a
// script is installed; they never do anything a script did not ask for.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>

namespace sysfault {

// Outcome of one scripted call.
struct Step {
  enum Kind { Pass, Fail, Short, WrongType } kind;
  int err;        // errno for Fail
  size_t n;       // byte count for Short
};

struct Event { char call; long req; long ret; int err; };

struct Script {
  std::vector<Step> getrandom, open, read, poll, fstat, sysctl;
  bool repeat_last;       // the last step repeats for ever
};

void install(const Script &s, uint64_t stream_seed);
void remove();
bool active();
const std::vector<Event> &events();
// Bytes handed to the library by successful scripted calls, in order.
const std::vector<uint8_t> &delivered();
void set_pid(int pid);    // 0: real pid

}
