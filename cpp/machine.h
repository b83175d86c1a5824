// Replaying behaviours of a specification on real code, for everything that is
// not part of spec/Edm.tla.
//
//   DRIVER BEHAVIOURS STATUS MACHINE
//
// BEHAVIOURS has one behaviour per line, a JSON array of steps {act, state},
// where states shared by several steps are given once as {"id": number,
// "state": {...}} and referred to by {act, "s": number}. Every act is performed
// by a machine around the real code. Its result is compared with act.res, and
// what can be observed afterwards with the state. Exit status 3 and a line that
// starts with MISMATCH if something differs.
#pragma once
#include <atomic>
#include <cstdlib>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <new>
#include <nlohmann/json.hpp>
#include <set>
#include <sstream>
#include <string>
#include <typeinfo>
#include <unistd.h>
#include <unordered_map>
#include <vector>

using json = nlohmann::json;

struct Mismatch : std::runtime_error {
  using std::runtime_error::runtime_error;
};

struct Machine {
  virtual ~Machine() = default;
  /// Do what the step says and give its result
  virtual json perform(const json& act) = 0;
  /// What can be observed, in the form of the specification's states
  virtual json observe(const json& expected) = 0;
};

using MachineMaker = std::function<std::unique_ptr<Machine>()>;
struct MachineKind {
  MachineMaker make;
  bool keeps; ///< what it does stays until the end of the program, such as registrations
};
std::map<std::string, MachineKind>& machines();
struct Register {
  Register(const std::string& name, MachineMaker m, bool keeps = false) {
    machines()[name] = {std::move(m), keeps};
  }
};

/// Name of the exception that is being handled
std::string exceptionName();

/// Everything a function prints to std::cout and std::cerr
struct Captured {
  std::ostringstream out, err;
  std::streambuf *o, *e;
  Captured() : o(std::cout.rdbuf(out.rdbuf())), e(std::cerr.rdbuf(err.rdbuf())) {
  }
  ~Captured() {
    std::cout.rdbuf(o);
    std::cerr.rdbuf(e);
  }
};

[[noreturn]] inline void mismatch(const std::string& what) {
  throw Mismatch(what);
}
#define CHECK(cond, msg)                                                                                               \
  do {                                                                                                                 \
    ++g_nchecks;                                                                                                       \
    if (!(cond)) {                                                                                                     \
      std::ostringstream o_;                                                                                           \
      o_ << msg;                                                                                                       \
      mismatch(o_.str());                                                                                              \
    }                                                                                                                  \
  } while (0)
extern long g_nchecks, g_step, g_beh, g_nsteps;

/// A stand-in for the randomness of how things are done, different in every step
inline unsigned variant(unsigned n) {
  return static_cast<unsigned>((g_beh * 7919 + g_step * 104729) % n);
}
