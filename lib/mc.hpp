// mc -- stateless, exhaustive exploration of real C++ code.
//
// A scenario is a function that drives the code under test and asks the explorer for every nondeterministic
// decision (environment answers, order of events, when to cancel, ...) through choose()/dev().  The explorer runs the
// scenario once for every sequence of answers (depth first, complete up to the bounds the scenario itself sets).
#pragma once
#include <cstdarg>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace mc
{
struct options
{
  int dev_bound = -1;           // max. number of non-default answers given by dev(); -1 = unbounded
  bool leak_check = true;       // operator new/delete must balance over one execution
  bool expect_nondet = false;   // reserved
  int max_seconds = 60;         // an execution that takes longer is a hang
};

// register a scenario. Only scenarios registered for the selected property & tier are run.
void add(std::string name, std::function<void()> fn, options o = {});

// what is being checked
const std::string & property();
bool thorough();

int  choose(int n, const char * what = "");   // 0..n-1, every answer is explored
int  dev(int n, const char * what = "");      // as choose, but an answer != 0 costs one deviation
void set_dev_budget(int n);

bool failed();
void fail(const char * fmt, ...) __attribute__((format(printf, 1, 2)));
void note(const char * fmt, ...) __attribute__((format(printf, 1, 2)));
bool logging();
void step(int n = 1);                         // one transition of the system executed
void state(std::uint64_t h);                  // an observable state was reached
void outcome(const std::string & s);          // classification of this execution
inline std::uint64_t mix(std::uint64_t h, std::uint64_t v)
{
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  return h ^ (h >> 33);
}

long live_allocs();                           // counted allocations currently alive
long live_bytes();
void alloc_fail_after(long n);                // make the nth counted operator new from now throw (-1 = off)
struct quiet                                  // allocations in this scope are not counted (harness bookkeeping)
{
  quiet(); ~quiet();
};

// per execution setup hook (called before every execution)
extern std::function<void()> reset_hook;

int main_(int argc, char ** argv, std::function<void()> register_scenarios);
}

#define MC_CHECK(Cond, ...) do { if (!(Cond) && !mc::failed()) mc::fail(__VA_ARGS__); } while (false)
#define MC_MAIN() \
  static void mc_register_scenarios(); \
  int main(int argc, char ** argv) {return mc::main_(argc, argv, &mc_register_scenarios);} \
  static void mc_register_scenarios()
