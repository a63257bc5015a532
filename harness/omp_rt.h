// A deterministic OpenMP runtime (replaces libgomp in harnesses of the "omp"
// and "ompmc" variants). A team runs as coroutines on one OS thread; the
// schedule is an explicit sequence of choices, so it can be enumerated.
//
// Choice points: start of a region, end of a thread, barrier, dynamic-loop
// dispatch, absl::Mutex operations and (ompmc) every atomic operation. In "ompmc" builds, where the
// compiler routes every memory access through __tsan_* hooks, two accesses of
// different threads to the same byte, at least one a write, not ordered by
// happens-before (fork, join, barriers, atomics, mutexes, static-initialisation
// guards)
// are reported as a race: one execution then stands for all interleavings of
// the same accesses.
#ifndef MC_OMP_RT_H_
#define MC_OMP_RT_H_
#include <functional>
#include <stdint.h>
#include <string>
#include <vector>
namespace omc {
extern int g_threads;                // team size
void set_threads(int n);             // omp_get_max_threads()
void set_reverse(bool r);            // default order: 0,1,2.. or ..2,1,0
struct Stats { uint64_t regions = 0, switches = 0, accesses = 0, choices = 0; };
extern Stats stats;
// Races seen since the last call (deduplicated by code location).
std::vector<std::string> take_races();
// Runs fn under every schedule with at most |delays| deviations from the
// default one; fn gets the schedule's name. Returns the number of schedules.
// Stops after |limit| schedules (returns the number run; *complete tells).
uint64_t explore(int delays, const std::function<void(const std::string&)>& fn,
                 uint64_t limit = ~0ull, bool* complete = nullptr);
// Runs fn in a child process, so that it starts from the state of this moment
// (function-local caches included); schedules, races and counts come back.
// Returns false when the child died.
bool in_child(const std::function<std::string()>& fn, std::string* result);
// Runs fn(0) .. fn(n - 1) as n concurrent threads (a team of its own).
void parallel(int n, const std::function<void(int)>& fn);
// A point where another thread may run; harness stand-ins call it.
void here();
// Quarantines memory freed inside a region and reports accesses to it.
void set_quarantine(bool on);
}  // namespace omc
#endif
