// A controlled scheduler: of all threads of the process, exactly one runs at any time, and which one is decided
// at every synchronisation operation and at every access to watched memory.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>

namespace sched {
enum Policy { RANDOM_WALK = 0, PCT = 1, RARE = 2, ROUND = 3 };
// Only the calling thread is known to begin with
extern int fail_create;            // the creation of the so manieth thread from now on fails (0: none)
void begin(uint64_t seed, int policy, int estimate, void (*stuck)(const char *why));
void end();
bool active();
int self();                       // 0 for the thread which called begin(), then in order of creation
void watch(const void *p, size_t n);
void point(int weight);           // a point at which another thread can be chosen
void wait_for(const std::function<bool()> &pred);
void settle();                    // until no other thread can do anything
void until_or_settled(const std::function<bool()> &pred);
// Plans: event points at which a thread is held back until the plan reaches that event
void plan(const std::string *items, size_t n);
void event_point(const std::string &what);
size_t plan_done();
size_t steps();
uint64_t rnd();
extern void (*on_exit_thread)(int th);
}
