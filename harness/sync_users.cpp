#include "sync_users.h"
#include <lib842/detail/barrier.h>
#include <lib842/detail/latch.h>
#include <new>
using lib842::detail::barrier;
using lib842::detail::latch;
alignas(64) static char bspace[sizeof(barrier)], lspace[sizeof(latch)];
void *BarrierUser::make(int n) { return new (bspace) barrier(n); }
size_t BarrierUser::size() { return sizeof(barrier); }
void BarrierUser::arrive(void *b) { ((barrier *)b)->arrive_and_wait(); }
void BarrierUser::interrupt(void *b) { ((barrier *)b)->interrupt(); }
void *LatchUser::make(int n) { return new (lspace) latch(n); }
size_t LatchUser::size() { return sizeof(latch); }
void LatchUser::down(void *l) { ((latch *)l)->count_down(); }
void LatchUser::wait(void *l) { ((latch *)l)->wait(); }
