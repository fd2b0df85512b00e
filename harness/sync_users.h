// The barrier and the latch, compiled with instrumentation (the rest of the harness is not).
#pragma once
#include <cstddef>
struct BarrierUser { static void *make(int n); static size_t size(); static void arrive(void *); static void interrupt(void *); };
struct LatchUser { static void *make(int n); static size_t size(); static void down(void *); static void wait(void *); };
