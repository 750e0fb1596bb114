// Runtime behind the instrumentation of the code under test (compiled with -fsanitize=thread, linked against this
// runtime instead of the sanitizer's): every memory access of the code under test is one simulated step.
#pragma once
#include <cstddef>
#include <cstdint>

namespace rt {

extern uint64_t steps;       // simulated time: memory accesses of the code under test
extern uint64_t next_event;  // steps value at which slow() is called
extern bool track;           // report accesses to on_access
extern int in_lpx;           // >0 while code under test runs (fault injection may fire)
extern void (*slow)();       // step budget / preemption
extern void (*on_access)(void const *addr, size_t size, bool write, bool atomic, void const *pc);
extern void (*on_mem)(void *p, size_t n, bool alloc);
extern void (*on_sync)(void const *addr, bool acquire, bool release);

void leaked(size_t &n, size_t &bytes); // blocks allocated by the code under test, neither released nor reachable

// allocation faults
extern bool alloc_armed;
extern uint64_t alloc_count;   // allocations of the code under test so far
extern uint64_t alloc_fail_at; // fail this one
extern bool alloc_sticky;
extern void (*on_alloc_fault)();

} // namespace rt
