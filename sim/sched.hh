// Controlled execution: step budgets, the scheduler that decides which thread runs, and the race detector.
// The threading functions of the process are interposed; exactly one thread runs at any time, and which one is
// decided by draws from the SCHED stream at synchronisation operations, callback boundaries and at memory accesses
// of the code under test.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>

namespace sched {

extern bool active;
extern thread_local void *user; // of the creating thread
extern uint64_t switches, preemptions, lock_waits, sched_hash, raced;
extern void (*over_budget)();
extern void (*on_deadlock)(std::string const &what);
extern void (*on_race)(std::string const &what);
extern void (*on_switch)(int from, int to);
extern uint32_t (*draw)(uint32_t n); // SCHED stream

// intensity: 0 no preemption, larger is more frequent; access: preempt at memory accesses of the code under test, too
void init(int intensity, bool access, bool races);
void budget(uint64_t steps); // of the running callback of the calling thread
uint64_t used();             // steps spent by the calling thread since budget()
void point();                // scheduling point
void hold();                 // no preemption of simulator code
void release();
int self();
struct Hold {
    Hold() { hold(); }
    ~Hold() { release(); }
};

} // namespace sched
