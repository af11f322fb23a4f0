// Simulated threads, locks, conditions and clock for the message queue.
// The library's pthread and time functions are redirected to sim_*. Outside of a simulation they
// behave like uncontended ones and fail the case where a single thread would block forever.
#pragma once
#include "engine.h"
#include <functional>

namespace sim {

void reset();                       // start of a case
// --- one simulation ---
void begin(Src &s, bool allow_jitter, bool allow_spurious);
int spawn(std::function<void()> f);
enum Result { DONE, QUIET };        // QUIET: fibers remain, all blocked without a time limit
Result run();
void end();                         // all fibers must be done
void on_switch(void (*f)(int fiber));     // called before a fiber gets and after it gives up control
// --- inside fibers ---
int self();
void point();                       // a scheduling point
uint64_t tick();                    // next event number
int64_t now_us();                   // virtual time
void sleep_us(int64_t us);
size_t watch(int64_t deadline_us);  // notes the event number at which the clock reaches the deadline
uint64_t crossed(size_t w);         // 0: not yet
int64_t delay_us();                 // time the current fiber could have run but was not scheduled
int locks_held();                   // by the current fiber
// --- about fibers, from outside ---
bool blocked_on_cond(int f);
bool blocked_on_mutex(int f);
bool finished(int f);
size_t fibers();
// --- statistics ---
uint64_t switches(), preemptions(), spurious(), waits(), timeouts();
void no_limit();                    // operations that do not block may take any number of steps
uint64_t work();                    // steps of the library so far (sim variant only)
// --- data race detection ---
void races(bool on);
void fresh(void *p, size_t n);      // new memory of the harness that the library gets to see
}
