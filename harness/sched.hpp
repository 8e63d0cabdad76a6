// Controlled scheduler: the code under test runs with its real std::thread / std::mutex / std::condition_variable / futures
// (pthread entry points are interposed) on fibers of one process; every interleaving of the synchronization operations within
// the bounds is executed. Code compiled with -fsanitize=thread reports its memory accesses to this runtime (sched.cpp takes
// the place of libtsan): data races, uses of freed memory and calls on dead objects are violations.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>

namespace vt {

struct Bounds {
    int preempt = 2;     // switches away from a thread that could continue
    int early = 1;       // timeouts that fire although some thread could run
    int spurious = 1;    // condition variable wakeups without notification
    long executions = 4000000;
    long steps = 4000;   // of one execution
    double seconds = 0;  // 0: no limit
};

// Runs body under every schedule within the bounds, in a child process; prints STAT, and VIOL for a failure.
// body runs as thread 0; the execution is over when every thread that is not a daemon has ended.
// 0: every schedule was executed, 1: a limit was reached first, 2: a failure.
int explore(const std::string& name, const std::function<void()>& body, Bounds b = {}, bool quiet = false);
// the same for 0, 1, ... b.preempt preemptions, as far as the time allows
int deepen(const std::string& name, const std::function<void()>& body, Bounds b);

bool active();
int tid();
int waiting();                                             // threads blocked in a condition variable
int64_t now();                                             // virtual nanoseconds
void point(const char* what, const void* obj = nullptr);   // a scheduling point
bool block(const char* what, const std::function<bool()>& ready, int64_t deadline = -1);  // false: timed out
int choose(int n, const char* what);                       // a choice of the environment
void yield();
void note(const std::string& s);                           // shown in the trace of a violation
[[noreturn]] void fail(const std::string& key, const std::string& desc);
void daemon(const std::function<void()>& fn, const char* name);  // a thread of the environment
void acquire(const void* sync);                            // happens-before edges through library internals
void release(const void* sync);
void dead(const void* p, std::size_t n);                   // the object's lifetime has ended
void check_live(const void* p, const char* what);
struct Quiet { Quiet(); ~Quiet(); };                       // allocations and accesses inside are the environment's

}  // namespace vt
