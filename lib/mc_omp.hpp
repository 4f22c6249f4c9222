// A stand-in for libgomp under the explorer's control.
//
// OpenMP teams are real threads, but only one of them runs at a time (a baton is handed over at
// scheduling points), so a run is a deterministic function of the recorded choices. Scheduling points:
// thread start, thread end, barriers, critical sections, dynamic work-share requests, atomics and - when
// the code under test is compiled with -fsanitize=thread, whose callbacks this library implements -
// every access to memory that two team members use in conflicting ways.
#ifndef VERIF_MC_OMP_HPP
#define VERIF_MC_OMP_HPP

#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace mcomp
{
    // number of team members every parallel region gets (default 1)
    void set_threads(int n);

    struct Stats {
        uint64_t schedules   = 0; // complete executions
        uint64_t points      = 0; // scheduling decisions with more than one enabled thread
        uint64_t regions     = 0; // parallel regions in one execution
        uint64_t accesses    = 0; // instrumented accesses recorded in the profiling execution
        uint64_t conflicts   = 0; // code locations at which two threads of a team conflict
        uint64_t worksharing = 0; // dynamic work-share requests in one execution
        uint64_t locks       = 0; // lock acquisitions in one execution
        uint64_t races       = 0; // pairs of code locations that access memory without order
        bool capped          = false;
        std::string race_text;
        std::string last_schedule;
    };

    // how many accesses per thread and parallel region are recorded (default: all)
    void set_access_budget(uint64_t n);

    // Runs body() under every schedule of `threads` threads with at most `preemptions` preemptive
    // switches (work-share requests are explored without that bound); check() is called after each
    // execution and returns false to stop.
    // Accesses are checked for races in every execution: two accesses of different threads to the same
    // bytes, one of them writing and not both atomic, that are not ordered by barriers, locks, atomics
    // or guards of local statics (vector clocks).
    // preemptions < 0: a single execution.
    Stats explore(int threads, int preemptions, uint64_t max_schedules,
                  const std::function<void()>& body, const std::function<bool()>& check);
} // namespace mcomp

#endif
