// A controlled scheduler for real threads: only one thread runs at a time, and at every synchronisation operation
// (mutexes, condition variables, thread creation & end, join, waiting in epoll) the explorer decides which thread goes on.
// Not taking the running thread although it could continue costs a deviation (mc::dev), i.e. the number of preemptions
// can be bounded, all other decisions are always explored.
//
// The token that makes the threads alternate is passed by plain futex system calls, which ThreadSanitizer doesn't see.
// Therefore a build with it finds every pair of conflicting accesses the code itself doesn't order.
#pragma once
namespace sched
{
void begin();      // from now on threads are controlled
void end();        // waits for all threads, then stops controlling
void point(const char * what);     // an additional scheduling point
int threads();     // threads alive
}
