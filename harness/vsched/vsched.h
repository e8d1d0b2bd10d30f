// Deterministic scheduler for multi-threaded code under test.
//
// The harness executable defines the pthread locking, thread and sleep
// functions (they interpose those of libc), so that exactly one thread runs at
// a time and every lock, unlock, condition, thread creation/join, sleep and
// (for files compiled with -fsanitize=thread instrumentation, whose callbacks
// are defined here as well) every atomic access is a scheduling point. A
// schedule is a pure function of its seed, so that every execution can be
// replayed.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <string>

namespace vs {

/// Appends one event (a JSON object) to the trace of this execution.
/// Events are totally ordered: only one thread runs at a time, and emitting an
/// event is not a scheduling point.
void ev(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

/// Explicit scheduling point.
void yield();

/// Virtual time in milliseconds (advances only while threads sleep).
int64_t now_ms();

/// Number of the logical thread which is running (0 = scenario main thread).
int tid();

/// True if executing under the scheduler.
bool active();

/// Pseudo random number in [0,n) derived from the seed (not from schedule).
uint32_t rnd(uint32_t n);

/// Marks the execution as failed (reported by the parent as status).
void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

/// Scheduling can be suspended while a thread must not be preempted
/// (used to make a group of harness operations atomic).
struct atomic_section {
    atomic_section();
    ~atomic_section();
};

/// Registers a scenario; argument is the seed of the execution.
struct scenario {
    scenario(const char* name, std::function<void(uint64_t)> fn);
};

/// Runs scenarios as requested by the command line.
int main(int argc, char** argv);

}  // namespace vs
