// Two or more threads of which exactly one runs; a switch can happen at every basic block and at every
// access to static storage of the code under test. The code under test is compiled with
// -fsanitize=thread -fsanitize-coverage=trace-pc, its instrumentation calls are answered here
// (no ThreadSanitizer runtime); all its static writable storage is in the section nl_data, which
// is set back before every execution.
#pragma once
#include <pthread.h>
#include <semaphore.h>
#include <vector>
#include <functional>
#include "mc.hpp"
namespace threads {
enum Kind { BLOCK, FUNC, STATIC, NKINDS };
// a schedule: thread, and after how many points of a kind it is left (-1: when it is done)
struct Leg { int thread; Kind kind; long points; };
struct Counts { long n[NKINDS] = {0, 0, 0}; long statics = 0, writes = 0; };
// runs the bodies under the schedule; afterwards every thread runs to its end, in the order of their numbers
void run(const std::vector<std::function<void()>> &bodies, const std::vector<Leg> &schedule, std::vector<Counts> *counts = nullptr);
void resetStatic();                              // the static storage as it was when the process started
extern bool poisoned;                            // an access to freed or foreign memory was seen
}  // namespace threads
