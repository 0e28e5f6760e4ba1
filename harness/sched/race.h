// Happens-before, for code that runs under the scheduler.  The code under test
// is compiled with -fsanitize=thread, which calls a function for each access to
// memory; race.cc defines these functions, and reports two accesses to the same
// byte that are not ordered by the synchronisation operations of sched.h, and
// any access to memory that was freed.
#pragma once
#include <cstddef>

#pragma clang attribute push(__attribute__((no_sanitize("thread"))), apply_to = function)
namespace sched {
extern int unwatched;  // accesses are not looked at while it is positive
struct Unwatched {
  Unwatched() { ++unwatched; }
  ~Unwatched() { --unwatched; }
};
void HbStart();                   // a new execution
void HbEnd();
void HbAcquire(const void* key);  // what was released to key happened before
void HbRelease(const void* key);
void HbReset(const void* key);
}  // namespace sched
#pragma clang attribute pop
