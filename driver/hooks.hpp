#pragma once
#include <cstddef>
#include <string>
// What surrounds a library call in the different builds of the driver.
// begin/end: the library is running; fail_alloc(k): the k-th allocation of the next call fails;
// thread_mode: how the constructor's second thread is scheduled in the next call
// (0 as usual, 1 at once inside the create call, 2 only when it is joined, 3 it cannot be created).
void hook_begin();
void hook_end();
void hook_child_init();
void hook_case(); // a new case starts
void hook_fail_alloc(long k);
void hook_thread_mode(long mode);
// from the k-th reading of the clock in the next call on, ms milliseconds have passed at once
void hook_clock_jump(long k, long ms);
// the library says that these bytes are a result
void hook_defined(const void *p, size_t n);
std::string hook_json(); // extra fields of the event, "" or starting with a comma
