// The driver under valgrind: what memcheck complained about during a call becomes part of its event.
#include "hooks.hpp"
#include <valgrind/memcheck.h>
#include <valgrind/valgrind.h>
static long before, errors;
void hook_begin() { before = (long) VALGRIND_COUNT_ERRORS; errors = 0; }
void hook_end() { errors = (long) VALGRIND_COUNT_ERRORS - before; }
void hook_defined(const void *p, size_t n) { if (p && n && VALGRIND_CHECK_MEM_IS_DEFINED(p, n)) errors++; }
void hook_child_init() {}
void hook_case() {}
void hook_fail_alloc(long) {}
void hook_thread_mode(long) {}
void hook_clock_jump(long, long) {}
std::string hook_json() { return ",\"memerr\":" + std::to_string(errors); }
