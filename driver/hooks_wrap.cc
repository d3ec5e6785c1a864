// The library's allocations and its one thread, under the driver's control (ld --wrap).
// Records a ledger of live blocks; fails the k-th allocation of a call; decides when the
// constructor's thread runs.
#include "hooks.hpp"
#include <errno.h>
#include <map>
#include <mutex>
#include <pthread.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unordered_map>

extern "C" {
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
int __real_clock_gettime(clockid_t, struct timespec *);
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int __real_pthread_join(pthread_t, void **);
}
static std::mutex mu;
static volatile bool inside;
static thread_local bool mine;              // we are inside our own bookkeeping
static std::unordered_map<void *, size_t> *live;
static long fail_at, count_now, hits, thits, bad, mode, threads;

static bool tick()
{
    std::lock_guard<std::mutex> g(mu);
    count_now++;
    // k: the k-th; -k: all from the k-th on; k + 1000 j: the k-th and the (k + j)-th
    long k = fail_at < 0 ? -fail_at : fail_at % 1000, j = fail_at < 0 ? 0 : fail_at / 1000;
    if (fail_at && (fail_at < 0 ? count_now >= k : count_now == k || (j && count_now == k + j))) { hits++; return false; }
    return true;
}
static void add(void *p, size_t n)
{
    if (!p) return;
    std::lock_guard<std::mutex> g(mu);
    mine = true; (*live)[p] = n; mine = false;
}
extern "C" void *__wrap_malloc(size_t n)
{
    if (!inside || mine) return __real_malloc(n);
    if (!tick()) return nullptr;
    void *p = __real_malloc(n);
    // fresh memory has no particular content
    if (p) memset(p, 0xA5, n);
    add(p, n); return p;
}
extern "C" void *__wrap_calloc(size_t a, size_t b)
{
    if (!inside || mine) return __real_calloc(a, b);
    if (!tick()) return nullptr;
    void *p = __real_calloc(a, b); add(p, a * b); return p;
}
extern "C" void *__wrap_realloc(void *q, size_t n)
{
    if (!inside || mine) return __real_realloc(q, n);
    if (!tick()) return nullptr;
    {
        std::lock_guard<std::mutex> g(mu);
        mine = true;
        if (q) { if (!live->erase(q)) bad++; }
        mine = false;
    }
    void *p = __real_realloc(q, n); add(p, n); return p;
}
extern "C" void __wrap_free(void *q)
{
    if (!inside || mine) { __real_free(q); return; }
    if (!q) return;
    {
        std::lock_guard<std::mutex> g(mu);
        mine = true;
        bool known = live->erase(q) > 0;
        mine = false;
        if (!known) { bad++; return; }
    }
    __real_free(q);
}

struct Late { void *(*f)(void *); void *arg; };
static std::map<unsigned long, Late> late;
static unsigned long serial = 1;
extern "C" int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *arg)
{
    if (!inside) return __real_pthread_create(t, a, f, arg);
    threads++;
    if (mode == 3) { thits++; return EAGAIN; }
    if (mode == 1) { f(arg); *t = (pthread_t) 0; return 0; }
    if (mode == 2)
    {
        mine = true; late[serial] = {f, arg}; mine = false;
        *t = (pthread_t) serial++; return 0;
    }
    return __real_pthread_create(t, a, f, arg);
}
extern "C" int __wrap_pthread_join(pthread_t t, void **r)
{
    if (!inside || mode == 0) return __real_pthread_join(t, r);
    if (mode == 1) return 0;
    if (mode == 3) { bad++; return 0; } // joining a thread that does not exist
    auto it = late.find((unsigned long) t);
    if (it == late.end()) { bad++; return 0; }
    Late l = it->second;
    mine = true; late.erase(it); mine = false;
    l.f(l.arg);
    return 0;
}

// the library's clock: every reading takes a microsecond, and it jumps when it is told to
static long clocks, jump_at, jump_ms, last_at, last_ms, first_us, last_us;
extern "C" int __wrap_clock_gettime(clockid_t id, struct timespec *t)
{
    if (!inside) return __real_clock_gettime(id, t);
    clocks++;
    long us = clocks + ((jump_at && clocks >= jump_at) ? jump_ms * 1000 : 0);
    if (clocks == 1) first_us = us;
    last_us = us;
    // some runs start just before the second is full
    if (jump_at % 2) us += 999996;
    t->tv_sec = 1000 + us / 1000000;
    t->tv_nsec = us % 1000000 * 1000;
    return 0;
}
void hook_clock_jump(long k, long ms) { jump_at = k; jump_ms = ms; }

void hook_child_init() { live = new std::unordered_map<void *, size_t>(); }
void hook_case() { live->clear(); late.clear(); bad = hits = thits = fail_at = mode = jump_at = jump_ms = 0; }
void hook_begin() { count_now = 0; hits = 0; thits = 0; bad = 0; threads = 0; clocks = 0; first_us = last_us = 0; inside = true; }
void hook_end() { inside = false; fail_at = 0; last_at = jump_at; last_ms = jump_ms; jump_at = 0; }
void hook_fail_alloc(long k) { fail_at = k; }
void hook_thread_mode(long m) { mode = m; }
void hook_defined(const void *, size_t) {}
std::string hook_json()
{
    size_t bytes = 0;
    for (auto &kv : *live) bytes += kv.second;
    std::string s = ",\"allocs\":" + std::to_string(count_now) + ",\"hit\":" + (hits ? "true" : "false") + ",\"thit\":" + (thits ? "true" : "false") +
                    ",\"late\":" + std::to_string(late.size()) +
                    ",\"live\":" + std::to_string(live->size()) + ",\"badfree\":" + std::to_string(bad) +
                    ",\"bytes\":" + std::to_string(bytes) +
                    ",\"clocks\":" + std::to_string(clocks) + ",\"jump\":" + std::to_string(last_at) + ",\"jump_ms\":" + std::to_string(last_ms) +
                    ",\"spent\":" + std::to_string(last_us - first_us < 2100000000 ? last_us - first_us : -1);
    return s;
}
