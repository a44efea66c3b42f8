// Schedule and clock perturbation from outside the code: long sleeps are shortened, and (uninstrumented builds only)
// threads can be held up just before they block on a condition variable and just after they release a mutex.
#pragma once
#include <time.h>
#include <errno.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <atomic>
#include <pthread.h>
#include <dlfcn.h>
namespace pert {
static std::atomic<unsigned> compress{1};            // long sleeps and timeouts (over min_ns) are divided by this
static std::atomic<long long> min_ns{500000000};
static std::atomic<unsigned> cond_num{0}, cond_us{0}, unlock_num{0}, unlock_us{0};   // chance num in a million, up to us microseconds
static std::atomic<unsigned long> long_sleeps{0}, cond_delays{0}, unlock_delays{0};
static inline bool roll(std::atomic<unsigned>& num) { unsigned k = num.load(std::memory_order_relaxed); if (!k) return false; static thread_local unsigned long s = 0; if (!s) s = (unsigned long)syscall(SYS_gettid) * 0x9e3779b97f4a7c15ul + 1; s ^= s << 13; s ^= s >> 7; s ^= s << 17; return (s >> 20) % 1000000 < k; }
static inline unsigned upto(std::atomic<unsigned>& us) { unsigned u = us.load(std::memory_order_relaxed); static thread_local unsigned s = 12345 + (unsigned)syscall(SYS_gettid); s = s * 1664525u + 1013904223u; return u ? (s >> 8) % u + 1 : 1; }
static inline void squeeze(timespec& t) { unsigned c = compress.load(std::memory_order_relaxed); long long ns = t.tv_sec * 1000000000ll + t.tv_nsec; if (c > 1 && ns > min_ns.load(std::memory_order_relaxed)) { long_sleeps.fetch_add(1, std::memory_order_relaxed); ns /= c; t.tv_sec = ns / 1000000000ll; t.tv_nsec = ns % 1000000000ll; } }
}  // namespace pert
extern "C" int nanosleep(const timespec* req, timespec* rem) { timespec t = *req; pert::squeeze(t); long r = syscall(SYS_nanosleep, &t, rem); return r < 0 ? -1 : 0; }
extern "C" int clock_nanosleep(clockid_t c, int flags, const timespec* req, timespec* rem) { timespec t = *req; if (!flags) pert::squeeze(t); long r = syscall(SYS_clock_nanosleep, c, flags, &t, rem); return r < 0 ? errno : 0; }
#if defined(__has_feature)
#if __has_feature(thread_sanitizer) || __has_feature(address_sanitizer)
#define PERT_SAN 1
#endif
#endif
#if !defined(__SANITIZE_THREAD__) && !defined(__SANITIZE_ADDRESS__) && !defined(PERT_SAN)
extern "C" int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    static auto real = (int (*)(pthread_cond_t*, pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_cond_wait");
    if (pert::roll(pert::cond_num)) { pert::cond_delays.fetch_add(1, std::memory_order_relaxed); usleep(pert::upto(pert::cond_us)); }
    return real(c, m);
}
// Shortening a timed wait moves the process's monotonic clock forward by the time left out.
namespace pert { static std::atomic<long long> skipped{0}; static inline long long raw_ns() { timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000000ll + t.tv_nsec; } static inline timespec ts(long long ns) { timespec t; t.tv_sec = ns / 1000000000ll; t.tv_nsec = ns % 1000000000ll; return t; } }
extern "C" int clock_gettime(clockid_t k, timespec* t) noexcept { long r = syscall(SYS_clock_gettime, k, t); if (!r && k == CLOCK_MONOTONIC) { long long s = pert::skipped.load(std::memory_order_relaxed); if (s) *t = pert::ts(t->tv_sec * 1000000000ll + t->tv_nsec + s); } return (int)r; }
extern "C" int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* abst) {
    static auto real = (int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec*))dlsym(RTLD_NEXT, "pthread_cond_clockwait");
    if (k != CLOCK_MONOTONIC) return real(c, m, k, abst);
    if (pert::roll(pert::cond_num)) { pert::cond_delays.fetch_add(1, std::memory_order_relaxed); usleep(pert::upto(pert::cond_us)); }
    long long target = abst->tv_sec * 1000000000ll + abst->tv_nsec, left = target - pert::skipped.load() - pert::raw_ns(); if (left < 0) left = 0;
    timespec d = pert::ts(left); pert::squeeze(d); long long wait = d.tv_sec * 1000000000ll + d.tv_nsec; timespec until = pert::ts(pert::raw_ns() + wait);
    int r = real(c, m, k, &until);
    if (r == ETIMEDOUT && wait < left) { long long now = pert::raw_ns() + pert::skipped.load(); if (now < target) pert::skipped.fetch_add(target - now); }
    return r;
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t* m) {
    static auto real = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_unlock");
    int r = real(m);
    if (pert::roll(pert::unlock_num)) { pert::unlock_delays.fetch_add(1, std::memory_order_relaxed); usleep(pert::upto(pert::unlock_us)); }
    return r;
}
#define PERT_FULL 1
static inline double pert_now() { return pert::raw_ns() / 1e9; }
#else
static inline double pert_now() { timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
#endif
