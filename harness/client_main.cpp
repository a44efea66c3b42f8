// The timelord client as it is, with the environment made rough: socket calls transfer partial data, threads are held
// up at marked points, the squaring loop is kept to a given rate. Everything is off unless the environment asks for it.
#include "perturb.hpp"
#include <cstdlib>
#include <cstdio>
#include <sys/socket.h>
#include <sys/uio.h>
#include <sys/types.h>
#include <cstring>
#include <algorithm>
namespace rough {
static unsigned long envn(const char* k, unsigned long d = 0) { const char* v = getenv(k); return v ? strtoul(v, 0, 10) : d; }
static unsigned long io, rate, ppm, us, seed;
static std::atomic<unsigned long> ctr{0};
static unsigned long rnd() { unsigned long x = seed * 0x9e3779b97f4a7c15ul + ctr.fetch_add(1, std::memory_order_relaxed) * 0xbf58476d1ce4e5b9ul; x ^= x >> 31; x *= 0x94d049bb133111ebul; x ^= x >> 29; x *= 0xbf58476d1ce4e5b9ul; return x ^ (x >> 32); }
static void raw_sleep(unsigned long u) { timespec t{(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; syscall(SYS_nanosleep, &t, nullptr); }
struct Init { Init() { io = envn("ROUGH_IO"); rate = envn("ROUGH_RATE"); ppm = envn("ROUGH_PPM"); us = envn("ROUGH_US", 1000); seed = envn("ROUGH_SEED", 1);
    pert::compress = (unsigned)envn("ROUGH_SLEEPDIV", 1); pert::min_ns = 60000000; pert::cond_num = (unsigned)envn("ROUGH_COND"); pert::cond_us = 20000; pert::unlock_num = (unsigned)envn("ROUGH_UNLOCK"); pert::unlock_us = 3000; } } init;
static size_t part(size_t n) { if (n <= 1 || !io) return n; unsigned long r = rnd(); if (r % 4 == 0) raw_sleep(r / 8 % io + 1); return r % 3 == 0 ? n : 1 + (r >> 20) % std::min<size_t>(n, 1 + (r >> 12) % 200); }
}
extern "C" ssize_t send(int fd, const void* b, size_t n, int fl) { return syscall(SYS_sendto, fd, b, rough::part(n), fl, nullptr, 0); }
extern "C" ssize_t recv(int fd, void* b, size_t n, int fl) { return syscall(SYS_recvfrom, fd, b, rough::part(n), fl, nullptr, nullptr); }
extern "C" ssize_t sendmsg(int fd, const msghdr* m, int fl) { if (rough::io && m->msg_iovlen >= 1) { msghdr h = *m; iovec v = m->msg_iov[0]; v.iov_len = rough::part(v.iov_len); h.msg_iov = &v; h.msg_iovlen = 1; return syscall(SYS_sendmsg, fd, &h, fl); } return syscall(SYS_sendmsg, fd, m, fl); }
void chiavdf_verif_point(const char* name, uint64_t a, uint64_t) {
    if (name[0] == 'l') {   // loop_batch: a = iterations done
        if (!rough::rate) return;
        static long long t0 = 0; timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); long long now = t.tv_sec * 1000000000ll + t.tv_nsec;
        if (!t0) t0 = now;
        long long due = t0 + (long long)(a * 1e9 / rough::rate);
        if (due > now) rough::raw_sleep((due - now) / 1000);
        else if (now - due > 200000000ll) t0 += now - due;   // fell behind: do not catch up in a rush
        return;
    }
    if (rough::ppm && rough::rnd() % 1000000 < rough::ppm) rough::raw_sleep(rough::rnd() % rough::us + 1);
}
#include "vdf_client.cpp"
