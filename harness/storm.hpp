// Signals handled by the process all the time: one other thread sends a signal to random threads, whose handler writes over
// the stack it was given. Counts how many arrived while a thread was inside the generated assembly.
#pragma once
#include <atomic>
#include <dirent.h>
#include <errno.h>
#include <signal.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <thread>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <vector>
extern "C" { __attribute__((weak)) extern char asm_avx2_func_gcd_base[]; __attribute__((weak)) extern char asm_avx2_func_gcd_128[]; __attribute__((weak)) extern char asm_avx2_func_gcd_unsigned[]; __attribute__((weak)) extern char asm_cel_func_gcd_base[]; __attribute__((weak)) extern char asm_cel_func_gcd_128[]; __attribute__((weak)) extern char asm_cel_func_gcd_unsigned[]; }
namespace storm {
static std::atomic<unsigned> handled{0}, in_base{0}, in_128{0}, in_unsigned{0};
static bool in_fn(uint64_t ip, const char* a, uint64_t n) { return a && ip >= (uint64_t)a && ip < (uint64_t)a + n; }
static __attribute__((noinline)) void scribble() { volatile char b[6000]; for (unsigned i = 0; i < sizeof b; i++) b[i] = (char)0xa5; }
static void handler(int, siginfo_t*, void* uc) {
    int e = errno; uint64_t ip = (uint64_t)((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP];
    handled.fetch_add(1, std::memory_order_relaxed);
    const uint64_t N = 12000;   // a kernel's own code is longer than this only in its outlined parts
    if (in_fn(ip, asm_avx2_func_gcd_unsigned, N) || in_fn(ip, asm_cel_func_gcd_unsigned, N)) in_unsigned.fetch_add(1, std::memory_order_relaxed);
    else if (in_fn(ip, asm_avx2_func_gcd_128, 4000) || in_fn(ip, asm_cel_func_gcd_128, 4000)) in_128.fetch_add(1, std::memory_order_relaxed);
    else if (in_fn(ip, asm_avx2_func_gcd_base, 2000) || in_fn(ip, asm_cel_func_gcd_base, 2000)) in_base.fetch_add(1, std::memory_order_relaxed);
    scribble(); errno = e;
}
static std::atomic<bool> stop{false};
static std::thread* th = nullptr;
static void start(unsigned gap_us, uint64_t seed) {
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = handler; sa.sa_flags = SA_RESTART | SA_SIGINFO; sigaction(SIGRTMIN + 4, &sa, nullptr);
    th = new std::thread([gap_us, seed] {
        long me = syscall(SYS_gettid); pid_t pid = getpid(); uint64_t s = seed * 2654435761u | 1; std::vector<long> ids;
        for (unsigned k = 0; !stop; k++) {
            if (k % 16 == 0) { ids.clear(); if (DIR* d = opendir("/proc/self/task")) { while (dirent* e = readdir(d)) { long id = atol(e->d_name); if (id && id != me) ids.push_back(id); } closedir(d); } }
            for (long id : ids) syscall(SYS_tgkill, pid, id, SIGRTMIN + 4);
            s ^= s << 13; s ^= s >> 7; s ^= s << 17; timespec t = {0, (long)((s >> 20) % gap_us + 1) * 1000}; nanosleep(&t, nullptr);
        }
    });
}
static void finish() { if (!th) return; stop = true; th->join(); delete th; th = nullptr; usleep(2000); }
}  // namespace storm
