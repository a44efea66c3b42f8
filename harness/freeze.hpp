// Threads held up at arbitrary instructions: a signal whose handler sleeps is sent to one thread of the process at a time,
// so that whatever it was about to do happens long after the other threads expect it.
#pragma once
#include <atomic>
#include <dirent.h>
#include <errno.h>
#include <signal.h>
#include <stdlib.h>
#include <sys/syscall.h>
#include <thread>
#include <time.h>
#include <unistd.h>
#include <vector>
namespace frz {
static std::atomic<unsigned> us{0}, gap{2000}, frozen{0};
static inline void pause_us(unsigned u) { timespec t, r; t.tv_sec = u / 1000000; t.tv_nsec = (long)(u % 1000000) * 1000; while (syscall(SYS_nanosleep, &t, &r) < 0 && errno == EINTR) t = r; }
static void handler(int) { int e = errno; unsigned u = us.load(std::memory_order_relaxed); if (u) { frozen.fetch_add(1, std::memory_order_relaxed); static thread_local unsigned s = 0; if (!s) s = (unsigned)syscall(SYS_gettid) * 2654435761u; s = s * 1664525u + 1013904223u; pause_us((s >> 8) % u + 1); } errno = e; }
// while one of these lives, a random other thread (never the creator's when spare_self) is frozen every now and then
struct Freezer {
    std::atomic<bool> stop{false}; std::thread t;
    Freezer(unsigned max_us, unsigned gap_us, uint64_t seed, bool spare_self) {
        struct sigaction sa = {}; sa.sa_handler = handler; sa.sa_flags = SA_RESTART; sigaction(SIGRTMIN + 3, &sa, nullptr); us = max_us; gap = gap_us; long spare = spare_self ? syscall(SYS_gettid) : 0;
        t = std::thread([this, seed, spare] {
            long me = syscall(SYS_gettid); pid_t pid = getpid(); uint64_t s = seed | 1;
            while (!stop) {
                std::vector<long> ids; if (DIR* d = opendir("/proc/self/task")) { while (dirent* e = readdir(d)) { long id = atol(e->d_name); if (id && id != me && id != spare) ids.push_back(id); } closedir(d); }
                s ^= s << 13; s ^= s >> 7; s ^= s << 17;
                if (!ids.empty()) syscall(SYS_tgkill, pid, ids[(s >> 20) % ids.size()], SIGRTMIN + 3);
                pause_us((unsigned)((s >> 33) % gap.load() + 1));
            }
        });
    }
    ~Freezer() { stop = true; t.join(); us = 0; pause_us(1000); }
};
}  // namespace frz
