// Test double for the device library of the hardware client: upstream's emulator behind a transport that loses, damages and
// repeats status reads; scaled sleeps; partial and refused socket transfers. Reports what it injected on exit.
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <cstdio>
#include <cerrno>
#include <atomic>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#define FT4222_SPIMaster_MultiReadWrite real_spi
#include "emu_funcs.cpp"
#undef FT4222_SPIMaster_MultiReadWrite

static long env(const char* n, long d) { const char* s = getenv(n); return s ? atol(s) : d; }
static std::atomic<uint64_t> seq{0}, n_sleeps{0}, n_io{0};
static uint64_t n_transfers, n_reads, n_fail, n_short, n_corrupt, n_stall, n_jobs;
static uint64_t rnd() { static uint64_t s0 = (uint64_t)env("HW_SEED", 1) * 0x9e3779b97f4a7c15ull; uint64_t z = s0 + (++seq) * 0x9e3779b97f4a7c15ull; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
static bool one_in(long p) { return p > 0 && rnd() % (uint64_t)p == 0; }

extern "C" int nanosleep(const struct timespec* t, struct timespec* rem) {
    static long div = env("HW_SLEEP", 1); struct timespec q; uint64_t ns = ((uint64_t)t->tv_sec * 1000000000ull + t->tv_nsec) / div; if (ns < 1000) ns = 1000;
    q.tv_sec = ns / 1000000000ull; q.tv_nsec = ns % 1000000000ull; n_sleeps++;
    return (int)syscall(SYS_nanosleep, &q, rem);
}
// addresses below as the client sees them (byte addresses)
extern "C" FT4222_STATUS FT4222_SPIMaster_MultiReadWrite(FT_HANDLE h, uint8* rb, uint8* wb, uint8 sw, uint16 mw, uint16 mr, uint32* n) {
    static long p_fail = env("HW_FAIL", 0), p_short = env("HW_SHORT", 0), p_corrupt = env("HW_CORRUPT", 0), p_stall = env("HW_STALL", 0); static uint8_t old[3][180]; static bool have[3]; static unsigned stalling[3];
    n_transfers++; uint32_t addr = ((uint32_t)wb[1] << 16 | wb[2] << 8 | wb[3]) << 2;
    if (mw > 4) { memset(have, 0, sizeof have); memset(stalling, 0, sizeof stalling); if (mw > 100) n_jobs++; }
    int i = -1; uint32_t off = 0; if (mr >= 180) { if (addr == 0x300000) { i = 0; off = 24; } else for (int k = 0; k < 3; k++) if (addr == 0x102000u + 0x10000u * k) { i = k; off = 4; } }
    if (i < 0 || mr < off + 180) return real_spi(h, rb, wb, sw, mw, mr, n);
    n_reads++;
    if (one_in(p_fail)) { n_fail++; memset(rb, rnd() & 1 ? 0xff : (int)(rnd() & 255), mr); *n = 0; return FT4222_IO_ERROR; }
    FT4222_STATUS s = real_spi(h, rb, wb, sw, mw, mr, n); uint8_t* st = rb + off;
    if (s != FT4222_OK) return s;
    if (one_in(p_short)) { n_short++; *n = (uint32_t)(rnd() % mr); memset(rb + *n, (int)(rnd() & 255), mr - *n); return FT4222_OK; }
    if (have[i] && (stalling[i] || one_in(p_stall))) { if (!stalling[i]) stalling[i] = 1 + rnd() % 14; stalling[i]--; memcpy(st, old[i], 180); n_stall++; return FT4222_OK; }
    memcpy(old[i], st, 180); have[i] = true;
    if (one_in(p_corrupt)) {      // only the coefficients: what the engine is meant to tell apart
        n_corrupt++; unsigned k = 1 + rnd() % 4;
        while (k--) switch (rnd() % 4) { case 0: st[12 + rnd() % 168] ^= 1 << rnd() % 8; break; case 1: st[12 + rnd() % 168] = (uint8_t)rnd(); break; case 2: memset(st + 12, rnd() & 1 ? 0 : 255, 84); break; default: { unsigned a = rnd() % 168, l = 1 + rnd() % 24; for (unsigned j = a; j < a + l && j < 168; j++) st[12 + j] = (uint8_t)rnd(); } }
    }
    return FT4222_OK;
}
extern "C" ssize_t __real_read(int, void*, size_t); extern "C" ssize_t __real_write(int, const void*, size_t);
extern "C" ssize_t __wrap_read(int fd, void* b, size_t n) { static long p = env("HW_IO", 0); if (one_in(p)) { n_io++; if (rnd() % 3 == 0) { errno = EAGAIN; return -1; } if (n > 1) n = 1 + rnd() % (n < 20 ? n : 20); } return __real_read(fd, b, n); }
extern "C" ssize_t __wrap_write(int fd, const void* b, size_t n) { static long p = env("HW_IO", 0); if (one_in(p)) { n_io++; if (rnd() % 3 == 0) { errno = EAGAIN; return -1; } if (n > 1) n = 1 + rnd() % (n - 1); } return __real_write(fd, b, n); }
__attribute__((destructor)) static void report() { fprintf(stderr, "@SHIM reads %llu failed %llu short %llu corrupt %llu stalled %llu jobs %llu io %llu transfers %llu\n", (unsigned long long)n_reads, (unsigned long long)n_fail, (unsigned long long)n_short, (unsigned long long)n_corrupt, (unsigned long long)n_stall, (unsigned long long)n_jobs, (unsigned long long)n_io.load(), (unsigned long long)n_transfers); }
