// C21: register codec, job and status placement, SPI framing, PLL and board settings, against a model of the device behind the vendor USB library.
#include "vh.hpp"
#include "hw/chia_driver.hpp"
#include "hw/hw_interface.hpp"
#include "hw/pll_freqs.hpp"
#include "hw/clock.hpp"
#include "hw/pvt.hpp"
#include <gmpxx.h>
#include <cmath>
#include <time.h>
using namespace vh;
typedef std::vector<uint8_t> Bytes;
extern "C" int nanosleep(const struct timespec*, struct timespec*) { return 0; }   // the driver's settling delays
extern "C" int clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*) { return 0; }
int chia_vdf_is_emu = 1;

struct Dev {
    std::map<uint32_t, uint32_t> mem; struct W { uint32_t addr; Bytes data; }; std::vector<W> log;
    bool ack = true, lock = true, gpio_fail = false, short_read = false, i2c_nack = false, spi_fail_reads = false; int resets = 0, gpio2 = 1, mode = 0;
    uint8_t vr[256], cs[256]; uint8_t i2c_reg[256]; int i2c_writes = 0; std::string bad;
    void put(uint32_t a, uint8_t b) { uint32_t& w = mem[a >> 2]; int s = 24 - 8 * (a & 3); w = (w & ~(0xffu << s)) | ((uint32_t)b << s); }
    uint8_t get(uint32_t a) { auto i = mem.find(a >> 2); return i == mem.end() ? 0 : (uint8_t)(i->second >> (24 - 8 * (a & 3))); }
    uint32_t reg(uint32_t a) { auto i = mem.find(a >> 2); return i == mem.end() ? 0 : i->second; }
    void setreg(uint32_t a, uint32_t v) { mem[a >> 2] = v; }
    void reset() { *this = Dev(); memset(vr, 0, sizeof vr); memset(cs, 0, sizeof cs); memset(i2c_reg, 0, sizeof i2c_reg); }
} dev;
static const int SIZES[] = {4, 16, 32, 64, 128, 256};
extern "C" {
FT_STATUS FT_CreateDeviceInfoList(LPDWORD n) { *n = 1; return 0; }
FT_STATUS FT_GetDeviceInfoList(FT_DEVICE_LIST_INFO_NODE* d, LPDWORD n) { *n = 1; d->Type = FT_DEVICE_4222H_0; strcpy(d->Description, "FT4222 A"); d->LocId = 77; return 0; }
FT_STATUS FT_OpenEx(PVOID a, DWORD, FT_HANDLE* h) { if ((uintptr_t)a == 77) *h = (void*)1; else if ((uintptr_t)a == 78 || (uintptr_t)a == 80) *h = (void*)2; else return 2; return 0; }
FT_STATUS FT_SetUSBParameters(FT_HANDLE, ULONG, ULONG) { return 0; }
FT_STATUS FT_Close(FT_HANDLE) { return 0; }
FT4222_STATUS FT4222_SPIMaster_Init(FT_HANDLE, FT4222_SPIMode, FT4222_SPIClock, FT4222_SPICPOL, FT4222_SPICPHA, uint8) { dev.mode = 1; return FT4222_OK; }
FT4222_STATUS FT4222_SPIMaster_SetCS(FT_HANDLE, SPI_ChipSelect) { return FT4222_OK; }
FT4222_STATUS FT4222_SetClock(FT_HANDLE, FT4222_ClockRate) { return FT4222_OK; }
FT4222_STATUS FT4222_SPI_SetDrivingStrength(FT_HANDLE, SPI_DrivingStrength, SPI_DrivingStrength, SPI_DrivingStrength) { return FT4222_OK; }
FT4222_STATUS FT4222_GPIO_Init(FT_HANDLE, GPIO_Dir*) { return FT4222_OK; }
FT4222_STATUS FT4222_SetSuspendOut(FT_HANDLE, BOOL) { return FT4222_OK; }
FT4222_STATUS FT4222_SetWakeUpInterrupt(FT_HANDLE, BOOL) { return FT4222_OK; }
FT4222_STATUS FT4222_UnInitialize(FT_HANDLE) { dev.mode = 0; return FT4222_OK; }
FT4222_STATUS FT4222_GPIO_Write(FT_HANDLE, GPIO_Port p, BOOL v) { if (dev.gpio_fail) return FT4222_IO_ERROR; if (p == GPIO_PORT2) { if (!v && dev.gpio2) dev.resets++; dev.gpio2 = v; } return FT4222_OK; }
FT4222_STATUS FT4222_GPIO_Read(FT_HANDLE, GPIO_Port, BOOL* v) { *v = 0; return FT4222_OK; }
FT4222_STATUS FT4222_I2CMaster_Init(FT_HANDLE, uint32) { dev.mode = 2; return FT4222_OK; }
FT4222_STATUS FT4222_I2CMaster_WriteEx(FT_HANDLE, uint16 a, uint8, uint8* b, uint16 n, uint16* got) {
    if (dev.mode != 2) dev.bad = "i2c transfer while not in i2c mode";
    if (dev.i2c_nack) { *got = 0; return FT4222_OK; }
    uint8_t* m = a == 0x38 ? dev.vr : dev.cs; if (a != 0x38 && a != 0x70) { *got = 0; return FT4222_OK; }
    dev.i2c_reg[a] = b[0]; for (int i = 1; i < n; i++) { m[(uint8_t)(b[0] + i - 1)] = b[i]; dev.i2c_writes++; } *got = n; return FT4222_OK; }
FT4222_STATUS FT4222_I2CMaster_ReadEx(FT_HANDLE, uint16 a, uint8, uint8* b, uint16 n, uint16* got) {
    if (dev.mode != 2) dev.bad = "i2c transfer while not in i2c mode";
    if (dev.i2c_nack) { *got = 0; return FT4222_OK; }
    uint8_t* m = a == 0x38 ? dev.vr : dev.cs; for (int i = 0; i < n; i++) b[i] = m[(uint8_t)(dev.i2c_reg[a] + i)]; *got = n; return FT4222_OK; }
FT4222_STATUS FT4222_SPIMaster_MultiReadWrite(FT_HANDLE, uint8* r, uint8* w, uint8 single, uint16 mw, uint16 mr, uint32* got) {
    if (dev.mode != 1) dev.bad = "spi transfer while not in spi mode";
    if (single || mw < 4) { dev.bad = "spi frame without a command"; return FT4222_IO_ERROR; }
    uint8_t c = w[0]; unsigned len = c & 7, wait = c >> 3 & 3, type = c >> 5 & 3; bool write = c >> 7; uint32_t addr = ((uint32_t)w[1] << 16 | w[2] << 8 | w[3]) << 2;
    if (len > 5) { dev.bad = "length code"; return FT4222_IO_ERROR; }
    if (write) {
        if (type != 0 || wait != 0 || mr != 0 || mw != 4 + SIZES[len]) { dev.bad = "malformed write command"; return FT4222_IO_ERROR; }
        dev.log.push_back({addr, Bytes(w + 4, w + mw)});
        for (int i = 0; i < mw - 4; i++) dev.put(addr + i, w[4 + i]);
        if (addr == CLOCK_CONTROL_REG_OFFSET) dev.setreg(CLOCK_STATUS_REG_OFFSET, ((dev.ack ? 1u : 0u) << CLOCK_STATUS_DIVACK_BIT) | ((dev.lock ? 1u : 0u) << CLOCK_STATUS_LOCK_BIT));
        *got = 0; return FT4222_OK;
    }
    if (type != 3 || wait != 0 || mw != 4 || mr != 4 + SIZES[len]) { dev.bad = "malformed read command"; return FT4222_IO_ERROR; }
    if (dev.spi_fail_reads) return FT4222_IO_ERROR;
    for (int i = 0; i < 4; i++) r[i] = 0xee;
    for (int i = 4; i < mr; i++) r[i] = dev.get(addr + i - 4);
    *got = dev.short_read ? mr - 1 : mr; return FT4222_OK;
}
}

// ---- reference codec: coefficient i is R bits at bit position i*R of the words, word w is big endian at byte 4w
static mpz_class ref_dec(const uint8_t* b, int words, int n, int W, int R, bool sgn) {
    mpz_class v = 0;
    for (int i = 0; i < n; i++) {
        mpz_class c = 0;
        for (int k = 0; k < R; k++) { int p = i * R + k, w = p / 32; if (w >= words) break; uint32_t x = (uint32_t)b[4 * w] << 24 | b[4 * w + 1] << 16 | b[4 * w + 2] << 8 | b[4 * w + 3]; if (x >> (p % 32) & 1) c += mpz_class(1) << k; }
        if (sgn && c >= (mpz_class(1) << (R - 1))) c -= mpz_class(1) << R;
        v += c << (W * i);
    }
    return v;
}
static Bytes ref_enc(const std::vector<long>& c, int words, int R) {
    Bytes b(4 * words);
    for (size_t i = 0; i < c.size(); i++) for (int k = 0; k < R; k++) if (c[i] >> k & 1) { int p = i * R + k, w = p / 32; if (w < words) b[4 * w + 3 - p % 32 / 8] |= 1 << (p % 8); }
    return b;
}
// a random signed-digit representation of v; false when the top digit does not fit
static bool redundant(Rng& r, mpz_class v, int n, int W, int R, std::vector<long>& c) {
    c.clear(); long lim = 1l << (R - 1);
    for (int i = 0; i < n; i++) {
        if (i == n - 1) { if (v < -lim || v >= lim) return false; c.push_back(v.get_si()); return true; }
        mpz_class d = v & ((mpz_class(1) << W) - 1); long step = 1l << W, x = d.get_si() - step * (lim / step); while (x < -lim) x += step;   // smallest digit of this residue
        x += step * (long)r.below((lim - 1 - x) / step + 1); c.push_back(x); v = (v - x) >> W;
    }
    return true;
}
struct Gen : VdfDriver { Gen(unsigned w, unsigned r, bool s) : VdfDriver(w, r, s) {} size_t CmdSize() { return 0; } size_t StatusSize() { return 0; } };
static mpz_class rnd(Rng& r, int bits) { mpz_class v = 0; for (int i = 0; i < bits; i += 64) v = (v << 64) + mpz_class(std::to_string(r.next())); return bits ? v >> ((bits + 63) / 64 * 64 - bits) : mpz_class(0); }
static mpz_class value(Rng& r, int n, int W, int R, bool sgn) {   // inside the format's range
    int top = W * (n - 1) + R - (sgn ? 1 : 0); mpz_class lim = mpz_class(1) << top, v;
    switch (r.below(7)) {
    case 0: v = rnd(r, top); break;
    case 1: v = rnd(r, r.below(top + 1)); break;
    case 2: v = lim - 1 - rnd(r, r.below(20)); break;
    case 3: v = (mpz_class(1) << r.below(top)) - (long)r.below(3); break;
    case 4: v = r.below(4); break;
    case 5: { v = 0; for (int i = 0; i < n - 1; i++) v += mpz_class(r.chance(1, 3) ? 0 : r.chance(1, 2) ? (1l << W) - 1 : (long)r.below(1l << W)) << (W * i); break; }
    default: v = rnd(r, std::min(top, 1024)); }
    if (v < 0) v = 0; if (v >= lim) v = lim - 1;
    if (sgn && r.chance(1, 2)) { v = -v; if (r.chance(1, 20)) v = -lim; }
    return v;
}
static std::string geo(int n, int words, int W, int R, bool s) { char b[64]; snprintf(b, 64, "n=%d words=%d W=%d R=%d signed=%d", n, words, W, R, s); return b; }

static void codec(Rng& r, ChiaDriver& chia) {
    int n, words, W = 16, R = 19; bool sgn = true; VdfDriver* d = &chia; Gen* g = 0;
    if (r.chance(3, 4)) { int k = r.below(3); n = k == 0 ? 34 : k == 1 ? 68 : 18; words = k == 0 ? 21 : k == 1 ? 41 : 11; }
    else { W = r.range(4, 24); R = std::min<int>(28, W + 1 + r.below(6)); sgn = r.chance(1, 2); n = r.range(1, 80); words = (n * R + 31) / 32 + r.below(3); d = g = new Gen(W, R, sgn); count("other_geometries"); }
    std::string gs = geo(n, words, W, R, sgn); size_t off = 4 * r.below(5), size = 4 * words; Bytes buf(off + size + 8), before;
    for (auto& x : buf) x = r.next(); before = buf;
    mpz_class v = value(r, n, W, R, sgn), keep = v, back = 12345;
    at("codec", gs + " v=" + v.get_str(16));
    if (d->write_bytes(size, off, buf.data(), v.get_mpz_t(), n) != size) viol("codec:size", gs);
    if (v != keep) viol("codec:input_changed", gs + " v=" + keep.get_str(16));
    for (size_t i = 0; i < buf.size(); i++) if ((i < off || i >= off + size) && buf[i] != before[i]) { viol("codec:overrun", gs + " byte " + std::to_string(i)); break; }
    if (ref_dec(buf.data() + off, words, n, W, R, sgn) != v) viol("codec:written", gs + " v=" + v.get_str(16));
    if (d->read_bytes(size, off, buf.data(), back.get_mpz_t(), n) != size || back != v) viol("codec:roundtrip", gs + " v=" + v.get_str(16) + " back=" + back.get_str(16));
    count(v < 0 ? "negative" : "nonnegative"); eval(gs + v.get_str(16)); { static std::atomic<int> ns{0}; if (ns++ < 3) vh::sample(gs + " v=" + v.get_str(16)); }
    // other encodings of the same value, then arbitrary contents
    std::vector<long> c;
    if (sgn && R > W + 1 && redundant(r, v, n, W, R, c)) {
        Bytes e = ref_enc(c, words, R); if (ref_dec(e.data(), words, n, W, R, sgn) != v) harness_error("reference encoder");
        d->read_bytes(size, 0, e.data(), back.get_mpz_t(), n); if (back != v) viol("codec:redundant", gs + " v=" + v.get_str(16) + " back=" + back.get_str(16)); count("redundant"); eval(fnv(e.data(), e.size()));
    }
    Bytes x(size); int m = r.below(4); for (auto& y : x) y = m == 0 ? r.next() : m == 1 ? (r.chance(1, 8) ? r.next() : 0) : m == 2 ? 0xff : (r.chance(1, 2) ? 0xff : 0); if (r.chance(1, 2)) x[r.below(size)] ^= 1 << r.below(8);
    d->read_bytes(size, 0, x.data(), back.get_mpz_t(), n); if (back != ref_dec(x.data(), words, n, W, R, sgn)) viol("codec:arbitrary", gs + " m=" + std::to_string(m)); count("arbitrary"); eval(fnv(x.data(), x.size()));
    uint64_t q = r.next() >> r.below(64), q2 = 0; uint32_t z = q, z2 = 0; Bytes s(24, 0x5a);
    d->write_bytes(8, 4, s.data(), q); d->read_bytes(8, 4, s.data(), q2); uint64_t ref = 0; for (int i = 0; i < 8; i++) ref |= (uint64_t)s[4 + i] << (i < 4 ? 24 - 8 * i : 32 + 24 - 8 * (i - 4));
    if (q2 != q || ref != q || s[3] != 0x5a || s[12] != 0x5a) viol("codec:u64", std::to_string(q));
    d->write_bytes(4, 16, s.data(), z); d->read_bytes(4, 16, s.data(), z2); if (z2 != z || ((uint32_t)s[16] << 24 | s[17] << 16 | s[18] << 8 | s[19]) != z || s[15] != 0x5a || s[20] != 0x5a) viol("codec:u32", std::to_string(z));
    delete g;
}

static Bytes mem(uint32_t a, int n) { Bytes b(n); for (int i = 0; i < n; i++) b[i] = dev.get(a + i); return b; }
static void bad(const char* w) { if (!dev.bad.empty()) viol(std::string("spi:") + w, dev.bad); dev.bad.clear(); }
static void jobs(Rng& r, ChiaDriver& drv) {
    dev.mem.clear(); dev.log.clear();
    int idx = r.below(3), bits = r.chance(1, 2) ? 1024 : r.range(8, 1024); uint32_t base = 0x100000 + 0x10000 * idx; uint64_t iters = r.next() >> r.below(64);
    mpz_class d = -(rnd(r, bits) | 1 | (mpz_class(1) << (bits - 1))), a = rnd(r, bits / 2), b = rnd(r, bits / 2), nd = -d, L; if (r.chance(1, 2)) b = -b; mpz_root(L.get_mpz_t(), nd.get_mpz_t(), 4);
    std::string ctx = "idx=" + std::to_string(idx) + " iters=" + std::to_string(iters) + " d=" + d.get_str(16) + " a=" + a.get_str(16) + " b=" + b.get_str(16);
    at("job", ctx); mpz_class d0 = d, a0 = a, b0 = b;
    start_hw_vdf(&drv, d.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t(), iters, idx); bad("job");
    if (d != d0 || a != a0 || b != b0) viol("job:input_changed", ctx);
    uint32_t j = base + 0x1000;
    Bytes m = mem(j, 0x184 + 4);
    auto dec = [&](int o, int w, int n) { return ref_dec(m.data() + o, w, n, 16, 19, true); };
    uint64_t it = (uint64_t)dev.reg(j + 4) | (uint64_t)dev.reg(j + 8) << 32;
    if (dev.reg(j) != 0xab || it != iters || dec(0xc, 21, 34) != a || dec(0x60, 21, 34) != b || dec(0xb4, 41, 68) != d || dec(0x158, 11, 18) != L || dev.reg(j + 0x184) != 1) viol("job:placement", ctx);
    // engine enabled before the job arrives; the start word comes last; nothing else is touched except padding after the job
    size_t first = 0, en = 0, st = 0; bool other = false;
    for (size_t i = 0; i < dev.log.size(); i++) { auto& w = dev.log[i]; if (w.addr == base) { uint32_t v = (uint32_t)w.data[0] << 24 | w.data[1] << 16 | w.data[2] << 8 | w.data[3]; if (v & 1) en = i + 1; if (v & ~1u) other = true; }
        else if (w.addr >= j && w.addr + w.data.size() <= j + 512) { if (!first) first = i + 1; if (w.addr <= j + 0x184 && w.addr + w.data.size() > j + 0x184) st = i + 1; } else other = true; }
    if (!en || !first || en > first || st != dev.log.size() || other) viol("job:order", ctx);
    count("jobs"); eval(ctx);
    dev.log.clear(); stop_hw_vdf(&drv, idx); bad("stop"); if (dev.reg(base) != 0x10 || dev.log.size() != 2 || dev.log[0].addr != base || dev.log[1].addr != base) viol("job:stop", ctx);

    // status: random redundant contents in the status registers of each engine, read with every mask
    mpz_class va[3], vb[3]; uint64_t vi[3]; struct vdf_value val[3]; unsigned mask = r.below(16), code = r.below(1024);
    dev.setreg(0x300000, code);
    for (int i = 0; i < 3; i++) {
        std::vector<long> c; vi[i] = r.next() >> r.below(64);
        do va[i] = value(r, 34, 16, 19, true); while (!redundant(r, va[i], 34, 16, 19, c)); Bytes ea = ref_enc(c, 21, 19);
        do vb[i] = value(r, 34, 16, 19, true); while (!redundant(r, vb[i], 34, 16, 19, c)); Bytes eb = ref_enc(c, 21, 19);
        if (r.chance(1, 2)) { ea[80] |= r.next() & 0xff; ea[81] |= r.next() & 0xff; ea[82] |= r.next() & 0xfc; }   // bits above the last coefficient (646 bits used of 672) do not count
        uint32_t s = i == 0 ? 0x300014 : 0x102000 + 0x10000 * i; dev.setreg(s, 0xab); dev.setreg(s + 4, vi[i]); dev.setreg(s + 8, vi[i] >> 32); for (int k = 0; k < 84; k++) { dev.put(s + 12 + k, ea[k]); dev.put(s + 96 + k, eb[k]); }
        if (i == 0) for (int k = 0; k < 12; k++) dev.put(0x102000 + k, r.next());
        init_vdf_value(&val[i]); val[i].iters = 424242 + i; mpz_set_ui(val[i].a, 7 + i); mpz_set_si(val[i].b, -9 - i); va[i] = ref_dec(ea.data(), 21, 34, 16, 19, true);
    }
    at("status", ctx + " mask=" + std::to_string(mask));
    drv.freq_idx = r.below(VALID_PLL_FREQS);
    read_hw_status(&drv, mask, val); bad("status");
    for (int i = 0; i < 3; i++) {
        bool ok = mask >> i & 1 ? val[i].iters == vi[i] && va[i] == mpz_class(val[i].a) && vb[i] == mpz_class(val[i].b) : val[i].iters == (uint64_t)(424242 + i) && !mpz_cmp_ui(val[i].a, 7 + i) && !mpz_cmp_si(val[i].b, -9 - i);
        if (!ok) viol(mask >> i & 1 ? "status:value" : "status:unasked", "engine " + std::to_string(i) + " mask " + std::to_string(mask) + " a=" + va[i].get_str(16)); count("statuses"); clear_vdf_value(&val[i]);
    }
    eval(ctx + va[0].get_str() + std::to_string(mask));
    // framing of arbitrary transfers
    size_t n = r.chance(1, 2) ? r.range(1, 300) : r.range(1, 2500); uint32_t addr = 4 * r.below(1 << 20); Bytes w(n + 4), back(n + 8, 0xa5); for (auto& x : w) x = r.next(); dev.mem.clear(); dev.log.clear();
    at("transfer", std::to_string(n)); if (drv.ftdi.Write(addr, w.data(), n)) viol("spi:write", std::to_string(n)); bad("transfer");
    for (size_t i = 0; i < n; i++) if (dev.get(addr + i) != w[i]) { viol("spi:write", "size " + std::to_string(n) + " byte " + std::to_string(i)); break; }
    for (auto& x : dev.log) if (x.addr < addr || x.addr + x.data.size() > addr + (n + 255) / 256 * 256) viol("spi:write_extent", "size " + std::to_string(n));
    if (drv.ftdi.Read(addr, back.data(), n) || memcmp(back.data(), w.data(), n)) viol("spi:read", std::to_string(n)); bad("transfer"); for (int i = 0; i < 8; i++) if (back[n + i] != 0xa5) viol("spi:read_overrun", std::to_string(n));
    dev.short_read = true; if (!drv.ftdi.Read(addr, back.data(), n)) viol("spi:short_read_accepted", std::to_string(n)); dev.short_read = false; count("transfers"); eval(std::to_string(n) + "@" + std::to_string(addr));
}

static double fr(const pll_settings& s) { return 400.0 * (s.divfi + 1) / (2.0 * (s.divr + 1) * (s.divq + 1)); }
static void set_freq(ChiaDriver& drv, double f, const std::string& ctx) {
    int want = 0; while (want < VALID_PLL_FREQS && pll_entries[want].freq < f) want++;
    dev.log.clear(); dev.resets = 0; uint32_t before = drv.freq_idx = 4000; at("pll", ctx);
    bool ok = drv.SetPLLFrequency(f, 0); bad("pll"); count("frequencies"); eval(ctx);
    if (want == VALID_PLL_FREQS) { if (ok || drv.freq_idx != before || !dev.log.empty()) viol("pll:too_high_accepted", ctx); count("frequencies_refused"); return; }
    auto& e = pll_entries[want]; double ref = 100.0 / (e.settings.divr + 1), lo[] = {0, 7.5, 11, 18, 30, 50, 80, 130, 200}; unsigned range = 0; while (ref >= lo[range + 1]) range++;
    if (!ok || drv.freq_idx != (uint32_t)want) viol("pll:entry", ctx + " chose " + std::to_string(drv.freq_idx) + " wanted " + std::to_string(want));
    else if (dev.reg(CLOCK_PRE_DIVIDE_REG_OFFSET) != e.settings.divr || dev.reg(CLOCK_FB_DIVIDE_INTEGER_REG_OFFSET) != e.settings.divfi || dev.reg(CLOCK_POST_DIVIDE_REG_OFFSET) != e.settings.divq || dev.reg(CLOCK_FILTER_RANGE_REG_OFFSET) != range || dev.reg(CLOCK_CONTROL_REG_OFFSET) != 0) viol("pll:registers", ctx);
    else if (std::fabs(drv.GetPLLFrequency() - e.freq) > 1e-9 * e.freq) viol("pll:readback", ctx + " reads " + std::to_string(drv.GetPLLFrequency()));
    if (dev.resets != 1) viol("pll:chip_reset", ctx);
    // dividers change only while the PLL is held in reset, and the new-divider strobe follows
    int phase = 0; for (auto& w : dev.log) { uint32_t v = (uint32_t)w.data[0] << 24 | w.data[1] << 16 | w.data[2] << 8 | w.data[3];
        if (w.addr == CLOCK_CONTROL_REG_OFFSET) phase = v == 1 ? 1 : v == 4 && phase == 1 ? 2 : v == 0 && phase == 2 ? 3 : 9; else if (phase != 1) phase = 9; if (phase == 9) break; }
    if (phase != 3) viol("pll:sequence", ctx);
}
int main(int argc, char** argv) {
    Opts o = parse(argc, argv); vh::R(); if (!freopen("/dev/null", "w", stderr) && o.mode == "x") return 1;
    dev.reset(); ChiaDriver drv; if (drv.ftdi.Open()) harness_error("device model did not open"); long long n = o.cases;
    if (o.mode == "codec") cases(o, 1, n, [&](long long, Rng& r) { codec(r, drv); });
    if (o.mode == "job") cases(o, 2, n, [&](long long, Rng& r) { jobs(r, drv); });
    if (o.mode == "pll") {
        if (o.shard == 0) for (int i = 0; i < VALID_PLL_FREQS; i++) {
            auto& e = pll_entries[i]; count("table_entries"); eval("entry" + std::to_string(i));
            if (std::fabs(fr(e.settings) - e.freq) > 1e-9 * e.freq) viol("table:frequency", std::to_string(i)); if (i && !(e.freq > pll_entries[i - 1].freq)) viol("table:order", std::to_string(i));
            if (e.settings.divr > CLOCK_PRE_DIVIDE_DIVR_MASK || e.settings.divfi > CLOCK_FB_DIVIDE_INTEGER_DIVFI_MASK || e.settings.divq > CLOCK_POST_DIVIDE_DIVQ_MASK) viol("table:width", std::to_string(i));
        }
        cases(o, 3, VALID_PLL_FREQS, [&](long long i, Rng& r) {
            if (n < VALID_PLL_FREQS && i % (VALID_PLL_FREQS / n + 1) && i + 3 < VALID_PLL_FREQS && i > 2) return;
            double f = pll_entries[i].freq; char b[80]; for (int k = 0; k < 4; k++) { double g = k == 0 ? f : k == 1 ? std::nextafter(f, 0) : k == 2 ? std::nextafter(f, 1e9) : 20 + 3000.0 * (r.next() >> 11) / 9007199254740992.0; snprintf(b, 80, "f=%.17g", g); set_freq(drv, g, b); }
            for (double g : {0.0, -5.0, 3000.0001, 1e300}) { snprintf(b, 80, "f=%.17g", g); if (i % 97 == 0) set_freq(drv, g, b); }
            // a step to a given entry, as the automatic adjustment makes; engines named in the mask are stopped meanwhile
            if (i) { unsigned mask = r.below(8); int dir = r.chance(1, 2) ? 1 : -1; if (i + dir > 0 && i + dir < VALID_PLL_FREQS) { at("adjust", std::to_string(i)); drv.freq_idx = i; dev.log.clear(); for (int k = 0; k < 3; k++) dev.setreg(0x100000 + 0x10000 * k, 0x77); dev.resets = 0; adjust_hw_freq(&drv, mask, dir); bad("adjust"); count("adjustments");
                if (drv.freq_idx != (uint32_t)(i + dir) || std::fabs(drv.GetPLLFrequency() - pll_entries[i + dir].freq) > 1e-9 * f || dev.resets) viol("pll:adjust", std::to_string(i) + " dir " + std::to_string(dir));
                for (int k = 0; k < 3; k++) if (dev.reg(0x100000 + 0x10000 * k) != (mask >> k & 1 ? 1u : 0x77u)) viol("pll:adjust_engines", std::to_string(i)); } }
            if (r.chance(1, 3)) { uint32_t before = drv.freq_idx; (r.chance(1, 2) ? dev.ack : dev.lock) = false; at("noack", std::to_string(i)); if (drv.SetPLLFrequency(f, r.chance(1, 2) ? 0 : i) || drv.freq_idx != before) viol("pll:failure_unnoticed", std::to_string(i)); dev.ack = dev.lock = true; bad("noack"); count("pll_failures"); }
            if (i % 50 == 0) for (uint64_t idx : {(uint64_t)VALID_PLL_FREQS, (uint64_t)VALID_PLL_FREQS + 1 + r.below(1000), (uint64_t)UINT32_MAX, (uint64_t)(uint32_t)r.next() | 0x80000000u}) { uint32_t before = drv.freq_idx = i; dev.log.clear(); at("beyond", std::to_string(idx)); if (drv.SetPLLFrequency(0.0, idx) || drv.freq_idx != before || !dev.log.empty()) viol("pll:beyond_table", std::to_string(idx)); count("beyond_table"); }
        });
        cases(o, 4, 4 * n, [&](long long, Rng& r) {   // board settings
            double v = r.chance(1, 3) ? 0.5 + 0.5 * r.below(100001) / 100000 : r.chance(1, 2) ? 0.7 + .3 * r.below(3001) / 3000 : r.chance(1, 2) ? -1.0 + 5.0 * r.below(100001) / 100000 : (r.chance(1, 2) ? -1 : 1) * std::ldexp(1.0 + r.below(100) / 100.0, (int)r.below(80)); char b[80]; snprintf(b, 80, "volts=%.17g", v); at("volt", b);
            dev.i2c_writes = 0; dev.vr[7] = 0x55; int rc = drv.SetBoardVoltage(v); bad("volt"); double lo = .24375 + .00625 * 0x29, hi = .24375 + .00625 * 0x7a; count("voltages"); eval(b);
            if (v < lo - 1e-4 || v >= hi + 1e-4) { if (!rc || dev.i2c_writes || dev.vr[7] != 0x55) viol("volt:out_of_range_accepted", b); count("voltages_refused"); }
            else if (v > lo + 1e-4 && v < hi - 1e-4) { double g = drv.GetBoardVoltage(); if (rc || g > v + 1e-4 || g < v - .00625 - 1e-4) viol("volt:setting", std::string(b) + " reads " + std::to_string(g)); }
            dev.i2c_nack = true; if (r.chance(1, 8) && !drv.SetBoardVoltage(.88)) viol("volt:nack_unnoticed", b); dev.i2c_nack = false;
            unsigned cs = r.below(4096); dev.cs[0] = cs >> 4; dev.cs[1] = (cs & 15) << 4; double c = drv.GetBoardCurrent(); if (std::fabs(c - cs * 440.0 / 8 / 4096) > 1e-9) viol("current", std::to_string(cs) + " reads " + std::to_string(c));
            double t = -40 + .05 * r.below(3301); unsigned code; snprintf(b, 80, "temp=%.3f", t); if (!drv.SetTempAlarmEngine(t) || !drv.SetTempAlarmExternal(t)) viol("temp:refused", b); code = dev.reg(PVT_TEMP_ALARM_ENGINE_REG_OFFSET); if (code != dev.reg(PVT_TEMP_ALARM_EXTERNAL_REG_OFFSET) || code > 0x3ff || std::fabs(drv.GetTempAlarmEngine() - t) > .5) viol("temp:alarm", b); bad("temp");
        });
    }
    return finish();
}
