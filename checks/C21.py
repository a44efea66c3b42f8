"""C21: hardware register codec, job placement and PLL selection."""
import os
import vlib

HW = ["-w", "-I" + os.path.join(vlib.SRC, "hw"), "-I" + os.path.join(vlib.VERIF, "harness/ft4222"), "-Wno-unused-variable"]
def src(*n): return [os.path.join(vlib.SRC, x) for x in n]
DRIVER = src("hw/hw_util.cpp", "hw/hw_interface.cpp", "hw/chia_driver.cpp", "hw/ftdi_driver.cpp", "hw/vdf_driver.cpp", "hw/pll_freqs.cpp")
def driver(flavor): return vlib.program("c21", ["c21.cpp"] + DRIVER, flavor, HW, lz=False)

def check(ck):
    ck.rule = ("one case = one value written and read back, one register content decoded, one job or status transfer, or one frequency, voltage or alarm setting, through the real driver against a register-level model of the device behind the vendor library; distinct by value and geometry; "
               "oracle: an independent bit-level codec, the register map, and the definition of the PLL frequency")
    ck.assumptions = ["the vendor USB library is replaced by a model that checks every SPI frame and delivers it faithfully, except for the injected missing acknowledge, missing lock, short read and I2C refusal"]
    p, a, u = vlib.build_many([lambda f=f: driver(f) for f in ("plain", "asan", "casan")])
    H = lambda e, m, n, k, **kw: [lambda i=i: vlib.harness(ck, e, ["--mode", m, "--seed", vlib.SEED, "--cases", n, "--shard", "%d/%d" % (i, k)], ck.pick(300, 3600), **kw) for i in range(k)]
    q = ck.pick
    vlib.parallel(H(p, "codec", q(120000, 8000000), 4) + H(p, "job", q(12000, 800000), 4) + H(p, "pll", q(2600, 40000), 4) + H(a, "codec", q(8000, 400000), 2, prefix="asan_", tag="asan_build:") + H(a, "job", q(1600, 60000), 2, prefix="asan_", tag="asan_build:") + H(u, "pll", q(400, 9000), 2, prefix="asan_", tag="asan_build:") + H(u, "codec", q(6000, 300000), 1, prefix="asan_", tag="asan_build:"))
    for k, n in dict(negative=30000, nonnegative=30000, redundant=20000, arbitrary=80000, other_geometries=15000, jobs=9000, statuses=30000, transfers=9000, frequencies=7000, frequencies_refused=30, table_entries=8003, adjustments=1500, beyond_table=100, pll_failures=300, voltages=4000, voltages_refused=500).items(): ck.need(k, n)
