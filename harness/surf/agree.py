"""C19: the same arguments on every surface; prints @VIOL/@SUM lines. Python surface in-process, the others behind line servers."""
import sys, json, random, argparse, subprocess, threading
import chiavdf

ap = argparse.ArgumentParser()
for k in ("c", "cxx", "rust"): ap.add_argument("--" + k)
ap.add_argument("--seed", type=int, default=1); ap.add_argument("--shard", default="0/1"); ap.add_argument("--cases", type=int, default=100)
a = ap.parse_args(); sh, nsh = map(int, a.shard.split("/"))
cnt, nviol, ev, seen = {}, 0, 0, set()
def count(k, n=1): cnt[k] = cnt.get(k, 0) + n
def viol(key, d):
    global nviol; nviol += 1
    if nviol < 20: print("@VIOL " + json.dumps({"key": key, "detail": str(d)[:3000]}), flush=True)

class Srv:
    def __init__(self, name, cmd): self.name, self.cmd = name, cmd; self.p = subprocess.Popen([cmd], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
    def ask(self, *t):
        l = " ".join(str(x) for x in t)
        self.p.stdin.write(l + "\n"); self.p.stdin.flush(); r = self.p.stdout.readline()
        if not r:
            self.p.wait(); viol("surface_died:%s:%s" % (self.name, t[0]), "rc=%s request %s" % (self.p.returncode, l)); self.p = subprocess.Popen([self.cmd], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True); return "died"
        return r.strip()
    def close(self):
        self.p.stdin.close(); rc = self.p.wait()
        if rc: viol("surface_exit:" + self.name, "rc=%d at end of input (leak or sanitizer report)" % rc)
C, X, R = Srv("c", a.c), Srv("cxx", a.cxx), Srv("rust", a.rust)
hx = lambda b: b.hex() if b else "-"

def py(name, *args):
    try: return getattr(chiavdf, name)(*args)
    except Exception as e: return "raise:" + type(e).__name__
raised = lambda v: isinstance(v, str) and v.startswith("raise:")
def same_exc(x, p):
    """C++ exception class against Python's documented translation."""
    if x.startswith("raise:") != raised(p): return False
    return x == p or not x.startswith("raise:") or (x == "raise:other") or (x in ("raise:ValueError", "raise:RuntimeError", "raise:MemoryError") and x == p)
def judge(op, args, res):
    global ev
    ev += 1; count("tuples_" + op); seen.add(hash((op,) + tuple(args)))
    count("outcome_" + op + "_" + ("raise" if raised(res) else "refused" if res in (False, "false") else "value"))

def create(seed, bits):
    p = py("create_discriminant", seed, bits); x = X.ask("create", hx(seed), bits)
    judge("create", (seed, bits), p); at = "seed=%s bits=%d" % (seed.hex(), bits)
    if raised(p) or raised(x):
        if not same_exc(x, p): viol("create:python_vs_cxx", "%s: %s / %s" % (at, p, x))
        val = None
    else:
        val = int(p, 0)
        if x != "ok:" + ("-%x" % -val): viol("create:python_vs_cxx", "%s: %s / %s" % (at, p, x))
    if bits >= 0:
        c = C.ask("create", hx(seed), bits)
        want = "fail" if val is None else "ok:" + (-val).to_bytes((bits + 7) // 8, "big").hex()
        if c != want: viol("create:c", "%s: C %s, Python %s" % (at, c, p))
        if bits % 8 == 0 and bits <= 65536:
            r = R.ask("create", hx(seed), bits)
            if r != want: viol("create:rust", "%s: Rust %s, Python %s" % (at, r, p))
    return val
def prove(seed, x, bits, T):
    p = py("prove", seed, x, bits, T, ""); cx = X.ask("prove", hx(seed), hx(x), bits, T); at = "seed=%s x=%s bits=%d T=%d" % (seed.hex(), x.hex(), bits, T)
    judge("prove", (seed, x, bits, T), p)
    if raised(p) or raised(cx):
        if not same_exc(cx, p): viol("prove:python_vs_cxx", "%s: %s / %s" % (at, p, cx))
        want = "fail"
    else:
        want = "ok:" + p.hex()
        if cx != want: viol("prove:python_vs_cxx", "%s: %s / %s" % (at, p.hex(), cx))
    if bits >= 0:
        for s in (C, R):
            v = s.ask("prove", hx(seed), hx(x), bits, T)
            if v != want: viol("prove:" + s.name, "%s: %s / Python %s" % (at, v, want))
    return None if raised(p) else p
def verdict(v): return v if isinstance(v, str) else ("true" if v else "false")
def verify(mag, x, blob, T, depth, bits=None, neg=True):
    """mag: big-endian magnitude bytes of the discriminant"""
    D = int.from_bytes(mag, "big") * (-1 if neg else 1); b = 8 * len(mag) if bits is None else bits
    p = py("verify_n_wesolowski", hex(D), x, blob, T, b, depth); at = "D=%x x=%s blob=%s T=%d depth=%d bits=%d" % (D, x.hex(), blob.hex(), T, depth, b)
    judge("verify", (mag, x, blob, T, depth, b), p)
    if len(x) == 100:
        cx = X.ask("verify", hex(D), hx(x), hx(blob), T, depth, b)
        if raised(cx) != raised(p) or (not raised(p) and cx != verdict(p)) or not same_exc(cx, p): viol("verify:python_vs_cxx", "%s: %s / %s" % (at, p, cx))
        if bits is None and neg:
            want = "true" if p is True else "false"
            for s in (C, R):
                v = s.ask("verify", hx(mag), hx(x), hx(blob), T, depth)
                if v != want: viol("verify:" + s.name, "%s: %s / Python %s" % (at, v, p))
    else:
        if p is True: viol("verify:python_short_x", at)
        if bits is None and neg:
            v = R.ask("verify", hx(mag), hx(x), hx(blob), T, depth)
            if v != "false": viol("verify:rust_short_x", at + ": " + v)
    if p is True: count("accepted")
    if len(x) == 100 and len(blob) == 200:
        s = py("verify_wesolowski", hex(D), x, blob[:100], blob[100:], T); cx = X.ask("simple", hex(D), hx(x), hx(blob[:100]), hx(blob[100:]), T); judge("simple", (mag, x, blob, T), s)
        if raised(cx) != raised(s) or (not raised(s) and cx != verdict(s)) or not same_exc(cx, s): viol("simple:python_vs_cxx", "%s: %s / %s" % (at, s, cx))
        if depth == 0 and 0 < b <= 1024 and not raised(s) and not raised(p) and s != p: viol("simple:vs_verify_n", "%s: %s / %s" % (at, s, p))
    return p
def other(r, D, x, blob, T, depth):
    g = py("get_b_from_n_wesolowski", hex(D), x, blob, T, depth); at = "D=%x x=%s blob=%s T=%d depth=%d" % (D, x.hex(), blob.hex(), T, depth); judge("getb", (D, x, blob, T, depth), g)
    if len(x) == 100:
        cx = X.ask("getb", hex(D), hx(x), hx(blob), T, depth)
        if raised(g) or raised(cx):
            if not same_exc(cx, g): viol("getb:python_vs_cxx", "%s: %s / %s" % (at, g, cx))
        elif cx != "ok:%x" % int(g, 0): viol("getb:python_vs_cxx", "%s: %s / %s" % (at, g, cx))
    B = int(g, 0) if not raised(g) and r.random() < .7 else r.choice([0, 1, -3, r.getrandbits(264)])
    pb = blob[100:]
    w = py("verify_n_wesolowski_with_b", hex(D), hex(B), x, pb, T, depth); judge("withb", (D, B, x, pb, T, depth), w)
    if len(x) == 100:
        cx = X.ask("withb", hex(D), hex(B), hx(x), hx(pb), T, depth)
        if raised(w) or raised(cx):
            if not same_exc(cx, w): viol("withb:python_vs_cxx", "%s B=%x: %s / %s" % (at, B, w, cx))
        elif cx != "%s:%s" % (verdict(w[0]), w[1].hex()): viol("withb:python_vs_cxx", "%s B=%x: %s / %s" % (at, B, w, cx))
        if not raised(w) and w[0]: count("withb_accepted")
    for f in (blob[:100], x):
        strict = r.random() < .5; d = py("bqfc_deserialize", hex(D), f, strict); cx = X.ask("form", hex(D), hx(f), int(strict)); judge("form", (D, f, strict), d)
        if raised(d) or raised(cx):
            if not (raised(d) and raised(cx)): viol("form:python_vs_cxx", "%s strict=%s: %s / %s" % (at, strict, d, cx))
        else:
            sg = lambda q: int.from_bytes(q[1:], "big") * (-1 if q[0] else 1)
            if cx != "ok:%x:%x" % (sg(d[0]), sg(d[1])): viol("form:python_vs_cxx", "%s strict=%s: %s / %s" % (at, strict, d, cx))
            if any(q[0] not in (0, 1) or (len(q) > 1 and q[1] == 0) for q in d): viol("form:encoding", at)
    return g

def mutate(r, b):
    b = bytearray(b)
    k = r.randrange(6)
    if k < 3 and b: b[r.randrange(len(b))] ^= 1 << r.randrange(8)
    elif k == 3: b = b[:r.randrange(len(b) + 1)]
    elif k == 4: b += bytes([r.randrange(256)])
    elif b: b[0] = r.randrange(16)
    return bytes(b)

def one(i):
    r = random.Random("agree%d/%d" % (a.seed, i)); gen = b"\x08" + bytes(99)
    if i % 4 == 0:
        for _ in range(3): create(r.randbytes(r.choice([0, 1, 2, 8, 32, 33, 64, 200])), r.choice([0, 1, 7, 9, 12, 100, 1025, 1032, 1040, 2048, 65536, 2**31 - 1, -1, -8, -1024]))
    bits = r.choice([16, 24, 32, 40, 64, 72, 128, 200, 256, 504, 512, 520, 1000, 1016, 1024, 1024]); seed = r.randbytes(r.choice([1, 2, 3, 10, 32, 32, 64, 100]))
    D = create(seed, bits)
    if D is None: return
    mag = (-D).to_bytes(bits // 8, "big"); x = gen if r.random() < .5 else b"\x04" + bytes(99); T = r.choice([0, 1, 2, 3, r.randrange(200), r.randrange(200), r.randrange(3000)])
    if r.random() < .25: T = r.choice([2**64 - 1, 2**64 - 3, 2**63])  # must fail alike (memory) on every surface
    p1 = prove(seed, x, bits, T)
    if r.random() < .3: prove(seed, mutate(r, x), bits, r.randrange(50))
    if r.random() < .15: prove(b"" if r.random() < .5 else seed, x, r.choice([0, 9, bits + 1, 1032, -8]), 3)
    if not p1: return
    T2 = r.randrange(300); x2 = p1[:100]; p2 = prove(seed, x2, bits, T2)
    stm = [(x, p1, T, 0), (x2, p2, T2, 0)]
    B = py("get_b_from_n_wesolowski", hex(D), x, p1, T, 0)
    if not raised(B): stm.append((x, p2 + T.to_bytes(8, "big") + int(B, 0).to_bytes(33, "big") + p1[100:], T + T2, 1))
    B2 = py("get_b_from_n_wesolowski", hex(D), x2, p2, T2, 0)
    if not raised(B2) and not raised(B) and r.random() < .5:
        T3 = r.randrange(80); p3 = prove(seed, p2[:100], bits, T3)
        stm.append((x, p3 + T2.to_bytes(8, "big") + int(B2, 0).to_bytes(33, "big") + p2[100:] + T.to_bytes(8, "big") + int(B, 0).to_bytes(33, "big") + p1[100:], T + T2 + T3, 2))
    for (sx, sp, sT, sd) in stm:
        if sp is None: continue
        if verify(mag, sx, sp, sT, sd) is not True: count("honest_refused")
        other(r, D, sx, sp, sT, sd)
        sv = py("create_discriminant_and_verify_n_wesolowski", seed, bits, sx, sp, sT, sd); judge("seeded", (seed, bits, sx, sp, sT, sd), sv)
        if sv is not True: viol("seeded:refuses_accepted", "seed=%s bits=%d x=%s blob=%s T=%d depth=%d: %s" % (seed.hex(), bits, sx.hex(), sp.hex(), sT, sd, sv))
        for _ in range(2):
            m = [mag, sx, sp, sT, sd]; w = r.randrange(8)
            if w < 2: m[2] = mutate(r, sp)
            elif w == 2: m[1] = mutate(r, sx)
            elif w == 3: m[3] = (sT + r.choice([1, -1, 2**63])) % 2**64
            elif w == 4: m[4] = r.choice([sd + 1, max(0, sd - 1), 2**63, 2**64 - 1, 64])
            elif w == 5: m[0] = mutate(r, mag) or b"\x07"
            elif w == 6: m[0] = bytes(r.randrange(4)) + mag
            v = verify(*m)
            if w == 7: verify(mag, sx, sp, sT, sd, r.choice([0, 1, bits, bits - 1, bits + 1, 1024, 1025, 2**32, 2**64 - 1]), r.random() < .8)
            if r.random() < .4: other(r, -int.from_bytes(m[0], "big"), *m[1:])
            sb = bits if r.random() < .8 else r.choice([0, 9, 1032]); args = (seed, sb, m[1], m[2], m[3], m[4]); s = py("create_discriminant_and_verify_n_wesolowski", *args); judge("seeded", args, s)
            if len(m[1]) == 100:
                cx = X.ask("seeded", hx(seed), hx(m[1]), hx(m[2]), m[3], m[4], sb)
                if raised(cx) != raised(s) or (not raised(s) and cx != verdict(s)) or not same_exc(cx, s): viol("seeded:python_vs_cxx", "%s: %s / %s" % (args, s, cx))
            elif s is True: viol("seeded:short_x", str(args))
    if i < 2 * nsh: smp.append("bits=%d T=%d depth=0..2 seed=%s" % (bits, T, seed.hex()))
smp = []
for i in range(sh, a.cases, nsh): print("@AT case %d" % i, flush=True); one(i)
for s in (C, X, R): s.close()
print("@SUM " + json.dumps({"evaluations": ev, "distinct": len(seen), "counters": cnt, "samples": smp, "violations": nviol}), flush=True)
