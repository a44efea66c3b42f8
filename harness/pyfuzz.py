"""C07: hostile arguments at the Python entry points. Runs under the sanitizer runtime; prints @VIOL/@SUM lines like the native harnesses."""
import sys, json, random, argparse, resource
import chiavdf

ap = argparse.ArgumentParser()
ap.add_argument("--seed", type=int, default=1); ap.add_argument("--shard", default="0/1"); ap.add_argument("--cases", type=int, default=100); ap.add_argument("--mode", default="fuzz")
a = ap.parse_args(); sh, nsh = map(int, a.shard.split("/"))
cnt, nviol, ev, seen = {}, 0, 0, set()

def count(k, n=1): cnt[k] = cnt.get(k, 0) + n
def viol(key, d):
    global nviol; nviol += 1
    if nviol < 20: print("@VIOL " + json.dumps({"key": key, "detail": d[:2000]}), flush=True)

FORM, SEG = 100, 141
ODD = [None, 1.5, [], {}, object(), b"", "", "x", b"\xff\xfe", True, -1, 2**64, 2**63, -2**63, 10**30, ("a",), bytearray(b"abc"), memoryview(b"abc")]

def rbytes(r, n): return r.getrandbits(8 * n).to_bytes(n, "big") if n else b""
def u64(r):
    return r.choice([0, 1, 2, r.randrange(400), r.randrange(400), r.randrange(400), 2**64 - 1, 2**64 - 30, 2**63, 1 << r.randrange(64), r.getrandbits(64), 2**64, -1])
def disc_str(r, D):
    k = r.randrange(26)
    if k < 16: return D if r.random() < .7 else str(int(D, 0))
    return r.choice(["", "0", "-", "-0x", "zz", "1", "-1", "-7", "7", "-3", "-4", "-8", "17", "-15", "12 34", "-0x7\0", "\0", " -0x17", "-0b111", "-017", "-0xg", "-" + "9" * r.randrange(1, 700), "9" * r.randrange(1, 700), "-0x" + "f" * r.randrange(1, 300),
                     D + "0", D[1:], D + "\0garbage", "\u20ac", D[:-1] + "e", "-0x8" + "0" * 300, rbytes(r, r.randrange(40)), D.encode(), D[:r.randrange(len(D))], "1e9", "0x"])
def form(r, good=None):
    k = r.randrange(12)
    if k == 0: return rbytes(r, 100)
    if k == 1: return b"\x08" + bytes(99)
    if k == 2: return b"\x04" + bytes(99)
    if k == 3: return bytes(100)
    if k == 4: return rbytes(r, r.choice([0, 1, 2, 10, 99, 101, 200]))
    if k == 5: return b"\x08"
    if k == 6:
        b = bytearray(100); b[0] = r.randrange(16); b[1] = r.randrange(3)
        for i in range(2, 40): b[i] = r.randrange(256) if r.random() < .4 else 0
        return bytes(b)
    g = bytearray(good if good and len(good) >= 100 else b"\x08" + bytes(99))[:100]
    if k < 10:
        for _ in range(r.randrange(3)): g[r.randrange(100)] ^= 1 << r.randrange(8)
    return bytes(g)

def call(name, *args, **kw):
    global ev
    ev += 1; d = name + repr(args) + repr(kw)
    seen.add(hash(d)); count("calls_" + name)
    print("@AT " + name + " " + d[:3500], flush=True)
    try:
        v = getattr(chiavdf, name)(*args, **kw)
    except SystemError as e:
        viol("system_error:" + name, d + repr(e)); return None
    except Exception as e:
        count("raised_" + type(e).__name__); return None
    count("returned")
    want = {"create_discriminant": str, "verify_wesolowski": bool, "verify_n_wesolowski": bool, "create_discriminant_and_verify_n_wesolowski": bool, "prove": bytes, "verify_n_wesolowski_with_b": tuple, "bqfc_deserialize": tuple, "get_b_from_n_wesolowski": str}[name]
    if type(v) is not want: viol("type:" + name, d + " -> " + repr(type(v)))
    if v is True or (name == "verify_n_wesolowski_with_b" and v and v[0]): count("accepted")
    return v

def one(i):
    r = random.Random("%d/%d" % (a.seed, i))
    bits = r.choice([8, 16, 24, 32, 40, 48, 64, 96, 128, 256, 504, 512, 1016, 1024]); seed = rbytes(r, r.randrange(1, 40))
    if bits == 8: seed = b"\x03" + seed
    try: D = chiavdf.create_discriminant(seed, bits)
    except Exception: D = "-0xf9cf"
    gx = b"\x08" + bytes(99); T = r.randrange(1, 200)
    try: good = chiavdf.prove(seed, gx, bits, T, "")
    except Exception: good = b""
    for _ in range(2):
        p = r.choice([good, good, form(r, good) + form(r, good[100:])]); depth = 0
        while r.random() < .35 and depth < 4:
            s = r.choice([0, 1, T, r.randrange(300), r.getrandbits(64)]).to_bytes(8, "big") + r.choice([bytes(33), rbytes(r, 33), bytes(32) + b"\x01"]) + form(r, good[100:])
            p += s; depth += 1
        if r.random() < .2: p = p[:r.randrange(len(p) + 1)] + rbytes(r, r.randrange(3))
        if r.random() < .15: depth = u64(r)
        t = T if r.random() < .6 else u64(r); x = gx if r.random() < .5 else form(r, good); b = bits if r.random() < .7 else u64(r)
        ds = disc_str(r, D)
        A = {"verify_n_wesolowski": [ds, x, p, t, b, depth], "create_discriminant_and_verify_n_wesolowski": [seed if r.random() < .8 else rbytes(r, r.randrange(3)), b if r.random() < .8 else r.choice([0, -8, 7, 2**31 - 8, -2**31, 1032, 2**31]), x, p, t, depth],
             "verify_wesolowski": [ds, x, p[:100], p[100:200], t], "verify_n_wesolowski_with_b": [ds, r.choice(["0", "1", "-5", "0x%x" % r.getrandbits(264), "", "zz", disc_str(r, D)]), x, p[100:] if r.random() < .8 else p, t, depth],
             "get_b_from_n_wesolowski": [ds, x, p, t, depth], "bqfc_deserialize": [ds, form(r, good), r.random() < .5],
             "create_discriminant": [rbytes(r, r.choice([0, 1, 2, 10, 100, 5000])), r.choice([0, 1, 7, 8, 16, 24, 100, 512, 1024, 1032, -8, 2**31 - 8, -2**31, 2**31, 4096])]}
        # iteration counts the prover really runs stay small; see the 'huge' mode for the others
        A["prove"] = [seed if r.random() < .8 else rbytes(r, r.randrange(40)), x, r.choice([bits, bits, bits, 0, 8, -8, 9, 1032, 2**31 - 1]), r.randrange(200), r.choice(["", "", "/nonexistent", "/dev/null", "\0", "a" * 5000])]
        for name, args in A.items():
            if r.random() < .12: args[r.randrange(len(args))] = r.choice(ODD)
            if name == "prove" and type(args[3]) is int and args[3] > 10**4: args[3] = 3
            if r.random() < .04: args = args[:-1] if r.random() < .5 else args + [r.choice(ODD)]
            call(name, *args)
    if i == 0: print("@SMP", flush=True)

def huge(i):
    r = random.Random("h%d/%d" % (a.seed, i)); x = b"\x08" + bytes(99)
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    t = r.choice([2**64 - 1, 2**64 - 2, 2**64 - r.randrange(1, 500), 2**63, 2**63 + r.randrange(1000), 2**62, 10**15, 2**50 + r.getrandbits(40)])
    v = call("prove", rbytes(r, 10), x, r.choice([64, 512, 1024]), t, "")
    if v: viol("prove:impossible", "T=%d returned %d bytes" % (t, len(v)))
    count("huge_counts")

for i in range(sh, a.cases, nsh): (huge if a.mode == "huge" else one)(i)
print("@SUM " + json.dumps({"evaluations": ev, "distinct": len(seen), "counters": cnt, "samples": ["create_discriminant/prove/verify*/get_b/bqfc_deserialize with hostile arguments, seed %d shard %s" % (a.seed, a.shard)], "violations": nviol}), flush=True)
