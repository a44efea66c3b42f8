"""Shared by the socket peers: counters, violations, the judge, and well-formed and hostile session openings."""
import sys, os, json, random, argparse, subprocess, threading, socket, struct, time, re, resource, tempfile, collections
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vlib

a = None
cnt, seen, samples, ev, nviol = {}, set(), [], 0, 0
L = threading.Lock()
def count(k, n=1):
    with L: cnt[k] = cnt.get(k, 0) + n
def maxi(k, n):
    with L: cnt["max_" + k] = max(cnt.get("max_" + k, n), n)
def viol(key, d):
    global nviol
    with L:
        nviol += 1
        if nviol < 20: print("@VIOL " + json.dumps({"key": key, "detail": str(d)[:3500]}), flush=True)
def evald(desc):
    global ev
    with L: ev += 1; seen.add(hash(desc))

class Judge:
    def __init__(self): self.p = subprocess.Popen([a.judge], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True); self.l = threading.Lock()
    def ask(self, *t):
        with self.l:
            self.p.stdin.write(" ".join(str(x) for x in t) + "\n"); self.p.stdin.flush(); r = self.p.stdout.readline()
        if not r: print("@HARNESS judge died on " + " ".join(str(x) for x in t)[:500], flush=True); os._exit(97)
        return r.split()
J = []
def judge(*t): return random.choice(J).ask(*t)
def setup(args):
    global a, sh, nsh
    a = args; sh, nsh = map(int, a.shard.split("/")); J.extend(Judge() for _ in range(2)); return sh, nsh
def sample(t, n=3):
    with L:
        if len(samples) < n: samples.append(t)
def finish(): print("@SUM " + json.dumps({"evaluations": ev, "distinct": len(seen), "counters": cnt, "samples": samples}), flush=True)


def be(n): return "%02d%s" % (len(str(n)), n)
def params(r, kind):
    if kind == "small": bits, known = r.randrange(20, 45), 1
    elif kind == "mid": bits, known = r.randrange(100, 700), 0
    else: bits, known = r.choice([1024, 1024, 1024, 1000, 512, 768]), 0
    D, x, order = judge("gen", r.getrandbits(62), bits, known)
    return int(D), bytes.fromhex(x), int(order)
def hello(r, typ, D, x):
    s = str(D) if r.random() < .6 else hex(D)
    if len(s) > 349: s = str(D)
    x = x.rstrip(b"\0") if r.random() < .3 else x
    return typ.encode() + b"%03d" % len(s) + s.encode() + bytes([len(x)]) + x
def dribble(r, s, data):
    """Send in pieces of random size, sometimes slowly."""
    k = r.random()
    if k < .5: s.sendall(data); return
    i = 0
    while i < len(data):
        n = 1 if k > .85 else r.randrange(1, 60); s.sendall(data[i:i + n]); i += n
        if r.random() < .15: time.sleep(r.random() * .01)

def is_prime(n):
    if n < 2: return False
    for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % p == 0: return n == p
    d, s = n - 1, 0
    while d % 2 == 0: d //= 2; s += 1
    for b in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        v = pow(b, d, n)
        if v in (1, n - 1): continue
        for _ in range(s - 1):
            v = v * v % n
            if v == n - 1: break
        else: return False
    return True
def hostile_disc(r):
    k = r.randrange(24)
    if k >= 16:   # right shape, wrong arithmetic: composite, square factors, a handful of classes
        w = r.randrange(5); rb = lambda m: r.getrandbits(r.randrange(1, m)) | 1
        n = rb(12) if w == 0 else rb(200) * rb(200) if w == 1 else rb(12) ** 2 * rb(300) if w == 2 else rb(16) * rb(16) * rb(16) * rb(60) if w == 3 else rb(1000) * rb(10)
        if n % 4 == 1: n *= 3
        if r.random() < .7 and n % 8 == 3: n *= 5      # 5*3 = 7 mod 8
        return str(-n)
    if k == 0: return str(r.choice([0, 1, -1, 2, -2, 3, -3, 4, -4, 5, 7, -7, 8, -8, -11, -12, -15, -16, -19, -20, -23, -24, -31, -39, -47, 17, 23]))
    if k == 1: return str(-r.randrange(1, 5000))
    if k == 2: return str(-(4 * r.randrange(0, 3000) + 3))
    if k == 3: return str(r.getrandbits(r.randrange(1, 1100)))
    if k == 4: return str(-(r.getrandbits(r.randrange(1, 1100)) | 1))
    if k == 5: return "-0x%x" % (r.getrandbits(r.randrange(1, 1370)) | 7)
    if k == 6: return "-%d" % (r.getrandbits(r.randrange(1025, 1150)) | 7)
    if k == 7: p = r.getrandbits(r.randrange(2, 500)) | 1; return str(-p * p)
    if k == 8: p = r.getrandbits(r.randrange(2, 250)) | 1; q = r.getrandbits(r.randrange(2, 250)) | 1; n = p * q; return str(-(n if n % 4 == 3 else n * 3 if (n * 3) % 4 == 3 else n))
    if k == 9: return r.choice(["", "-", "--7", "- 7", " -7", "-7 ", "+7", "0x", "-0x", "-0b111", "-017", "0", "-0", "abc", "-7\0", "\0", "-1e9", "nan", "-\u0663".encode().decode("latin1"), "-7\n", "-9999999999999999999999999999999999x"])
    if k == 10: return "".join(chr(r.randrange(1, 256)) for _ in range(r.randrange(1, 349)))
    if k == 11: return "-" + "0" * r.randrange(1, 300) + str(4 * r.randrange(0, 10**9) + 3)
    if k == 12: return str(-(2 ** r.choice([63, 64, 65, 127, 128, 512, 1024]) - 1))
    if k == 13: return "-" + "9" * 348
    if k == 14: return str(-8 * r.getrandbits(r.randrange(10, 1000)))
    n = (r.getrandbits(r.randrange(20, 300)) | 3)
    return str(-n)
def form_bytes(r, D, fit=False):
    k = r.randrange(9)
    if fit and D is not None and D < 0 and D % 4 == 1 and r.random() < .8: k = r.choice([0, 1, 7, 7, 7, 8])
    if k == 0: return b"\x08"
    if k == 1: return b"\x04"
    if k == 2: return bytes([r.randrange(256)]) + bytes(99)
    if k == 3: return r.randbytes(100)
    if k == 4: return bytes([r.randrange(4)]) + bytes([r.randrange(3)]) + r.randbytes(98)
    if k == 5: return r.randbytes(r.randrange(1, 127))
    if k == 6: return bytes(r.randrange(1, 101))
    try:
        b = bytearray(bytes.fromhex(judge("form", r.getrandbits(62), D)[0])) if D is not None and D < -6 and D % 4 == 1 and D.bit_length() <= 1024 and (fit or is_prime(-D)) else bytearray(b"\x08" + bytes(99))
    except Exception: b = bytearray(b"\x08")
    if k == 8: b[r.randrange(len(b))] ^= 1 << r.randrange(8)
    return bytes(b)
def num(s):
    try: return int(s, 0) if not re.fullmatch(r"-?0[0-7]+", s) else int(s.replace("-", "-0o", 1) if s[0] == "-" else "0o" + s, 8)
    except ValueError: return None
