"""The Python API while the interpreter handles signals: every answer must be the one given undisturbed."""
import argparse, hashlib, json, random, signal, sys, threading, time
import chiavdf as c
a = argparse.ArgumentParser(); [a.add_argument("--" + k, default=d) for k, d in (("mode", ""), ("cases", "10"), ("seed", "1"), ("shard", "0/1"))]; o, _ = a.parse_known_args()
sh, ns = map(int, o.shard.split("/")); cnt = {}; seen = set(); evals = 0; samples = []
def count(k, n=1): cnt[k] = cnt.get(k, 0) + n
def viol(key, d): print("@VIOL " + json.dumps({"key": key, "detail": d}), flush=True)
class Stop(Exception): pass
got = 0; raising = False
def handler(s, f):
    global got
    got += 1
    if raising: raise Stop()
def call(f):
    try: return f()
    except Stop: raise
    except Exception as e: return "%s: %s" % (type(e).__name__, e)
X = bytes([8]) + bytes(99)
for i in range(int(o.cases)):
    if i % ns != sh: continue
    r = random.Random("%s/%d" % (o.seed, i)); ch = bytes(r.randrange(256) for _ in range(32)); bits = r.choice([256, 512, 768, 1024]); T = r.choice([500, 3000, 20000, 60000])
    signal.setitimer(signal.ITIMER_REAL, 0); raising = False; signal.signal(signal.SIGALRM, handler)
    D = c.create_discriminant(ch, bits); p = c.prove(ch, X, bits, T, ""); bad = bytearray(p); bad[r.randrange(len(bad))] ^= 1 << r.randrange(8); bad = bytes(bad)
    calls = {"create_discriminant": lambda: c.create_discriminant(ch, bits), "prove": lambda: c.prove(ch, X, bits, T, ""), "verify": lambda: c.verify_n_wesolowski(D, X, p, T, bits, 0), "verify_bad": lambda: c.verify_n_wesolowski(D, X, bad, T, bits, 0),
             "challenge_verify": lambda: c.create_discriminant_and_verify_n_wesolowski(ch, bits, X, p, T, 0), "get_b": lambda: c.get_b_from_n_wesolowski(D, X, p, T, 0)}
    want = {k: call(f) for k, f in calls.items()}
    if want["verify"] is not True or want["prove"] != p: viol("py:undisturbed", "ch=%s bits=%d T=%d" % (ch.hex(), bits, T)); continue
    raising = r.random() < .2; res = []
    other = threading.Thread(target=lambda: res.append(("prove", call(calls["prove"])))) if r.random() < .5 else None
    if other: other.start()
    for k in r.sample(list(calls), len(calls)):
        g0 = got
        try:
            signal.setitimer(signal.ITIMER_REAL, 0.0003, 0.0003 if not raising else 0); v = call(calls[k]); signal.setitimer(signal.ITIMER_REAL, 0)
            res.append((k, v))
        except Stop: signal.setitimer(signal.ITIMER_REAL, 0); count("py_handler_raised")
        count("py_calls_interrupted", 1 if got > g0 else 0)
    if other: other.join()
    for k, v in res:
        evals += 1; seen.add((k, ch))
        if v != want[k]: viol("py:changed:" + k, "ch=%s bits=%d T=%d under signals: %s, undisturbed %s" % (ch.hex(), bits, T, str(v)[:300], str(want[k])[:300]))
    if len(samples) < 4: samples.append("ch=%s bits=%d T=%d: %d answers equal under signals" % (ch.hex()[:16], bits, T, len(res)))
count("py_signals", got)
print("@SUM " + json.dumps({"evaluations": evals, "distinct": len(seen), "counters": cnt, "samples": samples}), flush=True)
