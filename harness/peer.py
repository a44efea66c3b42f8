"""The other end of the timelord client's socket: well-formed sessions (mode good) judged reply by reply, hostile or
vanishing peers (mode bad) judged by how the client process ends. Prints @VIOL/@SUM lines."""
import sys, os, json, random, argparse, subprocess, threading, socket, struct, time, re, resource, tempfile, collections
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vlib

ap = argparse.ArgumentParser()
ap.add_argument("--exe"); ap.add_argument("--judge"); ap.add_argument("--mode", default="good"); ap.add_argument("--types", default="SNT"); ap.add_argument("--bits", default="small")
ap.add_argument("--seed", type=int, default=1); ap.add_argument("--shard", default="0/1"); ap.add_argument("--cases", type=int, default=10); ap.add_argument("--only", type=int, default=-1)
ap.add_argument("--workers", type=int, default=4); ap.add_argument("--scale", type=int, default=1000); ap.add_argument("--rate", type=int, default=250000); ap.add_argument("--slow", type=float, default=1.0)
ap.add_argument("--wrap", default=""); ap.add_argument("--as_gb", type=int, default=0); ap.add_argument("--san", default=""); ap.add_argument("--phase", default="")
import peerlib
from peerlib import *
a = ap.parse_args(); sh, nsh = setup(a)

class Client:
    """One client process and its connection; a reader thread splits what it sends into OK / replies / STOP / rest."""
    def __init__(self, env, connect=True):
        self.ls = socket.socket(); self.ls.bind(("127.0.0.1", 0)); self.ls.listen(1); self.ls.settimeout(60 * a.slow)
        e = dict(os.environ, **vlib.SAN_ENV); e.update({k: str(v) for k, v in env.items()}); self.errf = tempfile.TemporaryFile()
        self.p = subprocess.Popen((a.wrap.split() if a.wrap else []) + [a.exe, "127.0.0.1", str(self.ls.getsockname()[1]), "0"], env=e, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=self.errf, start_new_session=True)
        if a.as_gb: resource.prlimit(self.p.pid, resource.RLIMIT_AS, (a.as_gb << 30, a.as_gb << 30))
        self.buf = b""; self.ok = False; self.replies = []; self.stop = False; self.eof = False; self.framing = None; self.after = b""; self.cv = threading.Condition(); self.s = None; self.reading = True
        try: self.s, _ = self.ls.accept()
        except socket.timeout: raise RuntimeError("client did not connect: " + self.stderr()[-1500:])
        self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
    def start_reader(self): self.t = threading.Thread(target=self.reader, daemon=True); self.t.start()
    def reader(self):
        while True:
            try: d = self.s.recv(65536)
            except OSError: d = b""
            with self.cv:
                if d: self.buf += d; self.parse()
                else: self.eof = True
                self.cv.notify_all()
            if not d: return
    def parse(self):
        while self.buf and not self.framing:
            if self.stop: self.after += self.buf; self.buf = b""; return
            if not self.ok:
                if len(self.buf) < 2: return
                if self.buf[:2] == b"OK": self.ok = True; self.buf = self.buf[2:]; continue
            if len(self.buf) < 4: return
            if self.buf[:4] == b"STOP": self.stop = True; self.buf = self.buf[4:]; continue
            n = struct.unpack(">I", self.buf[:4])[0]
            if not self.ok or n < 2 * (8 + 8 + 1) or n > 100000 or n % 2: self.framing = "bad frame start %r after %d replies" % (self.buf[:40], len(self.replies)); return
            if len(self.buf) < 4 + n: return
            body = self.buf[4:4 + n]; self.buf = self.buf[4 + n:]
            try: raw = bytes.fromhex(body.decode("ascii")) if re.fullmatch(rb"[0-9a-f]*", body) else None
            except Exception: raw = None
            if raw is None: self.framing = "reply body is not hex: %r" % body[:80]; return
            it, yl = struct.unpack(">QQ", raw[:16])
            if yl != 100 or len(raw) < 16 + yl + 1: self.framing = "reply layout: iterations %d, y size %d, %d bytes" % (it, yl, len(raw)); return
            self.replies.append((time.time(), it, raw[16:16 + yl], raw[16 + yl], raw[17 + yl:]))
    def wait(self, pred, t):
        end = time.time() + t
        with self.cv:
            while not pred() and not self.eof and not self.framing:
                left = end - time.time()
                if left <= 0: return False
                self.cv.wait(left)
            return bool(pred())
    def stderr(self):
        self.errf.seek(0); return self.errf.read().decode(errors="replace")
    def exit(self, t):
        try: return self.p.wait(t)
        except subprocess.TimeoutExpired: return None
    def kill(self):
        try: os.killpg(self.p.pid, 9)
        except Exception: pass
        self.p.wait()
    def close(self):
        for s in (self.s, self.ls):
            try: s.close()
            except Exception: pass
    def abnormal(self, rc, where, ctx):
        """Sanitizer reports, signals, aborts and odd exit codes; True when the end was ordinary."""
        err = self.stderr()
        if a.san == "tsan":
            reps = vlib.tsan_reports(err); count("tsan_reports", len(reps))
            for k, d in reps: viol(k, ctx + "\n" + d[:2500])
            if reps: return False
        if a.wrap and ("== Invalid" in err or "uninitialised" in err): viol("memcheck:" + where, ctx + "\n" + err[:2500]); return False
        c = vlib.classify(rc, err)
        if c: viol("%s:%s" % (c[0], where), ctx + "\n" + c[1][:2500]); return False
        if rc not in (0, 1): viol("exit:%s:%s" % (rc, where), ctx + "\n" + err[-1500:]); return False
        return True

def env_for(r, typ, rate=None):
    e = {"ROUGH_SEED": r.getrandbits(30), "ROUGH_SLEEPDIV": r.choice([1, 4, 20, 20])}
    if typ == "N": e["ROUGH_RATE"] = rate or a.rate
    if r.random() < .5: e["ROUGH_IO"] = r.choice([1, 200, 3000])
    if r.random() < .4: e["ROUGH_PPM"] = r.choice([50, 1000, 20000]) if typ != "N" else r.choice([5, 50]); e["ROUGH_US"] = r.choice([100, 2000])
    if r.random() < .3: e["ROUGH_COND"] = r.choice([5000, 200000]); e["ROUGH_UNLOCK"] = r.choice([0, 200])
    return e
def t_limit(): return 800000000 // a.scale - 500000

class TModel:
    """What a 2-weso session takes on: new iterations below the limit; after a hundred only ones below all others, dropping the largest."""
    def __init__(self): self.n = 0; self.seen = set(); self.dropped = set()
    def take(self, it):
        if it in self.seen or it >= t_limit(): return False
        if self.n >= 100 and self.seen and it >= min(self.seen): return False
        if self.n >= 100 and self.seen: m = max(self.seen); self.seen.discard(m); self.dropped.add(m)
        self.seen.add(it); self.n += 1; return True

def good(i):
    r = random.Random("peer%d/%d" % (a.seed, i)); typ = a.types[i % len(a.types)]; D, x, order = params(r, a.bits); slow = a.slow
    small = a.bits == "small"; speed = (a.rate if typ == "N" else 400000 if small else 60000) / slow; span = int(speed * (3 if small else 4))
    fmt = "%s session D=%d x=%s" % (typ, D, x.hex()); env = env_for(r, typ); c = Client(env); c.start_reader(); expect = collections.Counter(); optional = collections.Counter(); sent = []; model = TModel(); refused = 0
    ctx = lambda: "case %d seed %d: %s env %s requests %s" % (i, a.seed, fmt, env, sent[:150])
    early = r.random() < .3      # stop without waiting for the replies
    def send(*its):
        nonlocal refused
        data = b""
        for it in its:
            data += be(it).encode(); sent.append(it)
            if typ == "N": expect[it] += 1
            elif typ == "S":
                if len(sent) == 1: expect[it] += 1
                else: refused += 1
            elif model.take(it): expect[it] += 1
            else: refused += 1
        dribble(r, c.s, data)
    try:
        dribble(r, c.s, hello(r, typ, D, x))
        if not c.wait(lambda: c.ok, 60 * slow): viol("no_ok:" + typ, ctx() + " framing=%s eof=%s rc=%s %s" % (c.framing, c.eof, c.exit(1), c.stderr()[-800:])); return
        t0 = time.time(); done = lambda: int((time.time() - t0) * speed)
        if typ == "S":
            if r.random() < .9:
                send(r.choice([1, 2, 3, 9, 10, 11, 100, r.randrange(1, 70), r.randrange(1, 1000), 9999, 10000, 10001, 65535, 65536, 65537, r.randrange(1, 70000), r.randrange(1, span)]))
                for _ in range(r.choice([0, 0, 1, 5])): time.sleep(r.random() * .2); send(r.randrange(1, span))
        elif typ == "N":
            for _ in range(r.randrange(0, 7)):
                its = []
                for _ in range(r.choice([1, 1, 2, 5, 12])):
                    k = r.randrange(8); n = done()
                    if k == 0: v = r.randrange(1, 30)
                    elif k == 1: v = 65536 * r.randrange(1, n // 65536 + 3) + r.choice([-1, 0, 1])
                    elif k == 2: v = 262144 * r.randrange(1, n // 262144 + 2) + r.choice([-1, 0, 1, 65535, 65536])
                    elif k == 3 and sent: v = r.choice(sent)
                    elif k == 4: v = n + r.randrange(1, 150000)
                    else: v = r.randrange(1, max(2, min(n + 200000, span)))
                    its.append(v)
                if r.random() < .2: its.sort(reverse=True)
                send(*its); time.sleep(r.choice([0, 0, .02, .3, .8]))
        else:
            lim = t_limit(); top = min(lim, span); m = r.random()
            if m < .45 or top < 3000:
                for _ in range(r.randrange(0, 6)):
                    send(*[r.choice([r.randrange(1, 400), 100 * r.randrange(1, 30), r.randrange(1, top), r.randrange(1, top), lim, lim + 1, 10**18, 2**64 - 1, (r.choice(sent) if sent else 5)]) for _ in range(r.choice([1, 2, 6]))]); time.sleep(r.choice([0, .05, .4]))
                if a.scale > 1 and r.random() < .4: send(lim - 1)
            else:   # more than a hundred, mostly falling, with repeats and values that come too late
                start = r.randrange(400, 3000) if r.random() < .5 else r.randrange(top // 2, top); n = r.randrange(101, 135); vals = []; v = start + 130 * 40
                for k in range(n):
                    v -= r.randrange(1, 40)
                    if v < 1: break
                    vals.append(min(v, lim - 1))
                    if r.random() < .06: vals.append(r.choice(vals))
                    if r.random() < .06: vals.append(v + r.randrange(1, 2000))
                if r.random() < .3: r.shuffle(vals)
                j = 0
                while j < len(vals): n = r.randrange(1, 50); send(*vals[j:j + n]); j += n; time.sleep(r.choice([0, 0, .05]))
                count("sessions_over_a_hundred")
        for d in model.dropped:
            if expect.get(d): optional[d] += expect.pop(d)
        if early: time.sleep(r.choice([0, 0, r.random() * .05, r.random(), r.random() * 2]))
        elif expect:
            want = sum(expect.values()); lim_s = (120 + max(sent) / speed * 3 if typ != "T" else 120 + max(expect) / speed * 3) * slow
            enough = lambda: sum((collections.Counter(q[1] for q in c.replies) & expect).values()) >= want
            if not c.wait(enough, lim_s):
                if c.framing: viol("framing:" + typ, ctx() + " " + c.framing)
                else:
                    miss = expect - collections.Counter(q[1] for q in c.replies); viol("unanswered:" + typ, ctx() + " after %.0f s no reply to %s; eof=%s exit=%s %s" % (time.time() - t0, dict(miss), c.eof, c.exit(1), c.stderr()[-600:]))
                c.abnormal(c.exit(1) if c.eof else 0, "session_" + typ, ctx()); return
            if r.random() < .5: time.sleep(r.random() * .4)   # anything the client sends unasked shows up
        else: time.sleep(r.random() * .5)
        t1 = time.time(); dribble(r, c.s, b"00" if r.random() < .7 else b"0" + r.choice([b"10", b"2" + b"00", b"3" + b"000"]))
        if not c.wait(lambda: c.stop, 90 * slow):
            viol(("framing:" if c.framing else "no_stop:") + typ, ctx() + " %s eof=%s rc=%s %s" % (c.framing, c.eof, c.exit(1), c.stderr()[-800:])); c.abnormal(c.exit(1) if c.eof else 0, "session_" + typ, ctx()); return
        maxi("stop_ms", int((time.time() - t1) * 1000)); 
        if r.random() < .3: time.sleep(r.random() * .3)
        for ch in (b"ACK",) if r.random() < .6 else (b"A", b"C", b"K"): c.s.sendall(ch); time.sleep(0 if ch == b"ACK" else .01)
        rc = c.exit(60 * slow)
        if rc is None: viol("no_exit:" + typ, ctx()); return
        c.wait(lambda: False, 5)
        c.abnormal(rc, "session_" + typ, ctx())
        if rc == 1: viol("exit:1:session_" + typ, ctx() + c.stderr()[-1000:])
        if c.after or c.buf or c.framing: viol("bytes_after_stop:" + typ, ctx() + " %r %r %s" % (c.after[:60], c.buf[:60], c.framing))
        got = collections.Counter(q[1] for q in c.replies); over = got - (expect + optional)
        for it, n in over.items(): viol(("repeated_reply:" if it in expect or it in optional else "unasked_reply:") + typ, ctx() + " iteration %d answered %d times, asked %d" % (it, got[it], (expect + optional)[it]))
        for (tt, it, y, w, proof) in c.replies:
            depth = {"S": 0, "T": 2}.get(typ, w)
            if w != depth: viol("witness_type:" + typ, ctx() + " iteration %d says %d" % (it, w)); continue
            res = judge("judge", D, x.hex(), order, it, w, (y + proof).hex())[0]
            if res != "ok": viol("reply_%s:%s" % (res, typ), ctx() + " iteration %d: %s%s type %d" % (it, y.hex(), proof.hex()[:400], w))
            evald((i, it)); maxi("depth", w)
        count("sessions_" + typ); count("replies_" + typ, len(c.replies)); count("requests_" + typ, len(sent)); count("refused_" + typ, refused); maxi("requests_in_session", len(sent))
        if early: count("stopped_early"); count("unanswered_at_stop", sum(((expect + optional) - got).values()))
        if env.get("ROUGH_IO"): count("sessions_with_partial_io")
        order_sent = [v for v in sent if v in got]; order_got = [q[1] for q in c.replies]
        if order_got != order_sent: count("sessions_answered_out_of_order")
        with L:
            if len(samples) < 3: samples.append("%s D=%d requests=%s replies=%s" % (typ, D, sent[:12], order_got[:12]))
    finally: c.kill(); c.close()

# ---------------------------------------------------------------- displaced requests of a 2-weso session
def displaced(i, margin=11):
    """A hundred requests are outstanding, the largest still far ahead; smaller ones displace those: they are answered, and the displaced ones are given up, not answered when the loop gets there."""
    r = random.Random("displaced%d/%d" % (a.seed, i)); D, x, order = params(r, "mid"); c = Client({}); c.start_reader(); sent = []; slow = a.slow
    ctx = lambda: "displaced case %d seed %d: D=%d x=%s requests %s" % (i, a.seed, D, x.hex(), sent)
    def send(*its): sent.extend(its); dribble(r, c.s, "".join(be(v) for v in its).encode())
    have = lambda: {q[1] for q in c.replies}
    try:
        dribble(r, c.s, hello(r, "T", D, x))
        if not c.wait(lambda: c.ok, 60 * slow): viol("no_ok:T", ctx() + " rc=%s %s" % (c.exit(1), c.stderr()[-800:])); return
        def cpu():
            best = 1
            for t in os.listdir("/proc/%d/task" % c.p.pid):
                try: f = open("/proc/%d/task/%s/stat" % (c.p.pid, t)).read().rsplit(")", 1)[1].split(); best = max(best, int(f[11]) + int(f[12]))
                except OSError: pass
            return best
        t0 = time.time(); probe = 400000; send(probe)
        if not c.wait(lambda: probe in have(), 120 * slow): viol("unanswered:T", ctx() + " %s" % c.stderr()[-600:]); return
        per = cpu() / probe; n = r.randrange(3, 7)
        near = r.sample(range(2000, 60000), 99 - n); less = sorted(r.sample(range(100, 1900), n), reverse=True); send(*near)
        if not c.wait(lambda: set(near) <= have(), 90 * slow): viol("unanswered:T", ctx() + " no reply to %s %s" % (sorted(set(near) - have()), c.stderr()[-600:])); return
        far = [int((cpu() + 100 * r.uniform(margin, margin * 1.2)) / per) + k for k in range(n)]; send(*far); send(*less)
        if not c.wait(lambda: set(less) <= have(), 90 * slow): viol("unanswered:T", ctx() + " no reply to the displacing %s %s" % (sorted(set(less) - have()), c.stderr()[-600:])); return
        td = time.time(); 
        while time.time() < td + 6: time.sleep(.1)
        known = have() & set(far); end = time.time() + 100 * slow; seen = None
        while time.time() < end and not have() & set(far) - known:   # until the loop (the busiest thread) should be well past them, and then long enough for a proof
            time.sleep(.2); pos = cpu() / per
            if pos > max(far) * 1.15: seen = seen or (time.time(), cpu()); 
            if seen and cpu() - seen[1] > .5 * per * max(far): break
        late = have() & set(far) - known; count("displaced_far_ahead", len(far) - len(known)); count("displacing_answered", len(less))
        if len(known) + 1 >= len(far) and margin < 60: c.kill(); c.close(); return displaced(i, margin * 2)
        if late: viol("displaced_answered:T", ctx() + " %s displaced by %s, answered more than 6 s after those" % (sorted(late), less))
        dribble(r, c.s, b"00")
        if not c.wait(lambda: c.stop, 90 * slow): viol("no_stop:T", ctx() + c.stderr()[-600:]); return
        c.s.sendall(b"ACK"); rc = c.exit(60 * slow)
        if rc is None: viol("no_exit:T", ctx()); return
        c.abnormal(rc, "session_T", ctx())
        for (tt, it, y, w, proof) in c.replies:
            res = judge("judge", D, x.hex(), order, it, w, (y + proof).hex())[0]
            if res != "ok" or w != 2: viol("reply_%s:T" % res, ctx() + " iteration %d" % it)
            evald((i, it))
        count("sessions_displaced")
    finally: c.kill(); c.close()

# ---------------------------------------------------------------- hostile and vanishing peers
PHASES = ["type", "size", "disc", "formsize", "form", "badform", "hostile_disc", "idle", "header", "digits", "wrap", "work", "work", "work", "work", "burst", "stop", "ack", "huge", "garbage", "unread", "halfclose", "random"]
def bad(i):
    r = random.Random("bad%d/%d" % (a.seed, i)); phase = a.phase or PHASES[i % len(PHASES)]; typ = r.choice(a.types); slow = a.slow
    env = env_for(r, typ); sent_it = []; log = []; s = None
    D, x, order = params(r, a.bits if a.bits != "small" else r.choice(["small"] * 5 + ["mid"]))
    if a.san and phase == "huge": typ = r.choice("NT"); env = env_for(r, typ)   # there a failing operator new ends the process
    h = hello(r, typ, D, x); dl = str(D); full = typ.encode() + b"%03d" % len(dl) + dl.encode() + bytes([len(x)]) + x
    off = {"type": 0, "size": 1, "disc": 4, "formsize": 4 + len(dl), "form": 5 + len(dl)}
    closing = r.choice(["fin", "fin", "rst", "half", "rst_unread"])
    c = Client(env); ctx = lambda: "case %d seed %d phase %s closing %s D=%s x=%s env %s sent %r requests %s" % (i, a.seed, phase, closing, D, x.hex(), env, b"".join(log)[-400:], sent_it[:60])
    read = closing != "rst_unread" and phase != "unread"
    if read: c.start_reader()
    def put(b):
        log.append(b)
        try: c.s.sendall(b)
        except OSError: count("peer_send_failed")
    def reqs(n, lo=1, hi=200000):
        its = [r.randrange(lo, hi) for _ in range(n)]; sent_it.extend(its); put("".join(be(v) for v in its).encode())
    try:
        if phase in off:
            cut = off[phase]; b = full[:cut]; k = r.randrange(4)
            if phase == "type": b = r.choice([b"", b"", b"", bytes([r.randrange(256)]), b"X" + full[1:], b"s" + full[1:], b"\0" * 5])
            elif phase == "size": b += r.choice([b"", b"0", b"01", b"000", b"350", b"999", b"-01", b"+05", b" 12", b"1e2", b"abc", b"0x4", b"\0\0\0", r.randbytes(3), b"349", b"-99"]) + (full[4:] if k else b"")
            elif phase == "disc": b += full[cut:cut + r.randrange(0, len(dl))]
            elif phase == "formsize": b += r.choice([b"", b"\0", b"\xff", b"\x80", b"\x7f", b"\x65", b"\x64", b"\x01"]) + (r.randbytes(r.choice([0, 1, 99, 100, 127])) if k else b"")
            else: b += full[cut:cut + r.randrange(0, len(x))]
            put(b)
        elif phase in ("hostile_disc", "badform"):
            ds = hostile_disc(r).encode("latin1") if phase == "hostile_disc" else dl.encode(); fb = form_bytes(r, num(ds.decode("latin1")), phase == "hostile_disc"); size = len(ds) if r.random() < .9 else r.randrange(0, 400)
            put(typ.encode() + b"%03d" % size + ds + bytes([len(fb) if r.random() < .9 else r.randrange(256)]) + fb)
            if read: c.wait(lambda: c.ok or c.stop, 20 * slow)
            if c.ok:
                count("hostile_accepted_" + phase); reqs(r.randrange(1, 4), 1, r.choice([20, 2000, 100000]))
                if read: c.wait(lambda: len(c.replies) >= len(set(sent_it)), r.choice([.1, 1, 3]))
                if r.random() < .5: put(b"00"); read and c.wait(lambda: c.stop, 60 * slow)
        elif phase == "garbage":
            put(r.choice([b"S", b"N", b"T", b""]) + r.randbytes(r.choice([1, 5, 50, 500, 5000])))
        elif phase == "random":   # the whole script with a few bytes changed, dropped or repeated
            its = [r.randrange(1, 100000) for _ in range(r.randrange(1, 6))]; b = bytearray(full + "".join(be(v) for v in its).encode() + b"00ACK"); sent_it.append("mutated")
            for _ in range(r.randrange(1, 4)):
                j = r.randrange(len(b)) if r.random() < .4 else max(0, len(b) - 1 - r.randrange(40)); k = r.randrange(4)
                if k == 0: b[j] = r.randrange(256)
                elif k == 1: del b[j:j + r.randrange(1, 4)]
                elif k == 2: b[j:j] = r.randbytes(r.randrange(1, 4))
                else: b[j] ^= 1 << r.randrange(8)
                if not b: break
            put(bytes(b)); time.sleep(r.random() * .5)
        else:
            dribble(r, c.s, h)
            if read and not c.wait(lambda: c.ok, 60 * slow): viol("no_ok:" + typ, ctx() + " rc=%s %s" % (c.exit(1), c.stderr()[-600:])); return
            if not read: time.sleep(.2 * slow + (r.random() * .5))
            if phase == "idle": time.sleep(r.choice([0, 0, .1, 1]))
            elif phase == "header": reqs(r.choice([0, 0, 1, 3])); put(r.choice([b"0", b"1", b"-1", b"0x", b"21", b"99", b"2\0", b"\xff\xff", b" 1", b"+5", b"9", r.randbytes(2)]))
            elif phase == "digits": reqs(r.choice([0, 0, 1, 3])); put(r.choice([b"05123", b"0512 45", b"05-1234", b"0312a", b"2018446744073709551616", b"2099999999999999999999", b"20", b"2018446744073709551615"[:r.randrange(3, 20)], b"05\0\0\0\0\0", b"03+12", b"051e300"]))
            elif phase == "wrap":   # a number that is a small one modulo 2^64: nothing was asked for
                if r.random() < .3: reqs(1, 1, 3000)
                for _ in range(1 if typ == "S" else r.randrange(1, 4)): put(b"20%d" % (2**64 * r.choice([1, 1, 2, 3, 4]) + r.choice([1, 2, 64, 100, r.randrange(1, 3000)])))
                if read: c.wait(lambda: len(c.replies) > len(sent_it), r.choice([.3, 1, 2]) * slow)
            elif phase == "work": reqs(r.choice([1, 1, 2, 5, 20]), 1, r.choice([200, 70000, 400000, 2000000])); time.sleep(r.choice([0, .01, .1, r.random(), r.random() * 2]))
            elif phase == "burst": reqs(r.choice([60, 101, 140, 250]), 1, r.choice([3000, 100000])); time.sleep(r.random() * .5)
            elif phase == "stop": reqs(r.randrange(0, 6)); time.sleep(r.random() * .3); put(b"00"); time.sleep(r.choice([0, 0, .02, .3]))
            elif phase == "ack":
                reqs(r.randrange(0, 4)); put(b"00"); read and c.wait(lambda: c.stop, 60 * slow); put(r.choice([b"", b"A", b"AC", b"ACX", b"NAK", b"\0\0\0", b"ACKACK", b"ack"]))
            elif phase == "huge":
                v = r.choice([2**64 - 1, 2**63, 2**63 - 1, 2**62, 10**18, 10**16, 10**19, 2**48]) + r.randrange(-2, 1); v = min(v, 2**64 - 1); sent_it.append(v); put(be(v).encode()); reqs(r.randrange(0, 3)); time.sleep(r.random())
                if r.random() < .5: put(b"00"); read and c.wait(lambda: c.stop, 60 * slow)
            elif phase == "unread": reqs(r.choice([3, 60, 200]), 1, 30000); time.sleep(r.random() * 2)
            elif phase == "halfclose": reqs(r.randrange(1, 8), 1, 100000); closing = "half"
        # leave
        try:
            if closing == "half": c.s.shutdown(socket.SHUT_WR); time.sleep(r.choice([0, .1, .5]))
            elif closing.startswith("rst"): c.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        except OSError: pass
        t0 = time.time(); rc = None
        if closing == "half" and read: rc = c.exit(45 * slow)
        elif read and r.random() < .3 and phase not in ("unread",): time.sleep(r.random() * .2)
        if rc is None:
            if not read:
                try: c.s.close()
                except OSError: pass
            else:
                try: c.s.shutdown(socket.SHUT_RD if closing.startswith("rst") else socket.SHUT_RDWR); c.t.join(5)   # a reader still inside recv would keep the connection open
                except OSError: pass
                c.s.close()
            rc = c.exit(60 * slow)
        if rc is None:
            viol("no_exit:%s" % phase, ctx() + " still running %.0f s after the peer left: %s" % (time.time() - t0, c.stderr()[-500:])); return
        maxi("exit_ms", int((time.time() - t0) * 1000))
        okend = c.abnormal(rc, phase, ctx()); count("ended_%s" % rc) if okend else None; count("phase_" + phase); count("closing_" + closing)
        # nothing the peer did not ask for
        if "mutated" not in sent_it:
            got = collections.Counter(q[1] for q in c.replies); over = got - collections.Counter(sent_it)
            if over: viol("unasked_reply:" + typ, ctx() + " replies %s" % dict(over))
            if phase in off or phase in ("garbage",): 
                if c.replies: viol("unasked_reply:" + phase, ctx())
        if c.framing and phase not in ("hostile_disc",): viol("framing:" + phase, ctx() + " " + c.framing)
        if phase in ("work", "burst", "stop", "header", "digits", "wrap", "halfclose", "ack"):
            for (tt, it, y, w, proof) in c.replies[:8]:
                res = judge("judge", D, x.hex(), order, it, w, (y + proof).hex())[0]; count("replies_judged")
                if res != "ok": viol("reply_%s:%s" % (res, phase), ctx() + " iteration %d type %d" % (it, w))
        evald((i, phase, tuple(sent_it)))
        with L:
            if len(samples) < 3 and phase not in ("type",): samples.append("%s %s closing=%s sent=%r exit=%s" % (typ, phase, closing, b"".join(log)[-60:], rc))
    finally: c.kill(); c.close()

def run(i):
    try: {"good": good, "bad": bad, "displaced": displaced}[a.mode](i)
    except Exception as e:
        import traceback; print("@HARNESS case %d: %s" % (i, traceback.format_exc().replace("\n", " | ")[-1500:]), flush=True); os._exit(97)
ids = [a.only] if a.only >= 0 else [i for i in range(a.cases) if i % nsh == sh]
with ThreadPoolExecutor(a.workers) as ex: list(ex.map(run, ids))
finish()
