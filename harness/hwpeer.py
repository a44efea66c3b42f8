"""The timelord side of the hardware client: one client process, up to three connections at a time, a script of good and bad
sessions on each; the process has to survive all of them and leave when told. Prints @VIOL/@SUM lines."""
import sys, os, json, random, argparse, subprocess, threading, socket, struct, time, re, signal, tempfile, collections
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vlib

ap = argparse.ArgumentParser()
ap.add_argument("--exe"); ap.add_argument("--judge"); ap.add_argument("--mode", default="serve"); ap.add_argument("--bits", default="small"); ap.add_argument("--seed", type=int, default=1); ap.add_argument("--shard", default="0/1")
ap.add_argument("--cases", type=int, default=10); ap.add_argument("--only", type=int, default=-1); ap.add_argument("--workers", type=int, default=2); ap.add_argument("--rate", type=int, default=300000); ap.add_argument("--slow", type=float, default=1.0)
ap.add_argument("--san", default=""); ap.add_argument("--bad", type=float, default=.5); ap.add_argument("--phase", default=""); ap.add_argument("--span", type=float, default=1); ap.add_argument("--dump", type=int, default=0)
import peerlib
from peerlib import *
a = ap.parse_args(); sh, nsh = setup(a)

class Conn:
    """One connection; splits what the client sends into OK / replies / STOP / rest."""
    def __init__(self, s, read=True):
        self.s = s; s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1); self.buf = b""; self.ok = False; self.replies = []; self.stop = False; self.eof = False; self.framing = None; self.after = b""; self.cv = threading.Condition(); self.t = None
    def start(self): self.t = threading.Thread(target=self.reader, daemon=True); self.t.start()
    def reader(self):
        while True:
            try: d = self.s.recv(65536)
            except OSError: d = b""
            with self.cv:
                if d: self.buf += d; self.parse()
                else: self.eof = True
                self.cv.notify_all()
            if not d: return
    def parse(self):
        while self.buf and not self.framing:
            if self.stop: self.after += self.buf; self.buf = b""; return
            if not self.ok:
                if len(self.buf) < 2: return
                if self.buf[:2] == b"OK": self.ok = True; self.buf = self.buf[2:]; continue
            if len(self.buf) < 4: return
            if self.buf[:4] == b"STOP": self.stop = True; self.buf = self.buf[4:]; continue
            n = struct.unpack(">I", self.buf[:4])[0]
            if not self.ok or n < 434 or (n - 434) % 282 or n > 434 + 282 * 63: self.framing = "bad frame start %r after %d replies" % (self.buf[:40], len(self.replies)); return
            if len(self.buf) < 4 + n: return
            body = self.buf[4:4 + n]; self.buf = self.buf[4 + n:]
            if not re.fullmatch(rb"[0-9a-f]*", body): self.framing = "reply body is not hex: %r" % body[:80]; return
            raw = bytes.fromhex(body.decode("ascii")); it, yl = struct.unpack(">QQ", raw[:16])
            if yl != 100 or len(raw) != 217 + 141 * raw[116]: self.framing = "reply layout: iterations %d, y size %d, type %d, %d bytes" % (it, yl, raw[116], len(raw)); return
            self.replies.append((it, raw[16:116], raw[116], raw[117:]))
    def wait(self, pred, t):
        end = time.time() + t
        with self.cv:
            while not pred() and not self.eof and not self.framing:
                left = end - time.time()
                if left <= 0: return False
                self.cv.wait(left)
            return bool(pred())
    def put(self, b):
        try: self.s.sendall(b); return True
        except OSError: return False
    def leave(self, how):
        try:
            if how == "half": self.s.shutdown(socket.SHUT_WR); time.sleep(.05)
            elif how.startswith("rst"): self.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0)); self.s.shutdown(socket.SHUT_RD) if self.t else 0
            if how != "rst_unread" and self.t and how != "half": self.s.shutdown(socket.SHUT_RDWR) if how == "fin" else 0
        except OSError: pass
        if self.t and how == "half": self.t.join(3)
        try: self.s.shutdown(socket.SHUT_RDWR) if how != "rst" and how != "rst_unread" else 0
        except OSError: pass
        if self.t: self.t.join(5)
        self.s.close()

BAD = ["type", "size", "disc", "formsize", "form", "hostile_disc", "badform", "garbage", "pipelined", "header", "digits", "work", "work", "burst", "halfclose", "unread", "random", "nothing"]
class Case:
    def __init__(self, i):
        self.i = i; r = self.r = random.Random("hw%d/%d" % (a.seed, i)); self.nv = r.randrange(1, 4); self.mask = 0; self.log = []; self.l = threading.Lock(); self.dead = False
        args = []
        if r.random() < .5: vt = r.randrange(2, 9); args += ["--vdf-threads", str(vt)]; args += ["--proof-threads=%d" % r.randrange(0, vt)] if r.random() < .6 else []
        if r.random() < .2: self.mask = r.randrange(1, 8); self.nv = bin(self.mask).count("1"); args += ["--vdfs-mask", hex(self.mask)]
        if r.random() < .2: args += ["--freq", "%.1f" % r.uniform(200, 2200)]
        if r.random() < .2: args += ["--voltage", "%.3f" % r.uniform(.7, 1.0)]
        if r.random() < .2: args += ["--auto-freq-period", "10"]
        env = {"HW_SEED": r.getrandbits(30), "HW_SLEEP": r.choice([5, 20, 100])}
        self.small = a.bits == "small" and r.random() < .6
        k = r.random()
        if k < .7:
            if r.random() < .5: env["HW_FAIL"] = r.choice([10, 100, 1000])
            if r.random() < .3: env["HW_SHORT"] = r.choice([10, 100, 1000])
            if r.random() < .4: env["HW_STALL"] = r.choice([20, 200])
            if r.random() < .6 and not self.small: env["HW_CORRUPT"] = r.choice([8, 40, 300])
            if r.random() < .2: env["EMU_ERROR_PROB"] = r.choice([40, 400])
        if r.random() < .4: env["HW_IO"] = r.choice([2, 5, 40])
        self.args, self.env = args, env
        self.kill_early = r.random() < .25; self.n_sess = r.randrange(2, 7) if a.bits == "small" else r.randrange(1, 3); self.bounce = r.random() < .25
        self.port_lock = threading.Lock(); self.listen()
    def listen(self, port=0):
        self.ls = socket.socket(); self.ls.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1); self.ls.bind(("127.0.0.1", port)); self.ls.listen(8); self.ls.settimeout(.1); self.port = self.ls.getsockname()[1]
    def ctx(self, sid=None): return "case %d seed %d%s: %s env %s log %s" % (self.i, a.seed, "" if sid is None else " session %d" % sid, self.args, self.env, self.log[-12:])
    def note(self, t):
        with self.l: self.log.append(t)
    def start(self):
        e = dict(os.environ, **vlib.SAN_ENV); e.update({k: str(v) for k, v in self.env.items()}); self.errf = tempfile.TemporaryFile()
        self.p = subprocess.Popen([a.exe] + self.args + [str(self.port), str(self.nv)], env=e, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=self.errf, start_new_session=True)
    def stderr(self): self.errf.seek(0, 2); n = self.errf.tell(); self.errf.seek(max(0, n - 400000)); return self.errf.read().decode(errors="replace")
    def judge_replies(self, c, D, x, order, sid, only=None):
        for (it, y, w, proof) in c.replies[:only]:
            res = judge("judge", D, x.hex(), order, it, w, (y + proof).hex())[0]; count("replies_judged")
            if res != "ok": viol("reply_%s" % res, self.ctx(sid) + " D=%d x=%s iteration %d type %d: %s" % (D, x.hex(), it, w, (y + proof).hex()[:1200]))
            evald((self.i, sid, it)); maxi("depth", w); count("replies_segmented", 1 if w else 0)
    def good(self, sid, c, r):
        D, x, order = params(r, "small" if self.small else "mid" if a.bits == "small" else a.bits); slow = a.slow; known = bool(order)
        h = b"SNT"[r.randrange(3):][:1]; s = str(D) if r.random() < .6 else hex(D); x = x.rstrip(b"\0") if r.random() < .3 else x; s = s if len(s) < 350 else str(D)
        h += b"%03d" % len(s) + s.encode() + bytes([len(x)]) + x; sent = []; rate = a.rate / slow
        self.note("good %d D=%d x=%s" % (sid, D, x.hex())); dribble(r, c.s, h)
        bad = lambda k, d="": (self.dead and k in ("no_ok", "unanswered", "session_dropped", "no_stop", "not_closed_after_stop")) or viol(k, self.ctx(sid) + " requests %s replies %s framing %s eof %s rc %s %s" % (sent, [q[0] for q in c.replies][:40], c.framing, c.eof, self.p.poll(), d))
        if not c.wait(lambda: c.ok, 60 * slow): bad("no_ok"); return
        t0 = time.time(); early = r.random() < .2; span = int(rate * 2 * a.span); beyond = []
        for _ in range(r.randrange(0, 5)):
            data = b""
            for _ in range(r.choice([1, 1, 2, 4, 8])):
                k = r.randrange(9); n = int((time.time() - t0) * rate)
                if k == 0: v = r.randrange(1, 30)
                elif k == 1: v = 4000 * r.randrange(1, n // 4000 + 4) + r.choice([-1, 0, 1])
                elif k == 2: v = n + r.randrange(1, 60000)
                elif a.span > 3 and k > 4: v = r.randrange(span // 2, span)
                elif k == 3 and sent: v = r.choice(sent)
                elif k == 4: v = r.choice([10**15 * 9, 10**12, 2000000001 + 10**6]); beyond.append(v)
                else: v = r.randrange(1, max(2, min(n + 100000, span)))
                if k != 4: sent.append(v)
                t = be(v) if r.random() < .9 else "%02d%s" % (len(str(v)) + 1, "0" + str(v)) if v < 10**14 else be(v); data += t.encode()
            dribble(r, c.s, data); time.sleep(r.choice([0, 0, .02, .3]))
        if self.kill_early and r.random() < .5: early = True
        if early: time.sleep(r.choice([0, .02, r.random()]))
        elif sent:
            want = set(sent)
            if not c.wait(lambda: want <= {q[0] for q in c.replies}, (150 + max(sent) / rate * 3) * slow):
                bad("framing" if c.framing else "unanswered" if not c.eof else "session_dropped", "after %.0f s missing %s" % (time.time() - t0, sorted(want - {q[0] for q in c.replies})[:20])); return
        else: time.sleep(r.random() * .2)
        how = r.random()
        if how < .75 or not early:
            dribble(r, c.s, b"00" if r.random() < .7 else r.choice([b"010", b"0200", b"03000"]))
            if not c.wait(lambda: c.stop, 90 * slow): bad("no_stop"); return
            c.put(b"ACK") if r.random() < .7 else None
            c.wait(lambda: False, 20 * slow)
            if not c.eof: bad("not_closed_after_stop")
            if c.after or c.buf: bad("bytes_after_stop", "%r %r" % (c.after[:60], c.buf[:60]))
            count("sessions_stopped")
        else: c.leave(r.choice(["fin", "rst", "half", "rst_unread"])); count("sessions_left_running")
        got = collections.Counter(q[0] for q in c.replies); over = got - collections.Counter(sent)
        if c.framing: bad("framing", c.framing)
        for it, n in over.items(): bad("unasked_reply" if it not in sent else "repeated_reply", "iteration %d: %d too many" % (it, n))
        self.judge_replies(c, D, x, order, sid)
        count("sessions_good"); count("requests", len(sent)); count("replies", len(c.replies)); count("requests_out_of_reach", len(beyond)); count("sessions_known_order" if known else "sessions_proofs_only"); count("sessions_early") if early else 0
        sample("D=%d requests=%s replies=%s faults=%s" % (D, sent[:10], [q[0] for q in c.replies][:10], self.env))
    def bad(self, sid, c, r):
        phase = a.phase or r.choice(BAD); typ = r.choice("SNT"); how = r.choice(["fin", "fin", "rst", "half", "rst_unread"]); slow = a.slow; sent = []; log = []
        D, x, order = params(r, "small" if self.small else "mid" if a.bits == "small" else a.bits); dl = str(D); full = typ.encode() + b"%03d" % len(dl) + dl.encode() + bytes([len(x)]) + x
        off = {"type": 0, "size": 1, "disc": 4, "formsize": 4 + len(dl), "form": 5 + len(dl)}
        def put(b): log.append(b); c.put(b) or count("peer_send_failed")
        def reqs(n, lo=1, hi=100000):
            its = [r.randrange(lo, hi) for _ in range(n)]; sent.extend(its); put("".join(be(v) for v in its).encode())
        if phase == "unread" or how == "rst_unread": pass
        else: c.start()
        drops = False      # whether the client has reason to drop the session itself
        if phase in off:
            cut = off[phase]; b = full[:cut]
            if phase == "type": b = r.choice([b"", b"", bytes([r.randrange(256)]), b"X" + full[1:], b"s" + full[1:], b"\0" * 5])
            elif phase == "size": b += r.choice([b"", b"0", b"01", b"000", b"350", b"999", b"-01", b"+05", b" 12", b"1e2", b"abc", b"0x4", b"\0\0\0", r.randbytes(3), b"349", b"-99"]) + (full[4:] if r.random() < .7 else b"")
            elif phase == "disc": b += full[cut:cut + r.randrange(0, len(dl))]
            elif phase == "formsize": b += r.choice([b"", b"\0", b"\xff", b"\x80", b"\x7f", b"\x65", b"\x64", b"\x01"]) + (r.randbytes(r.choice([0, 1, 99, 100, 127])) if r.random() < .7 else b"")
            else: b += full[cut:cut + r.randrange(0, len(x))]
            put(b)
        elif phase in ("hostile_disc", "badform"):
            ds = hostile_disc(r).encode("latin1") if phase == "hostile_disc" else dl.encode(); fb = form_bytes(r, num(ds.decode("latin1")), phase == "hostile_disc"); size = len(ds) if r.random() < .9 else r.randrange(0, 400)
            put(typ.encode() + b"%03d" % size + ds + bytes([len(fb) if r.random() < .9 else r.randrange(256)]) + fb)
            if c.t:
                c.wait(lambda: c.ok or c.stop, r.choice([.2, 1]))
                if c.ok: count("hostile_accepted_" + phase); reqs(r.randrange(1, 4), 1, r.choice([20, 2000, 50000])); c.wait(lambda: len(c.replies) >= len(set(sent)), r.choice([.1, 1, 3]))
        elif phase == "garbage": put(r.choice([b"S", b"N", b"T", b""]) + r.randbytes(r.choice([1, 5, 50, 500, 5000])))
        elif phase == "pipelined": b = full + "".join(be(r.randrange(1, 9999)) for _ in range(r.randrange(1, 8))).encode(); j = r.randrange(len(full) - 2, len(b)); put(b[:j]); time.sleep(r.choice([0, .01])); put(b[j:])
        elif phase == "random":
            b = bytearray(full + "".join(be(r.randrange(1, 100000)) for _ in range(r.randrange(1, 6))).encode() + b"00ACK"); sent.append("mutated"); j = len(full)
            for _ in range(r.randrange(1, 4)):
                j = r.randrange(len(b)) if r.random() < .4 else max(0, len(b) - 1 - r.randrange(40)); k = r.randrange(4)
                if k == 0: b[j] = r.randrange(256)
                elif k == 1: del b[j:j + r.randrange(1, 4)]
                elif k == 2: b[j:j] = r.randbytes(r.randrange(1, 4))
                else: b[j] ^= 1 << r.randrange(8)
                if not b: break
            put(bytes(b[:len(full)])); c.t and c.wait(lambda: c.ok, .5); put(bytes(b[len(full):])); time.sleep(r.random() * .3)
        elif phase == "nothing": time.sleep(r.random() * .3)
        else:
            dribble(r, c.s, full)
            if c.t and not c.wait(lambda: c.ok, 60 * slow): self.dead or viol("no_ok:" + phase, self.ctx(sid) + " %r eof=%s rc=%s" % (full, c.eof, self.p.poll())); return
            if not c.t: time.sleep(.3 * slow)
            if phase == "header": reqs(r.choice([0, 0, 1, 3])); put(r.choice([b"0", b"1", b"-1", b"0x", b"17", b"18", b"21", b"99", b"2\0", b"\xff\xff", b" 1", b"+5", b"9", r.randbytes(2)])); drops = False
            elif phase == "digits": reqs(r.choice([0, 0, 1, 3])); put(r.choice([b"05123", b"0512 45", b"05-1234", b"0312a", b"16-999999999999999", b"169999999999999999", b"16", b"160x00000000000ff", b"05\0\0\0\0\0", b"03+12", b"051e300", b"16  -           1"])); sent.append("mutated")
            elif phase == "work": reqs(r.choice([1, 1, 2, 5, 20]), 1, r.choice([200, 20000, 200000, 1000000])); time.sleep(r.choice([0, .01, .1, r.random()]))
            elif phase == "burst": reqs(r.choice([30, 60, 140, 300]), 1, r.choice([300, 3000, 40000])); time.sleep(r.random() * .5)
            elif phase == "unread": reqs(r.choice([3, 60, 200]), 1, 10000); time.sleep(r.random())
            elif phase == "halfclose": reqs(r.randrange(1, 8), 1, 50000); how = "half"
        if how == "half": time.sleep(r.choice([0, .05, .3]))
        c.leave(how); self.note("bad %d %s %s %r" % (sid, phase, how, b"".join(log)[-160:]))
        if c.framing and phase not in ("hostile_disc",) : viol("framing:" + phase, self.ctx(sid) + " " + c.framing)
        if "mutated" not in sent and phase not in ("pipelined",):
            over = collections.Counter(q[0] for q in c.replies) - collections.Counter(sent)
            if over: viol("unasked_reply:" + phase, self.ctx(sid) + " sent %r replies %s" % (b"".join(log)[-300:], dict(over)))
        if phase in ("work", "burst", "header", "halfclose"): self.judge_replies(c, D, x, order, sid, 8)
        if c.after: viol("bytes_after_stop:" + phase, self.ctx(sid) + " %r" % c.after[:60])
        count("sessions_bad"); count("phase_" + phase); count("closing_" + how); evald((self.i, sid, phase))
    def session(self, sid, c):
        r = random.Random("hw%d/%d/%d" % (a.seed, self.i, sid))
        try:
            if r.random() < a.bad: self.bad(sid, c, r)
            else: c.start(); self.good(sid, c, r)
        except OSError as e:       # the client went away while we were sending
            if not self.dead: viol("connection_lost", self.ctx(sid) + " %s rc=%s" % (e, self.p.poll()))
        finally:
            try: c.s.close()
            except OSError: pass
    def run(self):
        r = self.r; slow = a.slow; self.start(); ths = []; sid = 0; idle = []; last = time.time(); gone = None; bounce_at = r.randrange(0, self.n_sess) if self.bounce else -1; kill_at = r.randrange(1, self.n_sess + 1) if self.kill_early else None; t_kill = None
        try:
            while True:
                if self.p.poll() is not None: gone = self.p.returncode; break
                ths = [t for t in ths if t.is_alive()]
                if kill_at is not None and sid >= kill_at and t_kill is None: t_kill = time.time() + r.random() * .4 * slow
                if t_kill and time.time() > t_kill: break
                if sid >= self.n_sess and not ths and len(idle) >= self.nv: break
                try: s, _ = self.ls.accept(); last = time.time()
                except socket.timeout:
                    if len(ths) + len(idle) < self.nv and time.time() - last > 60 * slow: viol("no_reconnect", self.ctx() + " %d connections, expecting %d; %s" % (len(ths) + len(idle), self.nv, self.stderr()[-800:])); return
                    if ths: last = time.time()
                    continue
                s.settimeout(None); c = Conn(s)
                if sid >= self.n_sess: idle.append(c); c.start(); last = time.time(); continue
                if sid == bounce_at:      # nobody listens for a while
                    self.ls.close(); s.close(); bounce_at = -1; count("listener_gone"); time.sleep(r.random() * .5); self.listen(self.port); continue
                t = threading.Thread(target=self.session, args=(sid, c), daemon=True); t.start(); ths.append(t); sid += 1
            self.dead = True; t0 = time.time(); late = []
            if gone is None:
                if r.random() < .3: self.ls.close()
                self.p.send_signal(r.choice([signal.SIGTERM, signal.SIGINT])); count("stops_during_sessions" if any(t.is_alive() for t in ths) else "stops_idle")
            try: rc = self.p.wait(90 * slow)
            except subprocess.TimeoutExpired: viol("no_exit", self.ctx() + " still running %.0f s after the signal: %s" % (time.time() - t0, self.stderr()[-1000:])); return
            maxi("exit_ms", int((time.time() - t0) * 1000)); err = self.stderr()
            if a.dump: print(err[-a.dump:])
            for k, n in zip(("status_reads", "reads_failed", "reads_short", "reads_corrupt", "reads_stalled", "device_jobs", "io_disturbed"), map(int, re.findall(r"\d+", (re.findall(r"@SHIM (.*)", err) or [""])[-1]))): count(k, n)
            count("bad_values_noticed", len(re.findall(r"Bad VDF values|Bad sample|Skipping|bad", err))); count("restarts", len(re.findall(r"Restarting VDF", err)))
            if a.san == "tsan":
                reps = vlib.tsan_reports(err); count("tsan_reports", len(reps))
                for k, d in reps: viol(k, self.ctx() + "\n" + d[:2500])
                if reps: return
            cl = vlib.classify(rc, err)
            if cl: viol(cl[0] + (":unprompted" if gone is not None else ""), self.ctx() + "\n" + cl[1][:2500]); return
            if gone is not None: viol("left_unprompted", self.ctx() + " exit %s %s" % (gone, err[-1500:])); return
            if rc != 0: viol("exit:%s" % rc, self.ctx() + " " + err[-1500:])
            for t in ths: t.join(30 * slow)
            for c in idle:
                c.t.join(5)
                if c.ok or c.replies or c.framing or not c.eof: viol("idle_connection", self.ctx() + " ok=%s eof=%s %r %s" % (c.ok, c.eof, c.buf[:50], c.framing))
            count("processes"); maxi("connections", self.nv)
        finally:
            self.dead = True
            try: os.killpg(self.p.pid, 9)
            except Exception: pass
            self.p.wait()
            for c in idle:
                try: c.s.close()
                except OSError: pass
            try: self.ls.close()
            except OSError: pass

# ---------------------------------------------------------------- command line
def option(r):
    """An option with its text and whether it is inside the documented range (None: not specified either way)."""
    fl = lambda lo, hi: r.choice([(lambda v: (repr(v), lo <= v <= hi))(r.uniform(lo - .2 * (hi - lo), hi + .2 * (hi - lo))), (repr(lo), True), (repr(hi), True), ("nan", False), ("-nan", False), ("inf", False), ("-inf", False), ("1e309", False), ("0", False), ("-%r" % lo, False), ("%r" % (hi * 1e6), False), ("abc", False), ("", False), (repr(hi + 1e-6 * hi), False), (repr(lo * (1 - 1e-6)), False), ("nan(7)", False)])
    def it(lo, hi):
        w = r.choice([8, 16, 32, 64]); v = r.choice([r.randrange(lo, hi + 1), lo, hi, lo - 1, hi + 1, r.randrange(hi, hi * 8), (1 << w) + r.randrange(0, hi + 1), (1 << w) * r.randrange(1, 5) + r.randrange(lo, hi + 1), -r.randrange(1, 300)])
        return (hex(v) if v > 0 and r.random() < .2 else str(v)), lo <= v <= hi, v
    k = r.randrange(9)
    if k <= 1: t, ok = fl(200.0, 2200.0); return "freq", t, ok
    if k <= 3: t, ok = fl(0.7, 1.0); return "voltage", t, ok
    if k == 4: t, ok, v = it(1, 7); return "vdfs-mask", t, ok if v else None
    if k == 5: t, ok, v = it(2, 64); return "vdf-threads", t, ok
    if k == 6: t, ok, v = it(0, 3); return "proof-threads", t, ok if v >= 0 else False      # four threads by default
    if k == 7: v = r.choice([0, 1, 9, 10, 11, 3600, r.randrange(0, 100)]); return "auto-freq-period", str(v), v >= 10
    return "ip", *r.choice([("127.0.0.1", True), ("256.0.0.1", False), ("127.0.0", False), ("localhost", False), ("255.255.255.255", False), ("1.2.3.4.5", False), ("", False)])
def cli(i):
    r = random.Random("cli%d/%d" % (a.seed, i)); ls = socket.socket(); ls.bind(("127.0.0.1", 0)); ls.listen(8); ls.settimeout(.05); port = ls.getsockname()[1]; args, expect, known = [], True, True; opts = {}; mild = r.random() < .6
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        n, t, ok = option(r); k = 0
        while ok is not True and k < 12 and mild: n, t, ok = option(r); k += 1
        if n in opts or (n == "proof-threads" and "vdf-threads" in opts) or (n == "vdf-threads" and "proof-threads" in opts): continue
        opts[n] = t; args += ["--%s=%s" % (n, t)] if r.random() < .5 else ["--" + n, t]
        if ok is None: known = False
        elif not ok: expect = False
    if known and not expect: known = True
    pos = [str(port)]
    if r.random() < (.05 if mild else .25):
        p, ok = r.choice([("0", False), ("65536", False), ("-1", False), (str(port + 65536), False), (str(port + (1 << 32)), False), ("%dx" % port, False), ("", False), ("abc", False)]); pos = [p]; expect = expect and ok
    if r.random() < .5:
        p, ok = r.choice([("1", True), ("2", True), ("3", True)] * (4 if mild else 0) + [("1", True), ("2", True), ("3", True), ("0", False), ("4", False), ("257", False), ("4294967297", False), ("18446744073709551617", False), ("2x", False), ("-1", False)]); pos.append(p); expect = expect and ok
    args = args + pos if r.random() < .7 else pos[:1] + args + pos[1:]
    if r.random() < .08: args.insert(0, r.choice(["-x", "--unknown=3", "--=1", "--list=1", "--version=1", "--freqq=900", "-"])); expect = False
    errf = tempfile.TemporaryFile(); p = subprocess.Popen([a.exe] + args, env=dict(os.environ, **vlib.SAN_ENV, HW_SLEEP="1000"), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=errf, start_new_session=True)
    try:
        conn, end = None, time.time() + 60 * a.slow
        while p.poll() is None and conn is None and time.time() < end:
            try: conn, _ = ls.accept()
            except socket.timeout: pass
        if conn is None and p.poll() is None: viol("cli_hang", "%s" % args); return
        if conn is not None: p.send_signal(signal.SIGTERM)
        rc = p.wait(60 * a.slow); errf.seek(0); err = errf.read().decode(errors="replace"); tr = re.findall(r"transfers (\d+)", err); tr = int(tr[-1]) if tr else -1
        c = vlib.classify(rc, err)
        if c: viol(c[0] + ":cli", "%s\n%s" % (args, c[1][:2000])); return
        if not known and expect: count("cli_unspecified"); return
        if conn is not None and not expect: viol("option_outside_range_taken", "%s: %s" % (args, [l for l in err.split("\n") if "Frequency is" in l or "Setting" in l][:4])); return
        if conn is None and expect: viol("option_in_range_refused", "%s exit %d: %s" % (args, rc, err[-800:])); return
        if conn is None and rc != 1: viol("cli_exit:%d" % rc, "%s %s" % (args, err[-500:])); return
        if conn is None and tr != 0: viol("refused_after_touching_device", "%s %d transfers" % (args, tr)); return
        if conn is not None:
            f = re.findall(r"Frequency is ([0-9.]+) MHz", err); want = float(opts.get("freq", 1100))
            if not f or not (want - 1e-6 <= float(f[0]) <= want * 1.02 + 1): viol("frequency_set", "%s wanted %s, device at %s" % (args, want, f))
            if rc != 0: viol("cli_exit:%d" % rc, "%s %s" % (args, err[-500:]))
        count("cli_taken" if expect else "cli_refused"); evald(("cli", tuple(args[:-1]))); sample("%s %s" % (args, "taken" if expect else "refused"))
    finally:
        try: os.killpg(p.pid, 9)
        except Exception: pass
        p.wait(); ls.close()

def run(i):
    try: cli(i) if a.mode == "cli" else Case(i).run()
    except Exception:
        import traceback; print("@HARNESS case %d: %s" % (i, traceback.format_exc().replace("\n", " | ")[-1500:]), flush=True); os._exit(97)
ids = [a.only] if a.only >= 0 else [i for i in range(a.cases) if i % nsh == sh]
with ThreadPoolExecutor(a.workers) as ex: list(ex.map(run, ids))
finish()
