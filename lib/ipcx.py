"""Message passing: scripted peers of a serving engine (harness/sv.c) over the loopback interface, and a scripted
peer for a calling one. Programs come from TLC (specs/IpcGen, IpcCallGen) and from seeds."""
import json, os, re, select, shutil, socket, struct, subprocess, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor
from lib.trace import observe_all
from lib.tlc import tlc, TlcError

def gen(module, seed, n, depth):
    r = tlc(module, workers=1, args=("-simulate", "num=%d" % n, "-depth", str(depth), "-seed", str(seed)), timeout=300)
    out = [json.loads(json.loads(m)) for m in re.findall(r'<<\s*"BEHAVIOUR",\s*("(?:[^"\\]|\\.)*")\s*>>', r.out)]
    if len(out) < n: raise TlcError("%s: %d behaviours\n%s" % (module, len(out), r.out[-2000:]))
    return out

# ------------------------------------------------------------------ wire format
def string(s): b = s.encode(); return bytes([12, 0]) + struct.pack("<q", len(b)) + b
def frame(body, mt, size=None): return b"\xfa\xde\xfa\xce" + bytes([1, 0, 0, mt]) + struct.pack("<q", len(body) if size is None else size) + body

def decode(b):
    """(value, length) of a payload: an integer; a vector of integers counting up after its first; an error is (-1, 0)"""
    if not b: return None
    t = b[0]
    if t == 0x7f: return (-1, 0)
    if t == 251 and len(b) == 9: return (struct.unpack("<q", b[1:9])[0], 1)
    if t == 5:
        n = struct.unpack("<q", b[2:10])[0]
        v = struct.unpack("<%dq" % n, b[10:10 + 8 * n])
        if list(v[1:]) == list(range(n - 1)): return (v[0], n)
    return None

def vector(b):
    n = struct.unpack("<q", b[2:10])[0]
    return list(struct.unpack("<%dq" % n, b[10:10 + 8 * n]))

def source(kind, i, a, h):
    lg = "(set log (concat log %d))" % i
    if kind in ("call", "fin"): return 1, "(do %s (count log))" % lg
    if kind == "cast": return 0, lg
    if kind == "who": return 1, "(do %s .z.w)" % lg
    if kind == "big": return 1, "(do %s (concat (count log) (til %d)))" % (lg, a[0] - 1)
    if kind == "push": return 1, "(do %s (write -%d %d) (count log))" % (lg, h, i)
    if kind == "bigpush": return 0, "(do %s (write -%d (concat %d (til %d))))" % (lg, h, i, a[1] - 1)
    if kind == "bye": return a[0] % 2, "(do %s %s)" % (lg, "(hclose .z.w)" * (1 + a[0] // 2 % 2))
    if kind == "kill": return 1, "(do %s %s(count log))" % (lg, ("(hclose %d)" % h) * a[1])
    if kind == "err": return 1, "(do %s (+ 'a 1))" % lg
    if kind == "busy": return 0, "(do %s (sum (map (fn [x] (sum (til 100))) (til %d))))" % (lg, a[0])
    raise KeyError(kind)

BAD = ["magic", "zero", "neg", "huge", "min"]
def nonsense(style):
    if style == "magic": return b"GET / HTTP/1.0\r\n\r\n"
    n = {"zero": 0, "neg": -1, "huge": 1 << 60, "min": -(1 << 63)}[style]
    return frame(b"\x63\x01\x02\x03", 1, n)

# ------------------------------------------------------------------ programs
def program(r, spoil, behaviour=None):
    """a list of operations; spoil: with connections that are closed, killed or malformed"""
    ops, nid, live, doomed, sure = [], [0], [], set(), []
    def msg(c, kind, *a):
        nid[0] += 1
        ops.append(["msg", c, nid[0], kind, list(a)])
    def opn(c):
        ops.append(["open", c]); msg(c, "who"); ops.append(["wait", c]); live.append(c)
    size = lambda: r.choice([2, 3, 50, 1000, 20000, 60000, 100000, 400000])
    if behaviour:
        n = {}
        for what, c in behaviour:
            if what == "open": opn(c); n[c] = 0
            elif what == "send":
                if n[c] % 2 == 0:
                    msg(c, *r.choice([("call",), ("big", size()), ("big", size())])) if n[c] // 2 % 2 == 0 else msg(c, *r.choice([("cast",), ("bigpush", r.choice([x for x in live if x != 2 or x == c]), size())]))
                n[c] += 1
                ops.append(["push", c, r.randint(1, 40)] if n[c] % 2 else ["push", c, 1 << 30])
            elif what == "recv": ops.append(["read", c, r.choice([100, 5000, 100000, 1 << 20])])
            elif what == "shut": ops.append(["shut", c])
        ops = [o for o in ops]
        return {"ops": ops, "rcvbuf": r.choice([0, 4096, 4096, 65536]), "cores": 1}
    nc = r.randint(1, 5)
    k = 0
    for _ in range(r.randint(20, 90)):
        z = r.random()
        if not live or (z < .12 and k < nc + (3 if spoil else 0)):
            k += 1
            opn(k)
            if not spoil or r.random() < .5 or not sure: sure.append(k)
            continue
        c = r.choice(live)
        free = [x for x in live if x not in doomed and x not in sure]
        if z < .62 and c not in doomed:
            y = r.random()
            if y < .3: msg(c, "call")
            elif y < .5: msg(c, "cast")
            elif y < .55: msg(c, "who")
            elif y < .68: msg(c, "big", size())
            elif y < .78: msg(c, "push", r.choice(sure))
            elif y < .86: msg(c, "bigpush", r.choice(sure), size())
            elif y < .9: msg(c, "err")
            elif y < .94: msg(c, "junk")
            else: msg(c, "busy", r.choice([100, 3000, 30000]))
            if r.random() < .7: ops.append(["push", c, r.choice([1, 7, 16, 17, 40, 1 << 30, 1 << 30])])
        elif z < .74: ops.append(["push", c, r.choice([1, 7, 16, 17, 100, 1 << 30])])
        elif z < .9: ops.append(["read", c, r.choice([1, 16, 100, 5000, 100000, 1 << 22])])
        elif z < .915 and len(live) > 1 and c not in doomed:     # room for waiting output comes together with input
            d = r.choice([x for x in live if x != c])
            if d not in doomed:
                msg(c, "big", r.choice([400000, 1000000])); ops.append(["push", c, 1 << 30]); ops.append(["sleep", 30])
                msg(d, "busy", 100000); ops += [["push", d, 1 << 30], ["sleep", 10], ["read", c, 1 << 22]]
                msg(c, "cast"); ops.append(["push", c, 1 << 30])
        elif z < .93: ops.append(["sleep", r.choice([1, 5, 30])])
        elif spoil and c in free:
            y = r.random()
            doomed.add(c)
            if y < .25: ops.append(["shut", c]); live.remove(c)
            elif y < .45: ops.append(["close", c]); live.remove(c)
            elif y < .7:
                msg(c, "bye", r.randrange(4))
                if r.random() < .5: msg(c, "call")
                ops += [["push", c, 1 << 30]] + ([["gone", c]] if r.random() < .7 else []); live.remove(c)
            elif y < .9:
                d = r.choice(sure)
                ops.append(["push", c, 1 << 30])
                msg(d, "kill", c, r.choice([1, 1, 2])); ops.append(["flush", d])
                if r.random() < .7: ops.append(["gone", c])
                live.remove(c)
            else: ops.append(["bad", c, r.choice(BAD)]); live.remove(c)
        elif spoil and z > .985: ops.append(["badhs", r.choice(["garbage", "empty", "half"])])
    return {"ops": ops, "rcvbuf": r.choice([0, 0, 4096, 65536]), "cores": r.choice([1, 1, 1, 3])}

# ------------------------------------------------------------------ a driver of one server
class Stuck(Exception): pass
class Conn:
    def __init__(s, port, rcvbuf):
        s.s = socket.socket()
        if rcvbuf: s.s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
        s.s.settimeout(10); s.s.connect(("127.0.0.1", port)); s.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        s.s.sendall(b"\x01\x00")
        if s.s.recv(1) != b"\x01": raise Stuck("handshake")
        s.s.setblocking(False)
        s.out, s.sent, s.marks, s.inb, s.open, s.asked, s.answered, s.h, s.pushed = bytearray(), 0, [], bytearray(), True, 0, 0, 0, 0

def free_port():
    s = socket.socket(); s.bind(("127.0.0.1", 0)); p = s.getsockname()[1]; s.close(); return p

LIMIT = 20
def serve(exe, p, setup=()):
    d = tempfile.mkdtemp(prefix="sv_", dir="/tmp")
    evs, conns, proc, port = [], {}, None, 0
    def rec(k, **a): evs.append(dict(k=k, **a))
    try:
        open(d + "/s", "w").write("\n".join(["(set log (take [1] 0))", "(set cb (take [1] 0))",
            "(set .z.po (fn [h] (set cb (concat cb h))))", "(set .z.pc (fn [h] (set cb (concat cb (neg h)))))"] + list(setup)) + "\n")
        for _ in range(20):
            port = free_port()
            proc = subprocess.Popen([exe, str(port), str(p["cores"]), d + "/s"], cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            t0, ok = time.time(), False
            while time.time() - t0 < LIMIT and proc.poll() is None and not ok:
                try: ctl = Conn(port, 0); ok = True
                except OSError: time.sleep(.01)
            if ok and proc.poll() is None: break
            proc.kill(); proc.wait()
        else: raise Stuck("start")
        base = len(os.listdir("/proc/%d/fd" % proc.pid))

        def take(c, b):
            """parse what was read from a connection"""
            k = conns[c]; k.inb += b
            while len(k.inb) >= 16:
                n = struct.unpack("<q", k.inb[8:16])[0]
                if k.inb[:4] != b"\xfa\xde\xfa\xce" or n < 0 or n > 1 << 28: rec("garbled", c=c); raise Stuck("garbled")
                if len(k.inb) < 16 + n: return
                v = decode(bytes(k.inb[16:16 + n])); mt = k.inb[7]
                del k.inb[:16 + n]
                if v is None: rec("garbled", c=c); raise Stuck("garbled")
                if mt == 2:
                    if k.h == 0: k.h = v[0]
                    k.answered += 1
                else: k.pushed += 1
                rec("resp" if mt == 2 else "push", c=c, v=v[0], n=v[1])
        def read(c, n):
            """up to n bytes, if there are any"""
            k = conns[c]
            if not k.open: return
            got = 0
            while got < n:
                try: b = k.s.recv(min(n - got, 1 << 18))
                except BlockingIOError: return
                except OSError: b = b""
                if not b: k.open = False; k.s.close(); rec("eof", c=c); return
                got += len(b); take(c, b)
        def push(c, n):
            """up to n bytes of what is to be sent, if the socket takes them"""
            k = conns[c]
            if not k.open: return
            while n > 0 and k.sent < len(k.out):
                try: w = k.s.send(k.out[k.sent:k.sent + min(n, 1 << 16)])
                except BlockingIOError: break
                except OSError: k.sent = len(k.out); break
                n -= w; k.sent += w
            while k.marks and k.marks[0][0] <= k.sent:
                _, i, kind, a = k.marks.pop(0); rec("sent", c=c, id=i, kind=kind, a=a)
        def until(cond, what):
            t0 = time.time()
            while not cond():
                if proc.poll() is not None: rec("dead"); raise Stuck("dead")
                if time.time() - t0 > LIMIT: rec("stuck", what=what); raise Stuck(what)
                rd = [k.s for k in conns.values() if k.open]; wr = [k.s for k in conns.values() if k.open and k.sent < len(k.out)]
                select.select(rd, wr, [], .05)
                for c in list(conns): read(c, 1 << 20)
                for c in list(conns): push(c, 1 << 16)
        def msg(c, i, kind, a):
            k = conns[c]
            if kind == "junk": f, w = frame(bytes([99, i % 256, 2, 3]), 1), True
            else:
                h = conns[a[0]].h if kind in ("push", "bigpush", "kill") else 0
                mt, src = source(kind, i, a, h)
                f, w = frame(string(src), mt), mt == 1 and kind != "bye"
            k.out += f; k.marks.append((len(k.out), i, kind, a)); k.asked += w
        def flushed(c): return not conns[c].open or conns[c].sent == len(conns[c].out)
        def answered(c): return not conns[c].open or conns[c].answered >= conns[c].asked
        def control(src):
            ctl.s.settimeout(LIMIT); ctl.s.sendall(frame(string(src), 1)); b = b""
            while len(b) < 16 or len(b) < 16 + struct.unpack("<q", b[8:16])[0]:
                x = ctl.s.recv(1 << 20)
                if not x: raise OSError("closed")
                b += x
            return vector(b[16:])
        badhs, shut, last = 0, set(), 0
        for o in p["ops"]:
            if o[0] == "open":
                try: conns[o[1]] = Conn(port, p["rcvbuf"])
                except OSError: rec("stuck", what="open"); raise Stuck("open")
                rec("open", c=o[1])
                # others' output goes on meanwhile only as the socket buffers allow
            elif o[0] == "msg":
                if conns[o[1]].open and o[1] not in shut: msg(*o[1:])
            elif o[0] == "push": push(o[1], o[2])
            elif o[0] == "read": read(o[1], o[2])
            elif o[0] == "sleep": time.sleep(o[1] / 1000)
            elif o[0] == "wait": until(lambda: flushed(o[1]) and answered(o[1]), "wait")
            elif o[0] == "flush": until(lambda: flushed(o[1]), "flush")
            elif o[0] == "gone": until(lambda: flushed(o[1]), "flush"); until(lambda: not conns[o[1]].open, "gone")
            elif o[0] == "shut":
                until(lambda: flushed(o[1]), "flush")
                if conns[o[1]].open:
                    shut.add(o[1]); rec("shut", c=o[1])
                    try: conns[o[1]].s.shutdown(socket.SHUT_WR)
                    except OSError: pass
            elif o[0] == "close":
                k = conns[o[1]]
                if k.open: k.marks and push(o[1], 0); k.open = False; k.s.close(); rec("closed", c=o[1])
            elif o[0] == "bad":
                until(lambda: flushed(o[1]), "flush")
                k = conns[o[1]]
                if k.open:
                    rec("bad", c=o[1]); k.out += nonsense(o[2])
                    until(lambda: not k.open, "bad")
            elif o[0] == "badhs":
                badhs += 1
                s = socket.create_connection(("127.0.0.1", port))
                if o[1] != "empty": s.sendall(b"abc" if o[1] == "garbage" else b"\x01")
                s.close()
        def drained():
            """everything evaluated is answered and delivered, with nothing more sent to help it along"""
            until(lambda: all(flushed(c) for c in conns), "flush")
            until(lambda: all(answered(c) if c not in shut | killed else not conns[c].open for c in conns), "answers")
            log = control("log")
            done = set(log)
            due = {c: sum(1 for m in p["ops"] if m[0] == "msg" and m[3] in ("push", "bigpush") and m[4][0] == c and m[2] in done) for c in conns}
            until(lambda: all(not k.open or k.pushed >= due[c] for c, k in conns.items()), "pushes")
            return log
        killed = {m[4][0] for m in p["ops"] if m[0] == "msg" and m[3] == "kill"} | {m[1] for m in p["ops"] if m[0] == "msg" and m[3] == "bye"}
        drained()
        for c in conns:
            if c not in shut and conns[c].open:
                last += 1
                nid = 1 + max([m[2] for m in p["ops"] if m[0] == "msg"] + [0]) + last
                msg(c, nid, "fin", [])
        log = drained()
        def settled():
            up = 1 + sum(k.open for k in conns.values())
            return len(os.listdir("/proc/%d/fd" % proc.pid)) - base == up - 1
        t0 = time.time()
        while not settled() and time.time() - t0 < 5 and proc.poll() is None: time.sleep(.01)
        cb, ctlh = control("cb"), control("(concat .z.w (take [1] 0))")[0]
        rec("end", fds=len(os.listdir("/proc/%d/fd" % proc.pid)) - base, cb=cb, badhs=badhs, ctl=ctlh)
        return [{"k": "log", "v": log}] + evs
    except (Stuck, OSError, struct.error) as x:
        if not evs or evs[-1]["k"] not in ("dead", "stuck", "garbled"): rec("dead" if proc and proc.poll() is not None else "stuck", what=repr(x))
        log = []
        try:
            if proc and proc.poll() is None: log = control("log")
        except Exception: pass
        return [{"k": "log", "v": log}] + evs
    finally:
        if proc: proc.kill(); proc.wait()
        for k in conns.values(): k.s.close()
        shutil.rmtree(d, ignore_errors=True)

def serve_all(exe, ps):
    return observe_all(lambda p: serve(exe, p), ps, lambda o: o[-1]["k"] in ("dead", "stuck", "garbled"))

# ------------------------------------------------------------------ a scripted peer of a calling engine
def call_program(r, acts=None):
    """acts: what the peer does (from IpcCallGen), decorated with sizes and casts"""
    if acts is None:
        acts, n, up = [], 0, True
        for k in range(1, r.randint(3, 12)):
            acts.append(["call", k])
            for _ in range(r.choice([0, 0, 1, 2, 4])):
                n += 1; acts.append([r.choice(["push", "req"]), n])
            acts.append(["resp", k])
            for _ in range(r.choice([0, 0, 0, 1, 3])):
                n += 1; acts.append([r.choice(["push", "req"]), n])
    out, seen, late = [], 0, False
    size = lambda: r.choice([1, 1, 2, 50, 3000, 30000, 200000])
    for what, k in acts:
        if what == "late":
            if late: out.append(["drop", 0]); continue
            late = True
        if what == "call":
            while r.random() < .3: seen += 1; out.append(["cast", 100 + seen, size()])
            out.append(["call", k, size()])
        elif what == "resp": out.append(["resp", k, size() if r.random() < .9 else 0])
        elif what in ("push", "req"): out.append([what, k, size() if what == "push" else 1])
        else: out.append([what, k, 0])
    return {"acts": out, "seed": r.randrange(1 << 30), "slow": r.choice([0, 0, 0, 0, 1]), "rcvbuf": r.choice([0, 0, 4096])}

def pay(v, n):
    """a payload of length n whose first element is v (0: an error)"""
    if n == 0: return None
    if n == 1: return bytes([251]) + struct.pack("<q", v)
    return bytes([5, 0]) + struct.pack("<q", n) + struct.pack("<%dq" % n, v, *range(n - 1))
ERRF = bytes([0x7f, 2]) + bytes(64)

def expr(v, n): return str(v) if n == 1 else "(concat %d (til %d))" % (v, n - 1)

class Peer(threading.Thread):
    def __init__(s, p, err):
        super().__init__(daemon=True)
        import random
        s.p, s.got, s.err, s.r, s.what = p, [], err, random.Random(p["seed"]), ""
        s.l = socket.socket()
        if p["rcvbuf"]: s.l.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, p["rcvbuf"])
        s.l.bind(("127.0.0.1", 0)); s.l.listen(1); s.port = s.l.getsockname()[1]; s.calls = 0; s.buf = bytearray(); s.out = bytearray()
    def frame_in(s):
        while len(s.buf) < 16 or len(s.buf) < 16 + struct.unpack("<q", s.buf[8:16])[0]:
            x = s.c.recv(s.r.choice([1, 16, 1000, 1 << 20]) if s.p["slow"] else 1 << 20)
            if not x: raise EOFError
            s.buf += x
        n = struct.unpack("<q", s.buf[8:16])[0]; mt = s.buf[7]; v = decode(bytes(s.buf[16:16 + n])); del s.buf[:16 + n]
        v = v or (-9, -9)
        s.got.append([["cast", "call", "ans"][mt] if mt < 3 else "?", v[0], v[1]])
        s.calls += mt == 1
    def flush(s):
        while s.out:
            n = s.r.choice([1, 5, 15, 16, 17, 100, 1 << 16, 1 << 30]) if len(s.out) < 3000 else s.r.choice([1000, 1 << 16, 1 << 30])
            s.c.sendall(s.out[:n]); del s.out[:n]
            if s.r.random() < .3: time.sleep(.002)
    def run(s):
        try:
            s.c, _ = s.l.accept(); s.c.settimeout(LIMIT); s.c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            b = b""
            while not b.endswith(b"\0"): b += s.c.recv(1)
            s.c.sendall(b"\x01")
            for what, k, n in s.p["acts"]:
                if what == "call":
                    s.flush()
                    while s.calls < k: s.frame_in()
                elif what == "resp": s.out += frame(pay(1000 + k, n) or s.err, 2)
                elif what == "push": s.out += frame(string("(set log (concat log (sum (concat %d (take 0 %d)))))" % (k, n)), 0)
                elif what == "req": s.out += frame(string("(do (set log (concat log %d)) (* %d 7))" % (k, k)), 1)
                elif what == "drop": s.flush(); s.c.close(); return
                elif what == "late": s.flush(); time.sleep(3.6)
                if what != "call" and s.r.random() < .4: s.flush()
            s.flush()
            while True: s.frame_in()
        except (EOFError, OSError) as x: s.what = repr(x)
        finally:
            try: s.c.close()
            except Exception: pass
            s.l.close()

def call(exe, p, err):
    d = tempfile.mkdtemp(prefix="ca_", dir="/tmp")
    try:
        peer = Peer(p, err); peer.start()
        ex = ["(set log (take [1] 0))", '(set h (hopen "127.0.0.1:%d"))' % peer.port]
        idx = []
        for what, k, n in p["acts"]:
            if what == "call": idx.append((len(idx), "call")); ex.append("(write h %s)" % expr(k, n))
            elif what == "cast": idx.append((len(idx), "cast")); ex.append("(write (neg h) %s)" % expr(k, n))
        ex += ["log", "(hclose h)"]
        open(d + "/s", "w").write("".join("E %s\n" % x for x in ex))
        try: subprocess.run([exe, "-c", "1", d + "/s", d + "/o"], cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=45)
        except subprocess.TimeoutExpired: return [{"k": "hang"}]
        rs = []
        for l in open(d + "/o", errors="replace"):
            try: rs.append(json.loads(l))
            except ValueError: pass
        rs = [x["r"] for x in rs if "r" in x]
        if len(rs) < len(ex): return [{"k": "crash"}]
        peer.join(LIMIT)
        evs, j = [], 2
        for what, k, n in p["acts"]:
            e = {"k": what, "id": k, "n": n}
            if what in ("call", "cast"):
                x = rs[j]; j += 1
                v = (x["v"], 1) if x["t"] == "i64" else (-1, 0) if x["t"] == "ERR" else \
                    (x["v"][0], len(x["v"])) if x["t"] == "I64" and x["v"][1:] == list(range(len(x["v"]) - 1)) else (0, 0) if what == "cast" and x["t"] == "NULL" else (-9, -9)
                e.update(v=v[0], m=v[1])
            evs.append(e)
        return evs + [{"k": "end", "log": rs[j].get("v", [-9]), "got": peer.got}]
    finally: shutil.rmtree(d, ignore_errors=True)

def call_all(exe, ps):
    return observe_all(lambda p: call(exe, p, ERRF), ps, lambda o: o[-1]["k"] in ("hang", "crash"))

# ------------------------------------------------------------------ one engine evaluating for another
def remote(rh, sv, sessions, chunk=40):
    """observations as of session.execute, each expression evaluated by a serving engine on behalf of a calling one"""
    from lib import ast as P
    def one(ss):
        d = tempfile.mkdtemp(prefix="re_", dir="/tmp"); proc = None
        try:
            for _ in range(20):
                port = free_port()
                proc = subprocess.Popen([sv, str(port), "1"], cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                t0, up = time.time(), False
                while time.time() - t0 < LIMIT and proc.poll() is None and not up:
                    try: socket.create_connection(("127.0.0.1", port)).close(); up = True
                    except OSError: time.sleep(.01)
                if up: break
                proc.kill(); proc.wait()
            with open(d + "/s", "w") as f:
                f.write('Q (set remote_h (hopen "127.0.0.1:%d"))\n' % port)
                for s in ss:
                    for e in s["ev"]: f.write('E (write remote_h "%s")\n' % P.R(e["x"]).replace("\\", "\\\\").replace('"', '\\"'))
            try: subprocess.run([rh, "-c", "1", d + "/s", d + "/o"], cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
            except subprocess.TimeoutExpired: pass
            rs = []
            for l in open(d + "/o", errors="replace"):
                try: rs.append(json.loads(l))
                except ValueError: pass
            rs = [x["r"] for x in rs if "r" in x]
            out, j = [], 0
            for s in ss:
                o = rs[j:j + len(s["ev"])]; j += len(s["ev"])
                if len(o) < len(s["ev"]): o = o + [{"t": "CRASH", "v": "no answer"}]
                out.append([{"r": v, "d": []} for v in o])
            return out
        finally:
            if proc: proc.kill(); proc.wait()
            shutil.rmtree(d, ignore_errors=True)
    with ThreadPoolExecutor(8) as ex:
        return [o for r in ex.map(one, [sessions[i:i + chunk] for i in range(0, len(sessions), chunk)]) for o in r]
