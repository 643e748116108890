"""Drives a server through client schedules and records what the clients see (events of Server.tla)."""
import random, re, select, socket, time
from httpc import Conn, get

WAIT = 15.0
ENDKINDS = ("last", "junk", "part", "eof", "last10", "garb")


def request(k, t, rnd=None):
    """Bytes of one request of kind k with token t."""
    r = rnd or random.Random(0)
    if k == "ok":
        return get(r.choice(["/i/full/max/0/default.jpg", "/i/square/^pct:150/!90/gray.webp", "/i/1,2,3,4/!5,6/0.5/color.png?x=1"]))
    if k == "miss":
        return get(r.choice(["/nosuch/full/max/0/default.jpg", "/..%2Fi/full/max/0/default.jpg", "/%00/full/max/0/default.jpg"]))
    if k == "bad":
        return get(f"/i/full/u{t}/0/default.jpg")
    if k == "nf":
        m = r.choice([b"PUT", b"OPTIONS", b"DELETE", b"PATCH", b"get", b"TRACE", b"POST", b"GETX", b"*", b"X", b"OPT*"])
        if m == b"*":
            return get("*")
        if m == b"OPT*":
            return get("*", method=b"OPTIONS")
        if m == b"X":
            return get("example:80")
        return get(r.choice(["/i/full/max/0/default.jpg", "/", "/i/info.json"]), method=m)
    if k == "head":
        return get(r.choice(["/i/full/max/0/default.jpg", "/i/info.json"]), method=b"HEAD")
    if k == "last10":
        return (f"GET /i/full/u{t}/0/default.jpg HTTP/1.0\r\n\r\n").encode()
    if k == "garb":
        return hostile(r)
    if k == "info":
        return get(r.choice(["/i/info.json", "/info.json", "/i/full/max/0/info.json"]))
    if k == "last":
        return get(f"/i/full/u{t}/0/default.jpg", extra=b"Connection: close\r\n")
    if k == "junk":
        return r.choice([b"junk\r\n\r\n", b"\x16\x03\x01\x02\x00\x01\x00\r\n\r\n", b"GET /i HTTP/9.9\r\n\r\n", b"G@T / HTTP/1.1\r\n\r\n"])
    if k == "part":
        return r.choice([b"GET /i/full/max/0/def", b"GET /i/full/max/0/default.jpg HTTP/1.1\r\nHost: x\r\n", b"G"])
    if k == "post":
        body = b"GET /i/full/u9999/0/default.jpg HTTP/1.1\r\nHost: x\r\n\r\n"
        m = r.choice([b"POST", b"PUT"])
        if r.random() < .5:
            return get("/i/full/max/0/default.jpg", method=m, extra=b"Content-Length: %d\r\n" % len(body)) + body
        return get("/i/full/max/0/default.jpg", method=m, extra=b"Transfer-Encoding: chunked\r\n") + b"%x\r\n" % len(body) + body + b"\r\n0\r\n\r\n"
    raise ValueError(k)


def hostile(r):
    n = r.randrange(12)
    if n == 0:
        return bytes(r.randrange(256) for _ in range(r.randrange(1, 400)))
    if n == 1:
        return b"GET /" + b"a" * r.choice([8000, 66000, 200000]) + b" HTTP/1.1\r\nHost: x\r\n\r\n"
    if n == 2:
        return b"GET /i/full/max/0/default.jpg HTTP/1.1\r\n" + b"".join(b"X-%d: y\r\n" % k for k in range(r.choice([99, 101, 300, 5000]))) + b"\r\n"
    if n == 3:
        return b"GET / HTTP/1.1\r\nHost: x\r\nX: " + b"y" * r.choice([20000, 500000]) + b"\r\n\r\n"
    if n == 4:
        return b"PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n" + bytes(r.randrange(256) for _ in range(r.randrange(0, 200)))
    if n == 5:
        return b"POST / HTTP/1.1\r\nHost: x\r\nContent-Length: " + r.choice([b"-1", b"99999999999999999999999", b"10", b"x"]) + b"\r\n\r\nabc"
    if n == 6:
        return b"POST / HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\n" + r.choice([b"zz\r\n", b"ffffffffffffffffff\r\n", b"5\r\nab"])
    if n == 7:
        e = "".join(r.choice(["%00", "%FF", "%", "%2", "..%2F", "%2F", "%C3%28", "a", "%F4%90%80%80", "\\", "%0A", "%0D%0A"]) for _ in range(r.randrange(1, 30)))
        return get("/" + e + r.choice(["/full/max/0/default.jpg", "", "/", "/full", "/info.json", "info.json"]))
    if n == 8:
        seg = lambda: "".join(r.choice(["pct:", ",", "1", "0", ".", "e", "-", "^", "!", "nan", "inf", "max", "%", "9" * 40, "1e999", "full", ":", "+"]) for _ in range(r.randrange(0, 7)))
        return get("/i/" + "/".join(seg() for _ in range(r.randrange(0, 6))) + r.choice(["", ".jpg", ".", ".."]))
    if n == 9:
        return r.choice([b"\x00", b"\r\n\r\n\r\n", b"\n", b" ", b"GET\x00/ HTTP/1.1\r\n\r\n", b"GET / HTTP/1.1\r\nHost: x\r\nConnection: upgrade\r\nUpgrade: h2c\r\n\r\n",
                         b"GET / HTTP/1.1\nHost: x\n\n", b"CONNECT a:1 HTTP/1.1\r\nHost: a\r\n\r\nxyz", b"GET / HTTP/1.1\r\nHost: x\r\nExpect: 100-continue\r\n\r\n"])
    if n == 10:
        return b"PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n" + b"\x00\x00\x00\x04\x00\x00\x00\x00\x00" + \
            b"\x00\x00\x04\x03\x00\x00\x00\x00" + bytes([r.randrange(8)]) + b"\x00\x00\x00\x08"
    return get("/" + "x" * r.choice([255, 256, 4096, 30000]) + "/full/max/0/default.jpg")


class Run:
    """One trace against one server. Mirrors Server.tla only to know how long to wait; TLC is the judge."""

    def __init__(self, port, limit, rnd, poke=0.0, split=False, wait=WAIT, base=None):
        self.base = base
        self.port, self.limit, self.rnd, self.poke, self.split, self.wait = port, limit, rnd, poke, split, wait
        self.ev = []
        self.c = {}
        self.pend, self.half = {}, set()
        self.dead = False          # the server owes something and does not deliver it
        self.maybe = set()         # the server is entitled to close these
        self.seen = set()          # answered at least once, so admitted

    def log(self, e, c=0, **kw):
        d = {"e": e, "c": c, "k": "", "t": 0, "s": 0, "q": 0}
        d.update(kw)
        self.ev.append(d)

    # -- client actions
    def connect(self, c):
        self.c[c] = Conn(self.port, self.wait)
        self.pend[c] = []
        self.log("connect", c)

    def send(self, c, k, t=0):
        data = request(k, t, self.rnd)
        self.log("send", c, k=k, t=t)
        self.push(c, data)
        self.pend[c].append(k)

    def push(self, c, data):
        try:
            if self.split:
                while data:
                    n = self.rnd.choice([1, 2, 3, 7, 30, 200])
                    self.c[c].send(data[:n])
                    data = data[n:]
                    if self.rnd.random() < .2:
                        time.sleep(0.001)
            else:
                self.c[c].send(data)
        except OSError:
            pass

    def halfclose(self, c):
        self.log("half", c)
        try:
            self.c[c].s.shutdown(socket.SHUT_WR)
        except OSError:
            pass
        self.half.add(c)

    def leave(self, c, how):
        self.log("leave", c)
        if how == "reset":
            self.c[c].reset()
        else:
            self.c[c].close()
        del self.c[c]

    # -- reading
    def take(self, c, timeout):
        """Read one response or eof; False if nothing came."""
        k = self.c[c]
        try:
            if timeout == 0 and b"\r\n\r\n" not in k.buf:
                r, _, _ = select.select([k.s], [], [], 0)
                if not r:
                    return False
                timeout = 2
            p0 = self.pend[c][0] if self.pend[c] else ""
            st, body, _h = k.recv(timeout or 2, head=p0 == "head")
            m = re.search(rb"'u(\d+)'", body)
            self.seen.add(c)
            tok = int(m.group(1)) if m else 0
            if not m and self.base and p0 in self.base and (st, body) != self.base[p0]:
                tok = -1               # not the answer this request gets on a fresh connection
            if p0 == "head" and body:
                tok = -1
            self.log("resp", c, s=st, t=tok)
            if self.pend[c] and self.pend[c][0] != "garb":
                q = self.pend[c].pop(0)
                if q in ("last", "junk", "last10"):
                    self.pend[c] = ["eof"]
                elif q == "post":
                    self.maybe.add(c)
            return True
        except (socket.timeout, TimeoutError):
            return False
        except (EOFError, OSError, ValueError, IndexError):
            if k.buf:
                self.log("resp", c, s=1, t=0)      # an incomplete answer: never admissible
            else:
                self.log("eof", c)
            k.close()
            del self.c[c]
            return True

    def due(self, c):
        """c owes an answer or an end of file, once it has a slot."""
        return c in self.half or (bool(self.pend[c]) and self.pend[c][0] not in ("part", "garb"))

    def vague(self, c):
        """c may or may not hold a slot, and may or may not be closed by the server."""
        return c not in self.seen or c in self.maybe or "garb" in self.pend[c]

    def owed(self):
        """(surely, perhaps): must something still come from the server, whatever the order of admission?"""
        live = list(self.c)
        known = [c for c in live if not self.vague(c)]
        if any(self.due(c) for c in known):
            return True, True
        rest = [c for c in live if self.vague(c)]
        free = self.limit - len(known)
        idle = [c for c in rest if not self.due(c) or "garb" in self.pend[c] or c in self.maybe]
        return (min(free, len(rest)) > len(idle)), (free > 0 and any(self.due(c) for c in rest))

    def drain(self):
        """Wait for everything that must come (for long) and that may come (briefly), then look at all sockets.
        Only if something that must come did not is the server declared to be at rest."""
        if self.dead:
            return
        end = time.time() + self.wait
        graced = False
        while True:
            sure, perhaps = self.owed()
            if not (sure or (perhaps and not graced)):
                break
            ready = [c for c in self.c if b"\r\n\r\n" in self.c[c].buf]
            if not ready:
                socks = {self.c[c].s: c for c in self.c}
                rd, _, _ = select.select(list(socks), [], [], max(0.0, end - time.time()) if sure else 0.03)
                ready = [socks[x] for x in rd]
                if not rd:
                    if not sure:
                        graced = True
                    elif time.time() >= end:
                        self.log("quiet")
                        self.dead = True
                        return
            for c in ready:
                if c in self.c:
                    self.take(c, 10)
        if self.poke:
            time.sleep(self.poke)
        for c in list(self.c):
            while c in self.c and self.take(c, 0):
                pass

    def finish(self):
        for c in list(self.c):
            self.leave(c, "close")
        return {"limit": self.limit, "ev": self.ev}


def run_schedule(port, limit, sched, seed):
    """A schedule from ServerGen, then probes that show whether every slot came back."""
    r = Run(port, limit, random.Random(seed), poke=0.0 if seed % 4 else 0.01)
    tok = 0
    for s in sched:
        if r.dead:
            return r.finish()
        c = s["c"]
        if s["a"] == "connect":
            r.connect(c)
        elif c in r.c:
            if s["a"] == "send":
                tok += 1
                r.send(c, s["k"], tok)
            elif s["a"] == "half":
                r.halfclose(c)
            else:
                r.leave(c, s["a"])
        r.drain()
    for c in list(r.c):
        r.leave(c, "close" if seed % 2 else "reset")
    for p in (4, 5, 6)[:limit + 1]:
        r.connect(p)
        tok += 1
        r.send(p, "bad", tok)
    r.drain()
    return r.finish()


def run_random(port, limit, seed, steps, kinds, split=False, burst=1, nconn=8, poke=0.0, base=None, ends=("close", "reset", "half")):
    """A random client history; connections are renumbered 1..8 and each number is used once per trace."""
    rnd = random.Random(seed)
    r = Run(port, limit, rnd, poke=poke, split=split, base=base)
    nextc, tok = 1, 0
    for _ in range(steps):
        if r.dead:
            break
        x = rnd.random()
        live = [c for c in r.c if c not in r.half]
        if nextc <= nconn and (not live or x < .25):
            r.connect(nextc)
            live.append(nextc)
            if rnd.random() < .8:
                tok += 1
                r.send(nextc, rnd.choice([k for k in kinds if k not in ENDKINDS]), tok)
            nextc += 1
        elif live and x < .8:
            c = rnd.choice(live)
            blob, ks = b"", []
            for _ in range(rnd.randrange(1, burst + 1)):
                if r.pend[c] and r.pend[c][-1] in ENDKINDS:
                    break
                k = rnd.choice(kinds)
                tok += 1
                r.log("send", c, k=k, t=tok)
                blob += request(k, tok, rnd)
                r.pend[c].append(k)
            if blob:
                r.push(c, blob)
        elif live and x < .95:
            c = rnd.choice(live)
            h = rnd.choice(ends)
            if h == "half":
                r.halfclose(c)
            else:
                r.leave(c, h)
        if rnd.random() < .8:
            r.drain()
    r.drain()
    return r.finish()


def baseline(port, kinds=("ok", "miss", "nf")):
    """What each kind of request is answered on a fresh connection (after checking all variants agree)."""
    out = {}
    for k in kinds:
        for n in range(12):
            c = Conn(port)
            c.send(request(k, 0, random.Random(n)))
            st, body, _ = c.recv()
            c.close()
            out.setdefault(k, (st, body))
    return out


def run_h2(port, limit, seed, streams, base):
    """One HTTP/2 connection with many streams, bytes split at random, plus HTTP/1 neighbours."""
    from h2c import H2
    rnd = random.Random(seed)
    r = Run(port, limit, rnd, base=base)
    r.connect(1)
    k = r.c[1]
    h = H2(k.s)
    out, kinds = h.hello(), {}
    sid = 1
    sent = 0
    while sent < streams:
        for _ in range(rnd.randrange(1, 9)):
            if sent >= streams:
                break
            kind = rnd.choice(["ok", "bad", "bad", "bad", "miss", "nf"])
            t = sid
            path = {"ok": b"/i/full/max/0/default.jpg", "bad": b"/i/full/u%d/0/default.jpg" % t, "miss": b"/nosuch/full/max/0/default.jpg",
                    "nf": b"/i/full/max/0/default.jpg"}[kind]
            out += h.request(sid, path, b"DELETE" if kind == "nf" else b"GET")
            r.log("send", 1, k=kind, t=t, q=sid)
            kinds[sid] = kind
            sid += 2
            sent += 1
        while out:
            n = rnd.choice([1, 5, 40, 400, 4000])
            k.send(out[:n])
            out = out[n:]
        if rnd.random() < .3:
            time.sleep(0.001)
    end = time.time() + WAIT
    got = 0
    try:
        while got < streams and time.time() < end:
            for sid_, st, body in h.pump(max(0.01, end - time.time())):
                m = re.search(rb"'u(\d+)'", body)
                tok = int(m.group(1)) if m else 0
                kd = kinds.get(sid_, "")
                if not m and kd in base and (st, body) != base[kd]:
                    tok = -1
                r.log("resp", 1, s=st, t=tok, q=sid_)
                got += 1
        # nothing more may come
        try:
            for sid_, st, body in h.pump(0.02):
                r.log("resp", 1, s=st, t=-1, q=sid_)
        except TimeoutError:
            pass
    except (OSError, EOFError):
        pass
    r.log("quiet")
    r.leave(1, "close")
    return r.finish()
