"""Checks of the laya server (C01..C07)."""
import json, os, random, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
from vlib import *
from httpc import *

SAFE = set(b"!$&'()*+,-./0123456789:;=@ABCDEFGHIJKLMNOPQRSTUVWXYZ^_abcdefghijklmnopqrstuvwxyz~%|[]")


def gen_paths(scratch):
    out = os.path.join(scratch, "paths.ndjson")
    tlc("IiifGen", cfg="Empty", env={"OUT": out, "TIER": TIER}, heap="6g")
    return [bytes(p) for p in read_ndjson(out)]


def random_paths(n):
    """Random paths: grammar fragments glued at random, and mutations of good paths."""
    r = random.Random(SEED)
    num = lambda: r.choice(["0", "1", str(r.randrange(400)), str(r.randrange(2**32)), str(r.randrange(2**34)),
                            f"{r.uniform(0, 400):.{r.randrange(1, 9)}f}", f"{r.uniform(0, 2):.{r.randrange(1, 4)}f}",
                            "-" + str(r.randrange(9)), "", ".", "1.", ".5", "1e2", "+3", "nan", "inf", "x", "é"])
    reg = lambda: r.choice(["full", "square", ",".join(num() for _ in range(r.choice([4, 4, 4, 3, 5]))),
                            "pct:" + ",".join(num() for _ in range(r.choice([4, 4, 4, 3, 5])))])
    siz = lambda: r.choice(["", "^"]) + r.choice(["max", "pct:" + num(), num() + "," + num(), "!" + num() + "," + num(), num()])
    rot = lambda: r.choice(["", "!"]) + num()
    qf = lambda: r.choice(["color", "gray", "bitonal", "default", "Gray"]) + r.choice([".", ".", ".", ""]) + \
        r.choice(["jpg", "tif", "png", "gif", "jp2", "pdf", "webp", "jpeg", ""])
    idn = lambda: "".join(r.choice(["a", "B", "7", "%2F", "%2f", "%20", "%25", "%C3%A9", "%c3", "%", "é", "~", "+", "%zz", "%F0%9F%98%80", "%ED%A0%80", "%E0%80%80"])
                          for _ in range(r.randrange(0, 6)))
    out = []
    for _ in range(n):
        p = "/" + "/".join([idn(), reg(), siz(), rot(), qf()][:r.choice([5, 5, 5, 5, 5, 5, 4, 3, 2])])
        if r.random() < .15:
            b = list(p)
            k = r.randrange(1, len(b)) if len(b) > 1 else 0
            b[k:k + r.randrange(2)] = r.choice(["/", ",", "%", ".", "!", "^", "0", "9", ":", ""])
            p = "".join(b)
        if p.startswith("/"):
            out.append(p.encode())
    return out


def decode_real(bindir, paths):
    p = subprocess.run([os.path.join(bindir, "layaw"), "decode"], input="".join(json.dumps(list(x)) + "\n" for x in paths).encode(),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    rows = p.stdout.decode().splitlines()
    if len(rows) != len(paths):
        raise ToolError("layaw decode died: " + p.stderr.decode()[-400:])
    return [json.loads(l) for l in rows]


def b(s):
    return list(s.encode("utf-8") if isinstance(s, str) else s)


def to_obs(path, r):
    o = {"path": list(path), "src": "fn", "ok": False, "msg": [], "id": [], "region": {"k": "", "n": []}, "upscale": False,
         "scale": {"k": "", "n": []}, "mirror": False, "degrees": [], "quality": "", "format": "", "mime": ""}
    if r.get("panic"):
        o["msg"] = b("PANIC")
        o["src"] = "panic"
    elif r["ok"]:
        o.update(ok=True, id=r["id"], region={"k": r["region"][0], "n": [b(x) for x in r["region"][1:]]},
                 upscale=r["upscale"], scale={"k": r["scale"][0], "n": [b(x) for x in r["scale"][1:]]},
                 mirror=r["mirror"], degrees=b(r["degrees"]), quality=r["quality"], format=r["format"], mime=r["mime"])
    else:
        o["msg"] = b(r["msg"])
    return o


def http_obs(path, res):
    st, body = res
    return {"path": list(path), "src": "http", "ok": st == 200, "msg": list(body if isinstance(body, bytes) else b"NO RESPONSE " + body.encode()),
            "status": st or 0}


def check_iiif(prop):
    diag = prop == "C02"
    ck = Check(prop, "model_checking",
               ["TLC and the JSON module are trusted", "number literals outside plain decimals (exponents, inf, nan, explicit +) are a lenient zone: either verdict is accepted"])
    builds = ["dev"] if diag else ["dev", "nodebug"]
    with Scratch() as d:
        with ThreadPoolExecutor(4) as ex:
            fb = [ex.submit(cargo_build, "laya", p) for p in builds]
            fg = ex.submit(gen_paths, d)
            dirs = [f.result() for f in fb]
            paths = fg.result()
        paths += random_paths(40000 if TIER == "thorough" else 6000)
        rows, meta = [], []
        for prof, bd in zip(builds, dirs):
            sub = paths if prof == "dev" else paths[::4] + paths[-3000:]
            for p, r in zip(sub, decode_real(bd, sub)):
                o = to_obs(p, r)
                if diag and o["ok"] is True:
                    # keep: the spec decides whether acceptance is legitimate
                    pass
                rows.append(o)
                meta.append((prof, p, r))
        # over the wire: every request names the existing image `i`
        img = os.path.join(d, "img")
        os.mkdir(img)
        open(os.path.join(img, "i"), "w").write("x")
        wire = [p for p in paths if p.startswith(b"/i/") and not p.endswith(b"info.json") and all(c in SAFE for c in p)]
        r = random.Random(SEED)
        wire = r.sample(wire, min(len(wire), 12000 if TIER == "thorough" else 4000))
        with Server(os.path.join(dirs[0], "layaw"), img) as s:
            q = [p + (b"?a=/1/2&b=.." if k % 5 == 0 else b"") for k, p in enumerate(wire)]
            parts = [(wire[k::4], q[k::4]) for k in range(4)]
            with ThreadPoolExecutor(4) as ex:
                res = list(ex.map(lambda x: fetch_all(s.port, x[1]), parts))
        for (w, _), rs in zip(parts, res):
            for p, x in zip(w, rs):
                o = http_obs(p, x)
                if o["status"] not in (200, 400):
                    ck.violation(f"GET {p!r}: status {x}", {"path": p.decode("latin1"), "response": str(x)})
                    continue
                rows.append(o)
                meta.append(("http", p, {"status": x[0], "body": str(x[1])}))
        rej, st, tr = judge("IiifTrace", rows, d, env={"JUDGE": "diag" if diag else "values"})
        for k in rej:
            prof, p, r = meta[k]
            ck.violation(f"[{prof}] {p!r} -> {json.dumps(r)[:300]}", {"profile": prof, "path": p.decode("latin1"), "observed": r})
        ck.add(states=st, transitions=tr, traces_validated_against_impl=len(rows), rejected=len(rej),
               paths_generated_by_tlc=len(paths), over_http=len(wire))
        refused = [m for m in meta if m[2].get("ok") is False or m[2].get("status") == 400]
        ck.add(refused_by_server=len(refused), accepted_by_server=len(meta) - len(refused))
        for m in (refused[:2] + refused[-1:] if diag else meta[5000:5002] + meta[-1:]):
            ck.sample({"build": m[0], "path": m[1].decode("latin1"), "observed": m[2]})
    return ck.finish()


# ---------------------------------------------------------------------------------------------
# C03 / C04: identifiers against the file system

import ctypes, ctypes.util, struct as _struct


class Inotify:
    """Watch files for being opened (works for io_uring opens as well)."""
    IN_OPEN, IN_ACCESS = 0x20, 0x1

    def __init__(self, files):
        self.libc = ctypes.CDLL(None, use_errno=True)
        self.fd = self.libc.inotify_init1(os.O_NONBLOCK)
        if self.fd < 0:
            raise ToolError("inotify unavailable")
        self.names = {}
        for f in files:
            wd = self.libc.inotify_add_watch(self.fd, f.encode(), self.IN_OPEN | self.IN_ACCESS)
            if wd < 0:
                raise ToolError("inotify watch failed")
            self.names[wd] = f

    def events(self):
        out = []
        while True:
            try:
                d = os.read(self.fd, 65536)
            except BlockingIOError:
                break
            k = 0
            while k + 16 <= len(d):
                wd, mask, _c, n = _struct.unpack_from("iIII", d, k)
                k += 16 + n
                out.append(self.names.get(wd, "?"))
        return out

    def close(self):
        os.close(self.fd)


IMG_FILES = ["a.jp2", "b c.jp2", "é.jp2", "%41.jp2", "sub/x.jp2", "sub/deep/y.jp2", "..x", ".../a.jp2", ".hidden", "a?b", "q+r", "100%", "%zz",
             "empty", "#[]@", "x../a.jp2", "sub\\x.jp2", "~", "b%20c.jp2", "x..",
             "sub/deep/" + "/".join(f"d{k}" for k in range(2, 13)) + "/far.jp2"]


def esc(b_):
    return "".join(chr(c) if chr(c).isalnum() or c in b"._-" else "%%%02X" % c for c in b_)


def get_event(raw, res, nofile, inside):
    st, body = res
    ok = (st == 200) or (st == 400 and (body == nofile or b"UTF-8" in (body if isinstance(body, bytes) else b"")))
    return {"e": "get", "id": list(raw), "status": st or 0, "plainbody": bool(ok), "inside": inside}


def check_resolve(prop):
    contain = prop == "C03"
    ck = Check(prop, "model_checking", ["TLC is trusted", "no symbolic links inside the image directory",
               "identifiers with '.', '..' or empty components that stay inside have no canonical meaning: either answer is accepted"])
    with Scratch() as d:
        base = os.path.join(d, "base")
        img = os.path.join(base, "img")
        for f in IMG_FILES:
            if f == "x..":
                continue
            p = os.path.join(img, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as h:
                h.write("" if f == "empty" else "x")
        secrets = [os.path.join(base, "secret.jp2"), os.path.join(base, "img-evil/secret.jp2"), os.path.join(d, "secret.jp2"),
                   os.path.join(base, "a.jp2")]
        for s in secrets:
            os.makedirs(os.path.dirname(s), exist_ok=True)
            open(s, "w").write("secret")
        baseenc = base.replace("/", "%2F")
        with ThreadPoolExecutor(4) as ex:
            out = os.path.join(d, "ids.ndjson")
            fg = ex.submit(tlc, "ResolveGen", cfg="Empty", env={"OUT": out, "TIER": TIER, "BASEENC": baseenc}, heap="6g")
            bd = cargo_build("laya")
            if not contain:
                build_real()
            fg.result()
        ids = [bytes(x) for x in read_ndjson(out)]
        created = [list(map(b, f.split("/"))) for f in IMG_FILES if f != "x.."]
        r = random.Random(SEED)
        toks = ["..", "%2F", "%2f", "%2e", ".", "a.jp2", "sub", "secret.jp2", "%252F", "%25", "%5C", "img", "deep", "y.jp2", "%00", "x", "é".encode().hex()]
        ids += ["".join(r.choice(toks) for _ in range(r.randrange(1, 9))).encode() for _ in range(20000 if TIER == "thorough" else 3000)]
        imgb, baseb = img.encode(), base.encode()

        def inside(raw):
            # does the identifier, taken as a file-system path, mention the image directory itself?
            import urllib.parse
            dec = urllib.parse.unquote_to_bytes(raw)
            full = os.path.normpath(os.path.join(imgb, dec)) if b"\0" not in dec else b""
            return full.startswith(imgb + b"/")
        tails = ["/full/max/0/default.jpg"] if contain else ["/full/max/0/default.jpg", "/square/^pct:200/!90/gray.webp", "/1,2,3,4/3,/12.5/color.jp2"]
        traces = []
        if contain:
            ino = Inotify(secrets)
            with Server(os.path.join(bd, "layaw"), img) as s:
                nofile = fetch_all(s.port, ["/nosuch" + tails[0]])[0][1]
                ino.events()
                parts = [ids[k::8] for k in range(8)]

                def go(part):
                    return fetch_all(s.port, [b"/" + x + tails[0].encode() for x in part])
                with ThreadPoolExecutor(8) as ex:
                    res = list(ex.map(go, parts))
                opened = ino.events()
                if opened:
                    # find the culprits one by one
                    for part, rs in zip(parts, res):
                        for x in part:
                            fetch_all(s.port, [b"/" + x + tails[0].encode()])
                            e = ino.events()
                            if e:
                                ck.violation(f"identifier {x!r} opened {e[0]} outside the image directory", {"identifier": x.decode("latin1"), "opened": e[0]})
                                if len(ck.viol) > 5:
                                    break
                    if not ck.viol:
                        ck.violation(f"files outside the image directory were opened: {sorted(set(opened))}", {"opened": sorted(set(opened))})
            ino.close()
            for n, (part, rs) in enumerate(zip(parts, res)):
                traces.append({"id": n, "ev": [{"e": "create", "f": f} for f in created] +
                               [get_event(x, y, nofile, inside(x)) for x, y in zip(part, rs)]})
        else:
            # histories: creations, removals and requests interleaved, on the real multi-shard server and on a single shard
            import urllib.parse
            plan = []
            short = [x for x in ids if len(x) < 40]
            names = [x for x in ids if any(esc(f.encode()).encode().lower() in x.lower() for f in IMG_FILES)]
            for n in range(8 if TIER == "quick" else 24):
                rr = random.Random(SEED * 1000 + n)
                sub = "h%d" % n
                pool = ["f%d.jp2" % j for j in range(4)] + ["d/g.jp2", "d e.jp2", "é", "%25x", "p%2Fq"]
                ev, files = [], set()
                for _ in range(150 if TIER == "quick" else 600):
                    f = rr.choice(pool)
                    k = rr.random()
                    if k < .2 and f not in files:
                        files.add(f)
                        ev.append(("create", sub + "/" + f))
                    elif k < .35 and files:
                        f = rr.choice(sorted(files))
                        files.discard(f)
                        ev.append(("remove", sub + "/" + f))
                    else:
                        enc = urllib.parse.quote(sub + "/" + f, safe=rr.choice(["", "~", "!$"]))
                        m = rr.random()
                        if m < .1:
                            enc = enc.replace("%", "%25")
                        elif m < .2:
                            enc = urllib.parse.quote(urllib.parse.unquote(sub + "/" + f), safe="")
                        elif m < .3:
                            enc = enc.lower()
                        ev.append(("get", enc.encode(), rr.choice(tails)))
                plan.append((n, ev))
            real = os.path.join(TARGET, "repo", "debug", "laya-server")

            def run(port, n, ev, fresh):
                out, c = [], None
                for f in created:
                    out.append({"e": "create", "f": f})
                for x in ev:
                    if x[0] == "get":
                        if c is None or fresh:
                            if c:
                                c.close()
                            c = Conn(port)
                        try:
                            c.send(get(b"/" + x[1] + x[2].encode()))
                            st, body, _ = c.recv()
                            out.append(get_event(x[1], (st, body), nofile, inside(x[1])))
                        except (OSError, EOFError) as e:
                            out.append(get_event(x[1], (None, repr(e)), nofile, inside(x[1])))
                            c = None
                    else:
                        p = os.path.join(img, x[1])
                        if x[0] == "create":
                            os.makedirs(os.path.dirname(p), exist_ok=True)
                            open(p, "w").write("x")
                        else:
                            os.unlink(p)
                        out.append({"e": x[0], "f": list(map(b, x[1].split("/")))})
                if c:
                    c.close()
                return {"id": n, "ev": out}
            with Server(os.path.join(bd, "layaw"), img) as s1, Server(real, img, real=True) as s2:
                nofile = fetch_all(s1.port, ["/nosuch" + tails[0]])[0][1]
                with ThreadPoolExecutor(8) as ex:
                    fs = [ex.submit(run, s1.port if n % 2 else s2.port, n, ev, n % 4 < 2) for n, ev in plan]
                    traces += [f.result() for f in fs]
                # static sweep: every identifier, alternating parameters
                sweep = [x for x in ids if len(x) < 60 or x in names]
                if TIER == "quick":
                    sweep = names + r.sample(sweep, min(len(sweep), 5000))
                parts = [sweep[k::8] for k in range(8)]

                def go(k):
                    return fetch_all(s1.port if k % 2 else s2.port, [b"/" + x + tails[j % 3].encode() for j, x in enumerate(parts[k])])
                with ThreadPoolExecutor(8) as ex:
                    res = list(ex.map(go, range(8)))
            for n, (part, rs) in enumerate(zip(parts, res)):
                traces.append({"id": 1000 + n, "ev": [{"e": "create", "f": f} for f in created] +
                               [get_event(x, y, nofile, inside(x)) for x, y in zip(part, rs)]})
        byid = {t["id"]: t for t in traces}

        def one(t):
            f = os.path.join(d, f"t{t['id']}.ndjson")
            write_ndjson(f, [t])
            return tlc("ResolveTrace", env={"OBS": f}, heap="2g")
        gets = good = 0
        with ThreadPoolExecutor(NCPU) as ex:
            for r_ in ex.map(one, traces):
                ck.add(states=r_.distinct, transitions=r_.generated, traces_validated_against_impl=1)
                if r_.accepted != {1}:
                    raise ToolError("trace not consumed")
                for m in re.finditer(r'<<"REJECT", (\d+), (\d+)>>', r_.out):
                    t = byid[int(m.group(1))]
                    e = t["ev"][int(m.group(2)) - 1]
                    idn = bytes(e["id"]).decode("latin1")
                    ck.violation(f"identifier {idn!r}: answered {e['status']}", {"identifier": idn, "status": e["status"],
                                 "history": t["ev"][:int(m.group(2))][-40:] if not contain else None})
        for t in traces:
            g = [e for e in t["ev"] if e["e"] == "get"]
            gets += len(g)
            good += sum(e["status"] == 200 for e in g)
            for e in g[7:8]:
                ck.sample({"identifier": bytes(e["id"]).decode("latin1"), "status": e["status"]})
        ck.add(requests=gets, answered_200=good)
    return ck.finish()


# ---------------------------------------------------------------------------------------------
# C05 / C06 / C07: connections

def build_real():
    env = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
               RUSTFLAGS="-Awarnings", CARGO_TARGET_DIR=os.path.join(TARGET, "repo"))
    q = subprocess.run(["cargo", "build", "--offline", "--locked", "--bin", "laya-server"], cwd=REPO, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if q.returncode:
        log(q.stdout[-3000:])
        raise ToolError("laya-server does not build")
    return os.path.join(TARGET, "repo", "debug", "laya-server")


def limited_fds(n):
    import resource

    def f():
        resource.setrlimit(resource.RLIMIT_NOFILE, (n, n))
    return f


ASSUME = ["TLC is trusted", "a response not seen within 15 s counts as never sent",
          "hyper's HTTP parsing decides which byte strings are requests; hostile bytes may be answered with any error or closed"]


def check_server(prop):
    from srvdrive import run_schedule, run_random, run_h2, baseline, Run
    ck = Check(prop, "model_checking", ASSUME)
    thorough = TIER == "thorough"
    traces, notes = [], []
    with Scratch() as d:
        img = os.path.join(d, "img")
        os.mkdir(img)
        open(os.path.join(img, "i"), "w").write("x")
        with ThreadPoolExecutor(4) as ex:
            fm = ex.submit(tlc, "ServerMC", cfg="ServerMC" if thorough and prop == "C06" else "ServerMCq", workers=4, heap="4g", timeout=850)
            fg = ex.submit(tlc, "ServerGen", env={"TIER": TIER}, workers=1, heap="3g") if prop == "C06" else None
            fr = ex.submit(build_real) if prop in ("C05", "C06") else None
            bd = cargo_build("laya")
            real = fr.result() if fr else None
            mc = fm.result()
            sched = fg.result().prints("SCHED") if fg else []
        ck.add(states=mc.distinct, transitions=mc.generated)
        binp = os.path.join(bd, "layaw")
        ALL = ["ok", "miss", "bad", "nf", "head", "info", "last", "last10", "junk", "part", "post"]

        def group(limit, jobs):
            """Run jobs (functions of port, limit, base) one after another on one server."""
            out = []
            with Server(binp, img, limit=limit) as s:
                base = baseline(s.port)
                for j in jobs:
                    try:
                        t = j(s.port, limit, base)
                    except OSError as e:
                        out.append(({"limit": limit, "ev": [{"e": "refused", "c": 1, "k": "", "t": 0, "s": 0, "q": 0}]}, f"connection failed: {e}"))
                        break
                    out.append((t, ""))
                    if not s.alive():
                        out.append(({"limit": limit, "ev": [{"e": "died", "c": 1, "k": "", "t": 0, "s": 0, "q": 0}]}, "server process ended"))
                        break
                    if t["ev"] and any(e["e"] == "quiet" for e in t["ev"]) and not any(e["q"] for e in t["ev"]):
                        break                                   # overdue: the judge will say
                    if len(out) > 3 and time.time() - T0 > 500:
                        break
            return out
        if prop == "C06":
            n = real_limit(real, img)
            if n is not None:
                ck.add(real_listeners=n[0], real_connections=n[1], real_answered=n[2])
                if n[3]:
                    ck.violation(n[3], {"listeners": n[0], "connections": n[1], "answered": n[2]})
        groups = []
        rs = random.Random(SEED * 7919)
        if prop == "C06":
            order = list(range(len(sched)))
            for lim in (1, 2):
                mine = order if thorough or lim == 1 else order[::2]
                for k in range(4):
                    groups.append((lim, [(lambda p, l, b, x=sched[j], j=j: run_schedule(p, l, x, SEED + j)) for j in mine[k::4]]))
            for lim in (1, 2, 3, 5):
                groups.append((lim, [(lambda p, l, b, j=j: run_random(p, l, rs.randrange(1 << 30), 40, ["ok", "bad", "bad", "last", "last10", "junk", "part", "garb", "post"],
                                      burst=2, poke=0.01)) for j in range(120 if thorough else 25)]))
        elif prop == "C05":
            for g in range(8):
                lim = [1, 2, 3, 8][g % 4]
                groups.append((lim, [(lambda p, l, b, j=j: run_random(p, l, rs.randrange(1 << 30), 40, ALL + ["garb"] * (6 if j % 2 else 2), burst=1 + j % 3,
                                      split=j % 5 == 4, base=b)) for j in range(150 if thorough else 30)]))
        else:
            for g in range(6):
                lim = [8, 8, 3][g % 3]
                groups.append((lim, [(lambda p, l, b, j=j: run_random(p, l, rs.randrange(1 << 30), 24, ["ok", "miss", "bad", "bad", "bad", "nf", "head", "post"] if j % 3 else ["ok", "bad", "nf", "last"],
                                      burst=[1, 3, 12][j % 3], split=j % 4 != 3, base=b, ends=("close", "reset"))) for j in range(150 if thorough else 30)]))
            for g in range(2):
                groups.append((8, [(lambda p, l, b, j=j: run_h2(p, l, rs.randrange(1 << 30), [3, 12, 60][j % 3], b)) for j in range(100 if thorough else 20)]))
        with ThreadPoolExecutor(NCPU) as ex:
            for out in ex.map(lambda g: group(*g), groups):
                for t, note in out:
                    traces.append(t)
                    notes.append(note)
        if prop == "C05":
            # the real multi-shard binary under the same storm, then probes that reach every shard
            with Server(real, img, real=True) as s:
                base = baseline(s.port)

                def storm(k):
                    return [run_random(s.port, 1024, SEED * 100 + k * 1000 + j, 25, ALL + ["garb"] * 6, burst=2, base=base) for j in range(40 if thorough else 8)]
                try:
                    with ThreadPoolExecutor(8) as ex:
                        for ts in ex.map(storm, range(8)):
                            traces += ts
                            notes += ["real server"] * len(ts)
                    for k in range(12):
                        r = Run(s.port, 1024, random.Random(k), base=base)
                        for c in range(1, 9):
                            r.connect(c)
                            r.send(c, ["ok", "bad", "miss", "nf"][c % 4], c)
                        r.drain()
                        traces.append(r.finish())
                        notes.append("real server: probing every shard after the storm")
                except OSError as e:
                    traces.append({"limit": 1, "ev": [{"e": "refused", "c": 1, "k": "", "t": 0, "s": 0, "q": 0}]})
                    notes.append(f"real server: connection failed: {e}")
            # more connections than the server has file descriptors for: it must recover when they go
            if True:
                w = os.path.join(d, "w.sh")
                open(w, "w").write(f"#!/bin/sh\nulimit -n 48\nexec {binp} \"$@\"\n")
                os.chmod(w, 0o755)
                with Server(w, img, limit=1024) as s:
                    try:
                        fill = []
                        for _ in range(90):
                            fill.append(Conn(s.port, 5))
                        time.sleep(0.3)
                        for c in fill:
                            c.close()
                        r = Run(s.port, 1024, random.Random(1))
                        for c in range(1, 9):
                            r.connect(c)
                            r.send(c, "bad", c)
                        r.drain()
                        traces.append(r.finish())
                    except OSError as e:
                        traces.append({"limit": 1, "ev": [{"e": "refused", "c": 1, "k": "", "t": 0, "s": 0, "q": 0}]})
                    notes.append("90 connections against 48 file descriptors, then 8 requests")
        rej, st, tr = judge("ServerTrace", traces, d)
        ck.add(states=st, transitions=tr, traces_validated_against_impl=len(traces), events=sum(len(t["ev"]) for t in traces),
               responses=sum(e["e"] == "resp" for t in traces for e in t["ev"]))
        for k in rej:
            ev = traces[k]["ev"]
            ck.violation(f"trace {k} (limit {traces[k]['limit']}) {notes[k]}: not a behaviour of Server: ..." +
                         " ".join(f"{e['e']}{e['c'] or ''}{':' + e['k'] if e['k'] else ''}{'=' + str(e['s']) if e['s'] else ''}{'/' + str(e['t']) if e['t'] else ''}" for e in ev[-25:]),
                         {"limit": traces[k]["limit"], "note": notes[k], "events": ev})
        for t in traces[3:200:90]:
            ck.sample([f"{e['e']}{e['c'] or ''}{':' + e['k'] if e['k'] else ''}{'=' + str(e['s']) if e['s'] else ''}" for e in t["ev"][:30]])
    return ck.finish()


def real_limit(real, img):
    """The shipped binary: more idle-but-answered connections than listeners x 1024; the surplus must wait."""
    import resource, select
    soft, hard = resource.getrlimit(resource.RLIMIT_NOFILE)
    try:
        resource.setrlimit(resource.RLIMIT_NOFILE, (hard, hard))
    except (ValueError, OSError):
        pass
    avail = resource.getrlimit(resource.RLIMIT_NOFILE)[0]
    conns = []
    try:
        with Server(real, img, real=True) as s:
            def count():
                return len({l.split()[9] for l in open("/proc/net/tcp").read().splitlines()[1:]
                            if l.split()[1].endswith(":%04X" % 43594) and l.split()[3] == "0A"})
            listeners, same = 0, 0
            while same < 10:               # every shard binds its own socket, one after another
                n = count()
                same = same + 1 if n == listeners else 0
                listeners = n
                time.sleep(0.1)
            total = listeners * 1024
            want = total + 40 * listeners + 200
            if listeners == 0 or want + 200 > avail:
                return None
            for _ in range(want):
                k = socket.socket()
                k.settimeout(20)
                k.connect(("127.0.0.1", s.port))
                k.sendall(get("/i/full/u1/0/default.jpg"))
                conns.append(k)
            answered = 0
            pend = {k.fileno(): k for k in conns}
            po = select.poll()
            for fd in pend:
                po.register(fd, select.POLLIN)
            idle = 0
            while pend and idle < 5:
                ev = po.poll(400)
                if not ev:
                    idle += 1
                    continue
                idle = 0
                for fd, _m in ev:
                    k = pend.pop(fd)
                    po.unregister(fd)
                    if k.recv(20).startswith(b"HTTP/1.1 400"):
                        answered += 1
            if count() != listeners:
                return None
            if answered > total:
                return listeners, want, answered, f"{answered} connections served at once by {listeners} listeners of 1024"
            return listeners, want, answered, ""
    finally:
        for k in conns:
            k.close()


CHECKS = {"C05": lambda: check_server("C05"), "C06": lambda: check_server("C06"), "C07": lambda: check_server("C07"), "C03": lambda: check_resolve("C03"), "C04": lambda: check_resolve("C04"),
          "C01": lambda: check_iiif("C01"), "C02": lambda: check_iiif("C02")}
