"""Check of independence: C25 (codec instances, threads, repetition)."""
from jp2_boxes import *
import hashlib

NAMES = ("c", "s", "i", "j", "b", "to", "buf")


def named(ops, k):
    """The same calls on objects of instance k."""
    return [{f: f"{v}#{k}" if f in NAMES and isinstance(v, str) else v for f, v in o.items()} for o in ops]


def digest(r):
    return hashlib.sha1(json.dumps(r, sort_keys=True).encode()).hexdigest()[:16]


def encoder(R, s, fmt):
    im, p, ex = s
    o = encode_ops(im, p, fmt, extra=ex)[:-1]
    if R.random() < .4:
        k = next(k for k, x in enumerate(o) if x["op"] == "encode")
        o[k:k + 1] = [dict(op="wtile", c="e", s="o", i="w", t=t, rect=r) for t, r in enumerate(tiles(im, p))]
        o.insert(0, dict(op="mkimg", i="w", **im))
    k = next(k for k, x in enumerate(o) if x["op"] == "sfree")
    return o[:k] + [dict(op="msgs", c="e")] + o[k:] + [dict(op="getbuf", b="b")]


def damage(R, b):
    """Damaged in the coded data only: sizes stay small, so that no run hangs on what memory others hold."""
    b = bytearray(b)
    if R.random() < .4:
        return bytes(b[:R.randrange(len(b))])
    for _ in range(R.choice([1, 1, 2, 5])):
        b[R.randrange(b.index(b"\xff\x93") + 2, len(b))] = R.randrange(256)
    return bytes(b)


def decoder(R, im, p, b, fmt, whole):
    nt, nc = len(tiles(im, p)), len(im["comps"])
    o = [dict(op="buf", b="b", hex=b.hex()), dict(op="dec_new", c="d", fmt=fmt),
         dict(op="dec_setup", c="d", reduce=R.choice([0, 0, 0, min(1, p["nres"] - 1)]), layer=R.choice([0, 0, 0, 1]))]
    if R.random() < .3 and whole:
        o.append(dict(op="strict", c="d", v=0))
    o += [{"op": "stream", "s": "i", "in": True, "buf": "b"}, dict(op="hdr", c="d", s="i", i="r"), dict(op="info", c="d")]
    way = R.choice(["dec", "dec", "area", "tiles", "rth", "comps"])
    if way == "comps":
        o.append(dict(op="comps", c="d", x=R.sample(range(nc), R.randint(1, nc)), ct=0))
    if way == "area":
        a, b = R.randint(im["x0"], im["x1"] - 1), R.randint(im["y0"], im["y1"] - 1)
        o.append(dict(op="area", c="d", i="r", x0=a, y0=b, x1=R.randint(a + 1, im["x1"]), y1=R.randint(b + 1, im["y1"])))
    if way == "tiles":
        for t in [R.randrange(nt) for _ in range(3)]:
            o += [dict(op="gtile", c="d", s="i", i="r", t=t), dict(op="img", i="r", full=True)]
    elif way == "rth":
        for _ in range(nt):
            o += [dict(op="rth", c="d", s="i"), dict(op="dtd", c="d", s="i", more=0, plus=0, bytes=True)]
        o.append(dict(op="rth", c="d", s="i"))
    else:
        o += [dict(op="dec", c="d", s="i", i="r"), dict(op="img", i="r", full=True)]
    o += [dict(op="end_dec", c="d", s="i"), dict(op="index", c="d"), dict(op="msgs", c="d"), dict(op="sfree", s="i"), dict(op="cfree", c="d")]
    if R.random() < .5:
        o.append(dict(op="freeimg", i="r"))
    return o


def programs(ck, R, n):
    """n programs of encoder and decoder calls, with what they are."""
    S = corpus(25, n, maxw=20, maxh=20, maxtiles=6) + corpus(251, n // 4, maxw=70, maxh=70, maxtiles=4) + extremes(252, 8)
    for im, p, ex in S:
        if R.random() < .25:
            p["irr"] = 1
    out = []
    for s, q, o, b in encoded(ck, S, full=False):
        im, p, ex = s
        if len(b) > 20000:
            continue
        k = R.random()
        fmt = fmt_of(R)
        if k < .4:
            out.append(encoder(R, s, fmt))
        elif fmt == "j2k":
            out.append(decoder(R, im, p, damage(R, b) if k < .6 else b, fmt, k >= .6))
        else:
            T = tree(im, b, table(R, im) if R.random() < .5 else [])
            f = b"".join(map(ser, decorate(R, T) if R.random() < .3 else T))
            out.append(decoder(R, im, p, damage(R, f) if k < .55 else f, fmt, k >= .55))
    return out


def segments(R, n, k):
    """n calls cut into k runs."""
    c = [0] + sorted(R.sample(range(1, n), k - 1)) + [n]
    return [b - a for a, b in zip(c, c[1:])]


def schedule(parts, s):
    """Order of single calls from an order s of runs; parts[k]: the lengths of the runs of instance k."""
    at, out = [0] * len(parts), []
    for k in s:
        out += [k - 1] * parts[k - 1][at[k - 1]]
        at[k - 1] += 1
    return out


def merged(ps, order):
    at, ops = [0] * len(ps), []
    q = [named(p, k) for k, p in enumerate(ps)]
    for k in order:
        ops.append(q[k][at[k]])
        at[k] += 1
    return ops


def check_c25():
    ck = Check("C25", "model_checking", ["what a program gives alone in a fresh process is the reference; sample values and bytes are compared, not timing"])
    R = random.Random(2500 + SEED)
    T = 1 if TIER == "quick" else 6
    rows, keep = [], []

    def row(alone, ev, what, **k):
        rows.append(dict(alone=alone, ev=ev))
        keep.append(dict(what=what, **k))
    with Scratch() as sc:
        r = tlc("InstancesMC")
        bad = tlc("InstancesMC", cfg="InstancesShared", ok=(12,))
        ck.add(states=r.distinct + bad.distinct, transitions=r.generated + bad.generated)
        P = programs(ck, R, 170 * T)
        # alone, in fresh processes whose memory is filled with different bytes
        ref, fine = [], []
        runs = [jp2.run_all([dict(ops=named(p, 0)) for p in P], fresh=True, env=e) for e in ({}, {"MALLOC_PERTURB_": "90"}, {"MALLOC_PERTURB_": "255"})]
        for p, *x in zip(P, *runs):
            d = [died(y) for y in x]
            if any(d):
                if not all(d):
                    ck.violation("alone: sometimes " + str([y for y in d if y][0]), dict(session=dict(ops=p)))
                continue    # what one instance does by itself is for the other properties
            h = [[digest(y) for y in z["out"]] for z in x]
            for g in h:
                row([h[0]], [[1, v] for v in g], "alone, repeated", session=dict(ops=p))
            ref.append(h[0])
            fine.append(p)
        P, n = fine, len(fine)
        pick = lambda m: [R.randrange(n) for _ in range(m)]
        # every order of the runs of two or three instances
        f = os.path.join(sc, "gen.ndjson")
        shapes = [[4, 4], [5, 4], [3, 2, 2], [2, 2, 2, 1]] if T == 1 else [[5, 5], [4, 4], [6, 3], [3, 3, 3], [3, 3, 2], [2, 2, 2, 2], [4, 2, 2]]
        write_ndjson(f, [dict(lens=s) for s in shapes])
        r = tlc("InstancesGen", env={"OBS": f})
        ck.add(states=r.distinct, transitions=r.generated)
        S = [(x["i"] - 1, x["s"]) for x in r.prints("SCHED")]
        ck.add(orders_generated_by_tlc=len(S))
        per = {}
        plan = []
        for i, s in S:
            if i not in per or R.random() < (.06 if T == 1 else .02):
                c = pick(len(shapes[i]))
                if R.random() < .3:
                    c[1] = c[0]
                per[i] = (c, [segments(R, len(P[x]), min(k, len(P[x]))) for x, k in zip(c, shapes[i])])
            c, parts = per[i]
            plan.append((c, schedule(parts, s), "orders of runs"))
        # single calls of many instances in a random order
        for _ in range(150 * T):
            c = pick(R.choice([2, 3, 4, 6, 8]))
            if R.random() < .2:
                c[1] = c[0]
            o = [k for k, x in enumerate(c) for _ in P[x]]
            R.shuffle(o)
            plan.append((c, o, "calls in any order"))
        # one after the other in one process, each twice
        for _ in range(30 * T):
            c = pick(5) * 2
            plan.append((c, [k for k, x in enumerate(c) for _ in P[x]], "one after the other"))
        ses = [dict(ops=merged([P[x] for x in c], o)) for c, o, w in plan]
        for (c, o, w), q, x in zip(plan, ses, jp2.run_all(ses)):
            if died(x):
                ck.violation(f"{w}: {died(x)}", dict(session=q))
                continue
            row([ref[k] for k in c], [[k + 1, digest(y)] for k, y in zip(o, x["out"])], w, session=q)
        # concurrent threads, each with a few instances one after the other
        plan = []
        for _ in range(60 * T):
            c = [pick(R.choice([2, 3, 4])) for _ in range(R.choice([2, 4, 8]))]
            if R.random() < .3:
                c = [c[0]] * len(c)
            plan.append(c)
        ses = []
        for c in plan:
            ses.append(dict(threads=[dict(ops=merged([P[x] for x in th], [k for k, x in enumerate(th) for _ in P[x]])) for th in c]))
        for c, q, x in zip(plan, ses, jp2.run_all(ses, timeout=60, nproc=3)):
            d = [died(y) if isinstance(y, dict) else "panic" for y in x["threads"]] if "threads" in x else [died(x)]
            if any(d):
                ck.violation("threads: " + str([y for y in d if y][0]), dict(session=q))
                continue
            al, ev = [], []
            for th, y in zip(c, x["threads"]):
                at = 0
                for k in th:
                    al.append(ref[k])
                    ev += [[len(al), digest(v)] for v in y["out"][at:at + len(P[k])]]
                    at += len(P[k])
            row(al, ev, "concurrent threads", session=q)
        # the thread-count setting
        plan, ses = [], []
        for _ in range(120 * T):
            k = R.randrange(n)
            o = named(P[k], 0)
            new = [j for j, y in enumerate(o) if y["op"] in ("enc_new", "dec_new")][0]
            end = [j for j, y in enumerate(o) if y["op"] == "cfree"][0]
            at = sorted(R.sample(range(new + 1, end + 1), R.choice([1, 1, 2])), reverse=True)
            x = list(o)
            for j in at:
                x.insert(j, dict(op="threads", c=o[new]["c"], n=R.choice([0, 1, 2, 4, 8, 64, -1, 1000000])))
            plan.append((k, x))
            ses.append(dict(ops=x))
        for (k, x), q, y in zip(plan, ses, jp2.run_all(ses)):
            if died(y):
                ck.violation("thread count: " + died(y), dict(session=q))
                continue
            row([ref[k]], [[1, digest(v)] for z, v in zip(x, y["out"]) if z["op"] != "threads"], "thread count set", session=q)
        ck.add(programs=n, executions=len(rows), calls=sum(len(r["ev"]) for r in rows))
        judged(ck, "InstancesTrace", rows, keep, "a result depends on more than the instance's own calls", sc)
    for p in P[:3]:
        ck.sample(json.dumps([o["op"] for o in p]))
    return ck.finish()


CHECKS = {"C25": check_c25}
