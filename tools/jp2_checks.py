"""Checks of the JPEG 2000 library (C08..C26)."""
import json, os, random, sys
from vlib import *
import jp2
from jp2gen import *

# Refusals of an encode that the library documents as limits of its means, by message.
REFUSALS = ("remaining in output buffer", "Not enough bytes in output buffer", "at most 255 are possible",
            "Cannot encode tile")


def refused(r):
    """The message with which a stopped session was refused, or None."""
    o = r["out"][-1] if r.get("out") else {}
    return (o.get("err") or ["(no message)"])[0] if o.get("stopped") else None


def died(r):
    if "out" not in r:
        return "the process died" if "crash" in r else "the operation never ended"
    for o in r["out"]:
        if isinstance(o, dict) and "panic" in o:
            return "panic: " + str(o["panic"])[:200]
    return None


def corpus(seed, n, tier_scale=4, **kw):
    """n random encodes as (image, params, extra)."""
    R = random.Random(seed * 7919 + SEED)
    n = n * (tier_scale if TIER == "thorough" else 1)
    S = []
    while len(S) < n:
        im = image(R, **{k: v for k, v in kw.items() if k in ("maxw", "maxh", "comps", "sub", "maxprec", "offset")})
        if not nonempty(im, {}):
            continue
        p = params(R, im, **{k: v for k, v in kw.items() if k in ("layers", "poc", "modes", "maxtiles", "tiled", "csty", "tp", "roi")})
        ex = R.choice([None, ["PLT=YES"], ["TLM=YES"], ["PLT=YES", "TLM=YES"]])
        if R.random() < .3:
            p["comment"] = R.choice(["x", "a comment", "0123456789" * 8])
        S.append((im, p, ex))
    return S


def extremes(seed, n):
    """n encodes with one size far from the ordinary: long packets, many tiles, layers, components or packets."""
    R = random.Random(seed * 7919 + SEED)
    n = n * (4 if TIER == "thorough" else 1)
    S = []
    for k in range(n):
        what = ("packets", "tiles", "layers", "comps", "precincts", "blocks")[k % 6]
        kw = dict(packets=dict(maxw=130, maxh=130), tiles=dict(maxw=24, maxh=24), layers=dict(maxw=40, maxh=40, comps=1),
                  comps=dict(maxw=6, maxh=6, comps=1), precincts=dict(maxw=70, maxh=70, comps=1), blocks=dict(maxw=400, maxh=400, comps=1))[what]
        while True:
            im = image(R, **kw)
            if what == "packets":
                im["x1"], im["y1"] = im["x0"] + R.randint(96, 130), im["y0"] + R.randint(96, 130)
                im["comps"] = [dict(dx=1, dy=1, prec=16, sgnd=R.choice([0, 1]))]
                im["content"]["kind"] = "noise"
            if what == "tiles":
                im["x1"], im["y1"] = im["x0"] + R.randint(16, 20), im["y0"] + R.randint(16, 20)
                for c in im["comps"]:
                    c["dx"] = c["dy"] = 1
            if what == "blocks":
                a, b = R.randint(1, 6), R.randint(150, 400)
                a, b = R.choice([(a, b), (b, a)])
                im["x1"], im["y1"] = im["x0"] + a, im["y0"] + b
            p = params(R, im, maxtiles=9, tp=what not in ("layers", "comps"), poc=what != "comps", roi=what != "comps",
                       tiled=0 if what in ("packets", "layers", "precincts", "blocks") else .45)
            if what == "packets":
                p["nres"] = R.randint(1, 2)
                for x in ("prec", "rates", "poc", "tp"):
                    p.pop(x, None)
                p["csty"] = p.get("csty", 0) & 6
            if what == "tiles":
                p["tile"] = [R.randint(max(0, im["x0"] - 1), im["x0"]), im["y0"], R.randint(1, 2), 1]
                p["nres"] = 1
                for x in ("poc", "prec", "tp"):
                    p.pop(x, None)
                p["csty"] = p.get("csty", 0) & 6
            if what == "layers":
                p["rates"] = sorted([round(R.uniform(1.2, 60), 2) for _ in range(R.randint(12, 60))], reverse=True) + [0]
                p.pop("poc", None)
            if what == "comps":
                im["comps"] = [dict(im["comps"][0], dx=1, dy=1) for _ in range(R.choice([5, 17, 255, 256, 257, 260]))]
                p.pop("mct", None)
                p.pop("tile", None)
                if R.random() < .3:
                    p["roi_c"], p["roi_s"] = R.randrange(len(im["comps"])), R.randint(1, 5)
                if R.random() < .4:
                    p["poc"] = pocs(R, p["nres"], len(im["comps"]), len(p.get("rates", [0])))
            if what == "precincts":
                p["prec"] = [[R.choice([2, 2, 4]), R.choice([2, 2, 4])]]
                p["csty"] = p.get("csty", 0) | 1
            if what == "blocks":
                a = R.randint(2, 10)
                p["cbw"], p["cbh"] = 1 << a, 1 << (12 - a)
            if nonempty(im, p):
                break
        S.append((im, p, R.choice([["PLT=YES"], ["PLT=YES", "TLM=YES"], ["TLM=YES"], None]) if k % 2 else ["PLT=YES", "TLM=YES"]))
    return S


def want(im, p, ex):
    return dict(im=dict(x0=im["x0"], y0=im["y0"], x1=im["x1"], y1=im["y1"]), comps=im["comps"], tile=p.get("tile", []),
                nl=p["nres"] - 1, xcb=p["cbw"].bit_length() - 1, ycb=p["cbh"].bit_length() - 1, prog=p["prog"],
                csty=p.get("csty", 0), mode=p.get("mode", 0), mct=p.get("mct", 0), layers=len(p.get("rates", [0])),
                prec=p.get("prec", []), roic=p.get("roi_c", -1), rois=p.get("roi_s", 0), poc=p.get("poc", []),
                tp=p.get("tp", ""), plt=bool(ex and "PLT=YES" in ex), tlm=bool(ex and "TLM=YES" in ex),
                comment=list(p.get("comment", "").encode()))


def encoded(ck, S, fmt="j2k", post=None, full=True):
    """Encode every case; yields (case, session, out, bytes). Reports crashes and unexpected refusals."""
    ses = [dict(stop=1, ops=encode_ops(im, p, fmt, extra=ex) + [dict(op="getbuf", b="b")] +
                ([dict(op="img", i="a", full=True)] if full else []) + (post(im, p, ex) if post else [])) for im, p, ex in S]
    res = jp2.run_all(ses)
    good = []
    for s, q, r in zip(S, ses, res):
        d = died(r)
        if d:
            ck.violation(d, dict(session=q, result=r))
            continue
        m = refused(r)
        if m is not None:
            ck.add(refused=1)
            if not any(x in m for x in REFUSALS):
                ck.violation("refused: " + m, dict(session=q, result=r["out"][-1]))
            continue
        good.append((s, q, r["out"], bytes.fromhex(next(o["hex"] for o in r["out"] if "hex" in o))))
    ck.add(encodes=len(S))
    return good


def pixels(o):
    return [c["d"] for c in o["comps"]]


def equal(out):
    """Did the last "cmp" of a session find two equal images?"""
    c = [o for o in out if isinstance(o, dict) and "nc" in o][-1]
    return c["nc"][0] == c["nc"][1] and all("eq" in x and not x["ne"] and not x["outside"] for x in c["comps"])


def imgs(out):
    return [o for o in out if isinstance(o, dict) and "comps" in o]


def judged(ck, module, rows, keep, what, sc, **kw):
    """Let TLC decide the rows; keep[k] is the replay of row k."""
    REASONS.pop(module, None)
    rej, st, tr = judge(module, rows, sc, **kw)
    ck.add(observations=len(rows), states=st, transitions=tr)
    for k in rej:
        w = REASONS.get(module, {}).get(k)
        ck.violation(what + (": " + json.dumps({x: w[x] for x in w if x != "i"}) if w else ""), keep[k])
    return rej


def recorded(ck, key, what):
    """Run the input of a recorded finding; it is reported only while it still fails."""
    f = json.load(open(os.path.join(VERIF, "fixtures", key + ".json")))
    q = f.get("session") or dict(stop=1, ops=[dict(op="mkimg", i="a", **f["image"]), dict(op="buf", b="b", hex=f["hex"])] + decode_ops() +
             [dict(op="cmp", i="a", j="r")])
    r = jp2.run_all([q])[0]
    d = died(r) or refused(r)
    if d or not equal(r["out"]):
        ck.violation(f"{what}: {d or 'other samples'}", dict(session=q), key=key)


def desc(o):
    """An image as the specification sees it."""
    return dict(x0=o["x0"], y0=o["y0"], x1=o["x1"], y1=o["y1"],
                comps=[{k: c.get(k, []) for k in ("dx", "dy", "w", "h", "prec", "sgnd", "d")} for c in o["comps"]])


def check_c08():
    ck = Check("C08", "model_checking")
    R = random.Random(800 + SEED)
    S = extremes(84, 240) + corpus(8, 2400, maxprec=23) + corpus(81, 500, maxw=90, maxh=90, maxprec=23) + corpus(82, 60, maxw=300, maxh=200, comps=1)
    for im, p, ex in corpus(83, 40, maxw=40, maxh=40, comps=1, tp=False, roi=False, maxtiles=3):
        im["comps"] = [dict(im["comps"][0]) for _ in range(R.choice([5, 6, 17, 33]))]       # many components
        p.pop("poc", None)
        p.pop("mct", None)
        S.append((im, p, ex))
    rows, keep = [], []
    for fmt in ("j2k", "jp2"):
        T = S[0::2] if fmt == "j2k" else S[1::2]
        for s, q, o, b in encoded(ck, T, fmt=fmt, post=lambda im, p, ex: decode_ops(fmt) + [dict(op="img", i="r", full=True)]):
            rows.append(dict(src=desc(imgs(o)[0]), dst=desc(imgs(o)[-1])))
            keep.append(dict(case=s, session=q, file=b.hex()))
            if len(ck.samples) < 3:
                ck.sample(json.dumps(dict(image=s[0], params=s[1], fmt=fmt)))
    recorded(ck, "precision-25", "25 bit samples")
    with Scratch() as sc:
        judged(ck, "RoundTrip", rows, keep, "round trip changed the image", sc)
    return ck.finish()


def check_c09():
    ck = Check("C09", "model_checking", ["the T.800 decoder of spec/RefDecode.tla is the reference"])
    S = corpus(9, 900)
    S += corpus(91, 120, maxw=40, maxh=40, tiled=.2) + extremes(92, 24)
    good = encoded(ck, S, post=lambda im, p, ex: decode_ops() + [dict(op="img", i="r", full=True)])
    rows = [dict(cs=list(b), img=pixels(imgs(o)[0]), dec=pixels(imgs(o)[-1])) for s, q, o, b in good]
    keep = [dict(case=s, session=q, codestream=b.hex()) for s, q, o, b in good]
    for s, q, o, b in good[:3]:
        ck.sample(json.dumps(dict(image=s[0], params=s[1], bytes=len(b))))
    with Scratch() as sc:
        judged(ck, "RefTrace", rows, keep, "codestream and standard disagree about the image", sc)
    return ck.finish()


def check_c10():
    ck = Check("C10", "model_checking", ["rules of spec/Written.tla"])
    S = corpus(10, 2000) + extremes(101, 180)
    good = encoded(ck, S, full=False)
    rows = [dict(cs=list(b), want=want(*s)) for s, q, o, b in good]
    keep = [dict(case=s, session=q, codestream=b.hex()) for s, q, o, b in good]
    for s, q, o, b in good[:3]:
        ck.sample(json.dumps(dict(image=s[0], params=s[1], bytes=len(b))))
    with Scratch() as sc:
        judged(ck, "WrittenTrace", rows, keep, "codestream is not what was asked for", sc)
    return ck.finish()


def arrangement(R, im, p, layers=0):
    """A random standard arrangement of the packets of an encode."""
    nc, nres, nl = len(im["comps"]), p["nres"], len(p.get("rates", [0]))
    vols = []
    if R.random() < .45:
        vols = [dict(r0=v[1], c0=v[2], l1=v[3], r1=v[4], c1=v[5], prog=v[6]) for v in pocs(R, nres, nc, nl)]
        if R.random() < .4:      # a first, partial volume
            vols.insert(0, dict(r0=0, c0=0, l1=R.randint(1, nl), r1=R.randint(1, nres), c1=R.randint(1, nc), prog=R.randint(0, 4)))
    pack = R.choice(["no", "no", "no", "ppm", "ppt"])
    return dict(prog=R.randint(0, 4), vols=vols, where=R.choice(["main", "tile", "both", "late"]), sop=R.random() < .4, eph=R.random() < .4,
                pack=pack, part=R.choice([0, 0, 1, 2, 3, 7]), mix=R.random() < .5,
                tn=R.choice(["exact", "exact", "zero", "last"]), psot0=R.random() < .25, plt=R.random() < .3,
                tlm=R.random() < .3, layers=layers, chunk=R.choice([1000, 60, 9]), local=R.random() < .2, extra=[],
                shuffle=R.randint(0, 9))


def check_c11():
    ck = Check("C11", "model_checking", ["PacketOrder of spec/Packets.tla and Arranged of spec/Arrange.tla are the meaning of a progression",
                                         "exactly-once and order of written packets are decided with the reference decoder (also in C09, C10)"])
    R = random.Random(1100 + SEED)
    S = corpus(11, 500, maxtiles=6) + corpus(111, 120, maxtiles=4, maxw=40, maxh=40) + extremes(112, 36)
    good = encoded(ck, S, full=False)
    per = 3 if TIER == "quick" else 8
    rows, keep = [], []
    with Scratch() as sc:
        wf = [dict(cs=list(b), want=want(*s)) for s, q, o, b in good]
        rej = set(judged(ck, "WrittenTrace", wf, [dict(case=s, session=q, codestream=b.hex()) for s, q, o, b in good],
                         "written packets are not those of the signalled progression", sc))
        for k, (s, q, o, b) in enumerate(good):
            for _ in range(per):
                a = arrangement(R, s[0], s[1])
                if k not in rej:        # only what is in order can be put in another order
                    rows.append(dict(cs=list(b), a=a))
                    keep.append((s, a))
        out, st, tr = generate("ArrangeGen", rows, sc)
    ck.add(states=st, transitions=tr, arrangements=len(rows))
    ses = []
    fit = [max(w["b"]) < 256 for w in out]        # more marker segments than an index byte can count
    rows, keep, out = ([x for x, f in zip(xs, fit) if f] for xs in (rows, keep, out))
    for (s, a), w in zip(keep, out):
        ses.append(dict(stop=1, ops=[dict(op="mkimg", i="a", **s[0]), dict(op="buf", b="b", hex=bytes(w["b"]).hex())] +
                        decode_ops() + [dict(op="cmp", i="a", j="r"), dict(op="cfree", c="d")]))
    for (s, a), q, r in zip(keep, ses, jp2.run_all(ses)):
        d = died(r) or refused(r)
        if d or not equal(r["out"]):
            ck.violation(f"arrangement {json.dumps(a)} of {json.dumps(s)} decodes differently: {d or 'other samples'}",
                         dict(case=s, arrangement=a, session=q))
    for s, a in keep[:3]:
        ck.sample(json.dumps(a))
    return ck.finish()

# ---- decoder protocol (C12..C15, C23) ----------------------------------------------------------------------------
def source(R, **kw):
    """A random image and parameters for the decoder checks: modest sizes, every geometry."""
    while True:
        im = image(R, maxw=kw.get("maxw", 20), maxh=kw.get("maxh", 20), comps=kw.get("comps"), maxprec=kw.get("maxprec", 16))
        if samples(im) > 900 or not nonempty(im, {}):
            continue
        p = params(R, im, tiled=kw.get("tiled", .6), poc=kw.get("poc", True))
        if R.random() < .15:    # layers that end among the bypassed passes
            p["mode"] = p.get("mode", 0) | 1
            if not p.get("poc"):
                p["rates"] = sorted([round(R.uniform(1.05, 4), 2) for _ in range(R.randint(1, 4))], reverse=True) + [0]
        return im, p


def rearranged(cases, R, sc):
    """Another standard arrangement of the packets of each case: {number of the case: operations that provide it}."""
    rows, keep = [], []
    for k, ((im, p, fmt, runs), r) in enumerate(zip(cases, jp2.run_all([dict(stop=1, ops=encode_ops(im, p) + [dict(op="getbuf", b="b")])
                                                                         for im, p, fmt, runs in cases]))):
        if not died(r) and refused(r) is None:
            a = arrangement(R, im, p)
            rows.append(dict(cs=list(bytes.fromhex(r["out"][-1]["hex"])), a=a))
            keep.append(k)
    try:
        out, st, tr = generate("ArrangeGen", rows, sc)
    except ToolError:           # codestreams out of order are reported elsewhere (C10, C11)
        return {}
    d = {}
    for k, w in zip(keep, out):
        if max(w["b"]) < 256:
            im, fmt, b = cases[k][0], cases[k][2], bytes(w["b"])
            d[k] = [dict(op="mkimg", i="a", **im), dict(op="buf", b="b", hex=(b if fmt == "j2k" else wrapped(im, b)).hex())]
    return d


def play(ck, cases, what, sc, chunk=12, mix=None):
    """cases: [(im, p, fmt, [runs of calls])]. Encode, make the calls, let TLC judge them.
    With mix (a random generator) the codestreams are also rearranged by TLC."""
    if mix:
        d = rearranged(cases, mix, sc)
        ck.add(rearranged=len(d))
        play1(ck, [c for k, c in enumerate(cases) if k in d], what, sc, chunk, [d[k] for k in sorted(d)])
        return
    play1(ck, cases, what, sc, chunk, [encode_ops(im, p, fmt) for im, p, fmt, runs in cases])


def play1(ck, cases, what, sc, chunk, made):
    ses, ats = [], []
    for (im, p, fmt, runs), o in zip(cases, made):
        ops = o + [dict(op="img", i="a", full=True)]
        at = []
        for n, calls in enumerate(runs):
            o, a = run_ops(calls, fmt, n)
            at.append([(q, k + len(ops)) for q, k in a])
            ops += o
        ses.append(dict(ops=ops))
        ats.append(at)
    res = jp2.run_all(ses)
    # a session that died is repeated run by run to find the fatal one
    rows, keep = [], []
    again = []
    for case, o, q, at, r in zip(cases, made, ses, ats, res):
        if died(r):
            again.append((case, o))
            continue
        rows_of(case, at, r["out"], rows, keep, chunk, o)
    # (with many of them, a few are enough)
    single = [(im, p, fmt, [run], m) for (im, p, fmt, runs), m in again[:8] for run in runs]
    if single:
        ses = []
        for im, p, fmt, (run,), m in single:
            o, a = run_ops(run, fmt, 0)
            e = m + [dict(op="img", i="a", full=True)]
            ses.append((dict(ops=e + o), [[(q, k + len(e)) for q, k in a]]))
        for (*case, m), (q, at), r in zip(single, ses, jp2.run_all([s for s, _ in ses])):
            d = died(r)
            if d:
                ck.violation(f"{what}: {d} in {json.dumps(case[3][0])}", dict(case=case, session=q))
            else:
                rows_of(case, at, r["out"], rows, keep, chunk, m)
    ck.add(runs=sum(len(c[3]) for c in cases), calls=sum(len(x) for c in cases for x in c[3]))
    judged(ck, "DecoderTrace", rows, keep, what, sc)


def rows_of(case, at, out, rows, keep, chunk, made):
    im, p, fmt, runs = case
    if any(isinstance(o, dict) and o.get("ok") is False for o in out[:at[0][0][1] - 3] if at and at[0]):
        return          # an encode that was refused (tile too small, ...) says nothing about the decoder
    a = [o for o in out if isinstance(o, dict) and "comps" in o][0]
    K = dict(siz=siz(im, p), nl=p["nres"] - 1, mct=p.get("mct", 0), d=[c["d"] for c in a["comps"]], free=made[1]["op"] == "buf")
    for j in range(0, len(runs), chunk):
        rows.append(dict(K, runs=[observed(x, out) for x in at[j:j + chunk]]))
        keep.append(dict(image=im, params=p, fmt=fmt, runs=runs[j:j + chunk], made=made))


def areas(R, im, bad=.15):
    """A random decode area, sometimes outside the image."""
    x0, y0, x1, y1 = im["x0"], im["y0"], im["x1"], im["y1"]
    k = R.random()
    if k < bad:
        return R.choice([dict(x0=x1, y0=y0, x1=x1 + 3, y1=y1), dict(x0=x0, y0=y1 + 2, x1=x1, y1=y1 + 9),
                         dict(x0=0, y0=0, x1=x0, y1=y1), dict(x0=x0, y0=0, x1=x1, y1=max(0, y0 - 1)), dict(x0=-1, y0=y0, x1=x1, y1=y1),
                         dict(x0=x0, y0=y0, x1=-3, y1=y1)])
    if k < bad + .08:
        return dict(x0=0, y0=0, x1=0, y1=0)
    if k < bad + .25:           # sticks out
        return dict(x0=max(0, R.randint(x0 - 5, x1 - 1)), y0=max(0, R.randint(y0 - 5, y1 - 1)), x1=x1 + R.randint(0, 9), y1=y1 + R.randint(0, 9))
    a, b = sorted(R.sample(range(x0, x1 + 1), 2)) if x1 - x0 > 0 else (x0, x1)
    c, d = sorted(R.sample(range(y0, y1 + 1), 2)) if y1 - y0 > 0 else (y0, y1)
    return dict(x0=a, y0=c, x1=b, y1=d)


S_, H, D, E_ = (lambda r=0: dict(op="setup", reduce=r)), dict(op="hdr"), dict(op="dec"), dict(op="end")


def fmt_of(R):
    return R.choice(["j2k", "j2k", "jp2"])


def check_c12():
    ck = Check("C12", "model_checking", ["the samples of an area come from the source image through spec/Wavelet.tla"])
    R = random.Random(1200 + SEED)
    cases = []
    for k in range(int(os.environ.get("N", "900")) if TIER == "quick" else 6000):
        im, p = source(R)
        runs = []
        for _ in range(10):
            f = R.choice([0, 0, R.randint(0, p["nres"] - 1)])
            run = [S_(f), H]
            for _ in range(R.choice([1, 1, 2, 3])):
                run.append(dict(op="area", a=areas(R, im)))
                if R.random() < .7 or run[-1]["a"]["x1"] == 0:
                    run.append(D)
            if run[-1] is not D:
                run.append(D)
            runs.append(run + [E_])
        cases.append((im, p, fmt_of(R), runs))
    with Scratch() as sc:
        play(ck, cases, "decoded area is not the crop of the full image", sc)
        play(ck, cases[:250 if TIER == "quick" else 2500], "decoded area is not the crop of the full image", sc, mix=R)
    for c in cases[:3]:
        ck.sample(json.dumps(c[:3] + (c[3][0],)))
    return ck.finish()


def check_c13():
    ck = Check("C13", "model_checking", ["the samples of a tile come from the source image through spec/Wavelet.tla"])
    R = random.Random(1300 + SEED)
    cases = []
    for k in range(700 if TIER == "quick" else 5000):
        im, p = source(R, tiled=.9)
        nt = len(tiles(im, p))
        runs = []
        for _ in range(5):
            f = R.choice([0, 0, R.randint(0, p["nres"] - 1)])
            order = [R.randrange(nt) for _ in range(R.randint(1, 5))] if R.random() < .5 else R.sample(range(nt), nt)
            if R.random() < .2:
                order.insert(R.randint(0, len(order)), nt + R.randint(0, 3))
            runs.append([S_(f), H] + [dict(op="gtile", t=t) for t in order] + [E_])
        for _ in range(3):
            f = R.choice([0, 0, R.randint(0, p["nres"] - 1)])
            run = [S_(f), H]
            for _ in range(nt):
                run += [dict(op="rth"), dict(op="dtd", more=0)]
            runs.append(run + [dict(op="rth"), E_])
        cases.append((im, p, fmt_of(R), runs))
    with Scratch() as sc:
        play(ck, cases, "tile access disagrees with the image", sc)
        play(ck, cases[:250 if TIER == "quick" else 2500], "tile access disagrees with the image", sc, mix=R)
        # writing tile by tile
        rows, keep, ses, S = [], [], [], []
        for k in range(900 if TIER == "quick" else 8000):
            im, p = source(R, tiled=.9)
            fmt = fmt_of(R)
            t = tiles(im, p)
            o = encode_ops(im, p, fmt)
            j = next(n for n, x in enumerate(o) if x["op"] == "encode")
            o[j:j + 1] = [dict(op="wtile", c="e", s="o", i="w", t=n, rect=r) for n, r in enumerate(t)]
            o.insert(0, dict(op="mkimg", i="w", **im))
            o += [dict(op="img", i="a", full=True)] + decode_ops(fmt) + [dict(op="img", i="r", full=True)]
            S.append((im, p, fmt))
            ses.append(dict(stop=1, ops=o))
        for s, q, r in zip(S, ses, jp2.run_all(ses)):
            d = died(r)
            m = None if d else refused(r)
            if d or (m and not any(x in m for x in REFUSALS)):
                ck.violation("writing tile by tile: " + (d or m), dict(case=s, session=q))
            elif not m:
                rows.append(dict(src=desc(imgs(r["out"])[0]), dst=desc(imgs(r["out"])[-1])))
                keep.append(dict(case=s, session=q))
        ck.add(tilewise=len(rows))
        judged(ck, "RoundTrip", rows, keep, "image written tile by tile comes back changed", sc)
    for c in cases[:3]:
        ck.sample(json.dumps(c[:3] + (c[3][0],)))
    return ck.finish()


def check_c14():
    ck = Check("C14", "model_checking", ["the lower resolutions are those of spec/Wavelet.tla applied to the source image"])
    R = random.Random(1400 + SEED)
    cases = []
    for k in range(int(os.environ.get("N", "900")) if TIER == "quick" else 6000):
        im, p = source(R, maxw=26, maxh=26)
        runs = []
        for f in range(p["nres"] + 2):
            runs.append([S_(f), H, D, E_])
            runs.append([S_(R.choice([0, 0, f])), H, dict(op="resf", n=f), D, E_])
            if f < p["nres"]:
                g = R.randint(0, p["nres"] + 1)
                runs.append([S_(0), H, dict(op="resf", n=g), dict(op="resf", n=f), D, E_])
                runs.append([S_(0), H, dict(op="resf", n=f), dict(op="gtile", t=R.randrange(len(tiles(im, p)))), E_])
        cases.append((im, p, fmt_of(R), runs))
    with Scratch() as sc:
        play(ck, cases, "reduced decode is not the lower resolution", sc)
        play(ck, cases[:250 if TIER == "quick" else 2500], "reduced decode is not the lower resolution", sc, mix=R)
    for c in cases[:3]:
        ck.sample(json.dumps(c[:3] + (c[3][0],)))
    return ck.finish()


def check_c15():
    ck = Check("C15", "model_checking", ["the samples without colour transform come from the source image through spec/Wavelet.tla"])
    R = random.Random(1500 + SEED)
    cases = []
    for k in range(900 if TIER == "quick" else 6000):
        im, p = source(R, comps=R.choice([1, 2, 3, 3, 3, 4, 5]))
        nc = len(im["comps"])
        runs = []
        for _ in range(9):
            x = R.sample(range(nc), R.randint(1, nc))
            ct = 0
            if R.random() < .25:
                bad = R.choice("rdt")
                if bad == "r":
                    x[R.randrange(len(x))] = nc + R.choice([0, 1, 200])
                elif bad == "d":
                    x.append(R.choice(x))
                else:
                    ct = 1
            f = R.choice([0, 0, R.randint(0, p["nres"] - 1)])
            run = [S_(f), H, dict(op="comps", x=x, ct=ct)]
            if R.random() < .25:
                run.append(dict(op="comps", x=R.sample(range(nc), R.randint(1, nc)), ct=0))
            if R.random() < .3:
                run.append(dict(op="area", a=areas(R, im, 0)))
            k = R.random()
            if k < .2:
                run.append(dict(op="gtile", t=R.randrange(len(tiles(im, p)))))
            elif k < .35 and "area" not in [c["op"] for c in run]:
                for _ in tiles(im, p):
                    run += [dict(op="rth"), dict(op="dtd", more=0)]
            else:
                run.append(D)
            runs.append(run + [E_])
        cases.append((im, p, fmt_of(R), runs))
    with Scratch() as sc:
        play(ck, cases, "selected components are not those of the codestream", sc)
        play(ck, cases[:250 if TIER == "quick" else 2500], "selected components are not those of the codestream", sc, mix=R)
    for c in cases[:3]:
        ck.sample(json.dumps(c[:3] + (c[3][0],)))
    return ck.finish()


def protocol_cases(R):
    """Codestreams for the protocol check: every combination that makes the decoder take another path."""
    def im(x0, y0, x1, y1, comps, kind="noise"):
        return dict(x0=x0, y0=y0, x1=x1, y1=y1, comps=comps, content=dict(kind=kind, seed=R.randint(1, 1 << 30)), cs=1 if len(comps) >= 3 else 2)
    c8 = dict(dx=1, dy=1, prec=8, sgnd=0)
    base = dict(nres=3, prog=0, cbw=4, cbh=4, mode=0, csty=0)
    return [(im(0, 0, 7, 6, [c8] * 3), dict(base, mct=1, tile=[0, 0, 4, 6]), "j2k"),
            (im(0, 0, 7, 6, [c8] * 2), dict(base, nres=2), "jp2"),
            (im(3, 1, 10, 9, [c8, dict(dx=2, dy=2, prec=12, sgnd=1)]), dict(base, tile=[1, 0, 5, 5], tp="R", prog=2), "jp2"),
            (im(0, 0, 5, 9, [c8]), dict(base, nres=1, tile=[0, 0, 5, 3]), "j2k")]


def alphabet(im, p, R):
    x0, y0, x1, y1 = im["x0"], im["y0"], im["x1"], im["y1"]
    nt, nc = len(tiles(im, p)), len(im["comps"])
    A = lambda a, b, c, d: dict(op="area", a=dict(x0=a, y0=b, x1=c, y1=d))
    q = [S_(0), S_(1), S_(33), dict(op="strict"), H, dict(op="comps", x=[nc - 1], ct=0), dict(op="comps", x=list(range(nc))[::-1], ct=0),
         dict(op="comps", x=[0, 0], ct=0), dict(op="comps", x=[0], ct=1), dict(op="resf", n=0), dict(op="resf", n=1), dict(op="resf", n=p["nres"]),
         A(0, 0, 0, 0), A(x0 + 1, y0 + 1, x1 - 2, y1 - 2), A(x0, y0, x0 + 3, y1 + 4), A(x1 + 2, y0, x1 + 5, y1), A(-1, y0, x1, y1), A(x1 - 1, y0, x0 + 1, y1),
         D, dict(op="gtile", t=0), dict(op="gtile", t=nt), dict(op="rth"), dict(op="dtd", more=0, plus=0), dict(op="dtd", more=-1, plus=0),
         dict(op="dtd", more=0, plus=1), dict(op="info"), dict(op="index"), E_]
    if nt > 1:
        q.append(dict(op="gtile", t=nt - 1))
    return q


def check_c23():
    ck = Check("C23", "model_checking", ["the phases of spec/Decoder.tla are what the interface's comments say about the order of calls"])
    R = random.Random(2300 + SEED)
    base = protocol_cases(R)
    tails = [[], [D], [dict(op="gtile", t=0)], [dict(op="rth"), dict(op="dtd", more=0)], [dict(op="area", a=dict(x0=0, y0=0, x1=0, y1=0)), D], [H, D], [E_, D]]
    with Scratch() as sc:
        f = os.path.join(sc, "gen.ndjson")
        rows = [dict(siz=siz(im, p), nl=p["nres"] - 1, mct=p.get("mct", 0), calls=alphabet(im, p, R), depth=9) for im, p, _ in base]
        write_ndjson(f, rows)
        r = tlc("DecoderGen", env={"OBS": f})
        seqs = sorted({(x["i"] - 1, tuple(x["h"])) for x in r.prints("SEQ")})
        ck.add(states=r.distinct, transitions=r.generated, histories_generated_by_tlc=len(seqs))
        runs = [[] for _ in base]
        for i, h in seqs:
            calls = [rows[i]["calls"][k - 1] for k in h]
            for t in (R.sample(tails, 2) if TIER == "quick" else tails):
                runs[i].append(calls + t)
        for i in range(len(base)):          # long random histories
            for _ in range(500 if TIER == "quick" else 6000):
                runs[i].append([S_(0), H][:R.choice([0, 2, 2, 2])] + [R.choice(rows[i]["calls"]) for _ in range(R.randint(6, 14))])
        per = 100
        cases = [base[i] + (runs[i][k:k + per],) for i in range(len(base)) for k in range(0, len(runs[i]), per)]
        play(ck, cases, "decoder protocol", sc, chunk=per)
        # the same machine on random codestreams, with random histories
        cases = []
        for k in range(60 if TIER == "quick" else 600):
            im, p = source(R, maxw=10, maxh=10)
            a = alphabet(im, p, R)
            cases.append((im, p, fmt_of(R), [[S_(0), H][:R.choice([0, 2, 2, 2])] + [R.choice(a) for _ in range(R.randint(3, 10))] for _ in range(20)]))
        play(ck, cases, "decoder protocol", sc, chunk=20)
    for c in cases[:3]:
        ck.sample(json.dumps(c[:3] + (c[3][0],)))
    return ck.finish()


def box(t, d):
    return (8 + len(d)).to_bytes(4, "big") + t.encode() + d


def wrapped(im, cs):
    """The plain JP2 file around a codestream."""
    c = im["comps"]
    b = [(k["prec"] - 1) | (k["sgnd"] << 7) for k in c]
    hdr = box("ihdr", (im["y1"] - im["y0"]).to_bytes(4, "big") + (im["x1"] - im["x0"]).to_bytes(4, "big") + len(c).to_bytes(2, "big") +
              bytes([b[0] if len(set(b)) == 1 else 255, 7, 0, 0])) + (box("bpcc", bytes(b)) if len(set(b)) > 1 else b"") + \
        box("colr", bytes([1, 0, 0, 0, 0, 0, 17 if len(c) < 3 else 16]))
    return box("jP  ", bytes([13, 10, 135, 10])) + box("ftyp", b"jp2 \0\0\0\0jp2 ") + box("jp2h", hdr) + box("jp2c", cs)


def accesses(R, im, p):
    """Ways to look at a codestream: the whole image, an area, a tile, lower resolution, some components."""
    x0, y0, x1, y1 = im["x0"], im["y0"], im["x1"], im["y1"]
    nt, nc = len(tiles(im, p)), len(im["comps"])
    q = [[D]]
    if R.random() < .5:
        q.append([dict(op="gtile", t=R.randrange(nt))])
    if R.random() < .4:
        a, b = R.randint(x0, x1 - 1), R.randint(y0, y1 - 1)
        q.append([dict(op="area", a=dict(x0=a, y0=b, x1=R.randint(a + 1, x1), y1=R.randint(b + 1, y1))), D])
    if R.random() < .3:
        q.append([dict(op="resf", n=R.randint(0, p["nres"] - 1)), D])
    if R.random() < .3:
        q.append([dict(op="comps", x=R.sample(range(nc), R.randint(1, nc)), ct=0), D])
    return q


def look(way, buf, fmt, layer, tag):
    c, s, i = "d" + tag, "s" + tag, "r" + tag
    o = [dict(op="dec_new", c=c, fmt=fmt), dict(op="dec_setup", c=c, layer=layer), {"op": "stream", "s": s, "in": True, "buf": buf}, dict(op="hdr", c=c, s=s, i=i)]
    for q in way:
        o.append(dict(q, c=c, s=s, i=i) if q["op"] != "area" else dict(op="area", c=c, i=i, **q["a"]))
    return o + [dict(op="img", i=i, full=True), dict(op="cfree", c=c), dict(op="sfree", s=s), dict(op="freeimg", i=i)]


def layered(R, S):
    for im, p, ex in S:
        n = R.randint(2, 6)
        p["rates"] = sorted([round(R.uniform(1.2, 30), 2) for _ in range(n - 1)], reverse=True) + [R.choice([0, 0, 1.1])]
        if "poc" in p:
            p["poc"] = pocs(R, p["nres"], len(im["comps"]), n)


def check_c16():
    ck = Check("C16", "model_checking", ["a codestream with fewer layers is what Arranged of spec/Arrange.tla makes of it"])
    R = random.Random(1600 + SEED)
    S = corpus(16, 300) + corpus(161, 60, maxw=40, maxh=40)
    layered(R, S)
    for s in S:
        s[0]["content"]["kind"] = R.choice(["noise", "noise", "smooth", "extreme", "sparse"])
    good = encoded(ck, S, full=True)
    with Scratch() as sc:
        wf = [dict(cs=list(b), want=want(*s)) for s, q, o, b in good]
        rej = set(judged(ck, "WrittenTrace", wf, [dict(case=s, session=q, codestream=b.hex()) for s, q, o, b in good],
                         "written packets are not those of the signalled progression", sc))
        rows, keep = [], []
        for k, (s, q, o, b) in enumerate(good):
            if k in rej:
                continue
            n = len(s[1]["rates"])
            for m in range(0, n):       # 0: every layer, in another arrangement
                rows.append(dict(cs=list(b), a=arrangement(R, s[0], s[1], layers=m)))
                keep.append((k, m))
        out, st, tr = generate("ArrangeGen", rows, sc)
        gen, gk = rows, keep
        ck.add(states=st, transitions=tr, codestreams_generated=len(rows))
        per = {}
        over = {k for (k, m), w in zip(keep, out) if max(w["b"]) > 255}    # more marker segments than an index byte can count
        for (k, m), w in zip(keep, out):
            if k not in over:
                per.setdefault(k, {})[m] = bytes(w["b"])
        ses, info = [], []
        for k, cut in per.items():
            (im, p, ex), q, o, b = good[k]
            n = len(p["rates"])
            ways = accesses(R, im, p)
            ops = [dict(op="buf", b="orig", hex=b.hex())] + [dict(op="buf", b=f"cut{m}", hex=x.hex()) for m, x in cut.items()]
            ops.append(dict(op="buf", b="jp2", hex=wrapped(im, b).hex()))
            tags = []
            for w, way in enumerate(ways):
                for m in range(1, n):
                    ops += look(way, f"cut{m}", "j2k", 0, f"{w}c{m}")
                    tags.append((w, "ref", m))
                ops += look(way, "orig", "j2k", 0, f"{w}c0")
                tags.append((w, "ref", n))
                for m in range(1, n + 2):
                    src, fmt = R.choice([("orig", "j2k"), ("cut0", "j2k"), ("jp2", "jp2")])
                    ops += look(way, src, fmt, m, f"{w}l{m}")
                    tags.append((w, "lim", m))
                ops += look(way, "cut0", "j2k", 0, f"{w}l0")
                tags.append((w, "lim", 0))
            ses.append(dict(ops=ops))
            info.append((k, ways, tags))
        rows, keep = [], []
        for (k, ways, tags), q, r in zip(info, ses, jp2.run_all(ses)):
            (im, p, ex), _, o, b = good[k]
            d = died(r)
            pics = [] if d else [dict(desc(x), ok=r["out"][j - 1].get("ok") is True) for j, x in enumerate(r["out"]) if isinstance(x, dict) and "comps" in x]
            if d or len(pics) != len(tags):
                ck.violation(f"layers of {json.dumps((im, p))}: {d or 'no image'}", dict(session=q))
                continue
            # whether a codestream cut down has an image must not depend on how it was cut down
            ref = {w: [dict(n=m, img=x) for (v, kind, m), x in zip(tags, pics) if v == w and kind == "ref"] for w in range(len(ways))}
            ck.add(decodes=len(tags))
            rows.append(dict(layers=len(p["rates"]), lossless=p["rates"][-1] == 0, src=desc(imgs(o)[0]),
                             seen=[dict(k=m, way=w, img=x, ref=ref[w]) for (w, kind, m), x in zip(tags, pics) if kind == "lim"]))
            keep.append(dict(case=(im, p, ex), session=q, arrangements=[x["a"] for x, (kk, m) in zip(gen, gk) if kk == k]))
        judged(ck, "Layers", rows, keep, "a limit of layers is not the codestream without the later ones", sc)
    for s, q, o, b in good[:3]:
        ck.sample(json.dumps(s))
    return ck.finish()


def operation(R):
    """One operation of spec/Mutate.tla on the marker segments of a codestream."""
    seg = lambda m, body: [m >> 8, m & 255, (len(body) + 2) >> 8, (len(body) + 2) & 255] + list(body)
    rnd = lambda n: [R.choice([R.randrange(256), 0, 0xff, 0x4f, 0x52, 0x90, 0x93]) for _ in range(n)]
    o = dict(k="", h=R.choice([0, 0, R.randint(1, 9)]), a=R.randint(0, 9), b=R.randint(0, 9), v=0, x=[])
    k = R.random()
    if k < .40:         # says the same
        q = R.choice(["ins", "ins", "ins", "move", "move", "explicit", "swap", "zero", "drop", "dup"])
        o["k"] = q
        if q == "ins":
            o["b"] = R.choice([o["b"], R.randint(1, 9)])
            o["x"] = R.choice([seg(0xff64, [0, R.randint(0, 1)] + rnd(R.choice([1, 2, 7, 300]))),
                               seg(R.choice([0xff6a, 0xff6f, 0xff7a, 0xff80, 0xffa0, 0xff4e, 0xffd0, 0xff9f]), rnd(R.choice([0, 1, 2, 3, 4, 8, 40, 301]))),
                               [0xff, R.randint(0x30, 0x3f)]])
        if q == "explicit":
            o["v"] = R.randint(1, 3)
    elif k < .62:       # in other places, missing, repeated
        q = R.choice(["drop", "drop", "copy", "code", "ins", "ins", "nosoc", "nopart", "noeoc", "nosod", "swap", "move"])
        o["k"] = q
        if q == "copy":
            o["v"] = R.randint(0, 9)
        if q == "code":
            o["v"] = R.choice([0xff4f, 0xff51, 0xff52, 0xff5c, 0xff53, 0xff5d, 0xff5f, 0xff60, 0xff61, 0xff64, 0xff90, 0xff93, 0xffd9, 0xff6f,
                               0xfe52, 0x0052, 0xff58, 0xff55, 0xff57, 0xff63])
        if q == "ins":
            o["k"] = "lie"
            o["x"] = R.choice([[0xff, R.choice([0x4f, 0x93, 0xd9, 0x92])], seg(R.choice([0xff4f, 0xffd9, 0xff92, 0xff93]), rnd(R.randint(0, 4))), seg(0xff91, [0, 0]), seg(0xff58, [0, 1, 2]), seg(0xff61, [0, 1, 2]),
                               seg(0xff57, [0, 1, 1]), seg(0xff55, [0, 0x60] + [0, 0, 0, 0, 0, 20]), seg(0xff63, rnd(4 * R.randint(1, 4))),
                               seg(0xff60, [0] + rnd(5)), rnd(R.randint(1, 6)), seg(0xff51, rnd(39))])
    else:               # lengths
        q = R.choice(["len", "len", "pad", "cut", "psot", "psot", "isot", "tpsot", "tnsot", "lsot"])
        o["k"] = q
        o["h"] = R.randint(1, 9) if q.endswith("sot") else o["h"]
        o["v"] = R.choice([-1, 1, R.randint(-9, 9), R.choice([-4000, 4000, 60000])]) if q not in ("pad", "cut") else R.randint(1, 7)
        if q == "pad":
            o["v"] = R.randint(1, 7)
        if q in ("isot", "tpsot", "tnsot"):
            o["a"] = R.choice([0, 1, 2, 3, 9, 255])
    return o


def check_c17():
    ck = Check("C17", "model_checking", ["Reader of spec/Reader.tla is the order of markers and the fit of lengths of T.800 Annex A"])
    R = random.Random(1700 + SEED)
    S = corpus(17, 260, maxw=12, maxh=12, maxtiles=4)
    good = encoded(ck, S, full=False)
    per = 14 if TIER == "quick" else 80
    arr = [(s, arrangement(R, s[0], s[1])) for s, q, o, b in good]
    rows, keep = [], []
    with Scratch() as sc:
        base, st, tr = generate("ArrangeGen", [dict(cs=list(b), a=a) for (s, q, o, b), (_, a) in zip(good, arr)], sc)
        for k, (s, q, o, b) in enumerate(good):
            for n in range(per):
                src = list(b) if n % 2 or max(base[k]["b"]) > 255 else base[k]["b"]
                rows.append(dict(cs=src, ms=[operation(R) for _ in range(R.choice([1, 1, 1, 2, 3]))]))
                keep.append(s)
        out, s2, t2 = generate("MutateGen", rows, sc)
        ck.add(states=st + s2, transitions=tr + t2)
        ses, use = [], []
        for s, r, w in zip(keep, rows, out):
            if all(0 <= x < 256 for x in w["b"]):
                use.append((s, r["ms"], w))
                ses.append(dict(stop=1, ops=[dict(op="mkimg", i="a", **s[0]), dict(op="buf", b="b", hex=bytes(w["b"]).hex())] + decode_ops() +
                                [dict(op="msgs", c="d"), dict(op="cmp", i="a", j="r"), dict(op="cfree", c="d")]))
        obs, keep = [], []
        for (s, ms, w), q, r in zip(use, ses, jp2.run_all(ses)):
            if died(r):
                ck.violation(f"{died(r)} on {json.dumps(ms)}", dict(session=q, result=r))
                continue
            ok = refused(r) is None
            obs.append(dict(cs=w["b"], same=w["same"], ok=ok, eq=ok and equal(r["out"])))
            keep.append(dict(case=s, operations=ms, session=q, same=w["same"]))
        judged(ck, "ReaderTrace", obs, keep, "a codestream is not taken as it is ordered", sc)
        ends = [x["st"] for x in REASONS.get("ReaderTrace", {}).values()]
        ck.add(**{"ends_" + e: ends.count(e) for e in ("good", "bad", "soft")})
    for x in keep[:3]:
        ck.sample(json.dumps(dict(image=x["case"][0], operations=x["operations"])))
    return ck.finish()


def stream_session(R, s, fmt, mode, file=None, n=0, **st):
    """One operation on one stream.  st: how the stream behaves."""
    im, p, ex = s
    if file is None:
        o = encode_ops(im, p, fmt, extra=ex)
        j = next(k for k, x in enumerate(o) if x["op"] == "encode")
        if mode == "tiles":
            o[j:j + 1] = [dict(op="wtile", c="e", s="o", i="w", t=k, rect=r) for k, r in enumerate(tiles(im, p))]
            o.insert(0, dict(op="mkimg", i="w", **im))
        at = next(k for k, x in enumerate(o) if x["op"] == "stream")
        o = o[:-1]
        o[at] = dict(o[at], **st)
        return dict(ops=o + [dict(op="getbuf", b="b")])
    o = [dict(op="buf", b="b", hex=file), dict(op="dec_new", c="d", fmt=fmt), dict(op="dec_setup", c="d"),
         dict({"op": "stream", "s": "i", "in": True, "buf": "b"}, **st)]
    if st.get("tolerant"):
        o.insert(3, dict(op="strict", c="d", v=0))
    o.append(dict(op="hdr", c="d", s="i", i="r"))
    if mode == "dec":
        o += [dict(op="dec", c="d", s="i", i="r"), dict(op="img", i="r", full=True)]
    elif mode == "area":
        o += [dict(op="area", c="d", i="r", **n), dict(op="dec", c="d", s="i", i="r"), dict(op="img", i="r", full=True)]
    elif mode == "tiles":
        for t in n:
            o += [dict(op="gtile", c="d", s="i", i="r", t=t), dict(op="img", i="r", full=True)]
    elif mode == "seq":
        for t in n:
            o += [dict(op="rth", c="d", s="i"), dict(op="dtd", c="d", s="i", more=0, plus=0)]
    if mode != "tiles":
        o.append(dict(op="end_dec", c="d", s="i"))
    return dict(ops=o + [dict(op="sfree", s="i"), dict(op="cfree", c="d")])


def stream_row(q, r, ref, st, n):
    """What spec/Stream.tla wants to know of an operation."""
    o = q["ops"]
    out = any(x["op"] == "enc_new" for x in o)
    fr = next((y for x, y in zip(o, r) if x["op"] == "sfree"), {})
    made = next(y for x, y in zip(o, r) if x["op"] == "stream")
    res = lambda v: [y for x, y in zip(o, v) if x["op"] not in ("stream", "sfree", "cfree")]
    log = fr.get("log") or []
    return dict(out=out, n=n, log=log, whole=bool(st.get("log")) and len(log) < 4000, failed=fr.get("failed", 0), able=not st.get("no"),
                known=not ({"len", "length", "avail", "capacity"} & set(st)), strict=not st.get("tolerant"),
                ok=made["ok"] and all(y.get("ok", True) for x, y in zip(o, r) if x["op"] not in ("stream", "img", "getbuf")),
                same=res(r) == res(ref), freed=fr.get("freed", 1))


def stream_cases(ck, R, k, num):
    """Encodes and decodes of random images with what they give undisturbed: [(session arguments, reference, n)]."""
    S = corpus(k, num, maxw=16, maxh=16, maxtiles=4) + extremes(k * 10 + 1, 10)
    jobs = []
    for fmt in ("j2k", "jp2"):
        good = encoded(ck, S, fmt=fmt, full=False)
        arr = [arrangement(R, s[0], s[1]) for s, q, o, b in good]
        with Scratch() as sc:
            base, a, b = generate("ArrangeGen", [dict(cs=list(g[3]), a=x) for g, x in zip(good, arr)], sc) if fmt == "j2k" else ([], 0, 0)
            ck.add(states=a, transitions=b)
        for n, (s, q, o, b) in enumerate(good):
            if len(b) > 4000:
                continue
            nt = len(tiles(s[0], s[1]))
            jobs.append((s, fmt, R.choice(["encode", "encode", "tiles"]), None, len(b), 0))
            if base and max(base[n]["b"]) < 256 and R.random() < .5:
                b = bytes(base[n]["b"])
            t = [R.randrange(nt) for _ in range(3)]
            jobs.append((s, fmt, "dec", b.hex(), len(b), t))
            m = R.choice(["tiles", "seq"])
            jobs.append((s, fmt, m, b.hex(), len(b), list(range(nt)) if m == "seq" else t))
            if nt > 1:
                r = tiles(s[0], s[1])[R.randrange(1, nt)]      # what comes before it is passed over
                jobs.append((s, fmt, "area", b.hex(), len(b), dict(zip(("x0", "y0", "x1", "y1"), r))))
    ref = jp2.run_all([stream_session(R, s, f, m, file=h, n=t, log=True) for s, f, m, h, n, t in jobs])
    out = []
    for x, r in zip(jobs, ref):
        if died(r):
            ck.violation("undisturbed: " + died(r), dict(case=x))
        else:
            out.append((x, r["out"]))
    return out


def stream_rows(ck, cases, plans, what, sc, R):
    """Run the cases with every stream of their plan and let TLC judge."""
    ses, use = [], []
    for (x, ref), ps in zip(cases, plans):
        s, f, m, h, n, t = x
        for st in ps:
            ses.append(stream_session(R, s, f, m, file=h, n=t, **st))
            use.append((x, ref, st))
    rows, keep = [], []
    for (x, ref, st), q, r in zip(use, ses, jp2.run_all(ses)):
        if died(r):
            ck.violation(f"{what}: {died(r)} with {json.dumps(st)}", dict(case=x[:3], session=q, stream=st))
            continue
        rows.append(stream_row(q, r["out"], ref if not st.get("tolerant") else ref[:3] + [dict(ok=True)] + ref[3:], st, x[4]))
        keep.append(dict(case=x[:3], stream=st, session=q))
    judged(ck, "Stream", rows, keep, what, sc)
    return rows


def check_c20():
    ck = Check("C20", "model_checking", ["a caller's stream behaves as spec/Stream.tla says: it gives or takes at most what is asked for"])
    R = random.Random(2000 + SEED)
    cases = [c for c in stream_cases(ck, R, 20, 110 if TIER == "quick" else 600)]
    per = 7 if TIER == "quick" else 40
    plans, tmp = [], None
    with Scratch() as sc:
        for k, c in enumerate(cases):
            ps = []
            for n in range(per):
                st = dict(log=R.random() < .6)
                if R.random() < .85:
                    st["bs"] = R.choice([1, 2, 3, 4, 5, 7, 8, 11, 12, 13, 16, 31, 64, 100, 256, 1000, 4096, 65536])
                if R.random() < .75:
                    st["chunks"] = [R.choice([1, 1, 2, 3, 5, 8, 13, 40, 200, 5000]) for _ in range(R.choice([1, 1, 2, 3, 7]))]
                    st["steps"] = R.random() < .5
                if R.random() < .2:
                    st["eof_zero"] = True
                if R.random() < .15:
                    st = dict(path=os.path.join(sc, f"f{k}.{n}"), **({"bs": st["bs"]} if "bs" in st else {}))
                ps.append(st)
            plans.append(ps)
        rows = stream_rows(ck, cases, plans, "another delivery, another result", sc, R)
    ck.add(files=sum("path" in st for p in plans for st in p), callbacks=sum(len(r["log"]) for r in rows))
    ck.sample(json.dumps(dict(case=cases[0][0][:3], stream=plans[0][0])))
    return ck.finish()


def check_c22():
    ck = Check("C22", "model_checking", ["a failing callback says so and does nothing (spec/Stream.tla)"])
    R = random.Random(2200 + SEED)
    cases = stream_cases(ck, R, 22, 70 if TIER == "quick" else 400)
    per = 16 if TIER == "quick" else 120
    count = lambda ses: [next(y for x, y in zip(q["ops"], r["out"]) if x["op"] == "sfree") if "out" in r else {} for q, r in zip(ses, jp2.run_all(ses))]
    bss = [R.choice([1, 3, 8, 16, 40, 100, 400, 4096, None]) for _ in cases]
    ses = [stream_session(R, x[0], x[1], x[2], file=x[3], n=x[5], **({"bs": b} if b else {})) for (x, ref), b in zip(cases, bss)]
    plans = []
    for (x, ref), b, c in zip(cases, bss, count(ses)):
        every = [dict(kind=k, at=n) for k in ("read", "write", "skip", "seek") for n in range(1, c.get(k + "s", 0) + 1)]
        last = [dict(kind=k, at=c[k + "s"]) for k in ("read", "write", "skip", "seek") if c.get(k + "s")]
        ps = []
        for f in (every if len(every) <= per else last + R.sample(every, per - len(last))):
            st = {"fail_" + f["kind"]: f["at"], "log": True, "sticky": R.random() < .5}
            ps.append(st)
        ps += [dict(no=[k]) for k in ("read", "write", "skip", "seek")]
        if x[3] is None:
            ps += [dict(capacity=R.randrange(1, x[4])), dict(capacity=x[4] - 1), dict(capacity=x[4] - 2)]
        else:
            ps += [dict(avail=R.randrange(x[4])), dict(avail=x[4] - 1), dict(length=R.randrange(x[4])), dict(length=x[4] + R.randint(1, 50)), dict(len=False)]
        for st in ps:
            if b:
                st["bs"] = b
            if R.random() < .2 and x[3] is not None:
                st["tolerant"] = 1
            if R.random() < .2:
                st["chunks"] = [R.choice([1, 2, 3, 8, 50])]
        plans.append(ps)
    with Scratch() as sc:
        rows = stream_rows(ck, cases, plans, "a failure of the stream is not reported", sc, R)
    ck.add(failures=sum(r["failed"] > 0 for r in rows), reported=sum(r["failed"] > 0 and not r["ok"] for r in rows))
    ck.sample(json.dumps(dict(case=cases[0][0][:3], stream=plans[0][0])))
    return ck.finish()


def derived(cs):
    """The same irreversible codestream with the step sizes of QCD derived from the first."""
    k = cs.index(b"\xff\x5c")
    n = int.from_bytes(cs[k + 2:k + 4], "big")
    return cs[:k] + b"\xff\x5c\x00\x05" + bytes([(cs[k + 4] & 0xe0) | 1]) + cs[k + 5:k + 7] + cs[k + 2 + n:]


def check_c26():
    ck = Check("C26", "model_checking", ["Parse of spec/Codestream.tla says what a codestream signals and where its markers are"])
    R = random.Random(2600 + SEED)
    S = corpus(26, 260, maxw=24, maxh=24, maxtiles=6) + extremes(261, 24)
    for k, (im, p, ex) in enumerate(S):
        if k % 3 == 1:                   # the header of an irreversible codestream is as good
            p["irr"] = 1
    good = [g for g in encoded(ck, S, full=False) if len(g[3]) < 20000]
    per = 3 if TIER == "quick" else 20
    unknown = lambda: [255, R.choice([0x6e, 0x6f, 0x7d, 0xfe]), 0] + (lambda n: [n + 2] + [R.randrange(256) for _ in range(n)])(R.randint(0, 9))
    comment = lambda: [255, 100, 0] + (lambda n: [n + 4, 0, 1] + [R.randrange(32, 127) for _ in range(n)])(R.randint(1, 9))
    with Scratch() as sc:
        arr = [(s, b, arrangement(R, s[0], s[1])) for s, q, o, b in good]
        base, st, tr = generate("ArrangeGen", [dict(cs=list(b), a=a) for s, b, a in arr], sc)
        src = []
        for (s, b, a), w in zip(arr, base):
            forms = [b] + ([bytes(w["b"])] if max(w["b"]) < 256 else [])
            if s[1].get("irr") and R.random() < .5:
                forms[0] = derived(b)
            for n in range(per):
                ms = [dict(k="ins", h=R.randint(0, 5), a=0, b=R.randint(1, 9), v=0, x=R.choice([unknown, comment])()) for _ in range(R.choice([0, 0, 1, 2, 120]))]
                if R.random() < .3 and not s[1].get("irr"):
                    ms.insert(0, dict(k="explicit", h=0, a=0, b=0, v=R.randint(1, 3), x=[]))
                src.append((s, dict(cs=list(R.choice(forms)), ms=ms)))
        out, s2, t2 = generate("MutateGen", [r for s, r in src], sc)
        ck.add(states=st + s2, transitions=tr + t2)
        ses, plan = [], []
        for (s, r), w in zip(src, out):
            im, p, ex = s
            if max(w["b"]) > 255 or w["b"][2:4] != [255, 81]:      # a segment put before SIZ
                continue
            cs = bytes(w["b"])
            if len(ses) % 60 == 7:           # what follows lies beyond 64 KiB
                k = 4 + int.from_bytes(cs[4:6], "big")
                for _ in range(2):
                    cs = cs[:k] + b"\xff" + bytes([R.choice([0x6e, 0x7d])]) + (n := R.randint(33000, 65535)).to_bytes(2, "big") + bytes([R.randrange(256)]) * (n - 2) + cs[k:]
            fmt = R.choice(["j2k", "j2k", "jp2"])
            f = cs if fmt == "j2k" else wrapped(im, cs)
            nt = len(tiles(im, p))
            # the main header says something else when the tile says it all: fewer resolutions, perhaps
            red = 0 if any(m["k"] == "explicit" for m in r["ms"]) else R.choice([0, 0, R.randrange(p["nres"])])
            D_, T_ = dict(op="dec", c="d", s="s", i="r"), lambda: dict(op="gtile", c="d", s="s", i="r", t=R.randrange(nt))
            x0, y0 = R.randrange(im["x0"], im["x1"]), R.randrange(im["y0"], im["y1"])
            A_ = dict(op="area", c="d", i="r", x0=x0, y0=y0, x1=R.randint(x0 + 1, im["x1"]), y1=R.randint(y0 + 1, im["y1"]))
            seq = [x for t in range(nt) for x in (dict(op="rth", c="d", s="s"), dict(op="dtd", c="d", s="s", more=0))] + [dict(op="rth", c="d", s="s")]
            way = R.choice([[D_], [D_], [D_, T_(), T_()], [T_(), T_()], [A_, D_], [A_, D_, dict(A_, x0=0, y0=0, x1=0, y1=0), D_], seq, seq])
            o = [dict(op="buf", b="b", hex=f.hex()), dict(op="dec_new", c="d", fmt=fmt), dict(op="info", c="d"), dict(op="index", c="d"),
                 dict(op="dec_setup", c="d", reduce=red), {"op": "stream", "s": "s", "in": True, "buf": "b"}, dict(op="hdr", c="d", s="s", i="r"),
                 dict(op="img", i="r", geo=True), dict(op="info", c="d"), dict(op="index", c="d")]
            for k, x in enumerate(way):
                o.append(x)
                if way is not seq or k == len(way) - 1 or R.random() < .3:
                    o += [dict(op="index", c="d"), dict(op="info", c="d")]
            o += [dict(op="dump", c="d", flag=R.choice([1, 2, 0x1ff])), dict(op="cfree", c="d"), dict(op="sfree", s="s"), dict(op="freeimg", i="r")]
            ses.append(dict(ops=o))
            plan.append((s, r["ms"], cs, len(f) - len(cs), red, way))
        rows, keep = [], []
        for (s, ms, cs, off, red, way), q, r in zip(plan, ses, jp2.run_all(ses)):
            if died(r):
                ck.violation(f"reporting header and index: {died(r)}", dict(session=q, result=r))
                continue
            looks, stage, area = [], "hdr", False
            seqgood = True
            for k, (x, y) in enumerate(zip(q["ops"], r["out"])):
                if k < 7:
                    continue
                if x["op"] == "area":
                    area = bool(y.get("ok")) and x["x1"] > 0
                elif x["op"] == "dec":
                    stage = "broken" if not y.get("ok") else "all" if stage == "all" or not area else "part"
                elif x["op"] in ("gtile", "rth", "dtd"):
                    stage = "broken" if not y.get("ok") or stage == "broken" else "all" if stage == "all" else "part"
                    seqgood = seqgood and (y.get("ok") or False)
                    if x is way[-1] and x["op"] == "rth" and seqgood:
                        stage = "all"
                elif x["op"] == "img":
                    looks.append(dict(kind="image", v=dict(y, ok=False) if "comps" not in y else dict(shape(y), n=len(y["comps"]), ok=True), reduce=red, stage=stage))
                elif x["op"] in ("info", "index"):
                    looks.append(dict(kind=x["op"], v=y, stage=stage, reduce=red))
            rows.append(dict(cs=list(cs), off=off, looks=looks))
            keep.append(dict(case=s, operations=ms, session=q))
        judged(ck, "Info", rows, keep, "reported information is not what the codestream says", sc)
        ck.add(looks=sum(len(r["looks"]) for r in rows), complete=sum(x["stage"] == "all" for r in rows for x in r["looks"]))
    for x in keep[:3]:
        ck.sample(json.dumps(dict(image=x["case"][0], operations=x["operations"][:3])))
    return ck.finish()


def check_c21():
    ck = Check("C21", "model_checking", ["tile-parts of spec/Codestream.tla say which tiles lie within a prefix"])
    R = random.Random(2100 + SEED)
    S = corpus(21, 110, maxw=14, maxh=14, maxtiles=5, tiled=.7) + extremes(211, 12)
    good = [g for g in encoded(ck, S, full=False) if len(g[3]) < 9000 and samples(g[0][0]) < 3000]
    arr = [arrangement(R, s[0], s[1]) for s, q, o, b in good]
    per = 40 if TIER == "quick" else 400
    ses, rows, keep = [], [], []
    with Scratch() as sc:
        base, st, tr = generate("ArrangeGen", [dict(cs=list(b), a=a) for (s, q, o, b), a in zip(good, arr)], sc)
        ck.add(states=st, transitions=tr)
        for (s, q, o, b), w, a in zip(good, base, arr):
            cs = bytes(w["b"]) if R.random() < .6 and max(w["b"]) < 256 else b
            f = wrapped(s[0], cs) if R.random() < .4 else cs
            fmt = "j2k" if f is cs else "jp2"
            nt = len(tiles(s[0], s[1]))
            ns = sorted(set(R.sample(range(len(f)), min(per, len(f))) + [len(f) - 1, len(f) - 2, len(f) - 3]))
            cuts = []
            for n in ns:
                u = dict(n=n, tile=R.randrange(nt), mode=R.choice(["tol", "tol", "strict"]))
                q = dict(ops=[dict(op="buf", b="b", hex=f[:n].hex())])
                for k, (strict, t) in enumerate([(1, None), (0, None), (int(u["mode"] == "strict"), u["tile"])]):
                    c, i = f"d{k}", f"i{k}"
                    q["ops"] += [dict(op="dec_new", c=c, fmt=fmt), dict(op="dec_setup", c=c), dict(op="strict", c=c, v=strict),
                                 {"op": "stream", "s": c, "in": True, "buf": "b"}, dict(op="hdr", c=c, s=c, i=i)]
                    if t is None:
                        q["ops"] += [dict(op="dec", c=c, s=c, i=i), dict(op="img", i=i, full=True)]
                    else:
                        q["ops"] += [dict(op="gtile", c=c, s=c, i=i, t=t), dict(op="img", i=i, full=True)]
                    q["ops"] += [dict(op="sfree", s=c), dict(op="cfree", c=c)]
                cuts.append(u)
                ses.append((len(rows), u, q, cs, f))
            rows.append(dict(cs=list(cs), off=len(f) - len(cs), cuts=cuts))
            keep.append((s, a, fmt))
        srcs = jp2.run_all([dict(stop=1, ops=[dict(op="mkimg", i="a", **s[0]), dict(op="img", i="a", full=True)]) for s, a, f in keep])
        for r, x in zip(rows, srcs):
            r["src"] = pixels(x["out"][-1])
        bad = set()
        for (k, u, q, cs, f), r in zip(ses, jp2.run_all([x[2] for x in ses])):
            d = died(r)
            if d:
                ck.violation(f"prefix of {u['n']} of {len(f)} bytes: {d}", dict(case=keep[k][0], session=q, result=r))
                bad.add(k)
                continue
            o = r["out"][1:]
            for j, key in enumerate(("strict", "tol", "gt")):
                p = o[9 * j:9 * j + 9]
                ok = bool(p[4].get("ok")) and bool(p[5].get("ok"))
                u[key] = dict(ok=ok, d=pixels(p[6]) if ok else [])
        use = [k for k in range(len(rows)) if k not in bad]
        judged(ck, "Truncated", [rows[k] for k in use],
               [dict(case=keep[k][0], arrangement=keep[k][1], fmt=keep[k][2], sessions=[x[2] for x in ses if x[0] == k]) for k in use],
               "a prefix is not taken for what it is", sc)
    ck.add(prefixes=len(ses))
    for s, a, f in keep[:3]:
        ck.sample(json.dumps(dict(image=s[0], fmt=f)))
    return ck.finish()


CHECKS = {"C26": check_c26, "C20": check_c20, "C22": check_c22, "C21": check_c21, "C17": check_c17, "C16": check_c16, "C23": check_c23, "C08": check_c08, "C11": check_c11, "C09": check_c09, "C10": check_c10, "C12": check_c12, "C13": check_c13,
          "C14": check_c14, "C15": check_c15}
