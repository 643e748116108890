"""Check of the encoder interface: C24 (parameters and images refused, order of calls)."""
from jp2_instances import *
import copy

LOW, TOP = -2147483648, 2147483647
EDGE = [LOW, -65536, -5, -1, 0, 1, 2, 3, 4, 5, 7, 31, 32, 33, 34, 37, 38, 63, 64, 65, 100, 101, 255, 256, 1000, 65535, 65536, TOP]


def grid(nc, w, h, x0=0, y0=0, **k):
    return dict(x0=x0, y0=y0, x1=x0 + w, y1=y0 + h, comps=[dict(dict(dx=1, dy=1, prec=8, sgnd=0), **k) for _ in range(nc)],
                content=dict(kind="noise", seed=5), cs=1 if nc >= 3 else 2)


P0 = dict(nres=2, prog=0, cbw=16, cbh=16, csty=0, mode=0)
BASES = [(grid(1, 9, 7), P0), (grid(3, 8, 8, 3, 2), dict(P0, tile=[0, 0, 5, 6], mct=1)),
         (grid(2, 9, 9), dict(P0, rates=[9, 3, 0], prec=[[4, 4]], csty=1)),
         (grid(3, 16, 16), dict(P0, nres=3, poc=[[1, 0, 0, 1, 2, 3, 0], [1, 2, 0, 1, 3, 3, 1]], tp="R")),
         (grid(3, 12, 12), dict(P0, irr=1, mct=1)),
         (grid(4, 20, 14, 1, 7, sgnd=1, prec=11), dict(P0, tile=[0, 3, 9, 9], mode=5, csty=6, roi_c=2, roi_s=3))]
F = {k: EDGE for k in "nres cbw cbh prog csty mode irr mct roi_c roi_s rsiz max_cs max_comp cinema cp_rsiz layers res_spec numpocs jpip fixed_alloc".split()}
F["cbw"] = F["cbh"] = EDGE + [8, 128, 512, 1024, 2048, 12]
F["rsiz"] = EDGE + [6, 0x100, 0x30b, 0x400, 0x401, 0x500, 0x600, 0x700, 0x800, 0x900, 0x99b, 0x8000, 0x8100, 0x8200, 0x8300]
F["cp_rsiz"] = EDGE + [33024]
F["tile"] = [[a, 0, c, d] for a in (-1, 0, 3, 4, 20) for c in (-1, 0, 1, 3, 100, TOP) for d in (1, 5)] + \
    [[0, 9, 5, 5], [0, -3, 5, 5], [0, 0, 5, 0], [0, TOP, 4, 4], [LOW, 0, 4, 4], [0, 0, 2, 8], [0, 0, 3, 8], [0, 0, 4, 8], [0, 0, 7, 8], [0, 0, 8, 7]]
F["prec"] = [[[a, b]] for a in (-1, 0, 1, 2, 3, 32768, 65535, 65536, TOP, LOW) for b in (1, 16)] + [[[1, 1], [1, 1]], [[2, 2], [1, 1]], [[2, 2]] * 33, []]
F["poc"] = [[[a, b, c, d, e, f, g]] for a in (0, 1, 2, 9) for b in (0, 1, 5, -1) for c in (0, 2, 3, -1) for d in (0, 1, 9, 70000)
            for e in (0, 2, 3, 40) for f in (0, 1, 3, 300) for g in (-1, 0, 4, 5)]
F["tp"] = ["L", "R", "C", "P", "X"]
F["rates"] = [[0], [1], [-1], [0, 0], [1, 2, 3], [1e30], [0.0001], [100000], [5] * 100, [5] * 101, [20, 5], [1e-40, 3]]
F["psnr"] = [[0], [1], [-1], [0, 0], [50, 40], [40, 50, 0], [1e30], [5] * 100, [5] * 101]
F["comment"] = ["", "x" * 70000, "x" * 65535, "x" * 65532, "x" * 65531]
F["mctm"] = [[1, 0, 0, 0, 1, 0, 0, 0, 1], [0, 1, 0, 0, 0, 1, 1, 0, 0], [0] * 9, [1, 2, 3, 2, 4, 6, 0, 0, 1], [1e30] * 9]
SINGULAR = F["mctm"][2:]
C = dict(dx=[0, 2, 3, 255, 256, 9, TOP, LOW], dy=[0, 2, 255, 256], prec=[0, 1, 16, 23, 32, 33, 38, 39, 128, 255, LOW, TOP],
         sgnd=[1, 2, 5, TOP], w=[0, 1, 100, 8, 9, 16], h=[0, 1, 100, 7, 8], alpha=[1, 2, 5])
X = [["PLT=YES"], ["TLM=YES"], ["GUARD_BITS=0"], ["GUARD_BITS=7"], ["GUARD_BITS=8"], ["GUARD_BITS=1", "PLT=YES"]]


def fields():
    return [(k, v) for k in F for v in (F[k] if k != "poc" else F[k][::37])]


def changed(p, k, v):
    q = dict(p, **{k: v})
    if k == "mctm":
        q["dc"] = [0, 0, 0]
    return q


def cases(R, n):
    """Single deviations from ordinary encodes, and n combinations."""
    out = []
    for im, p in BASES:
        for k, v in fields():
            if k != "mctm" or len(im["comps"]) == 3:
                out.append((im, changed(p, k, v), None))
        for k in C:
            for v in C[k]:
                for w in {0, len(im["comps"]) - 1}:
                    j = copy.deepcopy(im)
                    j["comps"][w][k] = v
                    out.append((j, p, None))
        out += [(im, p, x) for x in X] + [(dict(im, comps=[]), p, None)]
        for k, v in (("x1", im["x0"]), ("y1", im["y0"]), ("x0", im["x1"] + 3), ("x0", -1), ("y1", -4), ("x1", TOP), ("y0", im["y1"])):
            j = copy.deepcopy(im)
            for c in j["comps"]:
                c.update(w=5, h=5)
            j[k] = v
            out.append((j, p, None))
    for w, h in ((256, 256), (300, 219), (65536, 1), (1, 65536)):        # too many tiles
        out.append((grid(1, w, h), dict(P0, nres=1, tile=[0, 0, 1, 1]), None))
    for im, p in BASES:                   # a progression change beside one that covers everything
        nc, nl = len(im["comps"]), len(p.get("rates", [0]))
        whole = [1, 0, 0, nl, p["nres"], nc, 0]
        for k, vs in enumerate(([0, 1, 2, 9], [0, 1, p["nres"] - 1, p["nres"], -1], [0, nc - 1, nc, nc + 1, -1], [0, 1, nl + 1], [0, 1, p["nres"] + 1],
                                [0, 1, nc, nc + 1, nc + 2], [-1, 4, 5])):
            for v in vs:
                x = [1, 0, 0, nl, p["nres"], nc + 2 if k == 2 else nc, 1]
                x[k] = v
                out += [(im, dict(p, poc=[whole, x]), None), (im, dict(p, poc=[x, whole]), None)]
    for _ in range(n):
        im, p = R.choice(BASES)
        j, q = copy.deepcopy(im), dict(p)
        for _ in range(R.choice([1, 2, 2, 3])):
            if R.random() < .2:
                k = R.choice(list(C))
                R.choice(j["comps"])[k] = R.choice(C[k])
                continue
            k = R.choice(list(F))
            if k == "mctm" and len(im["comps"]) != 3:
                continue
            q = changed(q, k, R.choice(F[k]))
        out.append((j, q, R.choice(X) if R.random() < .1 else None))
    # deep inside and just outside the ordinary: whole progressions, precincts and tile grids
    S = corpus(24, max(1, n // 5), maxw=20, maxh=20)
    for im, p, ex in S:
        q = dict(p)
        if R.random() < .5 and q.get("poc"):
            a = R.choice([x for x in range(len(q["poc"]))])
            q["poc"] = [list(x) for x in q["poc"]]
            q["poc"][a][R.randrange(7)] += R.choice([-1, 1])
            if min(q["poc"][a]) < 0:
                q["poc"][a] = [max(0, x) for x in q["poc"][a]]
        elif R.random() < .3:
            k = R.choice(["nres", "cbw", "cbh", "csty", "mode", "prog"])
            q[k] = q.get(k, 0) + R.choice([-1, 1, 2])
        out.append((im, q, ex))
    return out


def s32(v):
    return (v + (1 << 31)) % (1 << 32) - (1 << 31)


def facts(im, p, ex):
    """What Encoder.tla knows of an encode."""
    cs = []
    for c in im["comps"]:
        dx, dy = max(1, c["dx"]), max(1, c["dy"])
        cs.append(dict(dx=c["dx"], dy=c["dy"], prec=c["prec"], sgnd=c["sgnd"], w=c.get("w", cdiv(im["x1"], dx) - cdiv(im["x0"], dx)),
                       h=c.get("h", cdiv(im["y1"], dy) - cdiv(im["y0"], dy))))
    t = p.get("tile")
    ra, ps = p.get("rates"), p.get("psnr")
    m = p.get("mctm")
    mct = (p.get("mct", 0) + 128) % 256 - 128
    matrix = 0
    if m:
        matrix, mct = (2 if m in SINGULAR else 1), 2
    layers = p.get("layers", len(ra if ra is not None else ps if ps is not None else []))
    if ps is not None:
        layers = p.get("layers", len(ps))
    prec = p.get("prec", [])
    profile = int(any((p.get("rsiz", 0) % 65536, p.get("cinema", 0) % 2**32, p.get("cp_rsiz", 0) % 2**32)))
    descending = ra is None or all(a > b >= 0 for a, b in zip(ra, ra[1:])) and ra and 0 <= min(ra) and max(ra) < 1000 and layers == len(ra)
    odd = int(not descending or ps is not None or bool(p.get("fixed_alloc")) or p.get("tp", "L") not in list("LRCP") or bool(p.get("max_cs") or p.get("max_comp"))
              or (ra is None and p.get("layers", 0) not in (0, 1)) or bool(ex and any("GUARD" in x for x in ex)) or p.get("roi_c", -1) >= len(cs) or p.get("roi_s", 0) > 7
              or p.get("irr", 0) not in (0, 1) or ("tp" in p and (bool(prec) or p["nres"] * len(cs) * max(1, layers) > 20)))    # many tile-parts
    exact = int(not profile and not odd and not p.get("irr") and (ra is None or ra[-1] == 0) and not matrix and p.get("roi_c", -1) < 0
                and all(c["prec"] <= 16 for c in cs) and not ((p.get("mode", 0)) & 64))
    return dict(x0=im["x0"], y0=im["y0"], x1=im["x1"], y1=im["y1"], comps=cs, nres=p["nres"], cbw=p["cbw"], cbh=p["cbh"], prog=p["prog"],
                csty=p.get("csty", 0), mode=p.get("mode", 0), layers=layers, tiled=int(t is not None), tile=t or [0, 0, 0, 0],
                rspec=p.get("res_spec", len(prec)), prec=prec, roic=p.get("roi_c", -1), rois=p.get("roi_s", 0), mct=mct, matrix=matrix,
                poc=[[s32(v) for v in x] for x in p.get("poc", [])], npoc=p.get("numpocs", len(p["poc"])) if p.get("poc") is not None else 0,
                comment=len(p.get("comment", "")), profile=profile, odd=odd, exact=exact)


def came(q, r, im):
    """What came of an encode."""
    ok, e = {}, {}
    for o, y in zip(q["ops"], r["out"]):
        ok.setdefault(o["op"], bool(y.get("ok"))), e.setdefault(o["op"], y)
    g, geo = e["img"], False
    if ok["dec"] and "comps" in g:
        geo = [g[k] for k in ("x0", "y0", "x1", "y1")] == [im[k] for k in ("x0", "y0", "x1", "y1")] and \
            [(c["dx"], c["dy"], c["prec"], c["sgnd"]) for c in g["comps"]] == [(c["dx"], c["dy"], c["prec"], c["sgnd"]) for c in im["comps"]]
    same = geo and "nc" in e["cmp"] and equal(r["out"])
    return dict(setup=ok["enc_setup"], start=ok["start"], enc=ok["encode"], fin=ok["end"], empty=not e["getbuf"].get("hex"), dec=geo, same=bool(same))


# ---- histories of calls ------------------------------------------------------
def setups(R):
    """Two set-ups that differ in everything a file shows."""
    n = R.choice([[2, 1], [2, 1], [1, 2], [3, 1], [1, 1]])
    w, h, x0 = R.randint(6, 9), R.randint(4, 9), R.choice([0, 0, 3])
    a, b = grid(R.choice([1, 3, 4]), w * n[0], h, x0, R.choice([0, 5])), grid(R.choice([1, 2, 3]), (w + 2) * n[1], h + 3, sgnd=R.choice([0, 1]))
    pa = dict(P0, tile=[x0, 0, w, 40], mct=1 if len(a["comps"]) > 2 else 0, comment="first")
    pb = dict(P0, nres=R.choice([1, 2]), prog=R.choice([1, 4]), tile=[0, 0, w + 2, 40], mode=R.choice([0, 1, 8]))
    if n[0] == 1 and R.random() < .5:
        pa.pop("tile")
    if R.random() < .4:
        pb["poc"] = pocs(R, pb["nres"], len(b["comps"]), 1)
    if R.random() < .4:
        pa.update(rates=[8, 0], csty=7, prec=[[8, 8]])
    if R.random() < .6:
        k = R.choice("ab")
        i = dict(a=a, b=b)[k]
        i["comps"][-1]["alpha"] = R.choice([1, 2]) if len(i["comps"]) > 1 else 0
        i["icc" if R.random() < .5 else "x"] = "0123456789" * 4
        i.pop("x", 0)
    if R.random() < .3:
        b["comps"][-1]["prec"] = 12
    a["content"], b["content"] = dict(kind="noise", seed=R.randrange(1000)), dict(kind="smooth", seed=R.randrange(1000))
    return n, (a, pa), (b, pb)


INVALID = [dict(nres=0), dict(nres=33), dict(cbw=6), dict(prog=5), dict(csty=8), dict(mode=64), dict(layers=101), dict(tile=[0, 0, 0, 4]),
           dict(tile=[0, 0, 1, 1], nres=2), dict(numpocs=33, poc=[[1, 0, 0, 1, 9, 9, 0]]), dict(poc=[[1, 0, 0, 1, 1, 1, 0]], nres=2), dict(comment="x" * 65535),
           dict(mct=2), dict(mctm=[0] * 9, dc=[0, 0, 0])]


def session(R, h, n, A, B, fmt, opt):
    a, b = A[0], B[0]
    bad = R.choice(INVALID)
    ta = tiles(*A)
    o = [dict(op="mkimg", i="a", **a), dict(op="mkimg", i="b", **b), dict(op="mkimg", i="n", **dict(a, nodata=True)), dict(op="mkimg", i="w", **a),
         dict(op="enc_new", c="e", fmt=fmt), dict(op="stream", s="o")]
    k0, t = len(o), 0
    for c in h:
        w = R.choice("AB")
        o.append(dict(op="enc_setup", c="e", i="a", p=A[1]) if c == "sA" else
                 dict(op="enc_setup", c="e", i="b", p=B[1]) if c == "sB" else
                 dict(op="enc_setup", c="e", i=w.lower(), p=dict((A if w == "A" else B)[1] if "mctm" not in bad else P0, **bad)) if c == "sX" else
                 dict(op="enc_extra", c="e", x=opt) if c == "opt" else
                 dict(op="enc_extra", c="e", x=["PLT=NO", "TLM=NO"]) if c == "optN" else
                 dict(op="enc_extra", c="e", x=R.choice([["FOO"], ["PLT=MAYBE"], ["GUARD_BITS=8"], ["TLM"]])) if c == "optX" else
                 dict(op="start", c="e", i=dict(tA="a", tB="b", tN="n")[c], s="o") if c[0] == "t" else
                 dict(op="encode", c="e", s="o") if c == "e" else
                 dict(op="wtile", c="e", s="o", i="w", t=int(c[1]), rect=ta[min(int(c[1]), len(ta) - 1)]) if c in ("w0", "w1", "w2") else
                 dict(op="wtile", c="e", s="o", i="w", t=min(t, len(ta) - 1), rect=ta[min(t, len(ta) - 1)], extra=R.choice([1, -1, 7])) if c == "wX" else
                 dict(op="end", c="e", s="o"))
        if c in ("w0", "w1", "w2") and int(c[1]) == t:
            t += 1
    tail = [dict(op="cfree", c="e"), dict(op="sfree", s="o", to="f")]
    if R.random() < .5:
        tail.reverse()
    return dict(ops=o + tail + [dict(op="getbuf", b="f")]), k0


def fresh(X, fmt, ex):
    im, p = X
    return dict(stop=1, ops=encode_ops(im, p, fmt, extra=ex)[:-1] + [dict(op="getbuf", b="b")])


def histories(ck, R, sc, T):
    K = [setups(R) for _ in range(5 * T)]
    rows, use = [], []
    for n, A, B in K[:2 * T]:                      # every history of three calls
        rows.append(dict(n=n, picks=[-1, -1, -1]))
        use.append((n, A, B))
    for k in range(500 * T):                       # histories that mostly get on
        n, A, B = R.choice(K)
        q = R.choice([.05, .15, .3])
        rows.append(dict(n=n, picks=[R.randrange(1000) + (1000 if R.random() < q else 0) for _ in range(R.randint(4, 13))]))
        use.append((n, A, B))
    f = os.path.join(sc, "gen.ndjson")
    write_ndjson(f, rows)
    r = tlc("EncoderGen", env={"OBS": f})
    ck.add(states=r.distinct, transitions=r.generated)
    H = [(x["i"] - 1, x["h"]) for x in r.prints("HIST")]
    ck.add(histories_generated_by_tlc=len(H))
    refs, plan, want_ = {}, [], []
    for i, h in H:
        n, A, B = use[i]
        fmt, opt = R.choice(["j2k", "jp2"]), R.choice([["PLT=YES"], ["TLM=YES"], ["PLT=YES", "TLM=YES"]])
        key = lambda X, ex: (id(X), fmt, str(ex))
        for X in (A, B):
            for ex in (None, opt):
                if key(X, ex) not in refs:
                    refs[key(X, ex)] = len(want_)
                    want_.append(fresh(X, fmt, ex))
        plan.append((n, h, [key(A, None), key(A, opt), key(B, None), key(B, opt)], session(R, h, n, A, B, fmt, opt)))
    files = []
    for q, x in zip(want_, jp2.run_all(want_)):
        if died(x) or refused(x):
            raise ToolError("reference encode failed: " + str(died(x) or refused(x)) + json.dumps(q)[:600])
        files.append(x["out"][-1]["hex"])
    out, keep = [], []
    ses = [p[3][0] for p in plan]
    for (n, h, keys, (q, k0)), x in zip(plan, jp2.run_all(ses)):
        if died(x):
            ck.violation("calls: " + died(x), dict(calls=h, session=q))
            continue
        hexa = x["out"][-1].get("hex", "")
        out.append(dict(n=n, ev=[[c, bool(x["out"][k0 + k].get("ok"))] for k, c in enumerate(h)], eq=[hexa == files[refs[y]] for y in keys], empty=not hexa))
        keep.append(dict(calls=h, session=q))
    judged(ck, "EncoderTrace", out, keep, "a call did what its place in the history forbids", sc)
    ck.add(histories=len(out), finished_files=sum(any(o["eq"]) for o in out))


def check_c24():
    ck = Check("C24", "model_checking", ["encodes of components of 24 to 31 bits and decodes after a transform by a given matrix are recorded findings and not explored"])
    R = random.Random(2400 + SEED)
    T = 1 if TIER == "quick" else 5
    with Scratch() as sc:
        r = tlc("EncoderMC")
        bad = tlc("EncoderMC", cfg="EncoderLate", ok=(12,))
        ck.add(states=r.distinct + bad.distinct, transitions=r.generated + bad.generated)
        histories(ck, R, sc, T)
        S = cases(R, 1500 * T)
        ses = []
        for im, p, ex in S:
            f = R.choice(["j2k", "jp2"])
            ses.append(dict(ops=encode_ops(im, p, f, extra=ex) + [dict(op="getbuf", b="b")] + decode_ops(f) +
                            [dict(op="img", i="r", geo=True), dict(op="cmp", i="a", j="r")]))
        rows, keep = [], []
        for (im, p, ex), q, x in zip(S, ses, jp2.run_all(ses, timeout=60)):
            if died(x):
                ck.violation("parameters: " + died(x), dict(session=q))
                continue
            if not x["out"][0].get("ok"):
                ck.add(no_memory_for_image=1)
                continue
            rows.append(dict(d=facts(im, p, ex), r=came(q, x, im)))
            keep.append(dict(session=q))
        ck.add(encodes=len(rows), refused=sum(not x["r"]["setup"] for x in rows), finished=sum(x["r"]["enc"] and x["r"]["fin"] for x in rows))
        judged(ck, "EncoderParams", rows, keep, "an encode came to what it must not", sc)
    recorded(ck, "precision-31", "components of 31 bits overflow in the wavelet transform")
    recorded(ck, "custom-matrix", "a file written with a component transform matrix of its own is refused by the decoder")
    for q in ses[:3]:
        ck.sample(json.dumps(q["ops"][2]))
    return ck.finish()


CHECKS = {"C24": check_c24}
