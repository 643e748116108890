"""Checks of the JP2 file format: C18 (boxes), C19 (palettes and channel definitions)."""
from jp2_checks import *

SIG, KIND = list(b"jP  "), list(b"ftyp")


def node(t, c=b"", k=None, f="s"):
    return dict(t=list(t.encode()), c=list(c), k=k or [], f=f, d=0)


def ser(x):
    b = b"".join(map(ser, x["k"])) if x["k"] else bytes(x["c"])
    t = bytes(x["t"])
    n = len(b) + (16 if x["f"] == "x" else 8) + x["d"]
    return {"e": b"\0\0\0\0" + t, "x": b"\0\0\0\1" + t + n.to_bytes(8, "big")}.get(x["f"], n.to_bytes(4, "big") + t) + b


def bits(im):
    return [(k["prec"] - 1) | (k["sgnd"] << 7) for k in im["comps"]]


def image_header(im):
    b = bits(im)
    return node("ihdr", (im["y1"] - im["y0"]).to_bytes(4, "big") + (im["x1"] - im["x0"]).to_bytes(4, "big") + len(b).to_bytes(2, "big") +
                bytes([b[0] if len(set(b)) == 1 else 255, 7, 0, 0]))


def enumerated(cs):
    return node("colr", bytes([1, 0, 0]) + cs.to_bytes(4, "big"))


def tree(im, cs, more=(), colr=None):
    b = bits(im)
    k = [image_header(im)] + ([node("bpcc", bytes(b))] if len(set(b)) > 1 else []) + [colr or enumerated(17 if len(b) < 3 else 16)] + list(more)
    return [node("jP  ", [13, 10, 135, 10]), node("ftyp", b"jp2 \0\0\0\0jp2 "), node("jp2h", k=k), node("jp2c", cs)]


def size_of(im):
    return dict(w=im["x1"] - im["x0"], h=im["y1"] - im["y0"], n=len(im["comps"]), bits=bits(im))


def pclr(cols, entries):
    """cols: (size, sign); entries: rows of numbers."""
    b = len(entries).to_bytes(2, "big") + bytes([len(cols)]) + bytes((s - 1) | (g << 7) for s, g in cols)
    for e in entries:
        for (s, g), v in zip(cols, e):
            b += (v & ((1 << s) - 1)).to_bytes((s + 7) // 8, "big")
    return node("pclr", b)


def cmap(m):
    return node("cmap", b"".join(c.to_bytes(2, "big") + bytes([t, p]) for c, t, p in m))


def cdef(f):
    return node("cdef", len(f).to_bytes(2, "big") + b"".join(x.to_bytes(2, "big") for e in f for x in e))


def seen(way, buf, fmt, tag, setup, end=False):
    c, s, i = "d" + tag, "s" + tag, "r" + tag
    o = [dict(op="dec_new", c=c, fmt=fmt), dict(setup, op="dec_setup", c=c), {"op": "stream", "s": s, "in": True, "buf": buf}, dict(op="hdr", c=c, s=s, i=i)]
    for q in way:
        o.append(dict(q, c=c, s=s, i=i) if q["op"] != "area" else dict(op="area", c=c, i=i, **q["a"]))
    return o + ([dict(op="end_dec", c=c, s=s)] if end else []) + \
        [dict(op="img", i=i, full=True), dict(op="cfree", c=c), dict(op="sfree", s=s), dict(op="freeimg", i=i)]


def saw(ops, out, way):
    """hdr, ok, image of a part of a session made by seen()."""
    hdr = bool(out[3].get("ok"))
    ok = hdr and all(y.get("ok") for y in out[4:4 + len(way)])
    im = next((y for y in out[4 + len(way):] if isinstance(y, dict) and "comps" in y), None)
    cs = [] if im is None or not ok else [{k: c.get(k, []) for k in ("dx", "dy", "w", "h", "prec", "sgnd", "alpha", "d")} for c in im["comps"]]
    return hdr, dict(ok=ok, comps=cs), im


def judge_files(ck, cases, what, sc, ways=None):
    """cases: (im, cs, file bytes, ways) with ways = [(setup, way, end)]; bare codestreams are looked at once per way."""
    ses, n = [], []
    for im, cs, f, ws in cases:
        o = [dict(op="buf", b="f", hex=f.hex()), dict(op="buf", b="b", hex=cs.hex())]
        for k, (su, w, e) in enumerate(ws):
            o += seen(w, "f", "jp2", f"f{k}", su, e) + seen(w, "b", "j2k", f"b{k}", su)
        ses.append(dict(ops=o))
    rows, keep = [], []
    taken = 0
    for (im, cs, f, ws), q, r in zip(cases, ses, jp2.run_all(ses)):
        if died(r):
            ck.violation(f"{what}: {died(r)}", dict(session=q, result=r))
            continue
        looks, hdr, space, icc, end, p = [], False, -1, [], "none", 2
        for su, w, e in ws:
            m = 8 + len(w) + bool(e)
            h, got, img = saw(q["ops"][p:p + m], r["out"][p:p + m], w)
            hdr = hdr or h
            if e and got["ok"]:
                end = "ok" if r["out"][p + 4 + len(w)].get("ok") else "no"
            if img is not None and h:
                space, icc = img["cs"], list(bytes.fromhex(img["icc"])) if img.get("icc") else []
            p += m
            h, base, _ = saw(q["ops"][p:p + m - bool(e)], r["out"][p:p + m - bool(e)], w)
            p += m - bool(e)
            taken += got["ok"]
            looks.append(dict(sel=any(x["op"] == "comps" for x in w), base=base, got=got))
        rows.append(dict(f=list(f), o=f.find(cs), cs=len(cs), S=size_of(im), hdr=hdr, space=space, icc=icc, end=end, looks=looks))
        keep.append(dict(session=q))
    ck.add(files=len(rows), looks=sum(len(r["looks"]) for r in rows), taken=taken)
    return judged(ck, "BoxesTrace", rows, keep, what, sc)


D1 = dict(op="dec")


def codestreams(ck, S):
    """(image, params, codestream) of every case that encodes."""
    return [(s[0], s[1], b) for s, q, o, b in encoded(ck, S, full=False)]


def plain(R, nc, **kw):
    im = dict(x0=0, y0=0, x1=R.randint(2, 6), y1=R.randint(1, 5), comps=[dict(dx=1, dy=1, prec=kw.get("prec", 8), sgnd=0) for _ in range(nc)],
              content=dict(kind="noise", seed=R.randint(1, 1 << 30)), cs=1 if nc >= 3 else 2)
    return im, dict(nres=1, prog=0, cbw=64, cbh=64, csty=0, mode=0), None


def set_up_again(ck, R, S):
    """Encodes by codecs that had been set up for another image before."""
    C = []
    for (im, p, ex), (jm, q, _) in zip(S, S[7:]):
        if R.random() < .3:
            C.append((im, p, ex, [dict(op="mkimg", i="z", **jm), dict(op="enc_setup", c="e", i="z", p=q)]))
    ses = []
    for im, p, ex, first in C:
        o = encode_ops(im, p, "jp2", extra=ex)
        at = next(k for k, x in enumerate(o) if x["op"] == "enc_setup")
        ses.append(dict(stop=1, ops=o[:at] + first + o[at:] + [dict(op="getbuf", b="b")]))
    good = []
    for c, q, r in zip(C, ses, jp2.run_all(ses)):
        if died(r):
            ck.violation(died(r), dict(session=q, result=r))
            continue
        b = next((x["hex"] for x in r["out"] if isinstance(x, dict) and "hex" in x), None)
        if b is not None and refused(r) is None:
            good.append((c[:3], q, r["out"], bytes.fromhex(b)))
    ck.add(encodes_by_used_codecs=len(good))
    return good


def written_files(ck, R, sc):
    """Files of the encoder: TLC reads them and compares with the image."""
    S = corpus(18, 500, maxw=16, maxh=16, maxprec=16)
    for im, p, ex in S:
        n = len(im["comps"])
        if R.random() < .3:
            for c in im["comps"]:
                c["sgnd"] = R.choice([0, 1])
        if R.random() < .2:
            im["comps"] = [dict(im["comps"][0]) for _ in range(R.choice([2, 5, 9]))]
            p.pop("mct", None)
            p.pop("poc", None)
            p.pop("roi_c", None)
        im["cs"] = R.choice([0, 1, 1, 2, 2, 3, 4, 5, -1])
        if R.random() < .3:
            im["icc"] = bytes(R.randrange(256) for _ in range(R.choice([1, 2, 17, 300]))).hex()
        for c in R.sample(im["comps"], min(len(im["comps"]), R.choice([0, 0, 1, 1, 1, 2]))):
            c["alpha"] = R.choice([1, 1, 2])
        if R.random() < .5:
            im["comps"][-1]["alpha"] = 1
    S = [s for s in S if nonempty(s[0], s[1])]
    # files beyond 64 KiB
    for w, h in [(290, 260), (300, 250)]:
        im, p, ex = plain(R, 1)
        im.update(x1=w, y1=h)
        im["content"]["kind"] = "noise"
        S.append((im, p, ex))
    rows, keep = [], []
    for s, q, o, b in encoded(ck, S, fmt="jp2", full=False) + set_up_again(ck, R, S):
        im = s[0]
        rows.append(dict(f=list(b), w=im["x1"] - im["x0"], h=im["y1"] - im["y0"], bits=bits(im), cs=im["cs"],
                         icc=list(bytes.fromhex(im.get("icc", ""))), alpha=[c.get("alpha", 0) for c in im["comps"]]))
        keep.append(dict(session=q))
    judged(ck, "BoxesWritten", rows, keep, "written file", sc)


def check_c18():
    ck = Check("C18", "model_checking", ["a box sequence is legal as spec/Boxes.tla reads ITU-T T.800 Annex I; what a lenient reader may bear is listed there (Oddities)"])
    R = random.Random(1800 + SEED)
    with Scratch() as sc:
        written_files(ck, R, sc)
        a, b = codestreams(ck, [plain(R, 3), plain(R, 1)])
        b[0]["comps"][0]["prec"] = 8
        tb = tree(b[0], b[2], [pclr([(8, 0), (8, 0), (5, 1)], [[1, 2, 3], [250, 251, -16], [7, 128, 15]]), cmap([(0, 1, k) for k in range(3)]),
                               cdef([(0, 0, 2), (1, 0, 1), (2, 1, 0)])])
        tb[2]["k"][0]["c"][10] = 255
        tb[2]["k"].insert(1, node("bpcc", [7]))
        bases = [(a, tree(a[0], a[2])), (b, tb)]
        f = os.path.join(sc, "gen.ndjson")
        write_ndjson(f, [dict(tree=t, cs=len(x[2]), S=size_of(x[0]), depth=2, whole=0, seed=SEED, one=41 if TIER == "quick" else 3) for x, t in bases] +
                        [dict(tree=t, cs=len(x[2]), S=size_of(x[0]), depth=5 if TIER == "quick" else 6, whole=1, seed=SEED, one=1) for x, t in bases[:1]])
        r = tlc("BoxesGen", env={"OBS": f}, timeout=800)
        files = sorted({((x["i"] - 1) % 2, bytes(x["b"])) for x in r.prints("FILE") if max(x["b"]) < 256})
        ck.add(states=r.distinct, transitions=r.generated, files_generated_by_tlc=len(files))
        cases = [(bases[i][0][0], bases[i][0][2], f, [({}, [D1], True)]) for i, f in files if bases[i][0][2] in f]
        judge_files(ck, cases, "boxes", sc)
        # other codestreams, with legal boxes everywhere
        cases = []
        for im, p, cs in codestreams(ck, corpus(181, 400, maxw=16, maxh=16)):
            icc = node("colr", bytes([2, R.randrange(256), R.randrange(256)]) + bytes(R.randrange(256) for _ in range(R.choice([1, 9, 300]))))
            colr = lambda: R.choice([enumerated(R.choice([12, 16, 17, 18, 24, 99])), icc, icc])
            T = tree(im, cs, [colr() for _ in range(R.choice([0, 0, 1, 2]))], colr())
            if R.random() < .15:
                T[2]["k"].insert(R.randint(1, 2), node("colr", bytes([R.choice([0, 3, 9]), 0, 0, 1, 2])))
            T = decorate(R, T)
            cases.append((im, cs, b"".join(map(ser, T)), accesses_of(R, im, p)))
        judge_files(ck, cases, "legal boxes", sc)
    return ck.finish()


def accesses_of(R, im, p):
    """Ways to look at a file, as (decoder setup, calls, end)."""
    x0, y0, x1, y1 = im["x0"], im["y0"], im["x1"], im["y1"]
    nt = len(tiles(im, p))
    q = [({}, [D1], True)]
    if R.random() < .5:
        q.append(({}, [dict(op="gtile", t=R.randrange(nt))], False))
    if R.random() < .4:
        a, b = R.randint(x0, x1 - 1), R.randint(y0, y1 - 1)
        q.append(({}, [dict(op="area", a=dict(x0=a, y0=b, x1=R.randint(a + 1, x1), y1=R.randint(b + 1, y1))), D1], False))
    if R.random() < .3 and p["nres"] > 1:
        q.append((dict(reduce=R.randint(1, p["nres"] - 1)), [D1], R.random() < .5))
    return q


def filler(R):
    t = R.choice(["xml ", "uuid", "free", "abcd", "res ", "jp2i", "url "])
    return node(t, bytes(R.randrange(256) for _ in range(R.choice([0, 1, 8, 16, 30, 700]))), f=R.choice("sssx"))


def decorate(R, T):
    """A legal file with the same meaning: unknown boxes, extended lengths, header boxes in another order."""
    T = [dict(x) for x in T]
    h = T[2]["k"]
    for _ in range(R.choice([0, 1, 3])):
        h.insert(R.randint(1, len(h)), filler(R))
    if R.random() < .5:
        rest = h[1:]
        R.shuffle(rest)
        T[2]["k"] = h = h[:1] + rest
    for x in T + h:
        if R.random() < .2:
            x["f"] = "x"
    for _ in range(R.choice([0, 1, 3])):
        T.insert(R.randint(2, len(T) - 1), filler(R))
    if R.random() < .3:
        T[-1]["f"] = "e"
    else:
        for _ in range(R.choice([0, 1, 2])):
            T.append(filler(R))
    return T


def table(R, im):
    """Random colour boxes for an image: mostly right, sometimes wrong."""
    nc = len(im["comps"])
    bad = R.random() < .2
    more, n = [], nc
    if R.random() < .65:
        cols = [(R.choice([8, 8, 8, 1, 4, 12, 16, 31, R.randint(1, 31)] + ([33, 38] if bad else [])), R.choice([0, 0, 1]))
                for _ in range(R.choice([1, 2, 3, 3, 3, 4, 5, R.choice([16, 17, 40, 255])]))]
        ne = R.choice([1, 2, 5, 16, 256 if len(cols) < 4 else 40, R.randint(1, 300) if len(cols) < 4 else 9, 1024 if len(cols) == 1 else 3]) if len(cols) < 16 else R.randint(1, 3)
        ent = [[(R.choice([0, (1 << s) - 1, 1 << (s - 1), R.getrandbits(s)])) for s, g in cols] for _ in range(ne)]
        more.append(pclr(cols, ent))
        way = R.choice(["all", "all", "perm", "some", "mixed"])
        N = len(cols)
        if way == "all":
            src = R.randrange(nc) if R.random() < .6 else None
            m = [(R.randrange(nc) if src is None else src, 1, k) for k in range(N)]
        elif way == "perm":
            m = [(R.randrange(nc), 1, k) for k in R.sample(range(N), N)]
        else:
            m = [(R.randrange(nc), 1, R.randrange(N)) if way == "some" or R.random() < .6 else (R.randrange(nc), 0, 0) for _ in range(R.randint(1, 6))]
        if bad and R.random() < .5:
            k = R.randrange(len(m))
            m[k] = R.choice([(nc, 1, m[k][2]), (m[k][0], 2, m[k][2]), (m[k][0], 1, N), (m[k][0], 0, 1)])
        x = cmap(m)
        if bad and R.random() < .2:
            x["c"] = x["c"][:-1]
        if not bad or R.random() < .8:
            more.append(x)
        n = len(m)
    if n < 50 and R.random() < .6:
        colours = R.randint(0, n)
        ch = R.sample(range(n), n)
        f = [(c, 0, k + 1) for k, c in enumerate(ch[:colours])] + [(c, R.choice([1, 1, 2, 65535]), R.choice([0, 0, 65535, R.randint(0, max(1, colours))])) for c in ch[colours:]]
        R.shuffle(f)
        if bad and f:
            k = R.randrange(len(f))
            R.choice([lambda: f.pop(k), lambda: f.__setitem__(k, (n, f[k][1], f[k][2])), lambda: f.__setitem__(k, (f[k][0], f[k][1], n + 1)),
                      lambda: f.append((f[k][0], 1, 0)), lambda: f.append(f[k])])()
        x = cdef(f)
        if bad and R.random() < .2:
            x["c"] = x["c"][:-1]
        more.append(x)
    if R.random() < .3:
        R.shuffle(more)
    return more


def check_c19():
    ck = Check("C19", "model_checking", ["palette, mapping and definitions mean what spec/Boxes.tla (Channels) reads in ITU-T T.800 I.5.3; the samples before them are those of the bare codestream"])
    R = random.Random(1900 + SEED)
    with Scratch() as sc:
        # all small tables
        f = os.path.join(sc, "gen.ndjson")
        one = lambda n: max(1, n // 1200) if TIER == "quick" else max(1, n // 20000)
        todo = [("def", 1, 1, 27), ("def", 2, 1, 45), ("def", 2, 2, 2025), ("perm", 3, 3, 6000), ("perm", 4, 4, 497664), ("def", 2, 3, 91125), ("map", 1, 1, 12),
                ("map", 2, 1, 27), ("map", 2, 2, 729), ("map", 2, 3, 19683), ("map", 1, 3, 1728)]
        spec = [dict(kind=k, n=n, m=m, one=one(c), seed=SEED) for k, n, m, c in todo]
        write_ndjson(f, spec)
        r = tlc("TablesGen", env={"OBS": f}, timeout=800, heap="6g")
        tabs = sorted({(x["i"] - 1, bytes(x["b"])) for x in r.prints("TAB")})
        ck.add(states=r.distinct, transitions=r.generated, tables_generated_by_tlc=len(tabs))
        base = {n: codestreams(ck, [plain(R, n, prec=2)])[0] for n in (1, 2, 3, 4)}
        cases = []
        for i, b in tabs:
            k, n = spec[i]["kind"], spec[i]["n"]
            im, p, cs = base[n]
            more = [node("cdef", b)] if k != "map" else [pclr([(8, 0)] * n, [[R.randrange(256) for _ in range(n)] for _ in range(3)]), node("cmap", b)]
            cases.append((im, cs, b"".join(map(ser, tree(im, cs, more))), [({}, [D1], False)]))
        judge_files(ck, cases, "colour table", sc)
        cases = []
        S = corpus(19, 900, maxw=12, maxh=12, maxtiles=6, maxprec=10)
        for im, p, ex in S:
            if R.random() < .5:
                for c in im["comps"]:
                    c.update(im["comps"][0])
            im["content"]["kind"] = R.choice(["noise", "noise", "extreme", "smooth"])
        S = [s for s in S if nonempty(s[0], s[1])]
        for im, p, cs in codestreams(ck, S):
            for _ in range(2):
                icc = bytes(R.randrange(256) for _ in range(R.randint(1, 40)))
                colr = R.choice([enumerated(R.choice([12, 16, 17, 18, 24, 1, 99])), node("colr", bytes([2, 0, 0]) + icc), None])
                T = tree(im, cs, table(R, im), colr)
                if R.random() < .2:
                    T[2]["k"].append(enumerated(18))
                if R.random() < .1:
                    T[2]["k"].insert(1, node("colr", bytes([R.choice([0, 3, 9]), 0, 0, 1, 2])))
                if R.random() < .3:
                    T = decorate(R, T)
                w = accesses_of(R, im, p)
                same = len({(c["dx"], c["dy"], c["prec"], c["sgnd"]) for c in im["comps"]}) == 1
                nt = len(tiles(im, p))
                if R.random() < .3:
                    w.append(({}, [dict(op="comps", x=R.sample(range(len(im["comps"])), R.randint(1, len(im["comps"])))), D1], False))
                # the image that comes back is the one used again: without palette, or one of which every channel comes
                m = [bytes(x["c"]) for y in T for x in y["k"] if bytes(x["t"]) == b"cmap"]
                again = all(len(b) >= 4 * len(im["comps"]) and all(b[k] == 1 for k in range(2, len(b), 4)) for b in m)
                if same and again and R.random() < .4:
                    w.append(({}, R.choice([[dict(op="gtile", t=R.randrange(nt)), dict(op="gtile", t=R.randrange(nt))], [D1, dict(op="gtile", t=R.randrange(nt))]]), False))
                cases.append((im, cs, b"".join(map(ser, T)), w))
        judge_files(ck, cases, "palette and channels", sc)
    return ck.finish()


CHECKS = {"C18": check_c18, "C19": check_c19}
