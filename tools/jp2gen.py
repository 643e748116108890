"""Generators of images, coding parameters and sessions for the JPEG 2000 checks."""
import random


def cdiv(a, b):
    return -((-a) // b)


def tiles(im, p):
    """Rectangles of the tile grid that parameters p put over image im."""
    if "tile" in p:
        tx, ty, tw, th = p["tile"]
    else:
        tx, ty, tw, th = im["x0"], im["y0"], im["x1"] - im["x0"], im["y1"] - im["y0"]
    nx, ny = cdiv(im["x1"] - tx, tw), cdiv(im["y1"] - ty, th)
    return [[max(tx + i * tw, im["x0"]), max(ty + j * th, im["y0"]), min(tx + (i + 1) * tw, im["x1"]),
             min(ty + (j + 1) * th, im["y1"])] for j in range(ny) for i in range(nx)]


def nonempty(im, p):
    """No tile-component without samples."""
    return all(cdiv(t[2], c["dx"]) > cdiv(t[0], c["dx"]) and cdiv(t[3], c["dy"]) > cdiv(t[1], c["dy"])
               for t in tiles(im, p) for c in im["comps"])


def samples(im):
    return sum((cdiv(im["x1"], c["dx"]) - cdiv(im["x0"], c["dx"])) * (cdiv(im["y1"], c["dy"]) - cdiv(im["y0"], c["dy"]))
               for c in im["comps"])


KINDS = ["noise", "smooth", "sparse", "extreme", "grid", "const", "zero", "noise", "smooth"]


def image(R, maxw=24, maxh=24, comps=None, sub=True, maxprec=16, offset=True):
    nc = comps or R.choice([1, 1, 1, 2, 3, 3, 3, 4])
    w, h = R.choice([(R.randint(1, 9), R.randint(1, 9)), (R.randint(1, maxw), R.randint(1, maxh)),
                     (R.randint(maxw // 2, maxw), R.randint(maxh // 2, maxh))])
    x0, y0 = (R.randint(0, 20), R.randint(0, 20)) if offset and R.random() < .45 else (0, 0)
    same = not sub or R.random() < .6
    pr = R.choice([1, 2, 4, 8, 8, 8, 8, 10, 12, 16, R.randint(1, maxprec)])
    pr = min(pr, maxprec)
    sg = R.choice([0, 0, 1])
    cs = []
    for k in range(nc):
        dx = dy = 1
        if not same:
            dx, dy = R.choice([1, 1, 2, 3]), R.choice([1, 1, 2, 3])
            if R.random() < .5:
                pr, sg = R.randint(1, maxprec), R.choice([0, 1])
        cs.append(dict(dx=dx, dy=dy, prec=pr, sgnd=sg))
    return dict(x0=x0, y0=y0, x1=x0 + w, y1=y0 + h, comps=cs,
                content=dict(kind=R.choice(KINDS), seed=R.randint(1, 1 << 30)), cs=1 if nc >= 3 else 2)


def params(R, im, layers=True, poc=True, modes=True, maxtiles=9, tiled=.45, csty=True, tp=True, roi=True):
    """Reversible coding parameters within the encoder's documented means."""
    w, h = im["x1"] - im["x0"], im["y1"] - im["y0"]
    nc = len(im["comps"])
    p = dict(nres=R.choice([1, 2, 3, 3, 4, R.randint(1, 6)]), prog=R.randint(0, 4))
    a, b = R.randint(2, 6), R.randint(2, 6)
    p.update(cbw=1 << a, cbh=1 << b)
    if modes:
        p["mode"] = R.choice([0, 0, 0, R.randint(0, 63), 1 << R.randint(0, 5)])
    if csty:
        p["csty"] = R.choice([0, 0, 2, 4, 6])
    if R.random() < tiled:
        tw, th = R.randint(max(1, w // 4), w), R.randint(max(1, h // 4), h)
        tx = R.randint(max(0, im["x0"] - tw + 1), im["x0"])
        ty = R.randint(max(0, im["y0"] - th + 1), im["y0"])
        p["tile"] = [tx, ty, tw, th]
    t = tiles(im, p)
    if len(t) > maxtiles or not nonempty(im, p):
        p.pop("tile", None)
    mn = min(w, h) if "tile" not in p else min(p["tile"][2:])
    while mn < 1 << (p["nres"] - 1):
        p["nres"] -= 1
    nl = 1
    if layers and R.random() < .4:
        nl = R.randint(2, 5)
        p["rates"] = sorted([round(R.uniform(1.5, 40), 2) for _ in range(nl - 1)], reverse=True) + [0]
    if R.random() < .4:
        p["prec"] = [[1 << R.randint(1, 6), 1 << R.randint(1, 6)] for _ in range(R.randint(1, 4))]
        p["csty"] = p.get("csty", 0) | 1
    if tp and R.random() < .35:
        p["tp"] = R.choice("LRC")
    same = all((c["dx"], c["dy"], c["prec"], c["sgnd"]) == tuple(im["comps"][0][k] for k in ("dx", "dy", "prec", "sgnd"))
               for c in im["comps"])
    if nc >= 3 and same and R.random() < .6:
        p["mct"] = 1
    if roi and R.random() < .15:
        p["roi_c"], p["roi_s"] = R.randrange(nc), R.randint(1, 7)
    if poc and R.random() < .15:
        p["poc"] = pocs(R, p["nres"], nc, nl)
    return p


def pocs(R, nres, nc, nl):
    """Progression order changes that together name every packet."""
    kind = R.choice("rcl")
    g = lambda: R.randint(0, 4)
    if kind == "r" and nres > 1:
        k = R.randint(1, nres - 1)
        return [[1, 0, 0, nl, k, nc, g()], [1, k, 0, nl, nres, nc, g()]]
    if kind == "c" and nc > 1:
        k = R.randint(1, nc - 1)
        return [[1, 0, 0, nl, nres, k, g()], [1, 0, k, nl, nres, nc, g()]]
    if kind == "l" and nl > 1:
        k = R.randint(1, nl - 1)
        return [[1, 0, 0, k, nres, nc, g()], [1, 0, 0, nl, nres, nc, g()]]
    return [[1, 0, 0, nl, nres, nc, g()], [1, 0, 0, nl, nres, nc, g()]]


def encode_ops(im, p, fmt="j2k", extra=None, to="b", bs=None):
    o = [dict(op="mkimg", i="a", **im), dict(op="enc_new", c="e", fmt=fmt), dict(op="enc_setup", c="e", i="a", p=p)]
    if extra:
        o.append(dict(op="enc_extra", c="e", x=extra))
    st = dict(op="stream", s="o")
    if bs:
        st["bs"] = bs
    o += [st, dict(op="start", c="e", i="a", s="o"), dict(op="encode", c="e", s="o"), dict(op="end", c="e", s="o"),
          dict(op="sfree", s="o", to=to), dict(op="cfree", c="e"), dict(op="mkimg", i="a", **im)]
    return o


def decode_ops(fmt="j2k", buf="b", img="r", setup=None, c="d", s="i"):
    return [dict(op="dec_new", c=c, fmt=fmt), dict(op="dec_setup", c=c, **(setup or {})),
            {"op": "stream", "s": s, "in": True, "buf": buf}, dict(op="hdr", c=c, s=s, i=img),
            dict(op="dec", c=c, s=s, i=img), dict(op="end_dec", c=c, s=s)]


def siz(im, p):
    """The SIZ contents of an encode as the specification names them."""
    tx, ty, tw, th = p.get("tile") or [0, 0, im["x1"], im["y1"]]
    return dict(X=im["x1"], Y=im["y1"], XO=im["x0"], YO=im["y0"], XT=tw, YT=th, XTO=tx, YTO=ty, n=len(im["comps"]),
                comps=[dict(dx=c["dx"], dy=c["dy"], prec=c["prec"], sgnd=c["sgnd"]) for c in im["comps"]])


def run_ops(calls, fmt, n):
    """Ops of decoder run n on buffer b, and what the calls' results look like: [(call, op index, image op index)]."""
    c, s, i = f"d{n}", f"s{n}", f"i{n}"
    o = [dict(op="dec_new", c=c, fmt=fmt), {"op": "stream", "s": s, "in": True, "buf": "b"},
         dict(op="mkimg", i=i, x0=0, y0=0, x1=1, y1=1, comps=[dict(dx=1, dy=1, prec=8, sgnd=0)])]
    at = []
    for q in calls:
        k, full = len(o), None
        if q["op"] == "setup":
            o.append(dict(op="dec_setup", c=c, reduce=q["reduce"]))
        elif q["op"] == "strict":
            o.append(dict(op="strict", c=c, v=0))
        elif q["op"] == "hdr":
            o += [dict(op="hdr", c=c, s=s, i=i), dict(op="img", i=i, geo=True)]
        elif q["op"] == "comps":
            o.append(dict(op="comps", c=c, x=q["x"], ct=q["ct"]))
        elif q["op"] == "resf":
            o.append(dict(op="resf", c=c, n=q["n"]))
        elif q["op"] == "area":
            o += [dict(op="area", c=c, i=i, **q["a"]), dict(op="img", i=i, geo=True)]
        elif q["op"] in ("dec", "gtile"):
            o += [dict(op=q["op"], c=c, s=s, i=i, **({"t": q["t"]} if "t" in q else {})), dict(op="img", i=i, full=True, good=True)]
        elif q["op"] == "rth":
            o.append(dict(op="rth", c=c, s=s))
        elif q["op"] == "dtd":
            o.append(dict(op="dtd", c=c, s=s, more=q["more"], plus=q.get("plus", 0), bytes=True))
        elif q["op"] in ("info", "index"):
            o.append(dict(op=q["op"], c=c))
        elif q["op"] == "end":
            o.append(dict(op="end_dec", c=c, s=s))
        at.append((q, k))
    o += [dict(op="cfree", c=c), dict(op="sfree", s=s), dict(op="freeimg", i=i)]
    return o, at


def shape(o):
    return dict(x0=o["x0"], y0=o["y0"], x1=o["x1"], y1=o["y1"],
                comps=[{k: c.get(k, []) for k in ("dx", "dy", "w", "h", "x0", "y0", "prec", "sgnd", "factor", "d")} for c in o["comps"]])


def observed(at, out):
    """The calls of a run with their outcomes, as the specification wants them."""
    r = []
    for q, k in at:
        x = out[k]
        e = dict(op=q["op"], ok=bool(x.get("ok")))
        if q["op"] in ("info", "index"):
            e["ok"] = not x.get("null")
            if e["ok"] and q["op"] == "info":
                e.update(nb=x["nbcomps"], **{f: x[f] for f in ("tw", "th", "tx0", "ty0", "tdx", "tdy")})
        for f in ("reduce", "x", "ct", "n", "a", "t"):
            if f in q:
                e[f] = q[f]
        if q["op"] == "dtd":
            e.update(t=x["t"], n=x["n"])
        if e["ok"]:
            if q["op"] in ("hdr", "area", "dec", "gtile"):
                e["img"] = shape(out[k + 1])
            if q["op"] == "rth":
                e.update({f: x[f] for f in ("idx", "size", "x0", "y0", "x1", "y1", "nb", "go")})
            if q["op"] == "dtd":
                e["data"] = x["bytes"]
        r.append(e)
    return r
