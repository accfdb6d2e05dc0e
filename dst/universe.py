"""What can be asked of a scenario: surveyed once, in a pristine process."""
import math


def survey(spec, nsample=24, seed=0):
    """Plain data about a map: sampled tracts, patch grids, interesting sky
    coordinates.  Only used to choose arguments."""
    import random
    import lsst.geom as g
    from . import scen
    rng = random.Random("survey%d" % seed)
    sm = scen.make_map(spec)
    n = len(sm)
    ids = list(range(n)) if n <= nsample else sorted(
        {0, 1, n - 2, n - 1} | set(rng.sample(range(n), nsample - 4)))
    tracts = []
    coords = []
    for i in ids:
        # a map of its own, so that the arguments do not depend on history
        t = scen.make_map(spec)[i] if spec["cls"] in ("discrete", "healpix") else sm[i]
        nx, ny = t.getNumPatches()
        b = t.getBBox()
        tr = {"i": i, "nx": nx, "ny": ny, "w": b.getWidth(), "h": b.getHeight(), "co": []}
        c = t.getCtrCoord()
        tr["co"].append([c.getLongitude().asRadians(), c.getLatitude().asRadians()])
        ix, iy = t.getPatchInnerDimensions()
        for _ in range(6):
            r = rng.random()
            if r < 0.4:      # anywhere inside
                x, y = rng.uniform(-0.5, b.getWidth() - 0.5), rng.uniform(-0.5, b.getHeight() - 0.5)
            elif r < 0.6:    # near a patch boundary
                x = ix*rng.randint(0, nx) - 0.5 + rng.uniform(-1.2, 1.2)
                y = iy*rng.randint(0, ny) - 0.5 + rng.uniform(-1.2, 1.2)
            elif r < 0.85:   # near the edge of the tract
                x = rng.choice((0, b.getWidth())) - 0.5 + rng.uniform(-1.5, 1.5)
                y = rng.uniform(-2, b.getHeight() + 1)
            else:            # outside
                x = b.getWidth()*rng.uniform(-0.6, 1.6)
                y = b.getHeight()*rng.uniform(-0.6, 1.6)
            try:
                s = t.getWcs().pixelToSky(g.Point2D(x, y))
            except Exception:
                continue
            lo, la = s.getLongitude().asRadians(), s.getLatitude().asRadians()
            if math.isfinite(lo) and math.isfinite(la):
                tr["co"].append([lo, la])
        coords += tr["co"]
        p = t.getPatchInfo((0, 0))
        tr["nc"] = p.getNumCells()[0]
        tracts.append(tr)
    for _ in range(20):
        coords.append([rng.uniform(0, 2*math.pi), math.asin(rng.uniform(-1, 1))])
    for _ in range(4):
        coords.append([rng.uniform(0, 2*math.pi), rng.choice((-1, 1))*(math.pi/2 - rng.choice((0, 1e-9, 0.01)))])
    for _ in range(4):
        coords.append([rng.choice((0.0, 1e-12, math.pi, 2*math.pi - 1e-9)), rng.uniform(-1.5, 1.5)])
    sm = scen.make_map(spec)
    return {"n": n, "tracts": tracts, "coords": coords, "ladder": ladder(spec, rng),
            "pairs": borders(rng, coords, lambda c: sm.findTract(c).getId(), 5)
            + borders(rng, tracts[0]["co"], lambda c: sm[tracts[0]["i"]].findPatch(c).getSequentialIndex(), 3)}


def borders(rng, coords, answer, k):
    """Pairs of coordinates just either side of where an answer changes."""
    import lsst.geom as g
    from . import forks

    def vec(c):
        return (math.cos(c[1])*math.cos(c[0]), math.cos(c[1])*math.sin(c[0]), math.sin(c[1]))

    def one(c):
        try:
            return answer(g.SpherePoint(g.Angle(c[0]), g.Angle(c[1])))
        except LookupError:
            return None

    def ask(c):     # of a map that was asked nothing else
        return forks.call(lambda: one(c))
    out = []
    for _ in range(3*k):
        if len(out) == k:
            break
        a, b = rng.choice(coords), rng.choice(coords)
        eps = rng.choice((1e-5, 1e-7, 1e-9))
        try:
            x = ask(a)
            if x == ask(b):
                continue
            while math.dist(vec(a), vec(b)) > eps:
                m = [p + q for p, q in zip(vec(a), vec(b))]
                c = [math.atan2(m[1], m[0]) % (2*math.pi), math.atan2(m[2], math.hypot(m[0], m[1]))]
                if c in (a, b):
                    break
                a, b = (c, b) if ask(c) == x else (a, c)
            out.append([a, b])
        except forks.ChildFailed:
            continue
    return out


def ladder(spec, rng):
    """Coordinates where the bookkeeping of a map changes over."""
    c = spec["cfg"]
    tau = 2*math.pi
    out = []
    if spec["cls"].startswith("rings"):
        size = math.pi/(c["numRings"] + 1)
        start = math.radians(c["raStart"])
        for r in range(-1, c["numRings"] + 1):
            lo, hi = size*(r + 0.5) - math.pi/2, size*(r + 1.5) - math.pi/2
            n = max(1, int(tau*math.cos(min(abs(lo), abs(hi)))/size) + 1)
            for t in (0, 0, 0, n - 1, 1, 0.5, -0.5, rng.randrange(n)):
                eps = rng.choice((0, 0, 1e-9, -1e-9, 0.01, -0.01))
                dec = rng.choice(((lo + hi)/2, (lo + hi)/2, lo + rng.random()*(hi - lo), lo + 1e-9, hi - 1e-9))
                out.append([(start + t*tau/n + eps) % tau, max(-math.pi/2, min(math.pi/2, dec))])
    elif spec["cls"] == "equat":
        lo, hi = (math.radians(v) for v in c["decRange"])
        for t in range(2*c["numTracts"]):
            out.append([(t/2*tau/c["numTracts"] + rng.choice((0, 1e-9, -1e-9))) % tau,
                        rng.choice((lo, hi, (lo + hi)/2))])
    elif spec["cls"] == "discrete":
        for a, d in zip(c["raList"], c["decList"]):
            out += [[math.radians(a), math.radians(d)], [(math.radians(a) + 1e-3) % tau, math.radians(d)]]
    else:
        for t in range(16):
            out.append([t*tau/16, rng.choice((-1, 1))*rng.choice((0, math.asin(2/3), math.pi/4, math.atan(0.5),
                                                                 math.pi/2))])
    return out


ALL_OPS = {
    # name: weight
    "tract": 10, "light": 8, "patch": 12, "patchitem": 4, "patches": 5, "seq": 6, "cell": 5,
    "cellitem": 2, "cells": 2, "cellseq": 3, "findPatch": 10, "findPatchList": 8, "contains": 6,
    "findTract": 9, "findTractIdArray": 6, "findTractPatchList": 7, "findClosestTractPatchList": 5,
    "findAllTracts": 4, "ring": 3, "iter": 2, "len": 1, "sha1": 3, "hash": 1, "eq": 2, "eqalien": 1,
    "log": 2, "pickle": 2, "copy": 2, "deepcopy": 1, "sky": 3, "patchsky": 3, "cellsky": 2,
    "attrs": 4, "same": 2, "badtract": 3, "touch": 3, "rows": 1, "new": 1,
    "heldtract": 4, "heldpatch": 3, "heldgrid": 3, "heldcells": 1,
    "bufarray": 4, "bufcoords": 4, "bufindex": 3, "nest": 3,
    "innerpoly": 1, "tell": 2, "mapattrs": 1, "patcheq": 2, "walk": 6,
}
INNER = ("patches", "findTractIdArray", "findTract", "findTractPatchList", "findClosestTractPatchList", "log",
         "findPatchList", "attrs", "iter", "cells", "tract", "sha1", "pickle", "copy", "light", "len")
HEAVY = {"iter", "log", "rows", "touch", "pickle", "copy", "deepcopy", "new", "findTractPatchList",
         "findTract", "findClosestTractPatchList"}
RINGS_ONLY = {"findAllTracts", "ring"}


def cluster(rng, tr, sv, k):
    """k coordinates around one tract (plus the odd stranger)."""
    out = []
    if rng.random() < 0.03:
        return out
    for _ in range(k):
        r = rng.random()
        if r < 0.06:
            out.append(rng.choice(sv["ladder"]))
        elif r < 0.18:
            out.append(rng.choice(sv["coords"]))
        else:
            out.append(rng.choice(tr["co"]))
    return out


INDEX_FORMS = ("i2d", "tuple", "list", "np", "seq", "npseq", "narrow", "narrowpair", "narrowi2d", "narrowseq")


def gen_op(rng, name, m, spec, sv, focus=None, nmaps=1):
    """One operation on map m.  None if it makes no sense there."""
    if name in RINGS_ONLY and not spec["cls"].startswith("rings"):
        return None
    n = sv["n"]
    if name in ("iter", "log") and n > 60:
        return None
    if name == "rows" and n > 30:
        return None
    if name in ("findTractPatchList",) and n > 120 and not spec["cls"].startswith("rings"):
        return None
    trs = focus or sv["tracts"]
    tr = rng.choice(trs)
    i = tr["i"]
    if name in ("tract", "light", "sky", "attrs", "same", "pickle", "copy", "deepcopy", "ring", "new",
                "heldtract"):
        return [name, m, i]
    if name == "badtract":
        return [name, m, rng.choice((-1, -2, n, n + 1, n + 50, -n, -n - 1))]
    if name == "touch":
        a = rng.randrange(n)
        return [name, m, a, a + rng.choice((1, 3, 8, 40))]
    if name in ("patch", "patchitem"):
        form = rng.choice(INDEX_FORMS)
        if rng.random() < 0.12:
            x, y = rng.choice(((-1, 0), (0, -1), (tr["nx"], 0), (0, tr["ny"]), (tr["nx"], tr["ny"]),
                               (tr["nx"] + 3, 1)))
            seq = rng.choice((-1, tr["nx"]*tr["ny"], tr["nx"]*tr["ny"] + 7))
        else:
            x, y = rng.randrange(tr["nx"]), rng.randrange(tr["ny"])
            seq = rng.randrange(tr["nx"]*tr["ny"])
        return [name, m, i, form, x, y, seq]
    if name in ("patches", "heldgrid"):
        return [name, m, i] if tr["nx"]*tr["ny"] <= 80 else None
    if name == "seq":
        return [name, m, i, rng.randrange(tr["nx"]), rng.randrange(tr["ny"]),
                rng.randrange(tr["nx"]*tr["ny"])]
    if name in ("cell", "cellitem", "cells", "cellseq", "patchsky", "cellsky", "heldpatch",
                "heldcells"):
        x, y = rng.randrange(tr["nx"]), rng.randrange(tr["ny"])
        if name == "heldpatch":
            return [name, m, i, x, y]
        if name in ("cells", "heldcells"):
            return [name, m, i, x, y] if tr["nc"] <= 9 else None
        if name == "patchsky":
            return [name, m, i, x, y]
        nc = tr["nc"]
        if nc == 0:
            if rng.random() < 0.8:
                return None
            cx = cy = cs = 0
        elif rng.random() < 0.12 and name != "cellsky":
            cx, cy = rng.choice(((-1, 0), (nc, 0), (0, nc)))
            cs = rng.choice((-1, nc*nc))
        else:
            cx, cy, cs = rng.randrange(nc), rng.randrange(nc), rng.randrange(nc*nc)
        if name == "cellseq":
            return [name, m, i, x, y, cx, cy, cs]
        if name == "cellsky":
            return [name, m, i, x, y, cx, cy]
        form = rng.choice(INDEX_FORMS)
        return [name, m, i, x, y, form, cx, cy, cs]
    if name in ("findPatch", "contains"):
        co = rng.choice(tr["co"]) if rng.random() < 0.8 else rng.choice(sv["coords"])
        return [name, m, i, co]
    if name == "findPatchList":
        return [name, m, i, cluster(rng, tr, sv, rng.randint(1, 5))]
    if name in ("findTract", "findAllTracts"):
        r = rng.random()
        co = rng.choice(tr["co"] if r < 0.5 else sv["ladder"] if r < 0.75 else sv["coords"])
        return [name, m, co]
    if name in ("findTractPatchList", "findClosestTractPatchList"):
        return [name, m, cluster(rng, tr, sv, rng.randint(1, 4))]
    if name == "bufcoords":
        how = rng.choice(("tract", "all", "closest"))
        if how == "all" and n > 120 and not spec["cls"].startswith("rings"):
            how = "tract"
        return [name, m, i, cluster(rng, tr, sv, rng.randint(1, 4)), how]
    if name == "bufindex":
        nc = max(1, tr["nc"])
        return [name, m, i, rng.choice(("list", "array")), rng.randrange(tr["nx"]), rng.randrange(tr["ny"]),
                rng.randrange(nc), rng.randrange(nc)]
    if name in ("findTractIdArray", "bufarray"):
        k = rng.choice((0, 1, 2, 3, 4, 5, 6)) if name == "findTractIdArray" else rng.choice((1, 2, 2, 3))
        if n > 60 and not spec["cls"].startswith("rings"):
            k = min(k, 2)
        return [name, m, [rng.choice(sv["ladder" if rng.random() < 0.3 else "coords"]) for _ in range(k)],
                rng.random() < 0.5]
    if name in ("iter", "len", "sha1", "hash", "eqalien", "log"):
        return [name, m]
    if name == "nest":
        kinds = ["patches"]*(tr["nx"]*tr["ny"] <= 80) + ["cells"]*(0 < tr["nc"] <= 9) + ["map"]*2*(n <= 30)
        if not kinds:
            return None
        kind = rng.choice(kinds)
        x, y = rng.randrange(tr["nx"]), rng.randrange(tr["ny"])
        inner = {"map": ["iter", m], "patches": ["patches", m, i], "cells": ["cells", m, i, x, y]}[kind]
        if rng.random() < 0.6:
            inner = gen_op(rng, rng.choice(INNER), m, spec, sv, focus)
        return None if inner is None else [name, m, i, kind, x, y, rng.randrange(20), inner]
    if name == "walk":
        kinds = ["patches"]*3 + ["cells"]*(0 < tr["nc"] <= 9) + ["map"]*2*(n <= 60)
        kind = rng.choice(kinds)
        top = {"patches": tr["nx"]*tr["ny"], "cells": tr["nc"]**2, "map": n}[kind]
        return [name, m, i, kind, 0, 0, rng.choice((0, 1, 1, 2, 2, 3, 4, 5, 7, top - 1, top))]
    if name == "innerpoly":
        return [name, m, i]
    if name == "mapattrs":
        return [name, m]
    if name == "tell":
        nc = max(1, tr["nc"])
        return [name, m, i, rng.randrange(tr["nx"]), rng.randrange(tr["ny"]), rng.randrange(nc), rng.randrange(nc)]
    if name == "patcheq":
        x, y = rng.randrange(tr["nx"]), rng.randrange(tr["ny"])
        x2, y2 = (x, y) if rng.random() < 0.6 else (rng.randrange(tr["nx"]), rng.randrange(tr["ny"]))
        return [name, m, i, x, y, x2, y2, rng.choice(("again", "again", "pickle", "copy", "deepcopy"))]
    if name == "eq":
        return [name, m, rng.randrange(nmaps)]
    if name == "rows":
        return [name, m, rng.choice(("a", "b"))]
    raise ValueError(name)


def gen_ops(rng, count, maps, weights=None, focus_size=3):
    """`count` operations over maps = [(spec, survey), ...], concentrated on a
    few tracts per map so that operations interfere."""
    w = weights or ALL_OPS
    names = sorted(w)
    ws = [w[k] for k in names]
    focus = []
    for spec, sv in maps:
        k = min(focus_size, len(sv["tracts"]))
        focus.append(rng.sample(sv["tracts"], k))
    out = []
    guard = 0
    while len(out) < count and guard < count*40:
        guard += 1
        m = rng.randrange(len(maps))
        name = rng.choices(names, ws)[0]
        spec, sv = maps[m]
        f = focus[m] if rng.random() < 0.8 else None
        op = gen_op(rng, name, m, spec, sv, f, len(maps))
        if op is not None:
            out.append(op)
    return out
