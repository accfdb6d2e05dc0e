"""Scenario (sky map configuration) generation, and map construction."""
import random

CLASSES = ("discrete", "rings", "rings0", "dodeca", "equat", "healpix")


def r3(x):
    return float("%.6g" % x)


def gen_spec(rng, cls=None, builder=None, small=False):
    """A random valid configuration, as JSON data.  Tracts get few patches."""
    cls = cls or rng.choice(CLASSES)
    builder = builder or rng.choice(("legacy", "legacy", "cells"))
    cfg = {}
    version = None
    if cls == "discrete":
        n = rng.randint(2, 7)
        base = rng.uniform(0.1, 2.0)
        same = rng.random() < 0.15
        pole = rng.random() < 0.3
        cra, cdec = rng.uniform(0, 360), (rng.choice((-89.0, 88.5)) if pole else rng.uniform(-80, 80))
        ra, dec, rad = [], [], []
        for i in range(n):
            if rng.random() < 0.7:      # clustered: tracts overlap
                ra.append(r3((cra + rng.uniform(-2, 2)*base/max(0.05, abs(_cos(cdec)))) % 360))
                dec.append(r3(max(-90, min(90, cdec + rng.uniform(-2, 2)*base))))
            else:
                ra.append(r3(rng.uniform(0, 359.9)))
                dec.append(r3(rng.uniform(-88, 88)))
            rad.append(r3(base if same else base*rng.uniform(0.3, 3)))
        cfg.update(raList=ra, decList=dec, radiusList=rad)
        overlap = rng.choice((0.0, r3(rng.uniform(0, 0.5))))
        width = 2*(base + overlap)
        proj = rng.choice(("TAN", "STG", "ZEA"))
    elif cls in ("rings", "rings0"):
        version = 0 if cls == "rings0" else 1
        n = rng.choice((1, 2, 3, 4, 5, 6, 8) if not small else (1, 2, 3))
        cfg["numRings"] = n
        cfg["raStart"] = rng.choice((0.0, 0.0, r3(rng.uniform(0, 359.9))))
        overlap = r3(rng.uniform(0.0, 2.0))
        width = 180.0/(n + 1)*1.2 + 2*overlap
        proj = rng.choice(("TAN", "STG")) if n > 2 else "STG"
    elif cls == "dodeca":
        cfg["withTractsOnPoles"] = rng.random() < 0.5
        overlap = r3(rng.uniform(0.0, 5.0))
        width = 100.0
        proj = rng.choice(("STG", "TAN", "ZEA"))
    elif cls == "equat":
        n = rng.randint(3, 8)
        cfg["numTracts"] = n
        lo = r3(rng.uniform(-6, 2))
        cfg["decRange"] = [lo, r3(lo + rng.uniform(0.5, 6))]
        overlap = r3(rng.uniform(0.0, 2.0))
        width = 360.0/n + overlap
        proj = rng.choice(("CEA", "CEA", "STG")) if n > 3 else "CEA"
    else:
        cfg["log2NSide"] = rng.choice((0, 1, 1, 2)) if not small else rng.choice((0, 0, 1))
        cfg["nest"] = rng.random() < 0.5
        overlap = r3(rng.uniform(0.0, 2.0))
        width = 60.0/(1 << cfg["log2NSide"])
        proj = rng.choice(("STG", "ZEA"))
    npat = rng.uniform(1.2, 5.5)
    if builder == "legacy":
        d = rng.choice((64, 100, 250, 1000, 4000))
        inner = [d, d if rng.random() < 0.5 else max(8, int(d*rng.uniform(0.5, 2)))]
        bcfg = {"patchInnerDimensions": inner, "patchBorder": rng.choice((0, 1, 10, d//4, d//2, d, 2*d))}
        size = inner[0]
    else:
        c = rng.choice((8, 25, 100, 150))
        k = rng.randint(1, 5)
        bcfg = {"cellInnerDimensions": [c, c], "cellBorder": rng.choice((0, 1, c//4, c//2, c)),
                "numCellsPerPatchInner": k, "numCellsInPatchBorder": rng.choice((0, 1, 1, 2))}
        size = c*k
    cfg["tractOverlap"] = overlap
    cfg["pixelScale"] = r3(width*3600.0/(npat*size))
    cfg["projection"] = proj
    cfg["rotation"] = rng.choice((0.0, 0.0, r3(rng.uniform(-180, 180))))
    return {"cls": cls, "version": version, "builder": builder, "cfg": cfg, "bcfg": bcfg}


def exotic(rng, big=True):
    """Rarer shapes of configurations."""
    s = gen_spec(rng, small=True)
    c, b, cls = s["cfg"], s["bcfg"], s["cls"]
    r = rng.random()
    if cls == "discrete":
        if r < 0.3:
            for k in ("raList", "decList", "radiusList"):
                del c[k][1:]
        elif r < 0.6:       # the same place, or tract, several times
            for k in ("raList", "decList"):
                c[k] = (c[k][:2]*4)[:5]
            c["radiusList"] = ([c["radiusList"][0]]*5 if rng.random() < 0.5 else
                               [r3(c["radiusList"][0]*(1 + i/4)) for i in range(5)])
        elif r < 0.8 and big:
            n = rng.randint(10, 30)
            c["raList"] = [r3(rng.uniform(0, 360)) for _ in range(n)]
            c["decList"] = [r3(rng.uniform(-89, 89)) for _ in range(n)]
            c["radiusList"] = [r3(c["radiusList"][0]*rng.uniform(0.5, 1.5)) for _ in range(n)]
        else:
            c["raList"] = [0.0, 359.999999, 180.0]
            c["decList"] = [rng.choice((-90.0, 0.0)), 90.0, rng.choice((-89.999999, 1e-9))]
            c["radiusList"] = [c["radiusList"][0]]*3
    elif cls.startswith("rings"):
        if r < 0.7 and big:
            n = rng.choice((7, 9, 10, 12, 16, 24))
            c["pixelScale"] = r3(c["pixelScale"]*(c["numRings"] + 1)/(n + 1))
            c["numRings"] = n
        else:
            c["raStart"] = rng.choice((359.999999, 180.0, 1e-9, 359.0))
    elif cls == "equat":
        if r < 0.4:
            c["numTracts"] = rng.choice((1, 2))
            c["projection"] = "CEA"
        elif r < 0.7:
            n = rng.choice((12, 24, 36))
            c["pixelScale"] = r3(c["pixelScale"]*c["numTracts"]/n)
            c["numTracts"] = n
        else:
            lo = rng.choice((-30.0, 0.0, 20.0))
            c["decRange"] = [lo, lo + rng.choice((0.01, 10.0, 30.0))]
    elif cls == "healpix" and r < 0.5 and big:
        c["pixelScale"] = r3(c["pixelScale"]/2**(3 - c["log2NSide"]))
        c["log2NSide"] = 3
    q = rng.random()
    if q < 0.25:            # many patches, or one only
        f = rng.choice((3.0, 4.0, 0.1)) if big else 0.1
        c["pixelScale"] = r3(c["pixelScale"]/f)
    elif q < 0.5:           # tiny patches or cells
        if s["builder"] == "legacy":
            old = b["patchInnerDimensions"][0]
            new = rng.choice(([1, 1], [2, 3], [7, 5], [1, 4]))
            b["patchInnerDimensions"], b["patchBorder"] = new, rng.choice((0, 1, 2, 5, 20))
            c["pixelScale"] = r3(c["pixelScale"]*old/new[0])
        else:
            old = b["cellInnerDimensions"][0]
            b["cellInnerDimensions"] = [rng.choice((1, 2, 5))]*2
            b["cellBorder"] = rng.choice((0, 1, 3, 7))
            c["pixelScale"] = r3(c["pixelScale"]*old/b["cellInnerDimensions"][0])
    elif q < 0.7 and s["builder"] == "cells":   # many cells
        old = b["numCellsPerPatchInner"]
        b["numCellsPerPatchInner"] = rng.choice((1, 8, 12, 20) if big else (1, 6))
        b["numCellsInPatchBorder"] = rng.choice((0, 1, 3, 4))
        c["pixelScale"] = r3(c["pixelScale"]*old/b["numCellsPerPatchInner"])
    if rng.random() < 0.3:
        c["rotation"] = rng.choice((90.0, 180.0, -180.0, 270.0, 359.5, 45.0, 1e-9))
    if rng.random() < 0.2:
        c["tractOverlap"] = rng.choice((0.0, 1e-6, 5.0))
    return s


def huge(rng):
    """A map of tens of thousands of tracts."""
    if rng.random() < 0.6:
        s = gen_spec(rng, rng.choice(("rings", "rings0")))
        n = rng.choice((159, 160, 180, 230))
        s["cfg"]["pixelScale"] = r3(s["cfg"]["pixelScale"]*(s["cfg"]["numRings"] + 1)/(n + 1))
        s["cfg"].update(numRings=n, tractOverlap=0.01)
    else:
        s = gen_spec(rng, "healpix")
        s["cfg"]["pixelScale"] = r3(s["cfg"]["pixelScale"]/2**(6 - s["cfg"]["log2NSide"]))
        s["cfg"].update(log2NSide=rng.choice((6, 7)), tractOverlap=0.01)
    return s


def _split(builder, b, **cfg):
    cfg = dict(dict(log2NSide=0, nest=True, tractOverlap=0.5, rotation=0.0, projection="STG"), **cfg)
    if builder == "legacy":
        bcfg = {"patchInnerDimensions": list(b[:2]), "patchBorder": b[2]}
    else:
        bcfg = dict(zip(("cellInnerDimensions", "cellBorder", "numCellsPerPatchInner", "numCellsInPatchBorder"),
                        ([b[0]]*2,) + b[1:]))
    return {"cls": "healpix", "version": None, "builder": builder, "cfg": cfg, "bcfg": bcfg}


# maps whose widest and tallest patch grids are in different tracts
SPLIT = [
    _split("cells", (150, 75, 5, 1), tractOverlap=1.47383, pixelScale=435.794),
    _split("legacy", (4000, 4000, 0), tractOverlap=0.690989, pixelScale=77.4382, projection="ZEA"),
    _split("legacy", (250, 488, 0), nest=False, tractOverlap=1.59772, pixelScale=669.762, rotation=73.6962),
    _split("legacy", (64, 34, 32), tractOverlap=0.405739, pixelScale=4603.32, projection="ZEA"),
    _split("legacy", (64, 64, 0), tractOverlap=0.459969, pixelScale=2595.88),
    _split("legacy", (64, 49, 16), tractOverlap=0.42017, pixelScale=2148.05, projection="ZEA"),
    _split("legacy", (1000, 1187, 250), tractOverlap=1.56813, pixelScale=93.2389, projection="ZEA",
           rotation=-60.9862),
    _split("legacy", (4000, 7960, 10), nest=False, tractOverlap=0.711743, pixelScale=21.039),
    _split("legacy", (100, 58, 10), tractOverlap=0.556485, pixelScale=1385.45),
    _split("legacy", (100, 195, 10), nest=False, tractOverlap=1.45097, pixelScale=810.56, rotation=-98.6296),
]


def big_specs(rng):
    """A map with a tract of many patches, and one with many tracts."""
    n = rng.randint(32, 40)
    inner = rng.choice((64, 100))
    side = 2*1.0
    return [
        {"cls": "discrete", "version": None, "builder": "legacy",
         "cfg": {"raList": [r3(rng.uniform(0, 350)), 10.0], "decList": [r3(rng.uniform(-60, 60)), 5.0],
                 "radiusList": [1.0, 0.05], "tractOverlap": 0.0, "projection": "TAN", "rotation": 0.0,
                 "pixelScale": r3(side*3600/(n*inner))},
         "bcfg": {"patchInnerDimensions": [inner, inner], "patchBorder": rng.choice((0, 10))}},
        {"cls": "rings", "version": 1, "builder": "legacy",
         "cfg": {"numRings": rng.choice((7, 8, 9)), "raStart": 0.0, "tractOverlap": 0.0, "projection": "STG",
                 "rotation": 0.0, "pixelScale": 400.0},
         "bcfg": {"patchInnerDimensions": [150, 150], "patchBorder": 10}}]


def sibling_kinds(rng, cls):
    """All the ways to differ, in random order; the likelier to matter first."""
    kinds = ["pixelScale", "tractOverlap", "rotation", "turn", "mirror", "border", "inner", "projection"]
    kinds += {"discrete": ["radius", "radius", "centre", "swap", "drop"], "rings": ["version", "raStart", "numRings"],
              "rings0": ["version", "raStart", "numRings"], "dodeca": ["poles", "poles"],
              "equat": ["decRange", "numTracts"], "healpix": ["nest", "nest", "log2NSide"]}[cls]
    rng.shuffle(kinds)
    if "version" in kinds and rng.random() < 0.7:
        kinds.insert(0, "version")
    return list(dict.fromkeys(kinds))


def sibling(rng, spec, k=None):
    """A configuration that differs little, or in one setting only."""
    import json
    t = json.loads(json.dumps(spec))
    c, b, cls = t["cfg"], t["bcfg"], t["cls"]
    k = k or sibling_kinds(rng, cls)[0]
    if k in ("pixelScale", "tractOverlap"):
        c[k] = r3(c[k]*rng.choice((1.25, 0.8)) + 0.125) if rng.random() < 0.7 else c[k]*(1 + 1e-9)
    elif k == "rotation":
        c[k] = r3(c[k] + rng.choice((90.0, 30.0, 1e-3)))
    elif k == "turn":
        c["rotation"] = c["rotation"] + (180.0 if c["rotation"] <= 0 else -180.0)
    elif k == "mirror":
        c["rotation"] = -c["rotation"] if c["rotation"] else 360.0
    elif k == "projection":
        c[k] = rng.choice([x for x in ("TAN", "STG", "ZEA") if x != c[k]]) if c[k] != "CEA" else "STG"
    elif k == "border":
        b["patchBorder" if t["builder"] == "legacy" else rng.choice(("cellBorder", "numCellsInPatchBorder"))] += 1
    elif k == "inner":
        if t["builder"] == "legacy":
            d = b["patchInnerDimensions"]
            b["patchInnerDimensions"] = [d[1], d[0]] if d[0] != d[1] else [d[0], d[1] + 7]
        elif rng.random() < 0.5:
            b["numCellsPerPatchInner"] += 1
        else:
            b["cellInnerDimensions"] = [b["cellInnerDimensions"][0] + 2]*2
    elif k == "radius":
        i = rng.randrange(len(c["radiusList"]))
        c["radiusList"][i] = r3(c["radiusList"][i]*rng.choice((0.6, 1.4)))
    elif k == "centre":
        i = rng.randrange(len(c["raList"]))
        c["raList"][i] = r3((c["raList"][i] + 0.3) % 360)
    elif k in ("swap", "drop"):
        for kk in ("raList", "decList", "radiusList"):
            x = c[kk]
            if k == "swap" or len(x) < 3:
                x[0], x[-1] = x[-1], x[0]
            else:
                del x[0]
    elif k == "version":
        t["version"] = 1 - t["version"]
        t["cls"] = "rings0" if t["version"] == 0 else "rings"
    elif k == "raStart":
        c[k] = r3((c[k] + rng.choice((1.0, 90.0))) % 360)
    elif k in ("numRings", "numTracts"):
        c[k] += 1
    elif k == "poles":
        c["withTractsOnPoles"] = not c["withTractsOnPoles"]
    elif k == "decRange":
        c[k] = [c[k][0], r3(c[k][1] + 0.7)]
    elif k == "nest":
        c[k] = not c[k]
    elif k == "log2NSide":
        c[k] = c[k] + 1 if c[k] < 1 else c[k] - 1
    return t


def _cos(d):
    import math
    return math.cos(math.radians(d))


def class_of(spec):
    from lsst.skymap import skyMapRegistry
    cls = skyMapRegistry["rings" if spec["cls"] == "rings0" else spec["cls"]]
    return user_class(cls) if spec.get("sub") else cls


def user_class(cls):
    """A sky map class that a user derives and adds nothing to, importable by name."""
    name = "User" + cls.__name__
    if name not in globals():
        globals()[name] = type(cls)(name, (cls,), {"__module__": __name__})
    return globals()[name]


def __getattr__(name):
    if name.startswith("User"):
        from lsst.skymap import skyMapRegistry
        for c in CLASSES:
            if c != "rings0" and skyMapRegistry[c].__name__ == name[4:]:
                return user_class(skyMapRegistry[c])
    raise AttributeError(name)


def make_config(spec, order=None):
    """Build the config; `order` (a seed) shuffles the assignments."""
    cls = class_of(spec)
    c = cls.ConfigClass()
    items = sorted(spec["cfg"].items()) + [("builder", None)]
    sub = sorted(spec["bcfg"].items())
    if order is not None:
        rng = random.Random(order)
        rng.shuffle(items)
        rng.shuffle(sub)
    for k, v in items:
        if k == "builder":
            c.tractBuilder.name = spec["builder"]
            b = c.tractBuilder[spec["builder"]]
            for kk, vv in sub:
                setattr(b, kk, vv)
        else:
            setattr(c, k, v)
    return c


def make_map(spec, order=None, config=None):
    cls = class_of(spec)
    c = make_config(spec, order) if config is None else config
    c.validate()
    if spec["version"] is not None:
        return cls(c, version=spec["version"])
    return cls(c)
