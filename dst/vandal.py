"""What a careless caller does to objects it passed to, or got from, a map."""
import numpy as np


def _ext(e, r):
    """Modify an extent or point in place, one of several ways."""
    k = r % 5
    if k == 0:
        e[0] = 3
    elif k == 1:
        e.setX(7)
        e.setY(1)
    elif k == 2:
        e *= 2
    elif k == 3:
        e += type(e)(5, 9)
    else:
        e.x = 11


def _box(b, r):
    import lsst.geom as g
    k = r % 6
    if k == 0:
        b.grow(17)
    elif k == 1:
        b.shift(g.Extent2I(40, -3))
    elif k == 2:
        b.clip(g.Box2I(g.Point2I(1, 1), g.Extent2I(2, 2)))
    elif k == 3:
        b.include(g.Point2I(-100, 100000))
    elif k == 4:
        b.grow(g.Extent2I(1, 200))
    else:
        b.grow(-1)


def _container(c, r, junk):
    k = r % 5
    if isinstance(c, np.ndarray):
        c[...] = -7
        return
    if k == 1 or not c:
        c.append(junk)
    elif k == 0:
        c.clear()
    elif k == 2:
        c.reverse()
        c.pop()
    elif k == 3:
        c[:] = [junk]*len(c)
    else:
        del c[0]


def _set_config(cfg, r):
    """Assign to some setting."""
    names = sorted(k for k in cfg.keys())
    k = r % 13
    if k == 0:
        cfg.pixelScale = 123.0
    elif k == 1:
        cfg.tractOverlap = 9.0
    elif k == 2:
        cfg.rotation = 45.5
    elif k == 3:
        cfg.projection = "ARC"
    elif k == 4:
        b = cfg.tractBuilder[cfg.tractBuilder.name]
        for f in b.keys():
            v = getattr(b, f)
            if isinstance(v, int):
                setattr(b, f, v + 1)
    elif k == 5:
        b = cfg.tractBuilder[cfg.tractBuilder.name]
        for f in b.keys():
            v = getattr(b, f)
            if not isinstance(v, int):
                v[0] = 5
    elif k == 6:
        b = cfg.tractBuilder[cfg.tractBuilder.name]
        for f in b.keys():
            v = getattr(b, f)
            if not isinstance(v, int):
                setattr(b, f, [6, 6])
    elif k == 7:
        cfg.tractBuilder.name = "cells" if cfg.tractBuilder.name == "legacy" else "legacy"
    elif k == 8:
        cfg.tractBuilder = "cells" if cfg.tractBuilder.name == "legacy" else "legacy"
    elif k == 9:
        cfg.update(pixelScale=77.0, rotation=12.0)
    elif k == 10:
        cfg.patchInnerDimensions = [50, 50]
        cfg.patchBorder = 1
    else:
        special = [n for n in names if n in ("raList", "decList", "radiusList", "numRings", "raStart",
                                             "withTractsOnPoles", "numTracts", "decRange", "log2NSide",
                                             "nest")]
        f = special[(r//13) % len(special)]
        v = getattr(cfg, f)
        if isinstance(v, bool):
            setattr(cfg, f, not v)
        elif isinstance(v, int):
            setattr(cfg, f, v + 1)
        elif isinstance(v, float):
            setattr(cfg, f, v + 0.5)
        elif k == 11:
            v[0] = 1.25
        elif r % 2:
            v.append(1.0)
        else:
            setattr(cfg, f, [1.0]*len(v))


KINDS = ("bbox", "innerdims", "patchinner", "patchouter", "cellinnerdims", "cellbox", "config",
         "configs", "list_findTractPatchList", "list_findAll", "list_findPatchList", "list_closest",
         "array", "args_coords", "args_index", "args_array", "cd", "restored", "patches_of_list",
         "found_tract", "iterated", "cellouter", "builderconfig", "args_config")


def act(M, op):
    """["vandal", m, kind, r, tract, x, y, coords].  Never says anything."""
    _, m, kind, r, i, x, y, cos = op
    try:
        _act(M, m, kind, r, i, x, y, cos)
    except Exception as e:
        return ("refused", type(e).__name__)
    return ("done",)


def _act(M, m, kind, r, i, x, y, cos):
    import pickle
    from . import ops
    from lsst.skymap.detail import Index2D
    sm = M[m]
    if kind == "bbox":
        b = sm[i].getBBox() if r % 2 else sm[i].bbox
        _box(b, r//2)
    elif kind == "innerdims":
        e = sm[i].getPatchInnerDimensions() if r % 2 else sm[i].patch_inner_dimensions
        _ext(e, r//2)
    elif kind == "patchinner":
        p = sm[i].getPatchInfo((x, y))
        _box(p.getInnerBBox() if r % 2 else p.inner_bbox, r//2)
    elif kind == "patchouter":
        p = sm[i][(x, y)]
        _box(p.getOuterBBox() if r % 2 else p.outer_bbox, r//2)
    elif kind == "cellinnerdims":
        p = sm[i].getPatchInfo(Index2D(x, y))
        _ext(p.getCellInnerDimensions(), r)
    elif kind == "cellbox":
        for c in sm[i].getPatchInfo((x, y)):
            _box(c.getInnerBBox(), r)
    elif kind == "cellouter":
        for c in sm[i].getPatchInfo((x, y)):
            _box(c.outer_bbox, r)
    elif kind == "config":
        _set_config(sm.config, r)
    elif kind == "args_config":
        _set_config(M.configs[m], r)
    elif kind == "configs":
        for k in range(13*3):
            try:
                _set_config(sm.config if k % 2 else M.configs[m], k + r)
            except Exception:
                pass
    elif kind == "builderconfig":
        for cfg in (sm.config, M.configs[m]):
            for name in ("legacy", "cells"):
                b = cfg.tractBuilder[name]
                for f in b.keys():
                    v = getattr(b, f)
                    try:
                        if isinstance(v, int):
                            setattr(b, f, v + 1 + r % 3)
                        elif r % 2:
                            v[0] = v[1] = 13
                        else:
                            v.append(4)
                    except Exception:
                        pass
    elif kind == "list_findTractPatchList":
        res = sm.findTractPatchList(ops.sps(cos))
        for k, (t, ps) in enumerate(list(res)):
            try:
                _container(ps, r, None)
            except Exception:
                pass
        _container(res, r, None)
    elif kind == "list_closest":
        res = sm.findClosestTractPatchList(ops.sps(cos))
        for k, (t, ps) in enumerate(list(res)):
            try:
                _container(ps, r, None)
            except Exception:
                pass
        _container(res, r, None)
    elif kind == "list_findAll":
        if hasattr(sm, "findAllTracts"):
            _container(sm.findAllTracts(ops.sps(cos)[0]), r, None)
    elif kind == "list_findPatchList":
        _container(sm[i].findPatchList(ops.sps(cos)), r, None)
    elif kind == "patches_of_list":
        for p in sm[i].findPatchList(ops.sps(cos)):
            _box(p.getInnerBBox(), r)
            _box(p.getOuterBBox(), r + 1)
            _ext(p.getCellInnerDimensions(), r)
    elif kind == "array":
        a = np.array([c[0] for c in cos])
        b = np.array([c[1] for c in cos])
        _container(sm.findTractIdArray(a, b), r, None)
    elif kind == "args_coords":
        cl = ops.sps(cos)
        sm.findTractPatchList(cl)
        sm.findClosestTractPatchList(cl)
        sm[i].findPatchList(cl)
        _container(cl, r, None)
    elif kind == "args_index":
        ix = [x, y]
        p = sm[i].getPatchInfo(ix)
        M.held.setdefault((m, i, x, y), p)
        ix[0] += 1
        ix[1] = 0
        ia = np.array([x, y])
        p = sm[i].getPatchInfo(ia)
        ia[...] = 0
        ix = [0, 0]
        try:
            c = p.getCellInfo(ix)
        except IndexError:
            return
        ix[0] = 1
        _box(c.getInnerBBox(), r)
    elif kind == "args_array":
        a = np.array([c[0] for c in cos])
        b = np.array([c[1] for c in cos])
        sm.findTractIdArray(a, b)
        a[...] = 0.1
        b[...] = -0.2
    elif kind == "cd":
        cd = sm[i].getWcs().getCdMatrix()
        cd[...] = 0
    elif kind == "restored":
        s2 = pickle.loads(pickle.dumps(sm))
        _box(s2[i].getBBox(), r)
        _ext(s2[i].getPatchInnerDimensions(), r)
        _set_config(s2.config, r)
    elif kind == "found_tract":
        t = sm.findTract(ops.sps(cos)[0])
        _box(t.getBBox(), r)
        _ext(t.getPatchInnerDimensions(), r)
    elif kind == "iterated":
        for k, t in enumerate(sm):
            if k > 12:
                break
            _box(t.bbox, r + k)
            _ext(t.patch_inner_dimensions, r + k)
            for p in t:
                _box(p.inner_bbox, r)
                break
    else:
        raise ValueError(kind)
