"""The query vocabulary: every operation of a live sky map, with explicit
JSON arguments, and its answer in canonical form."""
import copy
import logging
import pickle
import threading

import numpy as np

from . import canon as C


class ListLog:
    def __init__(self):
        self.lines = []

    def info(self, msg, *args):
        self.lines.append(str(msg) % args if args else str(msg))

    debug = warning = warn = error = info

    def log(self, lvl, msg, *args):
        self.info(msg, *args)

    def isEnabledFor(self, lvl):
        return True

    def getEffectiveLevel(self):
        return logging.INFO


def sps(coords):
    import lsst.geom as g
    return [g.SpherePoint(g.Angle(a), g.Angle(b)) for a, b in coords]


def narrow(*vals):
    """The smallest integer type of numpy that holds these values."""
    for d in (np.int8, np.uint8, np.int16, np.uint16, np.int32):
        if all(np.iinfo(d).min <= v <= np.iinfo(d).max for v in vals):
            return d
    return np.int64


def index_form(form, x, y, tract=None, seq=None):
    from lsst.skymap.detail import Index2D
    if form == "i2d":
        return Index2D(x=x, y=y)
    if form == "tuple":
        return (x, y)
    if form == "list":
        return [x, y]
    if form == "np":
        return np.array([x, y])
    if form == "seq":
        return seq
    if form == "npseq":
        return np.int64(seq)
    if form == "narrow":
        return np.array([x, y], dtype=narrow(x, y))
    if form == "narrowpair":
        d = narrow(x, y)
        return (d(x), d(y))
    if form == "narrowi2d":
        d = narrow(x, y)
        return Index2D(x=d(x), y=d(y))
    if form == "narrowseq":
        return narrow(seq)(seq)
    raise ValueError(form)


def tp_list(M, m, r):
    return tuple((int(M.note(m, t).getId()), C.plist(ps)) for t, ps in r)


class FakeButler:
    """Records what register() would write."""

    def __init__(self):
        self.rows = []
        self.registry = self

    _universe = None

    @property
    def dimensions(self):
        if FakeButler._universe is None:
            from lsst.daf.butler import DimensionUniverse
            FakeButler._universe = DimensionUniverse()
        return FakeButler._universe

    def registerRun(self, name, *a, **k):
        self.rows.append(("run", name))

    def registerDatasetType(self, d):
        self.rows.append(("dst", d.name))

    class _Tx:
        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

    def transaction(self):
        return self._Tx()

    def syncDimensionData(self, elem, rec, *a, **k):
        self.rows.append((elem, rec["skymap"], rec["hash"].hex(), int(rec["tract_max"]),
                          int(rec["patch_nx_max"]), int(rec["patch_ny_max"])))
        return True

    def insertDimensionData(self, elem, *recs, **k):
        for r in recs:
            row = [elem]
            for kk in sorted(r):
                v = r[kk]
                row.append((kk, C.region(v) if kk == "region" else v if isinstance(v, str) else int(v)))
            self.rows.append(tuple(row))

    def put(self, obj, dst, *a, **k):
        self.rows.append(("put", getattr(dst, "name", dst), obj.getSha1().hex()))


# -- implementations: f(maps, m, *args) -> canonical ------------------------
def o_tract(M, m, i):
    return C.tract(M.tract(m, i))


def o_light(M, m, i):
    return C.tract(M.tract(m, i), False)


def o_touch(M, m, a, b):
    sm = M[m]
    n = len(sm)
    for i in range(a, min(b, n)):
        sm[i]
    return "touched"


def o_same(M, m, i):
    sm = M[m]
    return bool(sm[i] == sm[i])


def o_badtract(M, m, i):
    return C.tract(M[m][i], False)


def o_patch(M, m, i, form, x, y, seq):
    t = M.tract(m, i)
    return C.patch(t.getPatchInfo(index_form(form, x, y, seq=seq)))


def o_patchitem(M, m, i, form, x, y, seq):
    t = M.tract(m, i)
    return C.patch(t[index_form(form, x, y, seq=seq)])


def o_patches(M, m, i):
    t = M.tract(m, i)
    return tuple(C.patch(p, False) for p in t)


def o_seq(M, m, i, x, y, s):
    from lsst.skymap.detail import Index2D
    t = M.tract(m, i)
    r = [int(t.getSequentialPatchIndexFromPair(Index2D(x, y))),
         int(t.getSequentialPatchIndexFromPair((x, y))),
         C.pair(t.getPatchIndexPair(s))]
    r.append(int(t.getSequentialPatchIndex(t.getPatchInfo((x, y)))))
    return tuple(r)


def o_cell(M, m, i, x, y, form, cx, cy, cs):
    p = M.tract(m, i).getPatchInfo((x, y))
    return C.cell(p.getCellInfo(index_form(form, cx, cy, seq=cs)))


def o_cellitem(M, m, i, x, y, form, cx, cy, cs):
    p = M.tract(m, i)[(x, y)]
    return C.cell(p[index_form(form, cx, cy, seq=cs)])


def o_cells(M, m, i, x, y):
    p = M.tract(m, i).getPatchInfo((x, y))
    return (len(p),) + tuple(C.cell(c)[:5] for c in p)


def o_cellseq(M, m, i, x, y, cx, cy, cs):
    p = M.tract(m, i).getPatchInfo((x, y))
    r = [int(p.getSequentialCellIndexFromPair((cx, cy)))]
    r.append(C.pair(p.getCellIndexPair(cs)))
    r.append(int(p.getSequentialCellIndex(p.getCellInfo((cx, cy)))))
    return tuple(r)


def o_findPatch(M, m, i, co):
    return C.patch(M.tract(m, i).findPatch(sps([co])[0]))


def o_findPatchList(M, m, i, cos):
    return C.plist(M.tract(m, i).findPatchList(sps(cos)))


def o_contains(M, m, i, co):
    return bool(M.tract(m, i).contains(sps([co])[0]))


def o_findTract(M, m, co):
    return C.tract(M.note(m, M[m].findTract(sps([co])[0])))


def o_findTractIdArray(M, m, cos, deg):
    ra = np.array([c[0] for c in cos])
    dec = np.array([c[1] for c in cos])
    if deg:
        ra, dec = np.rad2deg(ra), np.rad2deg(dec)
    r0, d0 = ra.copy(), dec.copy()
    out = M[m].findTractIdArray(ra, dec, degrees=deg)
    return (tuple(int(v) for v in out), bool((ra == r0).all() and (dec == d0).all()))


def o_findTractPatchList(M, m, cos):
    return tp_list(M, m, M[m].findTractPatchList(sps(cos)))


def o_findClosestTractPatchList(M, m, cos):
    return tp_list(M, m, M[m].findClosestTractPatchList(sps(cos)))


def o_findAllTracts(M, m, co):
    return tuple(int(M.note(m, t).getId()) for t in M[m].findAllTracts(sps([co])[0]))


def o_ring(M, m, i):
    sm = M[m]
    return (tuple(int(v) for v in sm.getRingIndices(i)), tuple(C.ang(a) for a in sm.getRaDecRange(i)))


def o_iter(M, m):
    return tuple((int(t.getId()), C.pair(t.getNumPatches()), C.box(t.getBBox()))
                 for t in (M.note(m, t) for t in M[m]))


def o_len(M, m):
    return len(M[m])


def o_sha1(M, m):
    return M[m].getSha1().hex()


def o_hash(M, m):
    return hash(M[m]) == hash(M[m].getSha1())


def o_eq(M, m, n):
    return (bool(M[m] == M[n]), bool(M[m] != M[n]))


def o_eqalien(M, m):
    return (bool(M[m] == 3), bool(M[m] != "x"), bool(M[m] in [M[m]]))


def o_log(M, m):
    log = ListLog()
    M[m].logSkyMapInfo(log)
    return tuple(log.lines)


def o_pickle(M, m, i):
    r = pickle.loads(pickle.dumps(M[m]))
    return (type(r).__name__, r.getSha1().hex(), len(r), C.tract(r[i]))


def o_copy(M, m, i):
    r = copy.copy(M[m])
    return (type(r).__name__, r.getSha1().hex(), C.tract(r[i]))


def o_deepcopy(M, m, i):
    r = copy.deepcopy(M[m])
    return (type(r).__name__, r.getSha1().hex(), C.tract(r[i]))


def o_sky(M, m, i):
    t = M.tract(m, i)
    return (C.region(t.getInnerSkyRegion()), C.region(t.getOuterSkyPolygon()),
            C.region(t.inner_sky_region), C.region(t.outer_sky_polygon))


def o_patchsky(M, m, i, x, y):
    p = M.tract(m, i).getPatchInfo((x, y))
    return (C.region(p.getInnerSkyPolygon()), C.region(p.getOuterSkyPolygon()),
            C.region(p.inner_sky_polygon), C.region(p.outer_sky_polygon))


def o_cellsky(M, m, i, x, y, cx, cy):
    c = M.tract(m, i).getPatchInfo((x, y)).getCellInfo((cx, cy))
    return (C.region(c.inner_sky_polygon), C.region(c.outer_sky_polygon))


def o_attrs(M, m, i):
    t = M.tract(m, i)
    return (C.box(t.bbox), C.sp(t.ctr_coord), int(t.tract_id), C.pair(t.num_patches),
            int(t.patch_border), C.pair(t.patch_inner_dimensions), C.ang(t.tract_overlap),
            tuple(C.sp(v) for v in t.vertex_list), C.wcs(t.wcs), str(t), repr(t))


def o_rows(M, m, name):
    b = FakeButler()
    M[m].register(name, b)
    return tuple(b.rows)


def o_new(M, m, i):
    """Build a further map with the same configuration and use it."""
    from . import scen
    sm = scen.make_map(M.specs[m])
    return (sm.getSha1().hex(), C.tract(sm[i]))


def _hold(M, key, get):
    if key not in M.held:
        M.held[key] = get()
    return M.held[key]


def o_heldtract(M, m, i):
    return C.tract(_hold(M, (m, i), lambda: M.tract(m, i)))


def o_heldpatch(M, m, i, x, y):
    return C.patch(_hold(M, (m, i, x, y), lambda: M.tract(m, i).getPatchInfo((x, y))))


def o_heldgrid(M, m, i):
    t = _hold(M, (m, i), lambda: M.tract(m, i))
    return tuple(C.patch(p, False) for p in t)


def o_heldcells(M, m, i, x, y):
    p = _hold(M, (m, i, x, y), lambda: M.tract(m, i).getPatchInfo((x, y)))
    return tuple(C.cell(c)[:5] for c in p)


def _buffer(M, kind, n):
    """A buffer this caller thread uses again and again."""
    return M.bufs.setdefault((threading.get_ident(), kind, n),
                             [] if kind in ("coords", "index") else np.zeros(n))


def o_bufarray(M, m, cos, deg):
    ra, dec = _buffer(M, "ra", len(cos)), _buffer(M, "dec", len(cos))
    ra[:] = [c[0] for c in cos]
    dec[:] = [c[1] for c in cos]
    if deg:
        ra[:], dec[:] = np.rad2deg(ra), np.rad2deg(dec)
    out = M[m].findTractIdArray(ra, dec, degrees=deg)
    r = tuple(int(v) for v in out)
    try:
        out[...] = -7           # the answer belongs to the caller
    except ValueError:
        pass
    return r


def o_bufcoords(M, m, i, cos, how):
    cs = _buffer(M, "coords", 0)
    cs[:] = sps(cos)
    if how == "tract":
        got = M.tract(m, i).findPatchList(cs)
        r = C.plist(got)
    else:
        got = (M[m].findTractPatchList if how == "all" else M[m].findClosestTractPatchList)(cs)
        r = tp_list(M, m, got)
    if isinstance(got, list):
        del got[:]
    return r


def o_bufindex(M, m, i, form, x, y, cx, cy):
    if form == "list":
        ix = _buffer(M, "index", 0)
    else:
        ix = M.bufs.setdefault((threading.get_ident(), "ixi"), np.zeros(2, dtype=int))
    ix[:] = [x, y]
    t = M.tract(m, i)
    p = t.getPatchInfo(ix)
    r = [C.patch(p), int(t.getSequentialPatchIndexFromPair(ix))]
    if p.getNumCells()[0] > 0:
        ix[:] = [cx, cy]
        r += [C.cell(p.getCellInfo(ix)), int(p.getSequentialCellIndexFromPair(ix))]
    ix[:] = [-5, -5]
    return tuple(r)


def _outer(M, m, i, kind, x, y):
    """Something that can be gone through, and how an item of it is told."""
    if kind == "map":
        return M[m], lambda t: (int(M.note(m, t).getId()), C.pair(t.getNumPatches()), C.box(t.getBBox()))
    t = M.tract(m, i)
    if kind == "patches":
        return t, lambda p: C.patch(p, False)
    return t.getPatchInfo((x, y)), lambda c: C.cell(c)[:5]


def o_nest(M, m, i, kind, x, y, pos, inner):
    """Something else is asked in the middle of going through a collection."""
    what, tell = _outer(M, m, i, kind, x, y)
    n = len(what)
    out = []
    got = None
    for k, item in enumerate(what):
        if k > 2*n + 4:
            return ("endless", n)
        out.append(tell(item))
        if k == pos % n:
            got = IMPL[inner[0]](M, m, *inner[2:])
    return (tuple(out), got)


def o_flat(M, m, i, kind, x, y, pos, inner):
    """The same, one after the other."""
    what, tell = _outer(M, m, i, kind, x, y)
    out = tuple(tell(item) for item in what)
    return (out, IMPL[inner[0]](M, m, *inner[2:]) if out else None)


def o_innerpoly(M, m, i):
    t = M.tract(m, i)
    return (C.region(t.getInnerSkyPolygon()), C.region(t.inner_sky_polygon))


def o_tell(M, m, i, x, y, cx, cy):
    """What a map and its parts say of themselves."""
    t = M.tract(m, i)
    p = t.getPatchInfo((x, y))
    r = [str(t), repr(t), str(p), repr(p)]
    if p.getNumCells()[0] > 0:
        c = p.getCellInfo((cx, cy))
        r += [str(c), repr(c)]
    return tuple(r)


def o_mapattrs(M, m):
    sm = M[m]
    r = [type(sm).__name__, len(sm)]
    for name in ("getVersion", "getWithTractsOnPoles"):
        if hasattr(sm, name):
            r.append(getattr(sm, name)())
    return tuple(str(v) for v in r)


def o_patcheq(M, m, i, x, y, x2, y2, how):
    """A patch and its cells compared with those of the same map, a copy of
    it, or those held since earlier."""
    sm = M[m]
    if how == "again":
        other = sm
    elif how == "pickle":
        other = pickle.loads(pickle.dumps(sm))
    elif how == "copy":
        other = copy.copy(sm)
    else:
        other = copy.deepcopy(sm)
    p = M.tract(m, i).getPatchInfo((x, y))
    q = other[i].getPatchInfo((x2, y2))
    r = [bool(p == q), bool(p != q), bool(q == p)]
    h = _hold(M, (m, i, x, y), lambda: p)
    r += [bool(h == p), bool(h != q)]
    if p.getNumCells()[0] > 0:
        n = p.getNumCells()[0]
        c, d = p.getCellInfo((x % n, 0)), q.getCellInfo((x2 % n, 0))
        r += [bool(c == d), bool(c != d), bool(c == p.getCellInfo((x % n, 0)))]
    return tuple(r)


def o_walk(M, m, i, kind, x, y, k):
    """The k-th item of a collection a caller goes through at leisure: the
    iterator is held, and resumed by later questions of the same caller."""
    what, tell = _outer(M, m, i, kind, x, y)
    key = ("walk", threading.get_ident(), m, kind) + ((i,)*(kind != "map")) + ((x, y)*(kind == "cells"))
    it, at = M.held.pop(key, (None, 0))
    if it is None or at > k:
        it, at = iter(what), 0
    item = None
    while at <= k:
        try:
            item = next(it)
        except StopIteration:
            return ("end",)
        at += 1
    M.held[key] = (it, at)
    return tell(item)


IMPL = {k[2:]: v for k, v in list(globals().items()) if k.startswith("o_")}
WHOLE = {"findTract", "findTractIdArray", "findTractPatchList", "findClosestTractPatchList",
         "findAllTracts", "iter", "log", "rows", "touch",
         "bufarray"}


def births(rng, specs, used=7):
    """How the maps of a run come about, where they are not simply built:
    {map: [copied how, from which other map, what was done with that before]}."""
    out = {}
    for m in range(len(specs)):
        if rng.random() < 0.25:
            same = [k for k in range(m) if specs[k] == specs[m] and str(k) not in out]
            out[str(m)] = [rng.choice(("copy", "copy", "deepcopy", 2, 4, 5)),
                           rng.choice(same) if same and rng.random() < 0.8 else None, rng.randrange(8) & used]
    return out


class Maps(list):
    """The maps of a run (built on first use), and the specs they are made
    from.  Remembers every tract object handed out, and what callers hold."""

    def __init__(self, specs, born=None):
        super().__init__([None]*len(specs))
        self.specs = specs
        self.born = born or {}  # maps that are not simply built: see births()
        self.held = {}
        self.bufs = {}          # argument buffers callers use again and again
        self.seen = {}
        self.configs = {}       # the configuration objects the maps were made from

    def build(self):
        for m in range(len(self)):
            try:
                self[m]
            except Exception:
                pass            # the first question about it will tell

    def __getitem__(self, m):
        r = list.__getitem__(self, m)
        if r is None:
            from . import scen
            c = scen.make_config(self.specs[m])
            how, other, used = self.born.get(str(m)) or (None, None, 0)
            if how is None:
                r = scen.make_map(self.specs[m], config=c)
            else:           # a copy of a map that is used elsewhere, or of one of its own
                r = scen.make_map(self.specs[m], config=c) if other is None else self[other]
                if used & 1:
                    r[0]
                if used & 2:
                    r.getSha1()
                if used & 4:
                    r[len(r) - 1].findPatchList([])
                r = {"copy": copy.copy, "deepcopy": copy.deepcopy}.get(
                    how, lambda x: pickle.loads(pickle.dumps(x, how if isinstance(how, int) else 4)))(r)
            self[m] = r
            self.configs[m] = c
        return r

    def note(self, m, t):
        self.seen.setdefault((m, int(t.getId())), []).append(t)
        return t

    def tract(self, m, i):
        t = self[m][i]
        self.seen.setdefault((m, i), []).append(t)
        return t

    def doubles(self):
        """Tracts for which two different objects were handed out."""
        return sorted(k for k, v in self.seen.items() if not all(bool(x == v[0]) for x in v))


def run_op(M, op):
    """Perform ["name", m, *args]; the canonical answer, or ("raised", type)."""
    try:
        return IMPL[op[0]](M, op[1], *op[2:])
    except Exception as e:
        return C.exc(e)

