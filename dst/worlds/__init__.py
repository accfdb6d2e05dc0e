"""The simulated worlds, by property."""


def find(prop):
    import importlib
    for mod in ("threads", "model", "sky", "project", "cluster", "packers", "butler"):
        try:
            m = importlib.import_module("dst.worlds." + mod)
        except ModuleNotFoundError as e:
            if e.name != "dst.worlds." + mod:
                raise
            continue
        if prop in m.WORLDS:
            cls = m.WORLDS[prop]

            def make(tier, seed, scratch):
                return cls(tier, seed, scratch)
            return make
    raise SystemExit("no check for property %r" % (prop,))
