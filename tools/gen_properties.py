#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the entries stay uniform)."""
import json, os
P = "python/lsst/skymap/"
L = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    L.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=[P + f for f in files],
                               state=[dict(name=a, meaning=b, where=P + c) for a, b, c in state],
                               mechanism=[dict(name=a, where=P + b) for a, b in mech],
                               observe_at=list(observe), hook_needed=hook)))


NOTEST = ("Only packers.py is reachable by the tests that run here, and even the upstream geometry tests build one "
          "map and query it in one fixed order")

prop("C01", "Answers do not depend on what was asked before",
     "A sky map always refers to the same mathematical tracts, patches and cells: whatever queries have already been "
     "made, successful or failed, in whatever order, on this map or on any other sky map alive in the process, every "
     "query gives exactly the answer a newly built map with the same configuration gives when it is asked nothing else. "
     "This covers tract, patch and cell access by index, pair and iteration, sequential-index conversion, all "
     "coordinate look-ups, identity, sky regions and the logged summary.",
     ["histories", "configurations"],
     "every sequence of public queries over every mix of live sky maps of any class and configuration",
     NOTEST + ", so tracts are never revisited after others were generated, nor two maps interleaved.",
     ["baseSkyMap.py", "cachingSkyMap.py", "tractInfo.py", "tractBuilder.py", "ringsSkyMap.py", "discreteSkyMap.py",
      "healpixSkyMap.py"],
     [("tracts generated on request and cached", "cachingSkyMap.py:CachingSkyMap.__getitem__"),
      ("per-tract patch grid set up when a tract is built", "tractBuilder.py:BaseTractBuilder.setupPatches"),
      ("tracts hold their own geometry", "tractInfo.py:TractInfo.__init__")],
     [("_tractCache", "tracts generated so far", "cachingSkyMap.py"),
      ("_tractBuilder", "patch geometry helper reached from every tract", "baseSkyMap.py")],
     ["public query methods of BaseSkyMap, TractInfo, PatchInfo, CellInfo"])

prop("C02", "Threads sharing a sky map see what one thread would see",
     "Any number of threads may query one sky map at the same time, including while its tracts are still being "
     "generated: each answer equals the single-threaded answer, no query fails that would succeed alone, and repeated "
     "requests for one tract always yield the one same tract. No interleaving deadlocks or stops making progress.",
     ["schedules", "configurations"],
     "every interleaving of concurrent queries on a shared map at any point of its lazy population",
     NOTEST + " and on one thread; no schedule is ever varied.",
     ["cachingSkyMap.py", "baseSkyMap.py", "tractInfo.py", "tractBuilder.py", "ringsSkyMap.py"],
     [("check/generate/store of the tract cache", "cachingSkyMap.py:CachingSkyMap.__getitem__"),
      ("memoised identity", "baseSkyMap.py:BaseSkyMap.getSha1")],
     [("_tractCache", "shared lazily filled cache", "cachingSkyMap.py"), ("_sha1", "shared memo", "baseSkyMap.py")],
     ["per-thread operation results"])

prop("C03", "A query that fails or is interrupted leaves no trace",
     "If a query is cut short by any exception (cancellation, memory exhaustion, recursion limit, or a failure of the "
     "geometry library) at any point inside it, including half way through generating a tract or computing the "
     "identity, the map stays usable and unchanged. Every other query, concurrent or later, still gives the exact "
     "answer, and the same query succeeds when repeated.",
     ["fault_sequences", "crash_points", "schedules"],
     "every exception raised at any call made during a query, any number of times, with other threads active",
     "The tests inject no failure into any query.",
     ["cachingSkyMap.py", "baseSkyMap.py", "tractInfo.py", "tractBuilder.py", "ringsSkyMap.py", "healpixSkyMap.py",
      "discreteSkyMap.py"],
     [("result cached only after complete generation", "cachingSkyMap.py:CachingSkyMap.__getitem__"),
      ("digest memoised only when complete", "baseSkyMap.py:BaseSkyMap.getSha1")],
     [("_tractCache", "must never hold a partial tract", "cachingSkyMap.py"),
      ("_sha1", "must never hold a partial digest", "baseSkyMap.py")],
     ["query results after the fault"])

prop("C04", "A saved sky map restores exactly, in any process",
     "Saving a sky map (pickle or copy) at any moment of its life, even while other threads are populating it, and "
     "restoring it in any process, through any number of save/restore generations and process restarts, yields an equal "
     "map of the same class and configuration whose every tract, patch and cell is identical to the original's. A saved "
     "form that was cut short is refused, never restored as some other map.",
     ["histories", "crash_points", "fault_sequences", "configurations"],
     "every map state at save time, every chain of saves, restores, node crashes and torn saved forms",
     "Upstream pickles one fresh map once inside one process and compares a few tracts; the tests that run here never "
     "pickle a map.",
     ["cachingSkyMap.py", "dodecaSkyMap.py", "equatSkyMap.py", "baseSkyMap.py", "ringsSkyMap.py"],
     [("reduce to constructor arguments", "cachingSkyMap.py:CachingSkyMap.__reduce__"),
      ("state of config and version", "dodecaSkyMap.py:DodecaSkyMap.__getstate__"),
      ("state of config and version", "equatSkyMap.py:EquatSkyMap.__setstate__")],
     [("config/version", "the only durable state of a map", "baseSkyMap.py")],
     ["pickle.dumps/loads, copy.copy, copy.deepcopy in separate interpreters"])

prop("C05", "Saved forms of other releases keep their meaning or are refused",
     "A rings map with the legacy tract numbering (version 0) keeps that numbering through any number of saves, "
     "restores and copies on any node, and never turns into the current numbering or back. A saved rings, dodeca or "
     "equat map whose recorded format version is newer than this release understands is refused with an error on every "
     "attempt, and refusing it does not disturb maps already loaded.",
     ["histories", "fault_sequences"],
     "every exchange of saved maps between nodes running older, current and newer releases",
     "Upstream constructs a version-0 map once and never saves it; no newer-format state is ever presented.",
     ["cachingSkyMap.py", "ringsSkyMap.py", "dodecaSkyMap.py", "equatSkyMap.py"],
     [("version passed through reduce", "cachingSkyMap.py:CachingSkyMap.__reduce__"),
      ("known-version check", "ringsSkyMap.py:RingsSkyMap.__init__"),
      ("format check on restore", "dodecaSkyMap.py:DodecaSkyMap.__setstate__"),
      ("format check on restore", "equatSkyMap.py:EquatSkyMap.__setstate__")],
     [("_version", "numbering/format version", "cachingSkyMap.py")],
     ["tract centres by index and getRingIndices after restore; errors on restore"])

prop("C06", "All nodes agree on a sky map's identity",
     "Sky maps built or restored independently, in different processes, in any order of configuration and use, compare "
     "equal, hash equal and report the same 20-byte digest exactly when they have the same class and the same "
     "geometry-defining configuration; differing in any one such setting makes them unequal. The identity of a map "
     "never changes during its life, whenever it is first asked for.",
     ["histories", "configurations", "schedules"],
     "every pair of maps on any nodes, at any moments of their lives, including concurrent first requests",
     "Upstream compares a handful of configurations within one process; nothing compares across interpreters or over "
     "a map's lifetime.",
     ["baseSkyMap.py", "tractBuilder.py", "ringsSkyMap.py", "discreteSkyMap.py", "dodecaSkyMap.py", "equatSkyMap.py",
      "healpixSkyMap.py"],
     [("digest of class name, packed configuration and subclass state", "baseSkyMap.py:BaseSkyMap.getSha1"),
      ("packed configuration", "tractBuilder.py:LegacyTractBuilder.getPackedConfig"),
      ("packed configuration", "tractBuilder.py:CellTractBuilder.getPackedConfig"),
      ("subclass state", "ringsSkyMap.py:RingsSkyMap.updateSha1")],
     [("_sha1", "memoised digest", "baseSkyMap.py")],
     ["getSha1, ==, !=, hash, use as dict key"])

prop("C07", "Callers cannot alter a sky map they hold",
     "Nothing a caller does to objects it passed in or got back changes any later answer of the map or its tracts for "
     "anyone: assigning to the configuration used to build the map is either refused or has no effect, and growing, "
     "shifting or otherwise modifying returned boxes and extents, or the containers returned by look-ups, affects only "
     "that caller's copy. The vertex list, documented as shared, is the only exception.",
     ["histories", "schedules"],
     "every sequence of caller-side modifications interleaved with queries, before and after tracts are generated",
     "No test modifies a configuration or returned value and then queries again.",
     ["baseSkyMap.py", "tractInfo.py", "tractBuilder.py", "patchInfo.py", "cachingSkyMap.py"],
     [("configuration frozen at construction", "baseSkyMap.py:BaseSkyMap.__init__"),
      ("boxes copied on return", "tractInfo.py:TractInfo.getBBox"),
      ("fresh patch objects per request", "tractBuilder.py:LegacyTractBuilder.getPatchInfo")],
     [("config", "frozen configuration", "baseSkyMap.py")],
     ["queries after caller-side modification"])

prop("C08", "Patches of every tract always form the configured exact grid",
     "At every moment of a live map's use, for every tract: the bounding box starts at (0, 0), inner patch regions all "
     "have the configured dimensions and tile it exactly, and each outer region is the inner one grown by the patch "
     "border, clipped to the tract for pixel-defined patches and unclipped for cell-defined ones. Patch (x, y) has "
     "sequential index nx*y + x, the conversions are inverse to each other, access by pair, by sequential index and by "
     "iteration (y outer, x inner) agree, patches of a tract are equal exactly if their indices are, and indices outside "
     "the grid raise IndexError.",
     ["histories", "schedules", "configurations"],
     "every tract of every map, at every point of every history of use by any number of threads",
     NOTEST + "; the grid of a tract is never examined after other tracts were generated or while threads race.",
     ["tractBuilder.py", "tractInfo.py", "patchInfo.py", "cachingSkyMap.py"],
     [("grid size", "tractBuilder.py:BaseTractBuilder.setupPatches"),
      ("patch boxes", "tractBuilder.py:LegacyTractBuilder.getPatchInfo"),
      ("patch boxes", "tractBuilder.py:CellTractBuilder.getPatchInfo"),
      ("origin shift", "tractInfo.py:TractInfo._finalOrientation")],
     [("_numPatches/_tractBBox", "grid of one tract", "tractBuilder.py")],
     ["TractInfo/PatchInfo public accessors"])

prop("C09", "Cells of every patch always form the configured exact grid",
     "At every moment of a live cell-based map's use, every patch has the configured number of cells plus the border "
     "cells on each side; the inner cell regions have the configured dimensions and tile the patch's inner region grown "
     "by the border cells, and each outer region is the inner one grown by the cell border. Cell (x, y) has sequential "
     "index nx*y + x, access by pair, sequential index and iteration agree, cells of a patch are equal exactly if their "
     "indices are, indices outside the grid raise IndexError, "
     "and patches of maps without cells report none.",
     ["histories", "schedules", "configurations"],
     "every cell of every patch, at every point of every history of use by any number of threads",
     "The cell tests cannot run here; upstream checks one tract of one configuration with no other activity.",
     ["patchInfo.py", "cellInfo.py", "tractBuilder.py"],
     [("cell boxes", "patchInfo.py:PatchInfo.getCellInfo"),
      ("cell parameters handed to patches", "tractBuilder.py:CellTractBuilder.getPatchInfo")],
     [("_numCells", "cell grid of a patch", "patchInfo.py")],
     ["PatchInfo/CellInfo public accessors"])

prop("C10", "Coordinate look-ups agree with each other and with the grid",
     "At every moment of a map's use by any number of threads: the array tract look-up equals the scalar one element by "
     "element; a patch look-up by coordinate returns the one patch whose inner region holds the coordinate's pixel, or "
     "LookupError exactly when the tract does not contain the coordinate; and the patch-list look-up includes every "
     "patch whose outer region holds one of the given coordinates. Region look-ups over the whole map list each tract at "
     "most once, with exactly that tract's own patch list, and include the tract found for each coordinate it contains.",
     ["histories", "schedules", "configurations"],
     "every coordinate list, on maps in every state of lazy population, under every interleaving",
     "Upstream checks a few corner coordinates sequentially on fully built maps; none of it runs here.",
     ["baseSkyMap.py", "tractInfo.py", "ringsSkyMap.py", "dodecaSkyMap.py", "healpixSkyMap.py", "cachingSkyMap.py"],
     [("nearest-centre search", "baseSkyMap.py:BaseSkyMap.findTract"),
      ("ring search, scalar and vectorised", "ringsSkyMap.py:RingsSkyMap.findTractIdArray"),
      ("pixel search", "tractInfo.py:TractInfo.findPatch"),
      ("region search", "tractInfo.py:TractInfo.findPatchList"),
      ("list without repeats", "ringsSkyMap.py:RingsSkyMap.findTractPatchList")],
     [("_tractCache", "identity of tracts decides repeats", "cachingSkyMap.py")],
     ["findTract, findTractIdArray, findPatch, findPatchList, findTractPatchList, contains"])

prop("C11", "Unprojectable coordinates are 'not there', other failures surface",
     "When the projection library cannot map a coordinate onto a tract, whether it raises its domain or run-time error or "
     "returns a non-finite position, the tract reports that it does not contain it, the patch look-up raises LookupError, "
     "and region look-ups behave exactly as if that coordinate had not been given for that tract. Any other failure "
     "during a look-up surfaces as an error and is never turned into a 'not there' or partial answer.",
     ["fault_sequences", "inputs"],
     "every look-up in which any subset of projection calls fails in any of the ways the library fails",
     "The tests that run never reach a projection; upstream only tries one antipodal point and NaN coordinates.",
     ["tractInfo.py", "baseSkyMap.py", "ringsSkyMap.py"],
     [("errors caught per coordinate", "tractInfo.py:TractInfo.findPatchList"),
      ("errors mapped to LookupError", "tractInfo.py:TractInfo.findPatch"),
      ("errors and non-finite pixels mapped to False", "tractInfo.py:TractInfo.contains")],
     [],
     ["contains, findPatch, findPatchList, findTractPatchList, findAllTracts"])

prop("C12", "Registering a sky map is all or nothing, whatever fails",
     "If registration in a butler repository fails or the process dies at any point, a later observer finds either no "
     "trace of the map (no skymap, tract or patch rows, no stored map) or the complete registration, never part of it. "
     "The failure is reported to the caller, and registering again afterwards, from any process, completes. (The "
     "butler's own declaration of the dataset type and run collection, which it documents as outside transactions, is "
     "not a trace of the map and counts as one atomic step.)",
     ["crash_points", "fault_sequences"],
     "every database, file or library failure and every process death at any point of registration, repeated at will",
     "No test registers a map at all.",
     ["baseSkyMap.py"],
     [("one transaction around rows and stored map", "baseSkyMap.py:BaseSkyMap.register")],
     [("repository", "dimension rows and stored dataset", "baseSkyMap.py")],
     ["fresh butler clients opened after the failure"])

prop("C13", "Concurrent and conflicting registrations resolve to one map",
     "When several processes register sky maps concurrently, a name ends up bound to exactly one map, complete and "
     "intact, and a map to exactly one name: registering the same map under the same name again succeeds and changes "
     "nothing, while registering a different map under a taken name, or a registered map under another name, raises "
     "ConflictingDefinitionError and leaves no trace; no other failure is reported as that error. Once contention "
     "stops, every non-conflicting registration completes. (The butler's own declaration of the dataset type and run "
     "collection counts as one atomic step.)",
     ["schedules", "histories", "fault_sequences"],
     "every interleaving of registrations by several clients, with lock contention and retries, of equal and different "
     "maps and names",
     "No test registers a map, let alone two at once.",
     ["baseSkyMap.py"],
     [("synchronised insertion of the skymap row decides the winner", "baseSkyMap.py:BaseSkyMap.register"),
      ("conflict translation", "baseSkyMap.py:BaseSkyMap.register")],
     [("skymap row", "name, hash and size summary", "baseSkyMap.py")],
     ["repository contents and exceptions seen by each client"])

prop("C14", "A registered repository describes the sky map exactly",
     "After a successful registration, whatever the map had been used for before, every process reading the repository "
     "finds one row per tract and per patch with the map's own ids, sequential patch indices, grid positions and outer "
     "sky regions, a summary row whose hash, tract count and largest patch-grid dimensions are those of the map, and a "
     "stored map equal to the original.",
     ["histories", "configurations", "crash_points"],
     "every map, in every state of prior use, registered once or repeatedly and read back by fresh processes",
     "No test registers a map or reads it back.",
     ["baseSkyMap.py", "tractInfo.py", "tractBuilder.py"],
     [("rows built per tract and patch", "baseSkyMap.py:BaseSkyMap.register")],
     [("dimension rows", "skymap, tract and patch records", "baseSkyMap.py")],
     ["queryDimensionRecords and butler.get from another process"])

prop("C15", "Packed IDs mean the same to every process",
     "A data ID packed into an integer by one process is recovered exactly by any other process holding an equivalently "
     "configured packer, in whatever order IDs are exchanged and however each packer came by its configuration; distinct "
     "data IDs get distinct integers that fit in the advertised number of bits. A data ID outside the reserved tracts, "
     "patches or bands is rejected with ValueError instead of being given an integer that belongs to another.",
     ["histories", "configurations", "inputs"],
     "every exchange of IDs between producers and consumers with independently obtained equivalent configurations",
     "The tests round-trip a single data ID within one packer instance and one band table in ascending order.",
     ["packers.py"],
     [("mixed-radix packing", "packers.py:SkyMapDimensionPacker._pack"),
      ("inverse", "packers.py:SkyMapDimensionPacker.unpack"),
      ("bit budget", "packers.py:SkyMapDimensionPacker.maxBits")],
     [("_bands", "band to integer table", "packers.py")],
     ["pack, unpack, maxBits"])

prop("C16", "IDs packed from a registered map's record cover all of it",
     "A packer that any process configures from a registered sky map's repository record can pack every tract and patch "
     "of that map, and unpacks each result back to the same tract and patch, without collisions and within its bit "
     "budget, whichever process registered the map and whatever happened during registration.",
     ["histories", "configurations", "fault_sequences"],
     "every registered map and every reader, after retries, conflicts and crashes during registration",
     "The tests invent a skymap record; none comes from a map or a repository.",
     ["packers.py", "baseSkyMap.py"],
     [("limits taken from the record", "packers.py:SkyMapDimensionPacker.__init__"),
      ("record limits computed at registration", "baseSkyMap.py:BaseSkyMap.register")],
     [("skymap row", "tract_max, patch_nx_max, patch_ny_max", "baseSkyMap.py")],
     ["pack/unpack over all registered patches"])

prop("C17", "Every coordinate is in exactly the tract configured for it",
     "At every moment of a map's use, by any number of threads, after failures, and for copies and restored maps: the "
     "tract found for a coordinate is the one the configuration puts it in (the ring and right-ascension interval of a "
     "rings map, the nearest face of a dodecahedron, the HEALPix pixel, the nearest centre among configured or equal "
     "equatorial tracts); on dodecahedron maps and rings maps of the current numbering its inner region holds the "
     "coordinate and no other tract's does; and its id, its centre, and the ring, number and coordinate range reported for it are those of that place in the layout; a "
     "tract index outside the map has no place in it (IndexError).",
     ["histories", "schedules", "configurations"],
     "every coordinate, on every kind of map, in every state of lazy population, under every interleaving",
     "A handful of coordinates on a few freshly built maps cannot settle a partition of the sphere; none of it runs here.",
     ["ringsSkyMap.py", "dodecaSkyMap.py", "healpixSkyMap.py", "equatSkyMap.py", "discreteSkyMap.py", "baseSkyMap.py"],
     [("ring layout", "ringsSkyMap.py:RingsSkyMap.getRaDecRange"),
      ("ring search", "ringsSkyMap.py:RingsSkyMap.findTract"),
      ("nearest face", "detail/dodecahedron.py:Dodecahedron.getFaceInd"),
      ("nearest centre", "baseSkyMap.py:BaseSkyMap.findTract")],
     [("_tractCache", "tracts made so far", "cachingSkyMap.py")],
     ["findTract, getInnerSkyRegion, getCtrCoord, getRingIndices, getRaDecRange"])
prop("C18", "Sky regions are those of the pixel boxes they stand for",
     "At every moment of a map's use, by any number of threads, after failures, and for copies and restored maps: the "
     "outer sky region of a tract, and the inner and outer sky regions of a patch or cell, have exactly the sky "
     "positions of the corners of the pixel box (pixel edges, half a pixel beyond the outermost centres) as vertices, "
     "under the WCS of the tract or another one given; the inner region of a tract is the hull of its vertices or, for "
     "rings maps, the box of its ring and right-ascension interval; patches and cells carry the WCS of their tract.",
     ["histories", "schedules", "configurations"],
     "every tract, patch and cell of every map in every state of use",
     "The tests that run never make a region.",
     ["detail/utils.py", "patchInfo.py", "cellInfo.py", "tractInfo.py", "ringsSkyMap.py"],
     [("polygon from box", "detail/utils.py:makeSkyPolygonFromBBox"),
      ("tract regions", "tractInfo.py:TractInfo.getInnerSkyRegion"),
      ("patch regions", "patchInfo.py:PatchInfo.getOuterSkyPolygon"),
      ("cell regions", "cellInfo.py:CellInfo.getOuterSkyPolygon")],
     [],
     ["inner/outer sky region and polygon accessors of TractInfo, PatchInfo, CellInfo"])
prop("C19", "Tracts lie where, and are as large as, configured",
     "At every moment of a map's use, by any number of threads, after failures, and for copies and restored maps: a "
     "tract's WCS has the configured projection, pixel scale and rotation and its reference point at the tract's centre "
     "(on the equator for equatorial maps); its pixel box starts at (0, 0), holds its inner region grown by half the "
     "configured overlap in every direction (centre and radius grown by all of it for tracts given so), with no more "
     "patches than that takes and centred to within whole pixels; its vertices are those of the configured layout and "
     "inside it.",
     ["histories", "schedules", "configurations"],
     "every tract of every map in every state of use, whichever tracts were made before it and by whom",
     "The tests that run never make a tract; the size of a tract depends on its projection and on shared builders.",
     ["tractInfo.py", "tractBuilder.py", "detail/wcsFactory.py", "equatSkyMap.py", "healpixSkyMap.py", "dodecaSkyMap.py"],
     [("minimum box", "tractInfo.py:TractInfo._minimumBoundingBox"),
      ("explicit tracts", "tractInfo.py:ExplicitTractInfo"),
      ("patch count and centring", "tractBuilder.py:BaseTractBuilder.setupPatches"),
      ("WCS construction", "detail/wcsFactory.py:WcsFactory.makeWcs")],
     [("_tractBuilder", "patch grid of the tract it was last set up for", "tractBuilder.py")],
     ["getWcs, getBBox, getNumPatches, getCtrCoord, getVertexList, getTractOverlap, contains"])

# --- pure functions of their input: listed for breadth, not claimed --------------
PURE = ("inputs", "configurations")
prop("C34", "Region look-ups miss no tract that contains a coordinate",
     "The all-tracts and region look-ups of a map report every tract whose pixel box contains one of the coordinates.",
     list(PURE), "every coordinate and configuration", "Needs an exhaustive geometric comparison.",
     ["ringsSkyMap.py", "baseSkyMap.py"], [("neighbour search", "ringsSkyMap.py:RingsSkyMap.findAllTracts")])
prop("C35", "Configurations that cannot describe a map are rejected",
     "Validating a configuration rejects mismatched list lengths, non-square cells, out-of-range ring counts and start "
     "angles.",
     list(PURE), "every configuration", "A finite set of bad configurations is tried at most.",
     ["discreteSkyMap.py", "tractBuilder.py", "ringsSkyMap.py"],
     [("validation", "discreteSkyMap.py:DiscreteSkyMapConfig.validate")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in L:
        f.write(json.dumps(p) + "\n")
