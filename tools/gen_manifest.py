"""Writes MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python -m dst.check"

NOTE_COMMON = ("Seeded search, not proof: it covers the runs counted in the evidence file. Trusted: the stand-ins for the "
               "compiled geometry libraries (lsst.geom, lsst.afw.geom) and the simulator itself.")

CHECKS = {
    "C01": ("deterministic simulation: seeded query histories over several live maps, with failing queries, "
            "compared with a map asked nothing else", "exploration", ""),
    "C02": ("deterministic simulation: seeded thread schedules with preemption at every line, call and lock of the "
            "package, linearised against the single-threaded answers", "exploration",
            "Preemption is at Python line/call/instruction level, as the interpreter allows it."),
    "C03": ("deterministic simulation with fault injection: exceptions injected at seeded points inside queries, then "
            "recovery compared with an untouched map", "exploration", ""),
    "C04": ("deterministic simulation of a cluster: save, restore, crash and torn-file faults over seeded histories of "
            "several interpreters", "exploration", ""),
    "C05": ("deterministic simulation of a mixed-release cluster: saved forms exchanged by nodes of several releases, "
            "seeded histories and restarts", "exploration", "Newer releases are simulated by their saved forms."),
    "C06": ("deterministic simulation of a cluster: independently built and restored maps, identities compared across "
            "nodes with an independent model of equality", "exploration", ""),
    "C07": ("deterministic simulation with a hostile caller: seeded modification of everything passed in or returned, "
            "between and during other queries", "exploration", ""),
    "C08": ("deterministic simulation: invariants of the patch grid against an executable model, checked throughout "
            "seeded concurrent histories with faults", "exploration", ""),
    "C09": ("deterministic simulation: invariants of the cell grid against an executable model, checked throughout "
            "seeded concurrent histories with faults", "exploration", ""),
    "C10": ("deterministic simulation: look-ups cross-checked and checked against an executable model throughout seeded "
            "concurrent histories with faults", "exploration", ""),
    "C11": ("deterministic simulation with fault injection at the projection library seam: seeded failing and non-finite "
            "conversions against a model of the look-ups", "exploration", ""),
    "C12": ("deterministic simulation of butler clients with fault injection: seeded database, file and library "
            "failures, kills and retries during registration; repository audited after each", "exploration",
            "Runs the real daf_butler on real SQLite; process death is SIGKILL at a seam, not power loss."),
    "C13": ("deterministic simulation of concurrent butler clients: seeded interleavings, lock contention and faults of "
            "conflicting registrations against a model of the name table", "exploration",
            "Runs the real daf_butler on real SQLite."),
    "C14": ("deterministic simulation of butler clients: seeded prior use, registration and crash histories; every row "
            "read back by other processes and compared with the map", "exploration",
            "Runs the real daf_butler on real SQLite."),
    "C15": ("deterministic simulation of packing and unpacking processes: seeded exchanges of identifiers between nodes "
            "with differently obtained packers, against an independent model", "exploration", ""),
    "C16": ("deterministic simulation of butler clients: after seeded registration histories other processes configure "
            "packers from the record and pack every patch", "exploration",
            "Runs the real daf_butler on real SQLite."),
    "C17": ("deterministic simulation: tracts found for coordinates against an independent model of the configured "
            "layout, checked throughout seeded concurrent histories with faults", "exploration",
            "Coordinates within 1e-9 radians of a border may go to either side."),
    "C18": ("deterministic simulation: sky regions against the corners of the model's pixel boxes, checked throughout "
            "seeded concurrent histories with faults", "exploration",
            "Sky positions of pixels are those of the WCS stand-in."),
    "C19": ("deterministic simulation: placement, projection and size of tracts against the configuration, checked "
            "throughout seeded concurrent histories with faults", "exploration",
            "Pixel positions are those of the WCS stand-in."),
}

PURE = ("A pure function of the configuration and the coordinate: no schedule, clock, I/O, fault or history enters it "
        "(that answers do not depend on history, threads or faults is C01-C03). A simulator has nothing to schedule "
        "or to inject; ")
NA = {
    "C34": PURE + "deciding it needs a search over coordinates and configurations; the parts that history and threads "
                  "can break are in C10 and C17.",
    "C35": PURE + "validation happens once, on a configuration nobody else holds yet.",
}

m = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -c \"from dst import bootstrap; bootstrap.boot()\"",
    "checks": [{
        "property": p,
        "quick_cmd": "%s %s --tier quick" % (PY, p),
        "thorough_cmd": "%s %s --tier thorough" % (PY, p),
        "evidence_file": "evidence/%s.json" % p,
        "technique": t,
        "level": lv,
        "level_note": (n + " " + NOTE_COMMON).strip(),
    } for p, (t, lv, n) in sorted(CHECKS.items())],
    "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NA.items())],
    "notes": "No hooks in /repo: every seam is installed from outside (sys.monitoring, module stand-ins, a SQLite "
             "shim, wrapped daf_butler entry points). Replay: /opt/venv/bin/python -m dst.check <id> --replay "
             "<file>. Longer searches: --runs N, DST_CAP_S=<seconds>, VERIF_SEED.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
