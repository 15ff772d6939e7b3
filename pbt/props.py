"""Registry: which sub-checks decide which property."""
import importlib

from . import engine

MODULES = ["s_core", "s_aniso", "s_em", "s_crack", "s_fluid", "s_bw", "s_gm", "s_avo", "s_emp", "s_qi", "s_units", "s_limits", "s_bounds", "s_cross", "s_cont"]

RULE = ("A case is one set of in-domain arguments (for array calls: one element) drawn by Hypothesis, either "
        "directly or expanded from a Hypothesis-drawn seed and calling layout; it is non-trivial when the code "
        "under test was called on it, the reference or relation was defined there and compared, and the "
        "argument tuple was not seen before in the same sub-check.")
ASSUMPTIONS = [
    "inputs lie in the documented physical domain of each function (see DESIGN.md)",
    "agreement is to the stated relative tolerance plus a share of the reference's own conditioning",
]

EXTRA = {}       # name -> (prop, run(seed, scale) -> result dict, n quick)
_loaded = False


def load():
    global _loaded
    if _loaded:
        return
    for m in MODULES:
        try:
            importlib.import_module("pbt." + m)
        except ModuleNotFoundError as e:
            if e.name != "pbt." + m:
                raise
    _loaded = True


def tasks(pid, seed, tier):
    scale = 8.0 if tier == "quick" else 60.0
    out = []
    for n, s in engine.SPECS.items():
        if s.prop == pid:
            for mode in "AB":
                if mode == "A" and s.nonscalar:
                    continue
                reps = 2 if tier == "quick" else 8
                for k in range(reps):
                    out.append(("spec", n, mode, seed + 1000 * k, scale / reps, s.weight))
    for n, r in engine.RELS.items():
        if r.prop == pid:
            for mode in "AB":
                reps = 2 if tier == "quick" else 8
                for k in range(reps):
                    out.append(("rel", n, mode, seed + 1000 * k, scale / reps, r.weight))
    for n, (p, fn, parts) in EXTRA.items():
        if p == pid:
            for k in range(parts if tier == "quick" else parts * 3):
                out.append(("extra", n, str(k), seed + 1000 * k, 3.0 if tier == "quick" else 12.0, 2.0))
    out.sort(key=lambda t: -t[5])
    return [t[:5] for t in out]


def run_task(task):
    load()
    if task[0] == "extra":
        return EXTRA[task[1]][1](task)
    return engine.run_task(task)


def replay(payload):
    load()
    if payload and payload.get("kind") == "extra":
        return EXTRA[payload["name"]][1](("replay", payload))
    return engine.replay(payload)
