#!/usr/bin/env python3
"""Decide one property of colosseum by symbolic execution of its real source.

usage: check.py <property> [--thorough] [-v]
       check.py --replay <file.json>
"""

import json
import os
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("COLOSSEUM_REPO", "/repo")
SRC = os.path.join(REPO, "src")


def reexec():
    if os.environ.get("PYTHONHASHSEED") != "0" or os.environ.get("PYTHONDONTWRITEBYTECODE") != "1":
        env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
        env.pop("PYTHONPATH", None)
        os.execvpe(sys.executable, [sys.executable] + sys.argv, env)


def listed_findings(prop):
    """The known findings of a property: {id: text} (see KNOWN_FINDINGS.txt)."""
    out = {}
    with open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")) as f:
        for line in f:
            if line.startswith(f"known: property={prop} "):
                kid, text = line.split(" ", 3)[2:]
                out[kid.partition("=")[2]] = text.strip()
    return out


def replay(path):
    from engine import explore

    with open(path) as f:
        r = json.load(f)
    sys.path.insert(0, VERIF)
    sys.path.insert(0, SRC)
    import importlib

    h = importlib.import_module("harness." + r["property"])
    x = explore.ConcX(r["inputs"], r["tier"], frozenset(listed_findings(r["property"])))
    exc = None
    try:
        getattr(h, r["harness"])(x, explore.Lib("colosseum"))
    except explore.Assume:
        pass
    except Exception as e:
        import traceback

        traceback.print_exc()
        x.failed.append(f"no-unexpected-exception ({type(e).__name__})")
    print("inputs:", {k: v for k, v in x.named.items()})
    for n, v in x.observed:
        print("observed:", n, "=", v)
    if x.failed:
        print("FAILED:", x.failed)
        return 1
    print("property held on this input")
    return 0


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    if "--replay" in sys.argv:
        return replay(args[0])
    prop = args[0]
    verbose = "-v" in sys.argv
    tier = "thorough" if "--thorough" in sys.argv else "quick"
    sys.path.insert(0, VERIF)
    from engine import explore

    t0 = time.time()
    deadline = 780 if tier == "thorough" else 240
    listed = listed_findings(prop)
    world = explore.World(SRC, VERIF, prop, tier, listed)
    rep = explore.explore(world, deadline, dump=(tier == "thorough"))
    meta = world.h_real
    from collections import Counter

    tot = Counter()
    for c in rep["per"].values():
        tot.update(c)

    # cover() labels every harness promises to reach
    missing = []
    if not rep["violations"]:
        for h in world.harnesses():
            for lab in h["covers"]:
                if lab not in rep["covers"][h["name"]]:
                    missing.append(f"{h['name']}:{lab}")

    inconclusive = {
        k: tot[k]
        for k in ("unknown", "spurious", "mismatch", "unsupported", "concretised", "diverged")
        if tot[k]
    }
    if rep["left"]:
        inconclusive["unexplored"] = rep["left"]

    cross = None
    if tier == "thorough" and not rep["violations"] and rep["smt"]:
        cross = crosscheck(rep["smt"])

    viol = None
    if rep["violations"]:
        hname, label, inputs, named, exc = rep["violations"][0]
        os.makedirs(os.path.join(VERIF, "evidence", "replays"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", "replays", f"{prop}.json")
        with open(path, "w") as f:
            json.dump(
                {
                    "property": prop,
                    "harness": hname,
                    "label": label,
                    "tier": tier,
                    "inputs": inputs,
                    "values": {k: repr(v) for k, v in named.items()},
                    "exception": exc,
                    "rerun": f"python3-vt {VERIF}/check.py --replay {path}",
                },
                f,
                indent=1,
            )
        # confirm in a fresh process on the unmodified package
        r = subprocess.run(
            [sys.executable, os.path.join(VERIF, "check.py"), "--replay", path],
            capture_output=True,
            text=True,
        )
        viol = dict(path=path, confirmed=r.returncode == 1, output=r.stdout[-3000:], label=label, harness=hname)

    write_evidence(prop, tier, world, rep, tot, inconclusive, missing, cross, viol, time.time() - t0)

    if verbose or viol or inconclusive or missing:
        for h in world.harnesses():
            n = h["name"]
            print(
                f"{prop}.{n}: {dict(rep['per'][n])} last result at {rep['times'][n]:.1f}s"
            )
            for note in rep["notes"][n][:6]:
                print("   note:", note)
    print(
        f"{prop} [{tier}]: {tot['paths']} paths, {tot['queries']} queries, "
        f"{tot['discharged']}/{tot['asserts']} assertions discharged by the solver, {tot['const_checks']} reduced to "
        f"constants ({tot['lemmas']} reductions proved by the solver), "
        f"{tot['validated']}/{tot['paths']} paths validated on the real code, "
        f"solver {tot['solver_us'] / 1e6:.1f}s, wall {time.time() - t0:.1f}s"
    )
    if viol:
        if viol["confirmed"]:
            print(viol["output"])
            print(f"failed: {viol['harness']}: {viol['label']}")
            print(f"VIOLATION property={prop} replay={viol['path']}")
            return 1
        print("INCONCLUSIVE: a violation was seen but not in a fresh process:", viol["label"])
    hits = set().union(*rep["covers"].values()) if rep["covers"] else set()
    for kid, text in sorted(listed.items()):
        if "known:" + kid in hits:
            print(f"KNOWN-FINDING: property={prop} {kid}: {text}")
    if inconclusive:
        print("INCONCLUSIVE parts (no verdict there):", inconclusive)
    if missing:
        print("NOT REACHED:", missing)
    return 0


def crosscheck(smts):
    """Ask cvc5 the queries z3 answered unsat."""
    import tempfile

    res = {"sampled": 0, "agree": 0, "inconclusive": 0, "disagree": 0}
    with tempfile.TemporaryDirectory() as d:
        for i, text in enumerate(smts[:40]):
            fn = os.path.join(d, f"q{i}.smt2")
            with open(fn, "w") as f:
                f.write("(set-logic ALL)\n" + text)
            r = subprocess.run(
                ["cvc5", "--tlimit=10000", fn], capture_output=True, text=True
            )
            out = r.stdout.strip().splitlines()
            res["sampled"] += 1
            if "error" in r.stdout or not out:
                res["inconclusive"] += 1
            elif out[0] == "unsat":
                res["agree"] += 1
            elif out[0] == "sat":
                res["disagree"] += 1
            else:
                res["inconclusive"] += 1
    return res


def write_evidence(prop, tier, world, rep, tot, inconclusive, missing, cross, viol, wall):
    meta = world.h_real
    cov = {
        "states": tot["paths"],
        "transitions": tot["branches"],
        "traces_validated_against_impl": tot["validated"],
        "samples": rep["samples"],
        "functions_encoded": rep["entered"],
        "bounds": {h["name"]: h["bounds"] for h in world.harnesses()},
        "outside_the_bounds": getattr(meta, "OUTSIDE", ""),
        "solver_queries": tot["queries"],
        "solver_seconds": round(tot["solver_us"] / 1e6, 2),
        "assertions_discharged_by_solver": tot["discharged"],
        "assertions_reduced_to_constants_by_the_term_normaliser": tot["const_checks"],
        "normaliser_decisions_proved_by_solver": tot["lemmas"],
        "concrete_replays_on_real_code": tot["replays"],
        "inconclusive": inconclusive,
        "cover_points_not_reached": missing,
        "per_harness": {
            k: {n: v[n] for n in ("paths", "queries", "discharged", "validated", "cut")}
            for k, v in rep["per"].items()
        },
        "exhaustive": not inconclusive and not viol,
    }
    if cross:
        cov["cvc5_crosscheck_of_unsat_queries"] = cross
    ev = {
        "property": prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "model_checking",
        "coverage": cov,
        "assumptions": list(getattr(meta, "ASSUMPTIONS", [])) + COMMON_ASSUMPTIONS,
        "wall_s": round(wall, 2),
        "violations": 1 if viol and viol["confirmed"] else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)


COMMON_ASSUMPTIONS = [
    "engine/sym.py models CPython's int, float and str operations; every explored path is "
    "also run on the unmodified package and must agree",
    "z3 answers are trusted (thorough tier re-asks a sample of the unsat ones to cvc5)",
]


def guarded():
    try:
        return main()
    except Exception:
        # an error of the check itself: no verdict, and no alarm either
        import traceback

        traceback.print_exc(file=sys.stdout)
        print("ERROR of the check: no verdict")
        return 2


if __name__ == "__main__":
    reexec()
    sys.exit(guarded())
