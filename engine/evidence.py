"""Evidence files: every number is measured on the run that writes it."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

BASE = [
    "T1 VC generator: engine/{core,tensor,shims,loader,api}.py executes the unmodified /repo sources over symbolic tensors (agreement with the installed torch/numpy is sampled: every contract also runs concretely on the real libraries; not proved)",
    "T2 normaliser/closure of engine/{terms,poly,prove}.py (rational-function normal form, trigonometric/sqrt axioms), z3 and cvc5",
    "T3 library contracts of torch, numpy, scipy, xfab stated in engine/shims.py (assumed, not verified)",
    "A1 floating point treated as exact real arithmetic with explicit nan/inf flags; machine integers treated as mathematical integers",
]


def write(prop, tier, seed, results, cases, st, wall, viol, known):
    import glob
    samples = []
    for r in results:
        if r["con"] and r["con"].get("samples"):
            samples += [{"case": r["case"], "inputs": s} for s in r["con"]["samples"][:1]]
    samples = samples[:4]
    names = sorted({f for c in st["cases"] for f in c["functions"]})
    sym_cases = [c for c in st["cases"] if "obligations" in c]
    proved_fns = sorted({f for c in sym_cases if c["obligations"] == c["discharged"] and not c.get("bounded") for f in c["functions"]})
    bnd_fns = sorted(set(names) - set(proved_fns))
    cov = {
        "obligations": st["total"],
        "discharged": st["disch"],
        "checker_cmd": "/opt/venv/bin/python check.py %s --tier %s" % (prop, tier),
        "trusted_base": BASE + ["library contract used: " + n for n in st["notes"]],
        "backends": st["backends"],
        "solver_s": round(st["solver_time"], 2),
        "functions_under_contract": proved_fns,
        "functions_bounded_only": bnd_fns,
        "bounded": st["bounded"],
        "cases": st["cases"],
        "evaluations": st["runs"],
        "contract_checks_evaluated": st["checks"],
        "distinct_nontrivial": st["distinct"],
        "rule": "concrete contract runs on the real code: inputs drawn from the contract's precondition by a seeded generator (several profiles: boundary values, small values, empty/one/many sizes); non-trivial = the precondition held and at least one postcondition was evaluated; distinct = different input values",
        "samples": samples,
        "undischarged": [{"case": c["case"], "missing": c["obligations"] - c["discharged"]} for c in sym_cases if c["obligations"] != c["discharged"]],
    }
    assumptions = list(BASE) + ["library contract: " + n for n in st["notes"]]
    for c in cases:
        assumptions += list(c.assumptions)
    assumptions += ["bounded: " + b for b in st["bounded"]]
    lvl = level(prop)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": lvl, "coverage": cov, "assumptions": assumptions, "wall_s": round(wall, 2), "violations": len(viol)}
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, prop + ".json")
    tmp = p + ".tmp%d" % os.getpid()
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, p)


def level(prop):
    try:
        for c in json.load(open(os.path.join(VERIF, "MANIFEST.json")))["checks"]:
            if c["property"] == prop:
                return c["level"]
    except Exception:
        pass
    return "proof"
