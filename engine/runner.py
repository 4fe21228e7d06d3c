"""Runs the contracts of a property: symbolic obligations, concrete contract checks, evidence."""
import json
import multiprocessing as mp
import os
import random
import re
import sys
import time
import traceback
import ctypes
import hashlib
import threading
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
sys.path.insert(0, REPO)
sys.setrecursionlimit(20000)

LEVELS = {}


def setup():
    warnings.filterwarnings("ignore")
    import logging
    logging.disable(logging.CRITICAL)
    import torch
    torch.set_num_threads(1)
    try:
        torch.set_num_interop_threads(1)
    except RuntimeError:
        pass


# ------------------------------------------------------------------ symbolic side
def run_symbolic(case, tier, deadline, hopeless=False):
    from . import terms as T, loader, prove
    from .core import CTX, Frame, Obligation, Unsupported, Infeasible, Bounded
    from .api import SymC, Violation
    CTX.reset_all()
    CTX.prover.qcache.clear()
    fr = Frame()
    paths = 0
    unsupported = []
    seen = {}
    obs = []
    completed = nfail = 0
    reachable = case.do_con
    t0 = time.time()
    while True:
        CTX.new_path()
        CTX.frames = [fr]
        fr.pos, fr.conds = 0, []
        CTX.obligations = []
        c = SymC(loader.World(), tier)
        CTX.global_facts = []
        try:
            case.fn(c)
            completed += 1
        except Infeasible:
            completed += 1
        except Bounded as e:
            CTX.bounded.add(str(e))
        except Unsupported as e:
            unsupported.append((str(e), where()))
        except Violation as e:
            CTX.oblige(e.name, T.FALSE)
        except RecursionError as e:
            unsupported.append(("recursion limit of the VC generator", where()))
        except NotImplementedError as e:
            unsupported.append(("NotImplementedError %s" % e, where()))
        except Exception as e:
            if engine_fault():
                unsupported.append(("engine: %s: %s" % (type(e).__name__, str(e)[:200]), where()))
            else:
                CTX.oblige("no-exception.%s@%s" % (type(e).__name__, where()), T.FALSE, info={"exc": str(e)[:300], "tb": traceback.format_exc()[-1500:]})
        for o in CTX.obligations:
            k = (o.name, o.goal, tuple(o.hyps))
            if k in seen:
                continue
            seen[k] = o
            o.path = paths
            try:
                budget = max(2.0, min(case.budget, deadline - time.time()))
                if nfail >= 3 or hopeless:
                    budget = min(budget, 2.0)
                if nfail >= (3 if hopeless else 8) or time.time() > deadline:
                    ok, o.status, o.backend = False, "not attempted", "-"
                else:
                    ok = CTX.prover.prove(o, budget)
            except (RecursionError, NotImplementedError) as e:
                ok, o.status, o.backend = False, "unknown", "engine:" + type(e).__name__
            nfail += not ok
            obs.append(o)
        if not case.do_con and CTX.obligations and not reachable:
            # vacuity guard: the hypotheses of the last obligation of some path must not be contradictory
            o = CTX.obligations[-1]
            v = Obligation("vacuity", o.hyps, T.FALSE, "vacuity")
            try:
                reachable = not CTX.prover.prove(v, 1.5)
            except (RecursionError, NotImplementedError):
                reachable = True
        paths += 1
        if unsupported and len(unsupported) > 3:
            break
        if paths >= case.max_paths or time.time() > deadline:
            unsupported.append(("path/time budget exhausted after %d paths" % paths, ""))
            break
        if not CTX.advance(fr):
            break
    if not reachable and obs and not unsupported:
        unsupported.append(("the hypotheses of the contract are contradictory (vacuous)", ""))
    global LAST_FAILED
    LAST_FAILED = [o for o in obs if o.status != "proved"]
    res = {"paths": paths, "completed": completed, "unsupported": unsupported, "obligations": [], "failed": [],
           "time": time.time() - t0, "notes": sorted(CTX.notes), "bounded": sorted(CTX.bounded), "side": len(CTX.done)}
    for o in obs:
        d = {"name": o.name, "status": o.status, "backend": o.backend, "time": round(o.time, 3), "kind": o.kind, "path": o.path}
        res["obligations"].append(d)
        if o.status != "proved":
            forced = None
            try:
                if time.time() < deadline + 20 and not hopeless and len(res["failed"]) < 6 and o.status != "not attempted":
                    forced = counter_model(o)
            except Exception:
                forced = None
            d = dict(d)
            d["goal"] = T.show(o.goal, 7)[:1500]
            d["hyps"] = [T.show(h, 5)[:200] for h in o.hyps[:12]]
            d["info"] = o.info
            d["model"] = forced
            res["failed"].append(d)
    return res


def where():
    tb = sys.exc_info()[2]
    out = ""
    for f in traceback.extract_tb(tb):
        if "/xrd_simulator/" in f.filename:
            out = "%s:%d:%s" % (os.path.basename(f.filename), f.lineno, f.name)
    return out


def engine_fault():
    """did the exception originate in the engine's own internals rather than in a modelled library error?"""
    e = sys.exc_info()[1]
    if isinstance(e, (KeyError, AttributeError, TypeError, NameError, AssertionError)):
        tb = traceback.extract_tb(sys.exc_info()[2])
        last = tb[-1].filename
        return "/verif/" in last or last.endswith(("engine/tensor.py", "engine/shims.py", "engine/terms.py", "engine/core.py", "engine/loader.py", "engine/api.py")) or "/contracts/" in last
    return False


def near_facts(o):
    """the inputs are in the ranges samples are drawn from (only to get moderate counter-models, never for a proof)"""
    from . import terms as T
    from .core import CTX
    from .tensor import as_scalar
    out, seen, todo = [], set(), [o.goal] + list(o.hyps)
    while todo:
        t = todo.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op in ("var", "app"):
            r = CTX.near.get(str(t.args[0]).split("~")[0])
            if r is not None:
                lo, hi = [as_scalar(x).to_kind("f").v if t.sort == "R" else T.I(x) if isinstance(x, int) else as_scalar(x).v for x in r]
                out += [T.le(lo, t), T.le(t, hi)]
        todo += T.children(t)
    return out


def counter_model(o):
    from . import terms as T
    from .core import CTX
    m = CTX.prover.model(list(o.hyps) + near_facts(o), o.goal, 2000) or CTX.prover.model(o.hyps, o.goal, 4000)
    if not m:
        return None
    out = []
    memo = {}

    def ival(t):
        if t.op == "const":
            return T.cval(t)
        if t in m:
            return m[t]
        if t.op == "lin":
            s = t.args[0]
            for x, k in t.args[1]:
                v = ival(x)
                if v is None:
                    return None
                s += k * v
            return s
        return None
    for t, v in m.items():
        if v is None:
            continue
        if t.op == "var" and not t.args[0].startswith("$"):
            out.append([t.args[0], v])
        elif t.op == "app":
            idx = [ival(a) for a in t.args[1:] if a.sort == "I"]
            if len(idx) != len(t.args) - 1 or any(i is None for i in idx):
                continue
            out.append([[t.args[0].split("~")[0]] + [int(i) for i in idx], v])
    return out


# ------------------------------------------------------------------ concrete side
def run_concrete(case, seed, n, tier, forced_list=(), time_limit=60.0, only=None, skip=0):
    from .api import ConC, Skip, Violation
    import torch
    import numpy
    stats = {"runs": 0, "skipped": 0, "checks": 0, "failures": [], "detached": [], "distinct": set(), "samples": []}
    t0 = time.time()
    plans = [("model", k, f) for k, f in enumerate(forced_list)] + [("sample", k, None) for k in range(skip, n)]
    if only is not None:
        plans = [only]
    tries = 0
    for kind, k, forced in plans:
        if time.time() - t0 > time_limit:
            break
        attempts = 1 if kind == "model" else 12
        for a in range(attempts):
            h = hashlib.sha256(("%s|%s|%s|%d|%d" % (seed, case.prop, case.name, k, a)).encode()).digest()
            rs = int.from_bytes(h[:8], "big")
            rng = random.Random(rs)
            numpy.random.seed(rs % (2 ** 32))
            torch.manual_seed(rs % (2 ** 31))
            fd = {}
            for key, v in (forced or []):
                if isinstance(key, list):
                    key = tuple(key)
                    if key[0].startswith("pick."):
                        key = (key[0], key[1])
                fd[key] = v
            c = ConC(rng, k, fd, tier)
            fails = []
            t1 = time.time()
            try:
                with warnings.catch_warnings(), numpy.errstate(all="ignore"):
                    warnings.simplefilter("ignore")
                    case.fn(c)
                fails = c.failures
            except Skip:
                stats["skipped"] += 1
                if c.failures:
                    fails = c.failures
                else:
                    continue
            except Violation as e:
                fails = c.failures + [(e.name, e.msg)]
            except HardTimeout:
                if time.time() - t1 < 50:
                    raise
                fails = c.failures + [("terminates", "no result after %d s" % (time.time() - t1))]
            except Exception as e:
                if detached(e) and not c.failures:
                    stats["detached"].append("%s: %s at %s" % (type(e).__name__, str(e)[:200], where()))
                    return stats
                fails = c.failures + [("no-exception.%s" % type(e).__name__, "%s at %s" % (str(e)[:300], where()))]
            finally:
                c.close()
            stats["runs"] += 1
            stats["checks"] += c.nchecks
            if c.nchecks:
                key = hashlib.sha1(repr(c.inputs).encode()).hexdigest()[:12]
                stats["distinct"].add(key)
                if len(stats["samples"]) < 2 and len(repr(c.inputs)) < 1500:
                    stats["samples"].append(jsonable(c.inputs))
            if fails:
                stats["failures"].append({"kind": kind, "k": k, "attempt": a, "forced": forced, "inputs": jsonable(c.inputs), "failed": [list(f) for f in fails[:10]]})
                if len(stats["failures"]) >= 3 or fails[-1][0] == "terminates":
                    return stats
            break
    return stats


LAST_FAILED = []


def guided(case, seed, tier, stats, seconds=45.0):
    """search an input for the failed obligations, guided by a numeric reading of each, and replay it on the real code"""
    from . import search
    t0 = time.time()
    rng = random.Random(seed)
    pool = {}

    def sample(s):
        if s not in pool:
            pool[s] = one_sample(case, seed, tier, s)
        return pool[s]
    obs = sorted((o for o in LAST_FAILED), key=lambda o: T_size(o))[:6]
    for q, o in enumerate(obs):
        left = seconds - (time.time() - t0)
        if left < 2:
            return
        try:
            cand = search.search(o, sample, rng, time.time() + left / (len(obs) - q))
        except RecursionError:
            continue
        if cand:
            more = run_concrete(case, seed, 0, tier, cand[:4], time_limit=20)
            for k in ("runs", "skipped", "checks"):
                stats[k] += more[k]
            stats["failures"] += more["failures"]
            stats["distinct"] |= more["distinct"]
            if stats["failures"]:
                return


def T_size(o):
    from . import terms as T
    return T.size(o.goal) + sum(T.size(h) for h in o.hyps)


def one_sample(case, seed, tier, s):
    from .api import ConC
    import numpy
    import torch
    for a in range(6):
        rs = int.from_bytes(hashlib.sha256(("%s|%s|%d|%d|guided" % (seed, case.name, s, a)).encode()).digest()[:8], "big")
        numpy.random.seed(rs % (2 ** 32))
        torch.manual_seed(rs % (2 ** 31))
        c = ConC(random.Random(rs), 3 if s % 2 else 0, {}, tier)
        try:
            with warnings.catch_warnings(), numpy.errstate(all="ignore"):
                warnings.simplefilter("ignore")
                case.fn(c)
            if c.inputs:
                return c.inputs
        except Exception:
            pass
        finally:
            c.close()
    return None


DETACHED = re.compile(r"module '.*' has no attribute|type object '.*' has no attribute|'(Detector|Polycrystal|TetraMesh|Beam|RigidBodyMotion|_RodriguezRotator|Phase|Obj)' object has no attribute"
                      r"|unexpected keyword argument|required positional argument|positional arguments? but|multiple values for argument|cannot import name")


def detached(e):
    """the contract does not find the function or attribute it is attached to (renamed or moved): not evidence of a wrong result"""
    return isinstance(e, (AttributeError, TypeError, ImportError)) and bool(DETACHED.search(str(e)))


def jsonable(x):
    try:
        s = json.dumps(x)
        return x if len(s) < 20000 else "too large"
    except Exception:
        return repr(x)[:2000]


# ------------------------------------------------------------------ one case
class HardTimeout(BaseException):
    pass


class watchdog(object):
    """raises HardTimeout in the calling thread after so many seconds, again every few seconds until the block is left"""
    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        self.done = threading.Event()
        tid = threading.get_ident()

        def watch():
            wait = max(1.0, self.seconds)
            while not self.done.wait(wait):
                ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(tid), ctypes.py_object(HardTimeout))
                wait = 3.0
        old = threading.stack_size(1 << 20)
        self.thread = threading.Thread(target=watch, daemon=True)
        self.thread.start()
        threading.stack_size(old)
        return self

    def __exit__(self, *a):
        try:
            self.done.set()
            self.thread.join()
        except HardTimeout:
            self.done.set()
        return False


def within(seconds, f, otherwise):
    try:
        with watchdog(seconds):
            r = f()
        return r
    except HardTimeout:
        return otherwise()


def stuck():
    return dict(empty(), detached=["the runs on the real code did not end in time"])


def empty():
    return {"runs": 0, "skipped": 0, "checks": 0, "failures": [], "detached": [], "distinct": set(), "samples": []}


def no_answer():
    global LAST_FAILED
    LAST_FAILED = []
    return {"paths": 0, "completed": 0, "unsupported": [("the time limit was reached within a single step", "")], "obligations": [], "failed": [], "time": 0.0, "notes": [], "bounded": [], "side": 0}


def run_case(args):
    prop, name, tier, seed, limit, end = args
    setup()
    from .api import CASES
    load_contracts(prop)
    case = [c for c in CASES[prop] if c.name == name][0]
    t0 = time.time()
    out = {"case": name, "functions": case.functions, "sym": None, "con": None, "error": None}
    try:
        n = case.samples * (1 if tier == "quick" else 10)
        tl = 60 if tier == "quick" else 240
        if case.do_con:
            out["con"] = within(min(3 * tl, end - time.time()), lambda: run_concrete(case, seed, n, tier, (), time_limit=tl), stuck)
        if case.do_sym:
            out["sym"] = within(min(limit + 60, end - time.time()), lambda: run_symbolic(case, tier, time.time() + limit, hopeless=bool(out["con"] and out["con"]["failures"])), no_answer)
            if case.do_con and not out["con"]["failures"] and (out["sym"]["failed"] or out["sym"]["unsupported"]):
                # replay the counter-models on the real code, and search harder
                forced = [d["model"] for d in out["sym"]["failed"] if d["model"]][:6]
                more = within(min(2 * tl, end - time.time()), lambda: run_concrete(case, seed, n * 4, tier, forced, time_limit=tl, skip=n), empty)
                c = out["con"]
                for k in ("runs", "skipped", "checks"):
                    c[k] += more[k]
                c["failures"] += more["failures"]
                c["detached"] += more["detached"]
                c["distinct"] |= more["distinct"]
                if not c["failures"] and not c["detached"] and LAST_FAILED:
                    within(min(2 * tl, end - time.time()), lambda: guided(case, seed, tier, c), lambda: None)
    except BaseException as e:
        out["error"] = "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-3000:])
    out["time"] = time.time() - t0
    return out


_loaded = set()


def load_contracts(prop=None):
    import importlib
    import glob
    for f in sorted(glob.glob(os.path.join(VERIF, "contracts", "*.py"))):
        n = os.path.basename(f)[:-3]
        if n.startswith("_") or n in _loaded:
            continue
        if prop is not None and not n.startswith(prop.lower()):
            continue
        _loaded.add(n)
        importlib.import_module("contracts." + n)


def main(prop, tier, seed, jobs=8, names=None, verbose=False):
    t0 = time.time()
    setup()
    from .api import CASES
    from . import prove, loader, shims     # warm imports before forking
    import xrd_simulator
    import xrd_simulator.templates
    load_contracts(prop)
    cases = CASES.get(prop, [])
    if names:
        cases = [c for c in cases if c.name in names]
    limit = 240 if tier == "quick" else 600
    end = t0 + (740 if tier == "quick" else 3400)
    work = [(prop, c.name, tier, seed, limit, end) for c in cases]
    results = []
    if jobs > 1 and len(work) > 1:
        ctx = mp.get_context("fork")
        with ctx.Pool(min(jobs, len(work)), maxtasksperchild=1) as pool:
            it = pool.imap_unordered(run_case, work, chunksize=1)
            try:
                for _ in work:
                    results.append(it.next(timeout=max(1.0, end + 60 - time.time())))
            except mp.TimeoutError:
                done = {r["case"] for r in results}
                for c in cases:
                    if c.name not in done:
                        results.append({"case": c.name, "functions": c.functions, "sym": None, "con": None, "error": "no answer in time", "time": time.time() - t0})
                pool.terminate()
    else:
        for w in work:
            results.append(run_case(w))
    results.sort(key=lambda r: r["case"])
    return report(prop, tier, seed, cases, results, time.time() - t0, verbose)


def known_findings():
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: "):
                out.append(l[len("known: "):])
    return out


def report(prop, tier, seed, cases, results, wall, verbose):
    lines = []
    total = disch = 0
    backends = {}
    solver_time = 0.0
    nruns = nchecks = ndistinct = 0
    violations = []
    bounded, notes = [], set()
    rep_dir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rep_dir, exist_ok=True)
    cov_cases = []
    for r in results:
        case = [c for c in cases if c.name == r["case"]][0]
        info = {"case": r["case"], "functions": r["functions"], "wall_s": round(r["time"], 2)}
        fails = []
        if r["error"]:
            fails.append(("checker-error", r["error"][:500], None))
        s = r["sym"]
        if s is not None:
            ob = s["obligations"]
            total += len(ob) + s["side"]
            ok = [o for o in ob if o["status"] == "proved"]
            disch += len(ok) + s["side"]
            for o in ok:
                backends[o["backend"]] = backends.get(o["backend"], 0) + 1
            if s["side"]:
                backends["evaluated"] = backends.get("evaluated", 0) + s["side"]        # decided while executing (ground or by normal form)
            solver_time += sum(o["time"] for o in ob)
            info.update(paths=s["paths"], obligations=len(ob) + s["side"], discharged=len(ok) + s["side"],
                        named=sorted({o["name"] for o in ob})[:60])
            notes |= set(s["notes"])
            if s["bounded"] or case.bounded:
                b = "; ".join(list(s["bounded"]) + ([case.bounded] if case.bounded else []))
                bounded.append("%s: %s" % (r["case"], b))
                info["bounded"] = b
            for u in s["unsupported"]:
                fails.append(("out-of-reach", "%s at %s" % u, None))
            for d in s["failed"]:
                fails.append((d["name"], d["goal"][:300], d))
            if not ob:
                fails.append(("vacuous", "no obligation was generated", None))
        elif case.do_con:
            info["bounded"] = case.bounded or "run time contract checking only"
            bounded.append("%s: %s" % (r["case"], info["bounded"]))
        c = r["con"]
        if c is not None:
            nruns += c["runs"]
            nchecks += c["checks"]
            ndistinct += len(c["distinct"])
            info.update(concrete_runs=c["runs"], concrete_checks=c["checks"])
            for d in c["detached"][:1]:
                fails.append(("contract-detached", d, None))
            if (c["runs"] == 0 or c["checks"] == 0) and not c["failures"] and not c["detached"]:
                fails.append(("vacuous", "no concrete sample satisfies the preconditions", None))
        conf = c["failures"] if c else []
        cov_cases.append(info)
        if conf:
            f = conf[0]
            path = os.path.join(rep_dir, "%s-%s.json" % (prop, r["case"]))
            json.dump({"property": prop, "case": r["case"], "seed": seed, "sample": f, "obligations_failed": [x[:2] for x in fails], "all": conf}, open(path, "w"), indent=1, default=str)
            violations.append((r["case"], path, True, "%s: %s" % tuple(f["failed"][0]), f))
        elif fails:
            path = os.path.join(rep_dir, "%s-%s.json" % (prop, r["case"]))
            json.dump({"property": prop, "case": r["case"], "seed": seed, "failed_obligations": fails, "note": "no failing input found"}, open(path, "w"), indent=1, default=str)
            violations.append((r["case"], path, False, "%s: %s" % (fails[0][0], fails[0][1]), None))
        if verbose:
            print("%-40s %6.1fs" % (r["case"], r["time"]), info.get("obligations"), info.get("discharged"), "paths", info.get("paths"), "runs", info.get("concrete_runs"), info.get("concrete_checks"))
            if s is not None:
                slow = sorted(s["obligations"], key=lambda o: -o["time"])[:2]
                print("      slow:", [(o["name"], o["time"], o["backend"]) for o in slow if o["time"] > 1])
            for f in fails[:8]:
                print("    FAIL", f[0], "|", f[1][:600])
                if f[2] and f[2].get("hyps"):
                    print("       hyps", f[2]["hyps"][:6], f[2].get("info"))
            for f in conf[:2]:
                print("    CONCRETE", f["kind"], f["failed"][:4], str(f["inputs"])[:600])
    if not cases:
        violations.append(("none", "", False, "no contract", None))
    known = known_findings()
    out_viol = []
    seen_known = set()
    for cs, path, rep, msg, f in violations:
        hit = None
        for k in known:
            # property=<id> case=<case> check=<prefix> ...
            kv = dict(x.split("=", 1) for x in k.split(" ") if "=" in x)
            if kv.get("property") == prop and kv.get("case") == cs and rep and all(n.startswith(kv.get("check", "")) for n, _ in f["failed"]):
                hit = k
        if hit:
            seen_known.add(hit)
        else:
            out_viol.append((cs, path, rep, msg))
    from . import evidence
    evidence.write(prop, tier, seed, results, cases, dict(total=total, disch=disch, backends=backends, solver_time=solver_time, runs=nruns,
                   checks=nchecks, distinct=ndistinct, bounded=bounded, notes=sorted(notes), cases=cov_cases), wall, [v for v in out_viol], seen_known)
    for k in known:
        kv = dict(x.split("=", 1) for x in k.split(" ") if "=" in x)
        if kv.get("property") == prop:
            print("KNOWN-FINDING: " + k)
    if any(v[2] for v in out_viol):
        for cs, path, rep, msg in out_viol:
            if not rep:
                print("# %s/%s also undischarged: %s" % (prop, cs, msg[:400].replace("\n", " ")))
        out_viol = [v for v in out_viol if v[2]]
    for cs, path, rep, msg in out_viol:
        print("# %s/%s: %s" % (prop, cs, msg[:400].replace("\n", " ")))
        print("VIOLATION property=%s replay=%s%s" % (prop, path, "" if rep else " no-failing-input-found"))
    print("%s tier=%s cases=%d obligations=%d discharged=%d backends=%s solver=%.1fs concrete_runs=%d checks=%d wall=%.1fs" % (
        prop, tier, len(cases), total, disch, backends, solver_time, nruns, nchecks, wall))
    sys.stdout.flush()
    return 1 if out_viol else 0
