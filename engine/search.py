"""Search for an input that refutes a failed obligation: local search on the inputs of the contract, guided by a numeric reading of the
obligation (distance of the path condition from true and of the goal from false).  Candidates are replayed on the real code."""
import math
import random
import time

from . import terms as T
from .prove import evaluate


class NoValue(Exception):
    pass


def flatten(name, v, out, idx=()):
    if isinstance(v, (list, tuple)):
        for k, x in enumerate(v):
            flatten(name, x, out, idx + (k,))
    else:
        out[(name,) + idx if idx else name] = v


def environment(flat, inputs, extra, scalar_only=False):
    def env(name, args):
        base = name.split("~")[0]
        if not args:
            if name in extra:
                return extra[name]
            v = flat.get(base)
            if v is None and base in inputs and not isinstance(inputs[base], (list, tuple)):
                v = inputs[base]
        elif base.startswith("pick."):
            v = inputs.get(base)
            v = None if v is None else (v == args[0])
        else:
            v = flat.get((base,) + tuple(int(a) for a in args))
        if v is None:
            raise NoValue(name)
        return v
    return env


def _n(x):
    if x != x:
        return 1.0
    if math.isinf(x):
        return 1.0
    return x / (1.0 + x)


def distance(t, want, env, memo):
    """0 iff the boolean term has the wanted value; None when it cannot be evaluated"""
    op = t.op
    try:
        if op in ("lt0", "le0", "eq0"):
            v = evaluate(t.args[0], env, memo)
            v = float(v)
            if v != v:
                return 1.0
            if op == "lt0":
                ok, d = v < 0, abs(v)
            elif op == "le0":
                ok, d = v <= 0, abs(v)
            else:
                ok, d = abs(v) <= 1e-7, abs(v)
                if not want:
                    return 0.0 if abs(v) > 1e-5 else 1.0 - _n(abs(v) * 1e5)
            return 0.0 if ok == want else 1e-6 + _n(d)
        if op == "not":
            return distance(t.args[0], not want, env, memo)
        if op in ("and", "or"):
            ds = [distance(x, want, env, memo) for x in t.args]
            ds = [d for d in ds if d is not None]
            if not ds:
                return None
            return sum(ds) if (op == "and") == want else min(ds)
        if op == "const":
            return 0.0 if bool(t.args[0]) == want else 2.0
        if op == "ite":
            return distance(t.args[1] if evaluate(t.args[0], env, memo) else t.args[2], want, env, memo)
        if op in ("app", "var"):
            return 0.0 if bool(evaluate(t, env, memo)) == want else 1.0
    except (NoValue, ZeroDivisionError, OverflowError, TypeError, ValueError, KeyError):
        return None
    return None


def objective(o, flat, inputs, extra):
    env = environment(flat, inputs, extra)
    memo = {}
    g = distance(o.goal, False, env, memo)
    if g is None:
        return None
    tot = g
    for h in o.hyps:
        d = distance(h, True, env, memo)
        if d is not None:
            tot += d
    return tot


def index_vars(o):
    out = []
    for t in [o.goal] + list(o.hyps):
        for v in T.free_vars(t):
            if v not in out:
                out.append(v)
    return out


def search(o, sample, rng, deadline, starts=6):
    """sample(k) -> inputs of a concrete run satisfying the precondition (or None).  Yields candidate forced inputs, best first."""
    found = []
    for s in range(starts * 4):
        if time.time() > deadline or len(found) >= 4:
            break
        inputs = sample(s)
        if not inputs:
            continue
        flat = {}
        for n, v in inputs.items():
            flatten(n, v, flat)
        names = {n for n in inputs}
        frees = [v for v in index_vars(o) if v.args[0].split("~")[0] not in names]
        if any(v.sort != "I" for v in frees):
            frees = [v for v in frees if v.sort == "I"]
        extra = {v.args[0]: rng.randrange(3) for v in frees}
        best = objective(o, flat, inputs, extra)
        if best is None:
            continue
        keys = [k for k, v in flat.items() if isinstance(v, float)]
        ints = [k for k, v in flat.items() if isinstance(v, tuple) and isinstance(flat[v], int)]
        stale = 0
        t1 = min(deadline, time.time() + max(1.0, (deadline - time.time()) / 2))
        step = 1.0
        while best > 0 and time.time() < t1 and stale < 1500:
            f2, e2 = dict(flat), dict(extra)
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                r = rng.random()
                if e2 and r < 0.1:
                    k = rng.choice(list(e2))
                    e2[k] = rng.randrange(4)
                elif keys:
                    k = rng.choice(keys)
                    r = rng.random()
                    if r < 0.05:
                        f2[k] = rng.choice([0.0, 1.0, -1.0, f2[rng.choice(keys)]])
                    elif r < 0.1:
                        f2[k] = -f2[k]
                    else:
                        f2[k] = f2[k] + (abs(f2[k]) + 0.1) * rng.gauss(0, 1) * 10.0 ** (-rng.random() * 6)
            renorm(f2, inputs)
            v = objective(o, f2, inputs, e2)
            if v is not None and v <= best:
                stale = 0 if v < best * 0.999 else stale + 1
                best, flat, extra = v, f2, e2
            else:
                stale += 1
        if best < 1e-3:
            found.append((best, [[list(k) if isinstance(k, tuple) else k, v] for k, v in flat.items()]))
    found.sort(key=lambda x: x[0])
    return [f for _, f in found]


UNITS = set()


def renorm(flat, inputs):
    for name, batch, n in list(UNITS):
        if name not in inputs:
            continue
        import itertools
        for idx in itertools.product(*[range(d) for d in batch]):
            ks = [(name,) + idx + (q,) for q in range(n)]
            if not all(k in flat for k in ks):
                continue
            s = math.sqrt(sum(flat[k] ** 2 for k in ks))
            if s > 1e-9:
                for k in ks:
                    flat[k] /= s
