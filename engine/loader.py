"""Executes the unmodified sources of the package over the symbolic library contracts."""
import ast
import builtins
import copy
import os
import sys
import types
import importlib
from fractions import Fraction
from . import terms as T
from . import tensor as X
from . import shims
from .terms import TRUE, FALSE, R0, R1, I0, I1, R, I
from .core import CTX, CutLoop, Unsupported, dimterm, dimval
from .tensor import Ten, S, coerce, as_scalar
from .shims import Mod, TTensor, NArray, nt, nt_as, tt, tt_as

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "xrd_simulator"


# ---------------------------------------------------------------- while loops
class WhileMarks(ast.NodeTransformer):
    """Marks what every `for` statement runs over (`for x in e` becomes `for x in __for_iter__(e)`, the identity except for symbolic extents)
    and every `while` loop of a function with its entry and back edge, so that a contract may cut it with an invariant.

    `while C: B` becomes `w = __while_enter__(key, locals()); x = w.get("x", x) ...; while C: B; __while_back__(key, locals())`
    with one update per name the body assigns; without an invariant for the key both calls do nothing."""

    def __init__(self):
        self.scope, self.count = [], {}

    def nest(self, node):
        self.scope.append(node.name)
        self.generic_visit(node)
        self.scope.pop()
        return node

    visit_FunctionDef = visit_ClassDef = nest

    def visit_For(self, node):
        self.generic_visit(node)
        node.iter = ast.copy_location(ast.Call(ast.copy_location(ast.Name("__for_iter__", ast.Load()), node.iter), [node.iter], []), node.iter)
        return node

    def visit_While(self, node):
        if not self.scope:
            return node
        q = ".".join(self.scope)
        k = self.count[q] = self.count.get(q, -1) + 1
        self.generic_visit(node)
        names = {n.id for b in node.body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        names |= {n.value.id for b in node.body for n in ast.walk(b) if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name)}
        names = sorted(names)
        key = "%s#%d" % (q, k)
        pre = ast.parse("__wv__ = __while_enter__(%r, locals(), %r)\n" % (key, names) +
                        "".join("if %r in __wv__:\n    %s = __wv__[%r]\n" % (n, n, n) for n in names)).body
        back = ast.parse("__while_back__(%r, locals())" % key).body
        cont = any(isinstance(n, ast.Continue) for b in node.body for n in ast.walk(b))
        if cont:
            pre = ast.parse("__while_enter__(%r, None, None)" % key).body
            back = []
        for b in pre + back:
            for n in ast.walk(b):
                ast.copy_location(n, node)
        node.body = node.body + back
        return pre + [node]


def while_enter(key, env, names):
    spec = CTX.invariants.get(key)
    if spec is None:
        return {}
    if env is None:
        raise Unsupported("invariant on a loop with continue")
    if any(v not in env for v in spec["vars"]):
        raise Unsupported("the loop %s has no variable %s" % (key, [v for v in spec["vars"] if v not in env]))
    for n in names:
        if n in env and n not in spec["vars"] and not n.startswith("__"):
            raise Unsupported("the loop %s also changes %s" % (key, n))
    c = spec["c"]
    g = c.b(spec["inv"](env)).v
    CTX.oblige("invariant of %s on entry" % key, g, kind="invariant")
    if spec.get("check"):
        spec["check"](env, "on entry")
    new = {}
    for v, mk in spec["vars"].items():
        new[v] = mk(env)
    env2 = dict(env)
    env2.update(new)
    CTX.assume(c.b(spec["inv"](env2)).v)
    spec["head"] = env2
    return new


def while_back(key, env):
    spec = CTX.invariants.get(key)
    if spec is None:
        return
    c = spec["c"]
    CTX.oblige("invariant of %s preserved" % key, c.b(spec["inv"](env)).v, kind="invariant")
    if spec.get("check"):
        spec["check"](env, "preserved")
    if spec.get("variant"):
        a, b = spec["variant"](spec["head"]), spec["variant"](env)
        CTX.oblige("variant of %s decreases" % key, c.and_(c.lt(b, a), c.le(0, a)).v, kind="variant")
    raise CutLoop()


# ---------------------------------------------------------------- builtins
class _Meta(type):
    def __instancecheck__(cls, x):
        return cls._check(x)

    def __subclasscheck__(cls, c):
        return c is cls or issubclass(c, cls._real)

    def __eq__(cls, o):
        return o is cls or o is cls._real

    def __hash__(cls):
        return hash(cls._real)


class FloatShim(metaclass=_Meta):
    _real = float

    @staticmethod
    def _check(x):
        return builtins.isinstance(x, float) or (builtins.isinstance(x, S) and x.kind == "f")

    def __new__(cls, x=0.0):
        if builtins.isinstance(x, Ten):
            return x.item_s().to_kind("f").native()
        if builtins.isinstance(x, S):
            return x.to_kind("f").native()
        return float(x)


class IntShim(metaclass=_Meta):
    _real = int

    @staticmethod
    def _check(x):
        return builtins.isinstance(x, int) or (builtins.isinstance(x, S) and x.kind == "i")

    def __new__(cls, x=0, *a):
        if builtins.isinstance(x, Ten):
            x = x.item_s()
        if builtins.isinstance(x, S):
            if x.special():
                CTX.safety("int-of-nan", x.fin())
            return x.to_kind("i").native()
        return int(x, *a)


FloatShim.__name__ = "float"
IntShim.__name__ = "int"


def len_(x):
    if builtins.isinstance(x, SymList):
        x = x.ten
    if builtins.isinstance(x, Ten):
        if not x._shape:
            raise TypeError("len() of a 0-d tensor")
        return X.wrapdim(x._shape[0])
    return len(x)


class RangeMeta(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, range)


class range_(metaclass=RangeMeta):
    def __new__(cls, *a):
        a = [as_scalar(v).native() if not builtins.isinstance(v, int) else v for v in a]
        if all(builtins.isinstance(v, int) for v in a):
            return range(*a)
        for v in a:
            if builtins.isinstance(v, S) and v.kind != "i":
                raise TypeError("'float' object cannot be interpreted as an integer")
        st, en, sp = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
        return X.SymRange(S(dimterm(st)), S(dimterm(en)), S(dimterm(sp)))


class SymList(object):
    """list of the elements of a one dimensional array of symbolic size; only its length and elements can be asked for"""

    def __init__(self, t):
        self.ten = t

    def __getitem__(self, i):
        return self.ten[i]

    def __getattr__(self, n):
        raise Unsupported("%s of a list of symbolic length" % n)

    def __deepcopy__(self, memo):
        return SymList(copy.deepcopy(self.ten, memo))


class ListShim(metaclass=_Meta):
    _real = list

    @staticmethod
    def _check(x):
        return builtins.isinstance(x, (list, SymList))

    def __new__(cls, x=()):
        if builtins.isinstance(x, Ten) and x._shape and not builtins.isinstance(X.wrapdim(x._shape[0]), int):
            if len(x._shape) != 1:
                raise Unsupported("list of the rows of an array of symbolic size")
            return SymList(NArray(x.reader(), x._shape, x._dtype))
        return list(x)

    def __class_getitem__(cls, k):
        return list[k]


ListShim.__name__ = "list"


def enumerate_(x, start=0):
    g = X.generic(x)
    return builtins.enumerate(x, start) if g is None else X.SymEnum(g, start)


def zip_(*xs, **kw):
    gs = [X.generic(x) for x in xs]
    if all(g is None for g in gs):
        return builtins.zip(*xs, **kw)
    return X.SymZip([g if g is not None else x for g, x in builtins.zip(gs, xs)])


def _mm(name, f, orig):
    def g(*a, key=None, default=None, **kw):
        xs = list(a[0]) if len(a) == 1 else list(a)
        if key is None and any(builtins.isinstance(x, S) for x in xs) and all(coerce(x) is not None for x in xs):
            r = coerce(xs[0])
            for x in xs[1:]:
                r = f(r, coerce(x))
            return r.native()
        if key is not None:
            return orig(*a, key=key)
        if any(builtins.isinstance(x, Ten) for x in xs):
            xs = [x.item_s() if builtins.isinstance(x, Ten) else coerce(x) for x in xs]
            r = xs[0]
            for x in xs[1:]:
                r = f(r, x)
            return r.native()
        return orig(xs, **kw) if default is None else orig(xs, default=default)
    return g


class VFile(object):
    def __init__(self, world, path, mode):
        self.world, self.path, self.mode = world, path, mode
        if "r" in mode and path not in world.files:
            raise FileNotFoundError(path)
        if "w" in mode:
            world.files[path] = None
            world.writes.append(path)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    def write(self, x):
        self.world.files[self.path] = x

    def read(self):
        return self.world.files[self.path]


class World(object):
    """one import universe; module state is rebuilt for every path"""
    code_cache = {}

    def __init__(self):
        self.modules = {}
        self.files = {}
        self.writes = []
        self.torch = shims.build_torch()
        self.np = shims.build_numpy(self.torch)
        self.models = {}
        self.calls = []
        self.b = types.ModuleType("builtins")
        d = self.b.__dict__
        d.update(builtins.__dict__)
        d.update(list=ListShim, enumerate=enumerate_, zip=zip_, __for_iter__=X.for_iter, int=IntShim, float=FloatShim, len=len_, range=range_, min=_mm("min", X.s_min, min), max=_mm("max", X.s_max, max),
                 print=lambda *a, **k: None, __while_enter__=while_enter, __while_back__=while_back, open=lambda p, mode="r", *a, **k: VFile(self, p, mode), __import__=self.imp, str=str)
        self.lib = {"torch": self.torch, "numpy": self.np, "numpy.typing": self.np.typing, "torch.nn.functional": self.torch.nn.functional,
                    "torch.nn": self.torch.nn, "torch.linalg": self.torch.linalg, "torch.cuda": self.torch.cuda, "numpy.linalg": self.np.linalg}
        self.lib.update(extra_libs(self))

    def clone_like(self):
        return World()

    # -------------------------------------------------------- import machinery
    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"]
            name = pkg + ("." + name if name else "")
        top = name.split(".")[0]
        if top == PKG:
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if not hasattr_(m, f) and os.path.exists(self.path_of(name + "." + f)):
                        setattr(m, f, self.load(name + "." + f))
                return m
            return self.load(PKG)
        if name in self.lib or top in self.lib or any(k.startswith(top + ".") for k in self.lib):
            if name in self.lib:
                m = self.lib[name]
            else:
                m = self.stub(name)
            if fromlist:
                return m
            t = self.lib.get(top)
            if t is None:
                t = self.stub(top)
            parts = name.split(".")
            cur = t
            for k in range(1, len(parts)):
                sub = self.lib.get(".".join(parts[:k + 1])) or self.stub(".".join(parts[:k + 1]))
                cur.__dict__.setdefault(parts[k], sub)
                cur = cur.__dict__[parts[k]]
            return t
        if top in ("copy", "typing", "warnings", "logging", "os", "sys", "itertools", "functools", "collections", "__future__", "gc", "time", "abc", "dataclasses", "enum", "re", "pathlib", "io", "contextlib", "numbers", "operator", "string"):
            return builtins.__import__(name, globals, locals, fromlist, level)
        if top == "math":
            return self.math()
        if top == "xfab":
            return self.xfab(name, fromlist)
        m = self.stub(name)
        return m if fromlist else self.stub(top)

    def stub(self, name):
        m = self.lib.get(name)
        if m is None:
            m = Mod(name)
            self.lib[name] = m
        return m

    def math(self):
        m = self.lib.get("math")
        if m is None:
            m = Mod("math")
            for n in ("sin", "cos", "tan", "sqrt", "exp", "acos", "asin", "atan", "floor", "ceil", "degrees", "radians", "isnan", "isinf", "isfinite", "log"):
                m.__dict__[n] = shims.lift1(n, shims.UNARY[n])
            for n in ("floor", "ceil"):
                m.__dict__[n] = (lambda n: (lambda x: as_scalar(shims.lift1(n, shims.UNARY[n])(x)).to_kind("i").native()))(n)
            m.__dict__.update(pi=S(T.PI), inf=float("inf"), nan=float("nan"))
            self.lib["math"] = m
        return m

    def xfab(self, name, fromlist):
        m = self.load_ext(name)
        if fromlist:
            for f in fromlist:
                if not hasattr_(m, f):
                    setattr(m, f, self.load_ext(name + "." + f))
            return m
        return self.load_ext("xfab")

    def load_ext(self, name):
        """numpy based pure python dependency, executed from its installed source over the same contracts"""
        m = self.modules.get(name)
        if m is not None:
            return m
        if name in ("xfab.checks",):
            m = Mod(name)
            self.modules[name] = m
            return m
        import importlib.util
        if name == "xfab.xfab_logging":
            import logging
            m = Mod(name)
            m.get_module_level_logger = lambda n: logging.getLogger("sym." + n)
            self.modules[name] = m
            return m
        if name not in ("xfab", "xfab.tools", "xfab.structure", "xfab.laue", "xfab.sg", "xfab.atomlib", "xfab.symmetry"):
            raise Unsupported("import " + name)
        spec = importlib.util.find_spec(name)
        if name in ("xfab.sg", "xfab.atomlib"):
            m = importlib.import_module(name)
            self.modules[name] = m
            return m
        m = types.ModuleType(name)
        m.__dict__["__builtins__"] = self.b.__dict__
        m.__file__ = spec.origin
        m.__package__ = name if name == "xfab" else "xfab"
        m.__path__ = [os.path.dirname(spec.origin)] if name == "xfab" else None
        self.modules[name] = m
        if name == "xfab":
            import logging
            m.CHECKS = types.SimpleNamespace(activated=False, deactivate=lambda: None, activate=lambda: None)
            for sub in ():
                pass
            return m
        src = open(spec.origin).read()
        code = self.code_cache.get(name)
        if code is None:
            code = compile(src, spec.origin, "exec")
            self.code_cache[name] = code
        exec(code, m.__dict__)
        setattr(self.load_ext("xfab"), name.split(".")[1], m)
        return m

    def path_of(self, name):
        rel = name.split(".")[1:]
        if not rel:
            return os.path.join(REPO, PKG, "__init__.py")
        return os.path.join(REPO, PKG, *rel) + ".py"

    def load(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        path = self.path_of(name)
        if not os.path.exists(path):
            raise ImportError(name)
        if name != PKG:
            self.load(PKG)
            if name in self.modules:
                return self.modules[name]
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = PKG
        m.__dict__["__builtins__"] = self.b.__dict__
        if name == PKG:
            m.__path__ = [os.path.dirname(path)]
        self.modules[name] = m
        code = self.code_cache.get(path)
        if code is None:
            tree = ast.fix_missing_locations(WhileMarks().visit(ast.parse(open(path).read(), path)))
            code = compile(tree, path, "exec")
            self.code_cache[path] = code
        if name != PKG:
            p = self.load(PKG)
            exec(code, m.__dict__)
            setattr(p, name.split(".")[-1], m)
        else:
            exec(code, m.__dict__)
        return m


def hasattr_(m, f):
    return f in m.__dict__


# ---------------------------------------------------------------- other libraries
def extra_libs(w):
    out = {}
    dill = Mod("dill")

    def dump(obj, f, *a, **k):
        f.world.files[f.path] = ("pickle", copy.deepcopy(obj))

    def load(f, *a, **k):
        kind, obj = f.world.files[f.path]
        if kind != "pickle":
            raise ValueError("not a pickle")
        return copy.deepcopy(obj)
    dill.__dict__.update(dump=dump, load=load, HIGHEST_PROTOCOL=5)
    out["dill"] = dill
    sp = Mod("scipy")
    out["scipy"] = sp
    spo = Mod("scipy.optimize")
    out["scipy.optimize"] = spo
    sps = Mod("scipy.spatial")
    out["scipy.spatial"] = sps
    st = Mod("scipy.spatial.transform")
    st.__dict__["Rotation"] = Rotation
    out["scipy.spatial.transform"] = st
    sc = Mod("scipy.special")
    sc.__dict__["j1"] = shims.lift1("j1", shims.f_j1)
    out["scipy.special"] = sc
    mio = Mod("meshio")
    mio.__dict__["Mesh"] = MioMesh

    def write_points_cells(path, points, cells, point_data=None, cell_data=None, **kw):
        """stores nodes, elements and one array per block of cell data, which must have one entry per element"""
        if point_data or kw:
            raise Unsupported("meshio.write_points_cells with %s" % (sorted(kw) or "point data"))
        m = MioMesh(points, cells)
        for k, v in (cell_data or {}).items():
            if len(v) != len(m.cells_dict):
                raise ValueError("Incompatible cell data %r" % k)
            out = []
            for block, x in builtins.zip(m.cells_dict.values(), v):
                x = x.ten if builtins.isinstance(x, SymList) else x if builtins.isinstance(x, Ten) else nt(x)
                if not x._shape or dimterm(x._shape[0]) is not dimterm(block._shape[0]):
                    raise ValueError("Incompatible cell data %r" % k)
                out.append(NArray(x.reader(), x._shape, x._dtype))
            m.cell_data[k] = out
        w.files[path] = ("mesh", m)

    def read(path, *a, **kw):
        if path not in w.files:
            raise FileNotFoundError(path)
        kind, m = w.files[path]
        if kind != "mesh":
            raise ValueError("not a mesh file")
        return copy.deepcopy(m)
    mio.__dict__.update(write_points_cells=write_points_cells, read=read)
    out["meshio"] = mio
    out["meshpy"] = Mod("meshpy")
    out["meshpy.tet"] = Mod("meshpy.tet")
    out["CifFile"] = Mod("CifFile")
    ps = Mod("psutil")
    out["psutil"] = ps
    out["six"] = Mod("six")
    out["six.moves"] = Mod("six.moves")
    out["six.moves"].__dict__["range"] = range_
    import types as _t
    ps.__dict__["virtual_memory"] = lambda: _t.SimpleNamespace(available=S(T.var("mem_available", "R")), total=S(T.var("mem_total", "R")))
    for k in ("linprog",):
        spo.__dict__[k] = lambda *a, **kw: (_ for _ in ()).throw(Unsupported("linprog"))
    sps.__dict__["ConvexHull"] = _unsup("ConvexHull")
    sps.__dict__["HalfspaceIntersection"] = _unsup("HalfspaceIntersection")
    out["meshpy.tet"].__dict__.update(MeshInfo=_unsup("tet.MeshInfo"), build=_unsup("tet.build"))
    out["CifFile"].__dict__["ReadCif"] = _unsup("ReadCif")
    return out


def _unsup(n):
    def f(*a, **k):
        raise Unsupported(n)
    return f


class MioMesh(object):
    def __init__(self, points, cells, point_data=None, cell_data=None, **kw):
        self.points = points if isinstance(points, Ten) else nt(points)
        self.cells = cells
        self.cells_dict = {k: (v if isinstance(v, Ten) else nt(v)) for k, v in (cells if isinstance(cells, (list, tuple)) else cells.items())}
        self.point_data = point_data or {}
        self.cell_data = cell_data or {}

    def write(self, path, *a, **k):
        CTX.world_files.append(path)


class Rotation(object):
    """scipy Rotation on stored matrices.  Contract: from_matrix of a proper rotation keeps it, from_quat normalises (x, y, z, w),
    mean is some rotation (recorded with its arguments), random gives rotations, magnitude is the rotation angle in [0, pi]"""

    def __init__(self, m):
        self.m = m

    @staticmethod
    def _fresh(kind, batch):
        from .api import SymC
        k = len(CTX.templates)
        CTX.templates[("rotation", k)] = 1
        return SymC.rot(CTX.symc, "%s%d" % (kind, k), batch, lib="np")

    @staticmethod
    def from_matrix(m):
        return Rotation(nt_as(m))

    @staticmethod
    def from_quat(q, scalar_first=False):
        from .api import SymC
        q = nt_as(q)
        q = shims.cast(q, X.float64)
        n = shims.norm(q, axis=-1, keepdims=True)
        rd = n.reader()
        ix = [CTX.fresh("$q", "I") for _ in n._shape]
        rng = T.and_(*[T.and_(T.le(I0, v), T.lt(v, d)) for v, d in zip(ix, n._shape)])
        CTX.oblige("safe.quaternion of length zero", T.implies(rng, T.lt(R0, rd(tuple(ix[:-1]) + (I0,)).v)), "safety")
        u = (q / n).reader()
        w, x, y, z = (0, 1, 2, 3) if scalar_first else (3, 0, 1, 2)
        order = (w, x, y, z)

        def comp(i):
            r = u(i[:-1] + (I(order[3]),)).v
            for k in range(3):
                r = T.ite(T.eq(i[-1], I(k)), u(i[:-1] + (I(order[k]),)).v, r)
            return S(r)
        o = NArray(comp, q._shape, X.float64)
        return Rotation(SymC.quat_to_mat(None, o))

    @staticmethod
    def random(num=None, *a, **k):
        return Rotation(Rotation._fresh("rotrandom", () if num is None else (num,)))

    @staticmethod
    def concatenate(rs):
        raise Unsupported("Rotation.concatenate")

    def mean(self, weights=None):
        if weights is not None:
            raise Unsupported("weighted mean of rotations")
        m = Rotation._fresh("rotmean", ())
        CTX.events.append(("rotmean", self.m, m))
        return Rotation(m)

    def as_matrix(self):
        return self.m

    def inv(self):
        return Rotation(shims.transpose_t(self.m, -1, -2))

    def __mul__(self, o):
        return Rotation(shims.matmul(self.m, o.m))

    def __len__(self):
        if len(self.m._shape) != 3:
            raise TypeError("Single rotation has no len().")
        return X.dimval(self.m._shape[0])

    def __getitem__(self, i):
        return Rotation(self.m[i])

    def magnitude(self):
        m = self.m
        rd = m.reader()
        r = NArray(lambda i: S(T.fn("acos", T.scale(Fraction(1, 2), T.sub(T.add(*[rd(i + (I(k), I(k))).v for k in range(3)]), R1)))), m._shape[:-2], X.float64)
        return X.scalarize(r) if not m._shape[:-2] else r

    def __getattr__(self, n):
        raise Unsupported("Rotation." + n)


CTX.world_files = []
