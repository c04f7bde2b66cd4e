"""Runs operations of the catalogue: alone in a forked process, in histories, in scheduled threads, with faults."""
import ast
import gc
import hashlib
import importlib
import io
import json
import os
import pickle
import pkgutil
import random
import signal
import sys
import threading
import types

import numpy as np

from . import catalogue as C
from . import sched as S
from .core import SRC, derive, rng_for

PKG = os.path.join(SRC, "adctoolbox") + os.sep
TOOL = 3
mon = sys.monitoring
_tl = threading.local()

# ------------------------------------------------------------------ seams

_real_default_rng = np.random.default_rng


def _default_rng(seed=None):
    """Seam: a generator seeded from the operating system becomes one seeded from the plan."""
    ent = getattr(_tl, "entropy", None)
    if seed is None and ent is not None:
        ent[1] += 1
        return _real_default_rng(derive("entropy", ent[0], ent[1]))
    return _real_default_rng(seed)


def _from_library(depth=2):
    f = sys._getframe(depth)
    for _ in range(3):
        if f is None:
            return False
        fn = f.f_code.co_filename
        if fn.startswith(PKG):
            return True
        if not fn.endswith(("threading.py", "dataclasses.py")):
            return False
        f = f.f_back
    return False


def install_seams():
    """Before the library is imported: its locks become simulated locks, its entropy becomes planned."""
    np.random.default_rng = _default_rng
    real_lock, real_rlock = threading.Lock, threading.RLock

    def lock():
        return S.SimLock() if _from_library() else real_lock()

    def rlock(*a, **k):
        return S.SimLock(True) if _from_library() else real_rlock(*a, **k)
    threading.Lock, threading.RLock = lock, rlock


def forget_library():
    """Drop the imported library, so that the next import runs all of its module code again."""
    for m in [m for m in sys.modules if m == "adctoolbox" or m.startswith("adctoolbox.")]:
        del sys.modules[m]


def import_library(touch_backend=True):
    if touch_backend:
        import matplotlib
        matplotlib.use("Agg")
        import matplotlib.pyplot  # noqa
        preimport()
    import adctoolbox
    for m in pkgutil.walk_packages(adctoolbox.__path__, "adctoolbox."):
        if ".examples" in m.name or m.name.endswith("__main__"):
            continue
        try:
            importlib.import_module(m.name)
        except ImportError:
            pass


def preimport():
    """Third-party and standard modules the library imports anywhere, so that no import happens during a run."""
    names = set()
    for root, dirs, files in os.walk(PKG):
        dirs[:] = [d for d in dirs if d not in ("examples", "__pycache__", "_bundled_skills")]
        for f in files:
            if not f.endswith(".py"):
                continue
            try:
                tree = ast.parse(open(os.path.join(root, f), encoding="utf-8").read())
            except (OSError, SyntaxError):
                continue
            for n in ast.walk(tree):
                if isinstance(n, ast.Import):
                    names.update(a.name for a in n.names)
                elif isinstance(n, ast.ImportFrom) and n.module and not n.level:
                    names.add(n.module)
                    names.update("%s.%s" % (n.module, a.name) for a in n.names)
    for n in sorted(names):
        if n.split(".")[0] == "adctoolbox":
            continue
        try:
            importlib.import_module(n)
        except Exception:
            pass


def warm_plotting():
    """Fill matplotlib's own lazy state (fonts, lazily imported modules) before the first fork."""
    import matplotlib.pyplot as plt
    for kw in ({}, {"projection": "polar"}):
        fig = plt.figure()
        ax = fig.add_subplot(**kw)
        ax.plot([1, 2, 3], label="x")
        ax.legend()
        ax.set_title("warm $10^{-3}$")
        fig.canvas.draw()
    fig, axs = plt.subplots(2, 2)
    axs[0, 0].semilogx([1, 10])
    fig.tight_layout()
    fig.canvas.draw()
    plt.close("all")


def library_code():
    """Every code object of the library."""
    seen, out = set(), []

    def add(code):
        if code in seen or not code.co_filename.startswith(PKG):
            return
        seen.add(code)
        out.append(code)
        for c in code.co_consts:
            if isinstance(c, types.CodeType):
                add(c)
    for o in gc.get_objects():
        if isinstance(o, types.FunctionType):
            add(o.__code__)
    out.sort(key=lambda c: (c.co_filename, c.co_firstlineno, c.co_name))
    return out


CODES = []
NO_FAULT_LINES = {}     # filename -> lines inside except/finally blocks


def prepare():
    global CODES
    CODES = library_code()
    for fn in {c.co_filename for c in CODES}:
        lines = set()
        try:
            tree = ast.parse(open(fn, encoding="utf-8").read())
        except (OSError, SyntaxError):
            tree = ast.Module([], [])
        for n in ast.walk(tree):
            if isinstance(n, (ast.Try, ast.TryStar)):
                for part in list(n.finalbody) + list(n.handlers):
                    lines.update(range(part.lineno, (part.end_lineno or part.lineno) + 1))
        NO_FAULT_LINES[fn] = lines
        hl, hf = hot_places(tree)
        HOT_LINES.update("%s:%d" % (fn[len(PKG):], n) for n in hl)
        HOT_FUNCS.update("%s:%s" % (fn[len(PKG):], q) for q in hf)
        for n, q, lo, hi in state_places(tree):
            STATE_LINES["%s:%d" % (fn[len(PKG):], n)] = (fn[len(PKG):], lo, hi)
            STATE_FUNCS.add("%s:%s" % (fn[len(PKG):], q))
    if mon.get_tool(TOOL) is None:
        mon.use_tool_id(TOOL, "verif")


HOT_LINES = set()       # "file:line" next to state that outlives or crosses calls
HOT_FUNCS = set()       # "file:qualname" containing such a line
_SETTERS = {"seterr", "seterrcall", "simplefilter", "filterwarnings", "catch_warnings", "seed", "set_state", "setstate",
            "set_printoptions", "setlocale", "setattr", "acquire", "release", "use", "switch_backend", "rcParams",
            "environ", "chdir", "setrecursionlimit", "ion", "ioff", "setdefault", "update", "setflags"}


def hot_places(tree):
    """Where a search is most likely to meet shared state: uses of module-level data, attribute stores, context
    managers, process-wide setters.  Only guides the search; no verdict depends on it."""
    shared = set()
    for st in tree.body:
        targets = st.targets if isinstance(st, ast.Assign) else [st.target] if isinstance(st, (ast.AnnAssign, ast.AugAssign)) \
            else []
        for t in targets:
            shared.update(n.id for n in ast.walk(t) if isinstance(n, ast.Name))
    lines, funcs = set(), set()

    def touch(node, qual):
        lines.update(range(node.lineno, (node.end_lineno or node.lineno) + 2))
        if qual:
            funcs.add(qual)

    def visit(node, qual, stmt):
        for ch in ast.iter_child_nodes(node):
            q, st = qual, ch if isinstance(ch, ast.stmt) else stmt
            if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                q = (qual + "." if qual else "") + ch.name
                if not isinstance(ch, ast.ClassDef):
                    if ch.decorator_list and ch.body:
                        touch(ch.body[0], q)
                    inner = q + ".<locals>"
                    visit(ch, inner, ch.body[0])
                    continue
            elif qual:
                name = qual[:-len(".<locals>")] if qual.endswith(".<locals>") else qual
                here = st if isinstance(st, ast.stmt) and not hasattr(st, "body") else ch
                if not hasattr(here, "lineno"):
                    here = stmt
                if isinstance(ch, ast.Name) and ch.id in shared:
                    touch(here, name)
                elif isinstance(ch, ast.Attribute) and (isinstance(ch.ctx, (ast.Store, ast.Del)) or ch.attr in _SETTERS):
                    touch(here, name)
                elif isinstance(ch, (ast.With, ast.Global, ast.Nonlocal)):
                    touch(ch, name)
            visit(ch, q, st)
    visit(tree, "", None)
    return lines, funcs


_MUTATORS = {"append", "add", "clear", "pop", "update", "setdefault", "extend", "remove", "insert", "popitem", "discard",
             "move_to_end", "fill", "sort", "put", "resize", "appendleft", "popleft", "acquire", "release", "set", "wait",
             "cache_clear"}
_GLOBAL_SETTERS = {"seterr", "seterrcall", "simplefilter", "filterwarnings", "resetwarnings", "catch_warnings", "seed",
                   "set_state", "setstate", "set_printoptions", "setlocale", "switch_backend", "rcParams", "environ",
                   "chdir", "setrecursionlimit", "ion", "ioff", "putenv"}
STATE_LINES = {}        # "file:line" -> (file, first, last line of the function): changes to state that outlives a call
STATE_FUNCS = set()


def state_places(tree):
    """Stricter than hot_places: code around data that a function changes and that outlives the call."""
    funcs = []

    def collect(node, qual, cls):
        for ch in ast.iter_child_nodes(node):
            if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef)):
                q = qual + ch.name
                funcs.append((q, ch, cls))
                collect(ch, q + ".<locals>.", False)
            elif isinstance(ch, ast.ClassDef):
                collect(ch, qual + ch.name + ".", True)
            else:
                collect(ch, qual, cls)
    collect(tree, "", False)
    shared = set()
    for st in ast.walk(ast.Module([n for n in tree.body if not isinstance(n, (ast.FunctionDef, ast.ClassDef))], [])):
        if isinstance(st, ast.Name) and isinstance(st.ctx, ast.Store):
            shared.add(st.id)
        elif isinstance(st, ast.ImportFrom):
            shared.update(a.asname or a.name for a in st.names)
    shared.update(n.name for n in tree.body if isinstance(n, (ast.FunctionDef, ast.ClassDef)))
    modules = {(a.asname or a.name).split(".")[0] for n in ast.walk(tree) if isinstance(n, ast.Import) for a in n.names}

    def root(n):
        while isinstance(n, (ast.Attribute, ast.Subscript, ast.Call)):
            n = n.func if isinstance(n, ast.Call) else n.value
        return n.id if isinstance(n, ast.Name) else None

    def own_nodes(f):
        todo = list(f.body)
        while todo:
            n = todo.pop()
            yield n
            if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                todo.extend(ast.iter_child_nodes(n))
    changed = set()         # module-level names a function changes
    kept = set()            # attributes of objects changed outside their constructor
    memo = set()            # functions that remember
    for q, f, cls in funcs:
        glob = {x for n in own_nodes(f) if isinstance(n, ast.Global) for x in n.names}
        local = {n.id for n in own_nodes(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - glob
        args = {a.arg for a in f.args.args + f.args.kwonlyargs + f.args.posonlyargs}
        local |= args
        changed |= glob
        if any((root(d) or "") in ("lru_cache", "cache", "functools", "cached_property") for d in f.decorator_list):
            memo.add(f.name)
        mutable = {a.arg for a, d in list(zip(reversed(f.args.args), reversed(f.args.defaults))) +
                   list(zip(f.args.kwonlyargs, f.args.kw_defaults)) if isinstance(d, (ast.Dict, ast.List, ast.Set, ast.Call))}
        if mutable:
            memo.add(f.name)
        for n in own_nodes(f):
            if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                x = root(n)
                if x in shared and x not in local:
                    changed.add(x)
                elif x == "self" and f.name != "__init__":
                    m = n
                    while isinstance(m, (ast.Subscript, ast.Attribute)) and not (isinstance(m, ast.Attribute) and isinstance(m.value, ast.Name)):
                        m = m.value
                    if isinstance(m, ast.Attribute):
                        kept.add(m.attr)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in _MUTATORS:
                x = root(n.func.value)
                if x in shared and x not in local:
                    changed.add(x)
                elif x == "self" and isinstance(n.func.value, ast.Attribute):
                    kept.add(n.func.value.attr)
            elif isinstance(n, ast.With):
                for it in n.items:
                    x = root(it.context_expr)
                    if isinstance(it.context_expr, (ast.Name, ast.Attribute)) and x in shared and x not in local:
                        changed.add(x)
    out = []
    for q, f, cls in funcs:
        lines = set()

        def touch(n):
            lines.update(range(n.lineno, (n.end_lineno or n.lineno) + 2) if not hasattr(n, "body") else (n.lineno, n.body[0].lineno))
        if f.name in memo and f.body:
            lines.update(range(f.body[0].lineno, (f.end_lineno or f.lineno) + 1))
        todo = [(n, n) for n in f.body]
        while todo:
            n, st = todo.pop()
            if isinstance(n, ast.Name) and n.id in changed:
                touch(st)
            elif isinstance(n, ast.Attribute) and (n.attr in _GLOBAL_SETTERS or
                                                   (n.attr in kept and isinstance(n.value, ast.Name) and n.value.id == "self")):
                touch(st)
            elif isinstance(n, ast.Name) and n.id in memo:
                touch(st)
            elif isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)) and root(n) in modules:
                touch(st)
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                continue
            todo.extend((c, c if isinstance(c, ast.stmt) else st) for c in ast.iter_child_nodes(n))
        for n in sorted(lines):
            out.append((n, q, f.lineno, f.end_lineno or f.lineno))
    return out


_KIND = {}
_DENY = {"seterr", "geterr", "errstate", "seterrcall", "geterrcall", "set_printoptions", "get_printoptions",
         "printoptions", "setbufsize", "get_state", "set_state", "seed", "getstate", "setstate",
         "__enter__", "__exit__", "__del__", "__init__", "__new__"}
_LINALG = {"polyfit", "lstsq", "svd", "solve", "pinv", "eig", "eigvals", "eigh", "inv", "matrix_rank", "curve_fit",
           "least_squares", "minimize", "filtfilt", "lfilter", "butter"}


def kind_of(f):
    """'' | 'num' (numerical library) | 'lin' (can fail to converge) | 'lib' (the library itself)."""
    name = getattr(f, "__name__", "") or ""
    if name in _DENY:
        return ""
    if isinstance(f, types.FunctionType):
        if f.__code__.co_filename.startswith(PKG):
            return "lib"
    elif isinstance(f, types.MethodType):
        if f.__func__.__code__.co_filename.startswith(PKG) if isinstance(f.__func__, types.FunctionType) else False:
            return "lib"
    if isinstance(f, type):
        return ""
    if isinstance(f, np.ufunc):
        return "num"
    if getattr(f, "__objclass__", None) is np.ndarray or isinstance(getattr(f, "__self__", None), np.ndarray):
        return "num"
    mod = getattr(f, "__module__", None) or ""
    if not isinstance(mod, str):
        return ""
    if mod.startswith(("numpy", "scipy")):
        if "linalg" in mod or name in _LINALG:
            return "lin"
        return "num"
    slf = getattr(f, "__self__", None)
    if slf is not None and type(slf).__module__.startswith(("numpy", "scipy")) and not isinstance(slf, type):
        return "num"
    return ""


def in_cleanup(depth):
    """True while the library is inside an except/finally block or leaves a context manager."""
    f = sys._getframe(depth)
    while f is not None:
        c = f.f_code
        if c.co_name in ("__exit__", "__enter__", "__del__"):
            return True
        if c.co_filename.startswith(PKG) and f.f_lineno in NO_FAULT_LINES.get(c.co_filename, ()):
            return True
        f = f.f_back
    return False


def _site(code, off):
    return "%s:%s:%d" % (code.co_filename[len(PKG):], code.co_qualname, off)


ELIGIBLE = {"mem": ("num", "lin"), "lin": ("lin",), "kbi": ("num", "lin", "lib")}


def make_error(kind):
    if kind == "mem":
        return MemoryError("simulated allocation failure")
    if kind == "lin":
        return np.linalg.LinAlgError("simulated: computation did not converge")
    return KeyboardInterrupt()


class Counter:
    """Observes one isolated execution: fault points and lines."""

    def __init__(self):
        self.sites = {}      # site -> [kind, n]
        self.lines = {}      # (code, line) -> n
        self.n = 0

    def call(self, code, off, f, arg0):
        self.n += 1
        k = kind_of(f)
        if k and not in_cleanup(2):
            s = self.sites.setdefault(_site(code, off), [k, 0])
            s[1] += 1

    def line(self, code, ln):
        self.n += 1
        key = "%s:%d" % (code.co_filename[len(PKG):], ln)
        self.lines[key] = self.lines.get(key, 0) + 1


class Injector:
    """Raises one planned failure at the nth visit of a site."""

    def __init__(self, site, nth, kind):
        self.site, self.nth, self.kind = site, nth, kind
        self.seen = 0
        self.fired = None

    def call(self, code, off, f, arg0):
        if self.fired or _site(code, off) != self.site:
            return
        if in_cleanup(2):
            return
        self.seen += 1
        if self.seen >= self.nth:
            self.fired = "%s@%s#%d" % (self.kind, self.site, self.nth)
            raise make_error(self.kind)


def watch(call=None, line=None):
    ev = 0
    mon.register_callback(TOOL, mon.events.CALL, call)
    mon.register_callback(TOOL, mon.events.LINE, line)
    if call:
        ev |= mon.events.CALL
    if line:
        ev |= mon.events.LINE
    for c in CODES:
        mon.set_local_events(TOOL, c, ev)


def unwatch():
    for c in CODES:
        mon.set_local_events(TOOL, c, 0)
    mon.register_callback(TOOL, mon.events.CALL, None)
    mon.register_callback(TOOL, mon.events.LINE, None)


# ------------------------------------------------------------------ values

def canon(v, depth=0):
    if depth > 12:
        return ("deep",)
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return ("objs", v.shape, [canon(x, depth + 1) for x in v.ravel().tolist()])
        a = np.array(v, copy=True)
        if a.dtype.byteorder not in "=|":
            a = a.astype(a.dtype.newbyteorder("="))
        return ("arr", a)
    if isinstance(v, (bool, np.bool_)):
        return ("bool", bool(v))
    if isinstance(v, (int, np.integer)):
        return ("int", int(v))
    if isinstance(v, (float, np.floating)):
        return ("num", float(v))
    if isinstance(v, (complex, np.complexfloating)):
        return ("cplx", complex(v))
    if v is None or isinstance(v, (str, bytes)):
        return ("val", v)
    if isinstance(v, dict):
        return ("dict", {str(k): canon(x, depth + 1) for k, x in v.items()})
    if isinstance(v, (list, tuple)):
        return ("seq", [canon(x, depth + 1) for x in v])
    if isinstance(v, np.random.Generator):
        return ("rng", json.dumps(v.bit_generator.state, default=lambda x: x.tolist()))
    return ("obj", type(v).__name__)


def _arr_diff(a, b, exact):
    if a.shape != b.shape:
        return "shape %s instead of %s" % (b.shape, a.shape)
    if a.dtype.kind != b.dtype.kind:
        return "dtype %s instead of %s" % (b.dtype, a.dtype)
    if a.dtype.kind not in "fc":
        if np.array_equal(a, b):
            return None
        if a.dtype.kind in "iu" and not exact:
            bad = np.flatnonzero((a != b).ravel())
            return "%d of %d integers differ" % (bad.size, a.size)
        return "values differ"
    if a.dtype == b.dtype and np.array_equal(a, b, equal_nan=True):
        return None
    if exact:
        return "values differ"
    na, nb = np.isnan(a), np.isnan(b)
    if not np.array_equal(na, nb):
        return "NaN in different places"
    fa, fb = np.isfinite(a), np.isfinite(b)
    if not np.array_equal(fa, fb) or not np.array_equal(a[~fa & ~na], b[~fb & ~nb]):
        return "infinities in different places"
    x, y = a[fa], b[fb]
    if x.size == 0:
        return None
    scale = float(np.max(np.abs(x)))
    tol = (1e-4 if a.dtype.itemsize <= 4 else 1e-7) * scale + 1e-300
    d = np.abs(x - y)
    if np.all(d <= tol):
        return None
    i = int(np.argmax(d))
    return "value %r instead of %r (%d of %d differ)" % (y.ravel()[i].item(), x.ravel()[i].item(),
                                                         int(np.sum(d > tol)), x.size)


def differ(a, b, exact=False, path="result"):
    """None, or what is different in b (observed) compared with a (expected)."""
    ka, kb = a[0], b[0]
    nums = ("int", "num", "cplx")
    if ka != kb:
        if ka in nums and kb in nums:
            if a[1] == b[1]:
                return None
        return "%s: %s instead of %s" % (path, kb, ka)
    if ka == "arr":
        d = _arr_diff(a[1], b[1], exact)
        return d and "%s: %s" % (path, d)
    if ka in ("num", "cplx"):
        x, y = a[1], b[1]
        if x == y or (x != x and y != y):
            return None
        if not exact:
            try:
                if abs(x - y) <= 1e-7 * max(abs(x), abs(y)) + 1e-12 and abs(x) < float("inf"):
                    return None
            except OverflowError:
                pass
        return "%s: %r instead of %r" % (path, y, x)
    if ka in ("bool", "int", "val", "rng", "obj", "deep"):
        return None if a[1:] == b[1:] else "%s: %r instead of %r" % (path, b[1:], a[1:])
    if ka == "dict":
        if set(a[1]) != set(b[1]):
            return "%s: keys %s instead of %s" % (path, sorted(b[1])[:9], sorted(a[1])[:9])
        for k in a[1]:
            d = differ(a[1][k], b[1][k], exact, "%s[%s]" % (path, k))
            if d:
                return d
        return None
    xs, ys = a[-1], b[-1]
    if ka == "objs" and a[1] != b[1]:
        return "%s: shape" % path
    if len(xs) != len(ys):
        return "%s: length %d instead of %d" % (path, len(ys), len(xs))
    for i, (x, y) in enumerate(zip(xs, ys)):
        d = differ(x, y, exact, "%s[%d]" % (path, i))
        if d:
            return d
    return None


def canon_digest(c):
    h = hashlib.sha256()

    def go(x):
        if isinstance(x, tuple) and x and x[0] == "arr":
            h.update(str((x[1].dtype.str, x[1].shape)).encode())
            h.update(np.ascontiguousarray(x[1]).tobytes())
        elif isinstance(x, (tuple, list)):
            h.update(b"(")
            for y in x:
                go(y)
        elif isinstance(x, dict):
            for k in sorted(x):
                h.update(k.encode())
                go(x[k])
        else:
            h.update(repr(x).encode())
    go(c)
    return h.hexdigest()[:16]


def arrays_of(v, out=None, depth=0):
    """All ndarrays inside a value."""
    if out is None:
        out = []
    if depth > 8:
        return out
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            for x in v.ravel().tolist():
                arrays_of(x, out, depth + 1)
        else:
            out.append(v)
    elif isinstance(v, dict):
        for x in v.values():
            arrays_of(x, out, depth + 1)
    elif isinstance(v, (list, tuple)):
        for x in v:
            arrays_of(x, out, depth + 1)
    return out


# ------------------------------------------------------------------ executing operations

def strip(op):
    return {k: v for k, v in op.items() if k in ("fn", "a", "k", "rs")}


def op_key(op):
    return json.dumps(strip(op), sort_keys=True)


def nested_specs(v, out):
    if isinstance(v, dict):
        if v.get("$") == "res":
            nested_specs(v["op"]["a"], out)
            nested_specs(v["op"]["k"], out)
            out[C.key_of(v)] = v["op"]
        else:
            for x in v.values():
                nested_specs(x, out)
    elif isinstance(v, list):
        for x in v:
            nested_specs(x, out)


class Call:
    """An operation with its arguments resolved."""

    __slots__ = ("op", "args", "kw", "target")

    def __init__(self, op, arena):
        arena.begin_op()
        self.op = op
        self.args = arena.value(op["a"])
        self.kw = arena.value(op["k"])
        self.target = C.function(op["fn"])

    def perform(self, seed=True):
        """-> ("ok", value) | ("exc", type name, text) | ("stuck", text)"""
        op = self.op
        args = self.args
        f = self.target
        if isinstance(f, str):
            f = getattr(args[0], f)
            args = args[1:]
        if seed:
            np.random.seed(op["rs"])
        _tl.entropy = [op["rs"], 0]
        try:
            return ("ok", f(*args, **self.kw))
        except S.Deadlock as e:
            return ("stuck", str(e))
        except BaseException as e:       # the outcome of the call under test
            return ("exc", type(e).__name__, str(e)[:300])
        finally:
            _tl.entropy = None


def unpinned(op):
    """True if the answer is random by design: noise asked for without a generator."""
    return op["fn"].startswith("models.sar_") and op["fn"] in C.RANDOM and "rng" not in op["k"]


def outcome_canon(out):
    if out[0] == "ok":
        return ("ok", canon(out[1]))
    return tuple(out[:2])


def outcome_differ(exp, got, op=None):
    if exp[0] != got[0]:
        def say(o):
            return "an answer" if o[0] == "ok" else "%s" % (o[1],)
        return "gave %s instead of %s" % (say(got), say(exp))
    if exp[0] == "ok":
        if op is not None and unpinned(op):
            return None
        return differ(exp[1], got[1])
    if exp[0] == "exc" and exp[1] != got[1]:
        return "raised %s instead of %s" % (got[1], exp[1])
    return None


def _start_child(fn):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            data = pickle.dumps(fn(), protocol=4)
        except BaseException:
            import traceback
            data = b"!" + traceback.format_exc().encode()
        try:
            view = memoryview(b"%016d" % len(data) + data)
            while view:
                view = view[os.write(w, view):]
        finally:
            os._exit(0)
    os.close(w)
    return pid, r


def _collect_child(pid, r):
    with open(r, "rb", buffering=0) as f:
        head = bytearray(16)
        raw = bytearray(int(head) if _fill(f, head) else 0)
        full = _fill(f, raw)
    os.waitpid(pid, 0)
    if not raw or not full or raw[:1] == b"!":
        raise RuntimeError("isolated execution failed: %s" % bytes(raw[1:]).decode(errors="replace"))
    return pickle.loads(raw)


def _pipe_child(fn):
    """Run fn() in a fork; its pickled value.  Reads into one buffer, so that memory does not depend on timing."""
    return _collect_child(*_start_child(fn))


STATE_OPS = []          # operations that reach STATE_LINES


def find_state_ops(plot=False):
    """Operations that come near lasting state, to be chosen more often.  Only guides the search."""
    global STATE_OPS
    if not any(not k.startswith("__init__.py:") for k in STATE_LINES):
        return
    names = [n for n in C.NAMES if plot or n not in C.PLOT_ALWAYS]

    def some(part):
        def go():
            sys.stdout = io.StringIO()
            found = []
            for name in part:
                r = rng_for("state-ops", name)
                c = C.Ctx(r, True, 0.0)
                c.plot = 0.5 if plot else 0.0
                for _ in range(3):
                    op = C.make(c, r, name)
                    nested = {}
                    try:
                        nested_specs([op["a"], op["k"]], nested)
                        for k, o in list(nested.items()):
                            nested[k] = raw_result(o, nested)
                        if state_near(isolated(op, nested)["lines"]):
                            found.append(name)
                            break
                    except RuntimeError:
                        pass
            return found
        return go
    jobs = [_start_child(some(names[i::8])) for i in range(8)]
    STATE_OPS = sorted(sum((_collect_child(*j) for j in jobs), []))


def _fill(f, buf):
    view = memoryview(buf)
    while view:
        n = f.readinto(view)
        if not n:
            return False
        view = view[n:]
    return True


def isolated(op, nested, count=True, rs=None, figs=None, after=None):
    """What the operation does alone in a fresh process."""
    def go():
        signal.alarm(55)
        arena = C.Arena(shared=False, nested=nested, figs=figs() if figs else None)
        o = dict(op, rs=op["rs"] if rs is None else rs)
        c = Call(o, arena)
        cnt = Counter()
        if count:
            watch(cnt.call, cnt.line)
        out = c.perform()
        if count:
            unwatch()
        ref = {"out": outcome_canon(out), "sites": cnt.sites, "lines": cnt.lines, "n": cnt.n,
               "text": out[2] if out[0] == "exc" else ""}
        if after:
            ref["after"] = after(c, out)
        return ref
    return _pipe_child(go)


def raw_result(op, nested):
    def go():
        signal.alarm(55)
        out = Call(op, C.Arena(shared=False, nested=nested)).perform()
        return pickle.dumps(out[1] if out[0] == "ok" else None, protocol=4)
    return _pipe_child(go)


def pick_fault(fault, ref):
    """The concrete injection for a planned fault, given the fault points of the isolated execution."""
    if "site" in fault:
        return Injector(fault["site"], fault["nth"], fault["kind"])
    kinds = ELIGIBLE[fault["kind"]]
    sites = [s for s in sorted(ref["sites"]) if ref["sites"][s][0] in kinds]
    if not sites:
        return None
    if fault.get("hot"):
        if fault["v"] < 0.7:
            sites = [s for s in sites if s.rsplit(":", 1)[0] in STATE_FUNCS] or sites
        sites = [s for s in sites if s.rsplit(":", 1)[0] in HOT_FUNCS] or sites
    s = sites[int(fault["u"] * len(sites)) % len(sites)]
    n = ref["sites"][s][1]
    nth = 1 + int(fault["v"] * n) % n if fault["v"] > 0.5 else 1
    return Injector(s, nth, fault["kind"])


def ready_axes():
    """The user does not aim an ordinary plot at left-over polar axes."""
    plt = sys.modules.get("matplotlib.pyplot")
    if plt and plt.get_fignums() and plt.gcf().axes and plt.gca().name != "rectilinear":
        plt.figure()


def state_near(lines):
    """Lines around lasting state in the functions these lines belong to (also branches not taken alone)."""
    if not STATE_LINES:
        return []
    seen = {}
    for x in lines:
        f, n = x.rsplit(":", 1)
        seen.setdefault(f, set()).add(int(n))
    return sorted(k for k, (f, lo, hi) in STATE_LINES.items() if any(lo <= n <= hi for n in seen.get(f, ())))


class CallSched(S.Sched):
    """Thread scheduler with a switch rule by place in the source and a per-caller random source."""

    def __init__(self, plan, log, sites=()):
        super().__init__(plan, log)
        self.swap = plan.get("swap", True)
        self.states = {}
        self.holder = None
        self.here = None
        self.chosen = set()
        if self.mode == "sites":
            pool = sorted(sites)
            hot = [x for x in pool if x in HOT_LINES]
            state = state_near(sites)
            u = self.rng.random()
            if state and u < 0.6:
                pool = state
            elif hot and u < 0.75:
                pool = hot
            for _ in range(plan.get("k", 3)):
                if pool:
                    self.chosen.add(pool[self.rng.randrange(len(pool))])

    def _choose(self, cur_ok):
        if self.mode != "sites" or not cur_ok:
            if self.mode == "sites":
                self.mode = "walk"
                try:
                    return super()._choose(cur_ok)
                finally:
                    self.mode = "sites"
            return super()._choose(cur_ok)
        self.step += 1
        forced = None
        if self.fair_from and self.step > self.fair_from:
            forced = self._forced([a for a in self._runnable() if a is not self.cur])
        if forced is not None or (self.here in self.chosen and len(self.taken) <= S.MAX_SWITCHES and self.rng.random() < 0.7):
            others = [a for a in self._runnable() if a is not self.cur]
            if others:
                nxt = forced or self.rng.choice(others)
                self.taken.append([self.step, nxt.idx])
                self.log.add("switch", self.step, nxt.idx, self.here)
                return nxt
        return self.cur

    def _handoff(self, nxt):
        if self.swap and self.holder is not nxt:
            if self.holder is not None:
                self.states[self.holder.idx] = (np.random.get_state(), random.getstate())
            st = self.states.get(nxt.idx)
            if st is not None:
                np.random.set_state(st[0])
                random.setstate(st[1])
            self.holder = nxt
        super()._handoff(nxt)


class Session:
    """Executes a plan's phases; subclasses of the observer see every operation."""

    def __init__(self, plan, res, log, observer=None, count=True, ref_rs=None):
        self.plan, self.res, self.log = plan, res, log
        self.obs = observer
        self.refs = {}
        self.nested = {}
        self.count = count
        self.ref_rs = ref_rs
        self.arena = None
        self.explicit = []
        self.sig = []

    def all_ops(self):
        for ph in self.plan["phases"]:
            for ops in ph["actors"]:
                for op in ops:
                    yield op

    def references(self, after=None, figs=None):
        for op in self.all_ops():
            nested_specs([op["a"], op["k"]], self.nested)
        for k, op in list(self.nested.items()):
            self.nested[k] = raw_result(op, self.nested)
        for op in self.all_ops():
            k = op_key(op)
            if k not in self.refs:
                rs = None if self.ref_rs is None else derive("ref", self.ref_rs, op["rs"]) % (1 << 30)
                self.refs[k] = isolated(op, self.nested, self.count, rs=rs, after=after, figs=figs)

    def nested_only(self):
        """Inputs that are results of other calls; no references."""
        for op in self.all_ops():
            nested_specs([op["a"], op["k"]], self.nested)
        for k, op in list(self.nested.items()):
            self.nested[k] = raw_result(op, self.nested)
        self.count = False

    def ref(self, op):
        return self.refs[op_key(op)]

    def make_arena(self, figs=None):
        mode = self.plan.get("arena", "shared")
        self.arena = C.Arena(shared=(mode == "shared"), reuse=(mode == "reuse"), nested=self.nested, figs=figs)
        return self.arena

    def run(self):
        if self.arena is None:
            self.make_arena()
        for pi, ph in enumerate(self.plan["phases"]):
            if len(ph["actors"]) == 1:
                for oi, op in enumerate(ph["actors"][0]):
                    self.one(pi, 0, oi, op)
            else:
                if not self.threads(pi, ph):
                    return False
        return True

    def note_fault(self, op, inj):
        if inj and inj.fired:
            self.res.fault({"mem": "allocation failure", "lin": "numerical routine fails",
                            "kbi": "user interrupt"}[inj.kind])
            self.log.add("fault", inj.fired)
            op["fault"].update(site=inj.site, nth=inj.nth)

    def one(self, pi, ai, oi, op):
        call = Call(op, self.arena)
        if op["fn"] in C.CAN_PLOT:
            ready_axes()
        inj = None
        if op.get("fault"):
            inj = pick_fault(op["fault"], self.ref(op))
        if self.obs:
            self.obs.before(self, (pi, ai, oi), call)
        if inj:
            watch(inj.call)
        out = call.perform(seed=self.plan.get("reseed", True))
        if inj:
            unwatch()
        self.note_fault(op, inj)
        self.res["steps"] += self.ref(op)["n"] if self.count else 1
        self.finished((pi, ai, oi), call, out, inj)

    def finished(self, where, call, out, inj):
        oc = outcome_canon(out)
        self.log.add("op", call.op["fn"], out[0], canon_digest(oc) if not unpinned(call.op) else "-")
        self.sig.append((call.op["fn"], out[0] if out[0] != "exc" else out[1]))
        if self.obs:
            self.obs.after(self, where, call, out, oc, inj)

    def threads(self, pi, ph):
        lines = set()
        for ops in ph["actors"]:
            for op in ops:
                lines.update(self.ref(op)["lines"])
        est = sum(self.ref(op)["n"] for ops in ph["actors"] for op in ops)
        reseed = self.plan.get("reseed", True)
        sp = dict(ph["sched"], est=est, swap=self.plan.get("swap", reseed))
        sched = CallSched(sp, self.log, lines)
        calls = [[Call(op, self.arena) for op in ops] for ops in ph["actors"]]
        injs = [[pick_fault(op["fault"], self.ref(op)) if op.get("fault") else None for op in ops]
                for ops in ph["actors"]]
        outs = [[None] * len(c) for c in calls]
        current = {}

        def point_line(code, ln):
            a = S.current_actor()
            if a is not None and not a.muted:
                sched.here = "%s:%d" % (code.co_filename[len(PKG):], ln)
                sched.point()

        def point_call(code, off, f, arg0):
            a = S.current_actor()
            if a is None or a.muted:
                return
            inj = current.get(a.idx)
            if inj is not None:
                inj.call(code, off, f, arg0)
            sched.here = None
            sched.point()

        def body(ai):
            def go():
                a = S.current_actor()
                for oi, call in enumerate(calls[ai]):
                    a.muted += 1
                    if self.obs:
                        self.obs.before(self, (pi, ai, oi), call, threaded=True)
                    current[ai] = injs[ai][oi]
                    a.muted -= 1
                    out = call.perform(seed=reseed)
                    a.muted += 1
                    current[ai] = None
                    outs[ai][oi] = out
                    if self.obs:
                        self.obs.after_in_thread(self, (pi, ai, oi), call, out)
                    a.muted -= 1
                    if out[0] == "stuck":
                        break
            return go
        for ai in range(len(calls)):
            sched.add("caller%d" % ai, body(ai))
        watch(point_call, point_line)
        ok = sched.run(hang_s=40.0)
        unwatch()
        self.explicit.append((pi, sched.taken))
        self.res["steps"] += sched.step
        self.res.probe("thread switches", len(sched.taken))
        self.sig.append(("sw", hashlib.sha256(json.dumps(sched.taken).encode()).hexdigest()[:10]))
        if sched.relaxed:
            self.res.probe("left simulated time (real blocking)")
        for ai, cs in enumerate(calls):
            for oi, call in enumerate(cs):
                out = outs[ai][oi]
                self.note_fault(call.op, injs[ai][oi])
                if out is None:
                    out = ("stuck", "the call never finished")
                self.finished((pi, ai, oi), call, out, injs[ai][oi])
        return ok


class Observer:
    def before(self, ses, where, call, threaded=False):
        pass

    def after(self, ses, where, call, out, oc, inj):
        pass

    def after_in_thread(self, ses, where, call, out):
        pass
