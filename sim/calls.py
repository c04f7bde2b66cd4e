"""C01-C06, R01-R03: sessions of library calls under a seeded scheduler and seeded faults."""
import copy
import decimal  # noqa: F401  (part of the pristine image)
import json
import locale
import os
import random
import sys
import threading
import warnings

import numpy as np

from . import catalogue as C
from . import engine as E
from .core import Log, Result, Scenario, derive, digest

COMPONENTS = {
    "real": ["every public function of adctoolbox (spectrum, aout, dout, calibration, oversampling, timeinterleave, "
             "models, fundamentals, siggen, legacy aliases)", "numpy, scipy, matplotlib (Agg)"],
    "simulated": ["thread scheduling (real threads, one at a time, hand-over at every library line and call)",
                  "threading.Lock/RLock created by the library", "process-wide random state per caller",
                  "operating-system entropy for default_rng()", "allocation, numerical and interrupt failures at "
                  "calls into numpy/scipy"],
}
ASSUME = ["hand-overs happen at Python line and call boundaries of library code, not inside numpy/scipy kernels",
          "answers are compared up to rounding (relative 1e-7 of the largest value)"]


def noplot(names):
    return [n for n in names if n not in C.PLOT_ALWAYS]


def near_state(r, pool):
    """Often only the functions that come near lasting state (none in the unchanged library)."""
    some = [n for n in pool if n in E.STATE_OPS]
    return some if some and r.random() < 0.5 else pool


def pick_names(r, pool, p_focus=0.6):
    """A session about one or two functions, or about everything."""
    few = near_state(r, pool)
    if few is not pool:
        return r.sample(few, min(len(few), r.choice((1, 1, 2))))
    u = r.random()
    if u < p_focus:
        return r.sample(pool, r.choice((1, 1, 2)))
    if u < p_focus + 0.15:
        mod = r.choice(pool).rsplit(".", 1)[0]
        return [n for n in pool if n.startswith(mod + ".")]
    return pool


def sched_plan(r):
    mode = r.choice(("walk", "walk", "few", "sites", "sites") + (("sites",) * 5 if E.STATE_OPS else ()))
    return {"mode": mode, "seed": r.randrange(1 << 40), "p": r.choice((0.003, 0.01, 0.03, 0.1, 0.3)),
            "k": r.choice((1, 2, 3, 6)) if mode == "few" else r.choice((2, 4, 8))}


def fault_plan(r):
    return {"kind": r.choice(("mem", "mem", "mem", "lin", "kbi", "kbi")), "u": r.random(), "v": r.random(),
            "hot": r.random() < 0.3}


def related_actors(c, r, names, n, bad=0.06):
    """n callers at once, mostly about the same functions as the first one."""
    first, _ = C.history(r, r.choice((1, 1, 2)), names=names, bad=bad, ctx=c)
    actors = [first]
    for _ in range(n - 1):
        ops = []
        for _ in range(r.choice((1, 1, 2, 3))):
            u = r.random()
            base = r.choice(first)
            if u < 0.55:
                op = C.related(c, r, base)
            elif u < 0.75:
                op = C.clone(base)
            else:
                op = C.make(c, r, C.choose_name(r, names))
            if r.random() < bad:
                op = C.broken(c, r, op)
            ops.append(op)
        actors.append(ops)
    return actors


def is_lib(op):
    return not op["fn"].startswith("user.")


class CallScenario(Scenario):
    components = COMPONENTS
    assumptions = ASSUME
    sig_measure = "distinct sequences of (function, outcome) and hand-over lists"
    rule = ("a run counts when at least two library calls were made after one another or interleaved; "
            "distinct = different operation/outcome/hand-over sequence")
    count = True
    plots = True
    warm = True

    def prepare(self):
        warnings.simplefilter("ignore")
        E.install_seams()
        E.import_library()
        E.prepare()
        C.keep_known()
        E.find_state_ops()
        if self.plots and self.warm:
            E.warm_plotting()

    def session(self, plan, observer, res, **kw):
        log = Log()
        ses = E.Session(plan, res, log, observer, count=kw.pop("count", self.count), **kw)
        return ses

    def wrap(self, ses, res, plan):
        res["loghash"] = ses.log.hexdigest()
        res["sig"] = digest(ses.sig)[:16]
        n = sum(1 for op in ses.all_ops() if is_lib(op))
        res["nontrivial"] = n >= 2
        res.probe("library calls", n)
        if res["viol"]:
            p = copy.deepcopy(plan)
            for pi, taken in ses.explicit:
                p["phases"][pi]["sched"] = {"mode": "explicit", "switches": taken, "was": p["phases"][pi]["sched"]}
            res["record"] = p
            res["trace"] = ses.log.tail[-60:]
        return res

    def run(self, plan, scratch):
        res = Result()
        ses = self.session(plan, self.observer(plan, res), res)
        ses.references()
        ses.run()
        return self.wrap(ses, res, plan)

    def explicit(self, plan, result):
        return result.get("record") or plan

    def shrink(self, plan):
        ph = plan["phases"]

        def edit(f):
            p = copy.deepcopy(plan)
            f(p)
            return p

        def relax(p, pi):
            s = p["phases"][pi].get("sched")
            if s and s["mode"] == "explicit" and "was" in s:
                p["phases"][pi]["sched"] = dict(s["was"])
        for pi in range(len(ph)):
            if len(ph) > 1:
                yield edit(lambda p: p["phases"].pop(pi))
        for pi, x in enumerate(ph):
            if len(x["actors"]) > 1:
                for ai in range(len(x["actors"])):
                    def f(p):
                        p["phases"][pi]["actors"].pop(ai)
                        if len(p["phases"][pi]["actors"]) == 1:
                            p["phases"][pi].pop("sched", None)
                        else:
                            relax(p, pi)
                    yield edit(f)
            for ai, ops in enumerate(x["actors"]):
                n = len(ops)
                size = n // 2
                while size >= 1:
                    for at in range(0, n, size):
                        if size < n:
                            def f(p):
                                del p["phases"][pi]["actors"][ai][at:at + size]
                                relax(p, pi)
                            yield edit(f)
                    size //= 2
                for oi, op in enumerate(ops):
                    if op.get("fault"):
                        def f(p):
                            p["phases"][pi]["actors"][ai][oi].pop("fault")
                        yield edit(f)
                    if op.get("edit"):
                        def f(p):
                            p["phases"][pi]["actors"][ai][oi].pop("edit")
                        yield edit(f)
        for pi, x in enumerate(ph):
            s = x.get("sched") or {}
            sw = s.get("switches") or []
            if s.get("mode") == "explicit":
                size = max(1, len(sw) // 2)
                while size >= 1 and sw:
                    for at in range(0, len(sw), size):
                        def f(p):
                            del p["phases"][pi]["sched"]["switches"][at:at + size]
                        yield edit(f)
                    if size == 1:
                        break
                    size //= 2
        if plan.get("arena", "shared") != "shared":
            yield edit(lambda p: p.update(arena="shared"))


class Compare(E.Observer):
    """Every answer equals the answer of the same call alone in a fresh process."""

    def __init__(self, res):
        self.res = res

    def after(self, ses, where, call, out, oc, inj):
        op = call.op
        if not is_lib(op):
            return
        if out[0] == "stuck":
            self.res.violation("never-finishes", "%s did not finish: %s" % (op["fn"], out[1]), op["fn"])
            return
        exp = ses.ref(op)["out"]
        if inj is not None and inj.fired:
            if out[0] == "exc":
                return
            d = E.outcome_differ(exp, oc, op)
            if d:
                self.res.violation("silent-failure", "%s hit by %s gave an answer that is not the right one: %s" % (
                    op["fn"], inj.fired, d), op["fn"])
            return
        d = E.outcome_differ(exp, oc, op)
        if d:
            text = " (%s)" % out[2] if out[0] == "exc" else ""
            self.res.violation("answer", "%s call %s: %s%s" % (op["fn"], list(where), d, text), op["fn"])


# ------------------------------------------------------------------ C01

class C01(CallScenario):
    prop = "C01"
    quick_runs = 2500
    thorough_runs = 16000
    run_timeout = 90.0
    hang_is_violation = True
    plots = False

    def gen(self, r, i, tier):
        c = C.Ctx(r, True, 0.015)
        pool = noplot(C.NAMES)
        gens = [n for n in pool if n.startswith("gen.")]
        names = pick_names(r, gens if r.random() < 0.12 else pool)
        if r.random() < 0.15:
            names = r.sample(C.CHEAP, min(4, len(C.CHEAP)))
        phases = []
        if r.random() < (0.35 if E.STATE_OPS else 0.15):    # state that fills up first, then several callers at once
            C.widen(c, r)
            ops, _ = C.spread(c, r, near_state(r, names), r.choice((5, 7, 9, 12, 17)))
            actors = [[C.clone(r.choice(ops)) if r.random() < 0.6 else C.make(c, r, r.choice(ops)["fn"])
                       for _ in range(r.choice((1, 2, 4)))] for _ in range(r.choice((2, 2, 3)))]
            return {"phases": [{"actors": [ops]}, {"actors": actors, "sched": sched_plan(r)}], "arena": "shared"}
        if r.random() < 0.25:
            ops, _ = C.history(r, r.choice((1, 2)), names=names, bad=0.15, ctx=c)
            phases.append({"actors": [ops]})
        actors = related_actors(c, r, names, r.choice((2, 2, 2, 3, 3, 4)))
        phases.append({"actors": actors, "sched": sched_plan(r)})
        if r.random() < 0.4:
            op = C.clone(r.choice(r.choice(actors)))
            op.pop("bad", None)
            phases.append({"actors": [[op, C.related(c, r, op)]]})
        return {"phases": phases, "arena": r.choice(("shared", "shared", "fresh"))}

    def observer(self, plan, res):
        return Compare(res)


# ------------------------------------------------------------------ C02

class C02(CallScenario):
    prop = "C02"
    quick_runs = 2200
    thorough_runs = 16000
    count = False
    run_timeout = 90.0

    def gen(self, r, i, tier):
        u = r.random()
        plot = r.choice((0.0, 0.0, 0.0, 0.3, 0.6))
        c = C.Ctx(r, True)
        pool = C.NAMES if plot else noplot(C.NAMES)
        if u < 0.12:        # long session of few distinct calls
            few = near_state(r, noplot(C.NAMES))
            names = r.sample(few, min(len(few), r.choice((1, 2, 3))))
            base, _ = C.history(r, r.choice((2, 4, 8)), names=names, bad=0.1, ctx=c)
            ops = [C.clone(r.choice(base)) for _ in range(r.choice((40, 80, 140)))]
            tail, _ = C.history(r, 3, names=names, bad=0.1, ctx=c)
            ops += tail + [C.clone(base[0])]
        elif u < 0.20:      # long session of many distinct cheap calls
            cheap = [n for n in C.CHEAP if n in C.NAMES]
            n = r.choice((30, 70))
            ops, _ = C.history(r, n, names=r.sample(cheap, r.choice((1, 2, 4))), bad=0.05, ctx=c)
            ops += [C.clone(op) for op in ops[:4]]
        elif u < 0.30:
            ops, again = C.spread(C.widen(c, r), r, near_state(r, noplot(C.NAMES)), r.choice((10, 20)))
            ops += again
        elif u < 0.45:
            ops = C.storm(c, r, near_state(r, noplot(C.NAMES)))
        else:
            ops, _ = C.history(r, r.choice((5, 8, 12)), plot=plot, names=pick_names(r, pool), bad=0.15, ctx=c)
            libs = [o for o in ops if is_lib(o)]
            if libs and r.random() < 0.5:
                ops.append(C.clone(libs[0]))
        return {"phases": [{"actors": [ops]}], "arena": r.choice(("shared", "reuse", "reuse", "fresh"))}

    def observer(self, plan, res):
        return Compare(res)


# ------------------------------------------------------------------ C03

def containers(v, out, depth=0):
    if depth > 6:
        return
    if isinstance(v, dict):
        out.append(v)
        for x in v.values():
            containers(x, out, depth + 1)
    elif isinstance(v, (list, tuple)):
        out.append(v)
        for x in v:
            containers(x, out, depth + 1)


def public_state(g):
    return {k: v for k, v in sorted(vars(g).items()) if not k.startswith("_")}


class Snapshot:
    """Everything the caller owns in one call: bytes of arrays and of the buffers they are views of, containers,
    generator parameters."""

    def __init__(self, call, arena):
        self.arrs = []
        self.conts = []
        self.gens = []
        for where, v in [("argument %d" % i, a) for i, a in enumerate(call.args)] + \
                        [("argument %s" % k, a) for k, a in call.kw.items()]:
            self.take(where, v, arena)

    def take(self, where, v, arena):
        cls = type(v).__name__
        if cls == "ADC_Signal_Generator" or (hasattr(v, "get_clean_signal") and hasattr(v, "__dict__")):
            self.gens.append((where, v, E.canon(public_state(v))))
            return
        if hasattr(v, "num") and hasattr(v, "den") and not isinstance(v, np.ndarray):
            for part in (v.num, v.den):
                if isinstance(part, np.ndarray):
                    self.arr(where, part, arena)
            return
        for a in E.arrays_of(v):
            self.arr(where, a, arena)
        if isinstance(v, (dict, list)):
            self.conts.append((where, v, E.canon(v)))

    def arr(self, where, a, arena):
        own = arena.owners.get(id(a))
        self.arrs.append((where, a, a.tobytes(), (a.shape, a.dtype.str, a.strides, a.flags.writeable),
                          own, own.tobytes() if own is not None else None))

    def changes(self):
        for where, a, data, meta, own, odata in self.arrs:
            if (a.shape, a.dtype.str, a.strides, a.flags.writeable) != meta:
                yield where, "the array's shape, type, layout or flags changed"
            elif a.tobytes() != data:
                old = np.frombuffer(data, dtype=a.dtype).ravel()
                new = np.frombuffer(a.tobytes(), dtype=a.dtype).ravel()
                with np.errstate(all="ignore"):
                    n = int(np.sum(~((old == new) | ((old != old) & (new != new)))))
                yield where, "%d of %d elements of the array changed" % (n, old.size)
            elif own is not None and own.tobytes() != odata:
                yield where, "memory around the array view changed"
        for where, v, c in self.conts:
            d = E.differ(c, E.canon(v), exact=True, path="content")
            if d:
                yield where, d
        for where, g, c in self.gens:
            d = E.differ(c, E.canon(public_state(g)), exact=True, path="parameters")
            if d:
                yield where, "generator " + d


class Untouched(E.Observer):
    def __init__(self, res):
        self.res = res
        self.snaps = {}

    def before(self, ses, where, call, threaded=False):
        if not threaded and is_lib(call.op):
            self.snaps[where] = Snapshot(call, ses.arena)

    def after(self, ses, where, call, out, oc, inj):
        s = self.snaps.pop(where, None)
        if s is None:
            return
        for arg, what in s.changes():
            how = {"ok": "succeeded", "exc": "failed", "stuck": "hung"}[out[0]]
            if inj is not None and inj.fired:
                how += " (%s)" % inj.fired
            self.res.violation("input-changed", "%s %s and changed the caller's data: %s: %s" % (
                call.op["fn"], how, arg, what), call.op["fn"])


class C03(CallScenario):
    prop = "C03"
    quick_runs = 3500
    thorough_runs = 24000

    def gen(self, r, i, tier):
        plot = r.choice((0.0, 0.0, 0.4))
        c = C.Ctx(r, True)
        pool = C.NAMES if plot else noplot(C.NAMES)
        ops, _ = C.history(r, r.choice((4, 6, 8)), plot=plot, names=pick_names(r, pool, 0.5), bad=0.1, ctx=c)
        mode = r.choice(("none", "none", "some", "most"))
        for op in ops:
            if mode != "none" and is_lib(op) and r.random() < {"some": 0.35, "most": 0.85}[mode]:
                op["fault"] = fault_plan(r)
        return {"phases": [{"actors": [ops]}], "arena": r.choice(("shared", "shared", "reuse"))}

    def run(self, plan, scratch):
        res = Result()
        faulty = any(op.get("fault") for ph in plan["phases"] for ops in ph["actors"] for op in ops)
        ses = self.session(plan, Untouched(res), res, count=faulty)
        if faulty:
            ses.references()
        else:
            ses.nested_only()
        ses.run()
        return self.wrap(ses, res, plan)


# ------------------------------------------------------------------ C04

class Kept(Compare):
    """Results stay as returned; editing them influences nothing."""

    def __init__(self, res):
        super().__init__(res)
        self.kept = []      # [fn, value, canon, args]

    def inputs(self, ses):
        out = []
        for v in list(ses.arena.objects.values()):
            if type(v).__name__ == "ADC_Signal_Generator":
                continue
            E.arrays_of(v, out)
        out += [o for o in ses.arena.owners.values() if o is not None]
        return out

    def after(self, ses, where, call, out, oc, inj):
        super().after(ses, where, call, out, oc, inj)
        op = call.op
        for k in self.kept:
            d = E.differ(k[2], E.canon(k[1]), exact=True)
            if d:
                self.res.violation("result-changed", "a result of %s changed when %s was called later: %s" % (
                    k[0], op["fn"], d), k[0])
                k[2] = E.canon(k[1])
        if out[0] != "ok" or not is_lib(op):
            return
        cont = []
        containers(out[1], cont)
        if E.arrays_of(out[1]) or cont:
            self.kept.append([op["fn"], out[1], oc[1], (call.args, call.kw)])
            self.kept = self.kept[-24:]
        if op.get("edit") and self.kept:
            r = random.Random(op["edit"])
            k = self.kept[-1] if r.random() < 0.6 else r.choice(self.kept)
            self.edit(ses, k, r)

    def edit(self, ses, k, r):
        value = k[1]
        own = self.inputs(ses)
        E.arrays_of(list(k[3][0]) + list(k[3][1].values()), own)
        mine = []
        containers([v for v in k[3][0]] + list(k[3][1].values()), mine)
        ids = {id(m) for m in mine}
        n = 0
        for a in E.arrays_of(value):
            if not a.flags.writeable or a.size == 0 or any(np.may_share_memory(a, o) for o in own):
                continue
            if a.dtype.kind == "b":
                a[...] = ~a
            elif a.dtype.kind in "fc":
                a[...] = r.choice((0.0, -7.25, 1e3))
            elif a.dtype.kind in "iu":
                a[...] = r.choice((0, 3))
            n += 1
        cont = []
        containers(value, cont)
        for x in cont:
            if id(x) in ids:
                continue
            if isinstance(x, dict):
                for key in list(x):
                    if not isinstance(x[key], (np.ndarray, dict, list)):
                        x[key] = "edited"
                x["edited by the caller"] = 1
                n += 1
            elif isinstance(x, list):
                x.append("edited")
                n += 1
        if n:
            self.res.probe("results edited in place")
        self.kept = [q for q in self.kept if not self.overlap(q, value, k)]

    def overlap(self, q, value, k):
        """Results to forget: the edited one and those handed out by the same call."""
        return q is k


class C04(CallScenario):
    prop = "C04"
    quick_runs = 2800
    thorough_runs = 20000
    count = False

    def gen(self, r, i, tier):
        plot = r.choice((0.0, 0.0, 0.0, 0.4))
        c = C.Ctx(r, True)
        pool = C.NAMES if plot else noplot(C.NAMES)
        ops, _ = C.history(r, r.choice((4, 6, 9)), plot=plot, names=pick_names(r, pool, 0.65), bad=0.05, ctx=c)
        out = []
        for op in ops:
            out.append(op)
            if is_lib(op) and r.random() < 0.55:
                op["edit"] = r.randrange(1 << 30) + 1
                if r.random() < 0.6:
                    again = C.clone(op)
                    again.pop("edit", None)
                    if r.random() < 0.4:
                        again = C.related(c, r, again)
                        again.pop("edit", None)
                    out.append(again)
        return {"phases": [{"actors": [out]}], "arena": r.choice(("shared", "shared", "fresh"))}

    def observer(self, plan, res):
        return Kept(res)


# ------------------------------------------------------------------ C05

def thread_settings():
    import scipy.special
    po = np.get_printoptions()
    return {"floating-point error handling": dict(np.geterr()), "floating-point error callback": id(np.geterrcall()),
            "scipy.special error handling": dict(scipy.special.geterr()),
            "array print options": {k: repr(v) for k, v in po.items()}}


def process_settings():
    import matplotlib
    s = thread_settings()
    s["warning filters"] = [(f[0], getattr(f[1], "pattern", f[1]), f[2].__name__, getattr(f[3], "pattern", f[3]), f[4])
                            for f in warnings.filters]
    s["warning display"] = (id(warnings.showwarning), id(warnings.formatwarning), id(warnings._showwarnmsg_impl))
    s["plotting defaults"] = {k: repr(dict.__getitem__(matplotlib.rcParams, k)) for k in sorted(matplotlib.rcParams)}
    s["plotting backend"] = str(matplotlib.get_backend())
    plt = sys.modules.get("matplotlib.pyplot")
    s["plotting interactive mode"] = (matplotlib.is_interactive(),)
    s["plotting backend object"] = getattr(getattr(plt, "_backend_mod", None), "__name__", None)
    s["working directory"] = os.getcwd()
    s["environment"] = dict(os.environ)
    s["recursion limit"] = sys.getrecursionlimit()
    s["locale"] = locale.setlocale(locale.LC_ALL)
    return s


def settings_diff(a, b):
    for k in a:
        if a[k] != b[k]:
            x, y = a[k], b[k]
            if isinstance(x, dict):
                keys = [q for q in sorted(set(x) | set(y)) if x.get(q) != y.get(q)]
                yield k, "%s: %r -> %r" % (keys[0], x.get(keys[0]), y.get(keys[0]))
            elif isinstance(x, list):
                yield k, "%d entries -> %d entries; first now %r" % (len(x), len(y), y[:1])
            else:
                yield k, "%r -> %r" % (x, y)


RC = {"font.size": (7.0, 13.0), "lines.linewidth": (0.7, 3.0), "axes.grid": (True, False), "figure.dpi": (50.0, 120.0),
      "axes.titlesize": ("small", 9.0), "savefig.dpi": (60.0,), "figure.figsize": ([3.0, 2.0], [8.0, 4.0]),
      "axes.unicode_minus": (False,), "legend.fontsize": ("small", 6.0), "font.family": (["serif"], ["monospace"]),
      "figure.autolayout": (True, False), "axes.formatter.useoffset": (False,), "xtick.direction": ("in",),
      "figure.facecolor": ("lightgrey",), "mathtext.default": ("regular",), "image.cmap": ("gray",)}


def customise(p, scratch):
    """What a user may have set before."""
    import matplotlib
    import matplotlib.pyplot as plt
    warnings.resetwarnings()
    for act, mod in p["filters"]:
        warnings.filterwarnings(act, category={"R": RuntimeWarning, "U": UserWarning, "W": Warning,
                                               "D": DeprecationWarning}[mod])
    np.seterr(**p["err"])
    np.set_printoptions(**p["print"])
    if p["backend"] != "Agg":
        plt.switch_backend(p["backend"])
    for k, v in p["rc"].items():
        matplotlib.rcParams[k] = v
    if p["ion"]:
        plt.ion()
    os.chdir(scratch)
    os.environ.update(p["env"])
    for k in p["unset"]:
        os.environ.pop(k, None)
    sys.setrecursionlimit(p["rec"])
    for loc in p["locale"]:
        try:
            locale.setlocale(locale.LC_ALL, loc)
            break
        except locale.Error:
            pass


class Settings(E.Observer):
    def __init__(self, res):
        self.res = res
        self.snap = None
        self.intruder = {}

    def begin(self):
        self.snap = process_settings()

    def report(self, a, b, what):
        for k, d in settings_diff(a, b):
            self.res.violation("setting-changed", "%s changed %s: %s" % (what, k, d), k)
            return True
        return False

    def before(self, ses, where, call, threaded=False):
        if threaded:
            self.intruder[where[1]] = thread_settings()

    def after_in_thread(self, ses, where, call, out):
        self.report(self.intruder[where[1]], thread_settings(), "%s (in its own thread)" % call.op["fn"])

    def after(self, ses, where, call, out, oc, inj):
        if len(ses.plan["phases"][where[0]]["actors"]) > 1:
            return
        now = process_settings()
        if not is_lib(call.op):
            self.snap = now
            return
        how = "a call that %s" % {"ok": "succeeded", "exc": "failed", "stuck": "hung"}[out[0]]
        if inj is not None and inj.fired:
            how += ", hit by %s," % inj.fired
        if self.report(self.snap, now, "%s: %s" % (call.op["fn"], how)):
            self.snap = now


class C05(CallScenario):
    prop = "C05"
    quick_runs = 1800
    thorough_runs = 14000
    needs_scratch = True
    components = dict(COMPONENTS, real=COMPONENTS["real"] + ["import of the package in a customised process"])

    def prepare(self):
        warnings.simplefilter("ignore")
        E.install_seams()
        import matplotlib
        matplotlib.use("Agg")
        import matplotlib.pyplot  # noqa
        import matplotlib.backends.backend_svg  # noqa
        import matplotlib.backends.backend_pdf  # noqa
        import matplotlib.backends.backend_template  # noqa
        E.preimport()
        E.warm_plotting()
        before = process_settings()
        E.import_library(touch_backend=False)
        self.import_diff = list(settings_diff(before, process_settings()))
        E.prepare()
        C.keep_known()
        E.find_state_ops()

    def gen(self, r, i, tier):
        c = C.Ctx(r, True)
        plot = r.choice((0.0, 0.0, 0.5))
        names = pick_names(r, C.NAMES if plot else noplot(C.NAMES), 0.5)
        ops, _ = C.history(r, r.choice((2, 4, 6)), plot=plot, names=names, bad=0.2, ctx=c)
        mode = r.choice(("none", "some", "most"))
        for op in ops:
            if is_lib(op) and mode != "none" and r.random() < {"some": 0.4, "most": 0.9}[mode]:
                op["fault"] = fault_plan(r)
        phases = [{"actors": [ops]}]
        if r.random() < 0.5:
            actors = related_actors(c, r, noplot(names) or noplot(C.NAMES), r.choice((2, 2, 3)), 0.1)
            for a in actors:
                for op in a:
                    if r.random() < 0.15:
                        op["fault"] = fault_plan(r)
            phases.insert(r.choice((0, 1)), {"actors": actors, "sched": sched_plan(r)})
        modes = ("ignore", "warn", "raise") if r.random() < 0.4 else ("ignore", "warn")
        custom = {
            "err": {k: r.choice(modes) for k in ("divide", "over", "under", "invalid")},
            "print": {"precision": r.choice((3, 8, 12)), "suppress": r.random() < 0.5,
                      "threshold": r.choice((20, 1000)), "linewidth": r.choice((60, 75, 200))},
            "filters": [[r.choice(("ignore", "always", "once", "default") + (("error",) if r.random() < 0.3 else ())),
                         r.choice("RUWD")] for _ in range(r.choice((0, 1, 3)))],
            "rc": {k: r.choice(RC[k]) for k in r.sample(sorted(RC), r.choice((0, 3, 8)))},
            "backend": r.choice(("Agg", "Agg", "svg", "pdf", "template")),
            "ion": r.random() < 0.2,
            "env": {"VERIF_MARK": "m%d" % r.randrange(9), **({"MPLBACKEND": r.choice(("svg", "Agg"))}
                                                           if r.random() < 0.4 else {})},
            "unset": ["OPENBLAS_NUM_THREADS"] if r.random() < 0.3 else [],
            "rec": r.choice((700, 1000, 3000)),
            "locale": r.choice((["C"], ["C.UTF-8"], ["C.utf8", "C"])),
        }
        return {"phases": phases, "arena": r.choice(("shared", "fresh")), "custom": custom,
                "import": r.random() < 0.15}

    def run(self, plan, scratch):
        res = Result()
        for k, d in self.import_diff:
            res.violation("setting-changed", "importing the package changed %s: %s" % (k, d), k)
        obs = Settings(res)
        # references (fault points, line lists) come from a process with default settings
        ses = E.Session(plan, res, Log(), obs, count=True)
        if any(op.get("fault") for op in ses.all_ops()) or any(len(p["actors"]) > 1 for p in plan["phases"]):
            ses.references()
        else:
            ses.nested_only()
        if plan["import"]:
            E.forget_library()
        customise(plan["custom"], scratch)
        obs.begin()
        import io
        sys.stdout = io.StringIO()
        if plan["import"]:
            E.import_library(touch_backend=False)
            obs.report(obs.snap, process_settings(), "importing the package")
            obs.begin()
            E.prepare()
        ses.run()
        obs.report(obs.snap, process_settings(), "the session, by its end,")
        sys.stdout = sys.__stdout__
        return self.wrap(ses, res, plan)


# ------------------------------------------------------------------ C06

class C06(CallScenario):
    prop = "C06"
    quick_runs = 3000
    thorough_runs = 20000
    run_timeout = 90.0
    hang_is_violation = True

    def gen(self, r, i, tier):
        c = C.Ctx(r, True)
        plot = r.choice((0.0, 0.0, 0.0, 0.3))
        names = pick_names(r, C.NAMES if plot else noplot(C.NAMES), 0.7)
        ops = []
        if r.random() < 0.4:
            ops += C.history(r, r.choice((1, 2)), plot=plot, names=names, bad=0.1, ctx=c)[0]
        for _ in range(r.choice((1, 1, 2))):
            op = C.make(c, r, C.choose_name(r, names))
            if r.random() < 0.3 and ops and is_lib(ops[-1]):
                op = C.related(c, r, ops[-1])
            for _ in range(r.choice((1, 1, 2, 3))):
                f = C.clone(op)
                f["fault"] = fault_plan(r)
                ops.append(f)
            clean = C.clone(op)
            follow = [clean, C.related(c, r, clean), C.related(c, r, clean)]
            if r.random() < 0.5:
                follow.append(C.make(c, r, C.choose_name(r, names)))
            r.shuffle(follow)
            ops += follow
        phases = [{"actors": [ops]}]
        if r.random() < 0.2:
            c.plot = 0.0        # plots on the current axes are not for several threads
            npn = noplot(names) or noplot(C.NAMES)
            actors = []
            base = C.make(c, r, C.choose_name(r, npn))
            for _ in range(2):
                row = [C.related(c, r, base) if r.random() < 0.6 else C.clone(base) for _ in range(2)]
                if r.random() < 0.7:
                    row[0]["fault"] = fault_plan(r)
                actors.append(row)
            phases = [{"actors": actors, "sched": sched_plan(r)}, {"actors": [[C.clone(base)]]}]
        return {"phases": phases, "arena": r.choice(("shared", "shared", "fresh"))}

    def observer(self, plan, res):
        return Compare(res)


# ------------------------------------------------------------------ R01

def gstate():
    st = np.random.get_state(legacy=True)
    return digest(st[0], st[1].tobytes(), st[2:], random.getstate())[:16]


def rng_state(g):
    if isinstance(g, np.random.RandomState):
        st = g.get_state(legacy=True)
        return digest(st[0], st[1].tobytes(), st[2:])[:16]
    return digest(json.dumps(g.bit_generator.state, default=lambda x: x.tolist(), sort_keys=True))[:16]


def rng_of(op):
    v = op["k"].get("rng")
    return v if isinstance(v, dict) else None


class Supplied(E.Observer):
    def __init__(self, res):
        self.res = res
        self.pre = {}
        self.expect = {}

    def others(self, ses, call):
        mine = call.kw.get("rng")
        return {k: rng_state(v) for k, v in ses.arena.objects.items()
                if isinstance(v, (np.random.Generator, np.random.RandomState)) and v is not mine}

    def before(self, ses, where, call, threaded=False):
        if rng_of(call.op):
            self.pre[where] = (gstate(), self.others(ses, call) if not threaded else None)
        if call.op["fn"].startswith("noise."):
            pass

    def after_in_thread(self, ses, where, call, out):
        self.done(ses, where, call, out)

    def done(self, ses, where, call, out):
        op = call.op
        if not rng_of(op):
            return
        g0, oth = self.pre.pop(where)
        if gstate() != g0:
            self.res.violation("global-random-touched", "%s, given a generator, advanced or reseeded the process-wide "
                               "random state" % op["fn"], op["fn"])
        if oth is not None and self.others(ses, call) != oth:
            self.res.violation("other-generator-touched", "%s advanced a generator it was not given" % op["fn"], op["fn"])
        exp, end = self.expect[op["id"]]
        d = E.outcome_differ(exp, E.outcome_canon(out), None)
        if d:
            self.res.violation("not-only-the-generator", "%s with an equal generator gave a different result: %s" % (
                op["fn"], d), op["fn"])
        elif rng_state(call.kw["rng"]) != end:
            self.res.violation("generator-advanced-differently", "%s left an equal generator in a different state" %
                               op["fn"], op["fn"])

    def after(self, ses, where, call, out, oc, inj):
        if len(ses.plan["phases"][where[0]]["actors"]) == 1:
            self.done(ses, where, call, out)


RNG_FNS = ("models.sar_convert", "models.sar_apply_cap_mismatch", "models.sar_apply_mismatch")


class R01(CallScenario):
    prop = "R01"
    quick_runs = 4000
    thorough_runs = 30000
    plots = False

    def gen(self, r, i, tier):
        c = C.Ctx(r, True)
        fns = [n for n in RNG_FNS if n in C.NAMES]
        noise = sorted(n for n in C.RANDOM if n in C.NAMES)
        ident = [0]

        def rng_op(owner):
            op = C.make(c, r, r.choice(fns))
            op["k"]["rng"] = dict(C.rng_spec(r), own=owner)
            if r.random() < 0.6:
                op["k"]["rng"]["seed"] = 11
            if op["fn"] == "models.sar_convert" and r.random() < 0.7:
                op["k"].setdefault("sampling_noise_rms", 0.01)
            if r.random() < 0.1:
                op = C.broken(c, r, op)
                op["k"]["rng"] = op["k"]["rng"] if isinstance(op["k"].get("rng"), dict) else dict(C.rng_spec(r), own=owner)
            op["id"] = ident[0] = ident[0] + 1
            return op

        def other():
            u = r.random()
            if u < 0.5:
                op = C.make(c, r, r.choice(noise))
                op["k"].pop("rng", None)
            elif u < 0.7:
                op = {"fn": "user.draw", "a": [], "k": {}, "rs": 1}
            else:
                op = C.make(c, r, C.choose_name(r, noplot(C.NAMES)))
                if rng_of(op):
                    op["k"].pop("rng")
            return op

        def row(owner, n):
            return [rng_op(owner) if r.random() < 0.6 else other() for _ in range(n)]
        if r.random() < 0.6:
            phases = [{"actors": [row(0, r.choice((4, 8)))]}]
        else:
            phases = [{"actors": [row(a, r.choice((1, 2, 3))) for a in range(r.choice((2, 3)))], "sched": sched_plan(r)}]
            if r.random() < 0.4:
                phases.append({"actors": [row(9, 2)]})
        return {"phases": phases, "arena": r.choice(("shared", "fresh")), "reseed": False, "swap": True,
                "keep": r.random() < 0.6, "s0": r.randrange(1 << 30), "s1": r.randrange(1 << 30)}

    def run(self, plan, scratch):
        res = Result()
        obs = Supplied(res)
        threaded = any(len(p["actors"]) > 1 for p in plan["phases"])
        ses = self.session(plan, obs, res, count=threaded)
        if threaded:
            ses.references()
        else:
            ses.nested_only()
        mine = [op for op in ses.all_ops() if rng_of(op)]

        def alone():
            """Only the calls with a generator, one after another, under another process-wide random state."""
            np.random.seed(plan["s1"] % (1 << 32))
            random.seed(plan["s1"])
            arena = C.Arena(shared=False, nested=ses.nested)
            arena.keep_rng = plan["keep"]
            out = {}
            for op in mine:
                call = E.Call(dict(op, rs=op["rs"] ^ 0x5a5a5), arena)
                o = call.perform(seed=False)
                out[op["id"]] = (E.outcome_canon(o), rng_state(call.kw["rng"]))
            return out
        obs.expect = E._pipe_child(alone)
        np.random.seed(plan["s0"] % (1 << 32))
        random.seed(plan["s0"])
        ses.make_arena()
        ses.arena.keep_rng = plan["keep"]
        ses.run()
        res.probe("calls with a supplied generator", len(mine))
        return self.wrap(ses, res, plan)


# ------------------------------------------------------------------ R02

class Sequence(E.Observer):
    def __init__(self, res, threaded):
        self.res = res
        self.threaded = threaded
        self.pre = None
        self.expect = {}

    def before(self, ses, where, call, threaded=False):
        if not threaded:
            self.pre = gstate()

    def after(self, ses, where, call, out, oc, inj):
        op = call.op
        if op.get("noise"):
            d = E.outcome_differ(self.expect[op["noise"]], oc, None)
            if d:
                self.res.violation("noise-not-replayed", "the seeded noise sequence changed at %s (draw %d): %s" % (
                    op["fn"], op["noise"], d), op["fn"])
        elif is_lib(op) and len(ses.plan["phases"][where[0]]["actors"]) == 1:
            if gstate() != self.pre:
                self.res.violation("random-state-touched", "%s advanced or reseeded the process-wide random state" %
                                   op["fn"], op["fn"])


class R02(CallScenario):
    prop = "R02"
    quick_runs = 3000
    thorough_runs = 22000
    plots = True

    def quiet_names(self):
        return [n for n in C.NAMES if n not in C.RANDOM or n in RNG_FNS]

    def gen(self, r, i, tier):
        big = r.random() < 0.12
        c = C.Ctx(r, True, 1.0 if big else 0.03)
        noise = sorted(n for n in C.NOISE_METHODS if n in C.NAMES)
        plot = 0.9 if big else r.choice((0.0, 0.0, 0.4))
        pool = self.quiet_names()
        names = pick_names(r, pool if plot else noplot(pool), 0.5)
        k = [0]
        faults = not big and r.random() < 0.4

        def noisy():
            op = C.make(c, r, r.choice(noise))
            op["noise"] = k[0] = k[0] + 1
            return op

        def quiet(plot):
            op = C.history(r, 1, plot=plot, names=names if plot else (noplot(names) or noplot(pool)), bad=0.15, ctx=c)[0][0]
            if op["fn"] in RNG_FNS and not isinstance(op["k"].get("rng"), dict):
                op["k"]["rng"] = C.rng_spec(r)
            if faults and is_lib(op) and r.random() < 0.4:
                op["fault"] = fault_plan(r)
            return op
        if big:
            ops = [noisy(), quiet(plot), quiet(plot), quiet(plot)]
            phases = [{"actors": [ops + [noisy()]]}]
        elif r.random() < 0.7:
            ops = [noisy() if r.random() < 0.45 else quiet(plot) for _ in range(r.choice((6, 9)))]
            phases = [{"actors": [ops + [noisy()]]}]
        else:
            rows = [[noisy() for _ in range(r.choice((2, 3)))]]
            rows += [[quiet(0.0) for _ in range(r.choice((1, 2)))] for _ in range(r.choice((1, 2)))]
            phases = [{"actors": rows, "sched": sched_plan(r)}, {"actors": [[noisy()]]}]
        return {"phases": phases, "arena": "shared", "reseed": False, "s0": r.randrange(1 << 30)}

    def run(self, plan, scratch):
        res = Result()
        threaded = any(len(p["actors"]) > 1 for p in plan["phases"])
        obs = Sequence(res, threaded)
        ses = self.session(plan, obs, res)
        need = threaded or any(op.get("fault") for op in ses.all_ops())
        ses.count = need
        if need:
            ses.references()
        else:
            ses.nested_only()
        noisy = [op for op in ses.all_ops() if op.get("noise")]

        def alone():
            np.random.seed(plan["s0"] % (1 << 32))
            arena = C.Arena(shared=False)
            return {op["noise"]: E.outcome_canon(E.Call(op, arena).perform(seed=False)) for op in noisy}
        obs.expect = E._pipe_child(alone)
        np.random.seed(plan["s0"] % (1 << 32))
        ses.run()
        res.probe("noise draws in sequence", len(noisy))
        return self.wrap(ses, res, plan)


# ------------------------------------------------------------------ R03

def ideal_sar(vin, w, rng):
    lo, hi = rng
    v = (np.atleast_1d(np.asarray(vin, dtype=float)) - lo) / (hi - lo)
    out = np.zeros(v.shape + (len(w),), dtype=np.int8)
    near = np.zeros(v.shape, dtype=bool)
    dac = np.zeros_like(v)
    for j in range(len(w)):
        t = dac + w[j]
        near |= np.abs(v - t) < 1e-12 * (1 + np.abs(t))
        bit = v >= t
        out[..., j] = bit
        dac = np.where(bit, t, dac)
    return out, near


ZERO = {"gen.apply_thermal_noise": {"noise_rms": 0.0}, "gen.apply_jitter": {"jitter_rms": 0.0},
        "gen.apply_am_noise": {"strength": 0.0}, "gen.apply_drift": {"drift_scale": 0.0},
        "gen.apply_glitch": {"glitch_prob": 0.0}}
LOUD = {"gen.apply_thermal_noise": ("noise_rms", (1e-9, 50e-6, 1e-2, 1.0)), "gen.apply_jitter": ("jitter_rms", (1e-13, 1e-11)),
        "gen.apply_am_noise": ("strength", (1e-6, 0.01, 0.5)), "gen.apply_drift": ("drift_scale", (1e-6, 5e-5, 1e-2)),
        "gen.apply_glitch": ("glitch_prob", (0.3, 0.6))}


class R03(CallScenario):
    prop = "R03"
    quick_runs = 12000
    thorough_runs = 90000
    plots = False
    count = False

    def gen(self, r, i, tier):
        c = C.Ctx(r, True)
        kinds = sorted(n for n in list(ZERO) + list(RNG_FNS) if n in C.NAMES)
        items = []
        for _ in range(r.choice((3, 5))):
            fn = r.choice(kinds)
            op = C.make(c, r, fn)
            k = op["k"]
            zero = r.random() < 0.5
            if fn in ZERO:
                if "input_signal" in k and r.random() < 0.4:
                    k["input_signal"] = c.sig(r, n=op["a"][0]["N"], dt=r.choice(("f8", "f4")))
                if zero:
                    k.update(ZERO[fn])
                    if fn.endswith("glitch") and r.random() < 0.5:
                        k.update(glitch_prob=r.choice((0.3, 1.0)), glitch_amplitude=0.0)
                else:
                    name, ch = LOUD[fn]
                    k[name] = r.choice(ch)
                    if fn.endswith("glitch"):
                        k["glitch_amplitude"] = r.choice((0.1, 1e-3))
                    if "input_signal" in k:
                        k["input_signal"] = dict(k["input_signal"], dt="f8",
                                                 var=r.choice(("plain", "scaled", "neg", "shift", "perm")))
                how = "global"
            else:
                k.pop("rng", None)
                how = r.choice(("rng", "rng", "entropy"))
                if fn == "models.sar_convert":
                    n, nb = r.choice(c.n), r.choice(c.nb)
                    op["a"] = [c.sig(r, n=n, dt=r.choice(("f8", "f4")), var=r.choice(("plain", "scaled", "neg"))),
                               {"$": "wts", "nb": nb, "base": r.randrange(9), "var": "norm", "dt": "f8",
                                "lay": r.choice(("c", "ro", "list"))}]
                    qr = r.choice(((0.0, 1.0), (0.0, 1.0), (-0.5, 1.5), (0.2, 0.9)))
                    k.clear()
                    if qr != (0.0, 1.0):
                        k["quant_range"] = {"$": "tuple", "v": list(qr)}
                    op["qr"] = list(qr)
                    if zero:
                        for nm in ("sampling_noise_rms", "comparator_noise_rms"):
                            if r.random() < 0.5:
                                k[nm] = r.choice((0.0, 0))
                    else:
                        k[r.choice(("sampling_noise_rms", "comparator_noise_rms"))] = r.choice((0.05, 0.2))
                else:
                    op["a"] = [{"$": "wts", "nb": r.choice(c.nb), "base": r.randrange(9),
                                "var": r.choice(("norm", "plain", "ints")), "dt": "f8",
                                "lay": r.choice(("c", "ro", "step", "list"))}, 0.0 if zero else r.choice((1e-6, 0.01, 0.3))]
                    cu = k.get("cap_units")
                    k.clear()
                    if cu is not None and r.random() < 0.3:
                        k["cap_units"] = {"$": "nums", "n": op["a"][0]["nb"], "base": 3, "lo": 1.0, "hi": 64.0}
            op["r3"] = {"zero": zero, "how": how, "states": [r.randrange(1 << 30) for _ in range(3)]}
            items.append(op)
        return {"phases": [{"actors": [items]}], "arena": r.choice(("shared", "fresh"))}

    def call(self, op, state, arena):
        o = C.clone(op)
        if op["r3"]["how"] == "rng":
            o["k"]["rng"] = {"$": "rng", "seed": state, "bg": "PCG64"}
        o["rs"] = state
        call = E.Call(o, arena)
        call.op["rs"] = state
        return call, call.perform(seed=True)

    def ideal(self, op, call):
        fn = op["fn"]
        if fn in ZERO:
            g = call.args[0]
            x = call.kw.get("input_signal")
            if x is None:
                x = g.A * np.sin(2 * np.pi * g.Fin * (np.arange(g.N) / g.Fs)) + g.DC
            return np.asarray(x, dtype=float)
        if fn == "models.sar_convert":
            return None
        return np.asarray(call.args[0], dtype=float)

    def run(self, plan, scratch):
        res = Result()
        log = Log()
        sig = []
        arena = C.Arena(shared=plan["arena"] == "shared")
        n = 0
        for op in plan["phases"][0]["actors"][0]:
            fn = op["fn"]
            z = op["r3"]["zero"]
            s1, s2, s3 = op["r3"]["states"]
            outs = []
            for st in (s1, s2, s1):
                call, o = self.call(op, st, arena)
                n += 1
                outs.append(o)
                log.add(fn, st, o[0], E.canon_digest(E.outcome_canon(o)))
            res["steps"] += 3
            sig.append((fn, z, op["r3"]["how"], [o[0] for o in outs]))
            if any(o[0] != "ok" for o in outs):
                if len({o[:2] for o in outs if o[0] != "ok"}) != 1 or any(o[0] == "ok" for o in outs):
                    res.violation("depends-on-state", "%s is accepted or rejected depending on the random state" % fn, fn)
                continue
            a, b, a2 = (E.canon(o[1]) for o in outs)
            d = E.differ(a, a2)
            if d:
                res.violation("same-state-differs", "%s gave different noise for the same random state: %s" % (fn, d), fn)
            if z:
                res.probe("zero-level calls")
                d = E.differ(a, b)
                if d:
                    res.violation("zero-level-random", "%s at level zero depends on the random state: %s" % (fn, d), fn)
                if fn == "models.sar_convert":
                    exp, near = ideal_sar(call.args[0], np.asarray(call.args[1], dtype=float), op["qr"])
                    got = np.asarray(outs[0][1])
                    if got.shape != exp.shape or np.any((got != exp).any(axis=-1) & ~near):
                        res.violation("zero-level-not-ideal", "%s without noise is not the ideal conversion" % fn, fn)
                else:
                    exp = self.ideal(op, call)
                    got = np.asarray(outs[0][1])
                    tol = 1e-6 if any(isinstance(v, np.ndarray) and v.dtype.kind == "f" and v.dtype.itemsize < 8
                                      for v in list(call.args) + list(call.kw.values())) else 1e-9
                    if got.shape != exp.shape or not np.allclose(got, exp, rtol=tol,
                                                                 atol=tol * max(1.0, float(np.max(np.abs(exp)))), equal_nan=True):
                        res.violation("zero-level-not-ideal", "%s at level zero is not the noise-free value (largest "
                                      "difference %r)" % (fn, float(np.max(np.abs(got - exp)))
                                                          if got.shape == exp.shape else "shape"), fn)
            else:
                res.probe("noisy calls")
                x, y = np.asarray(outs[0][1]), np.asarray(outs[1][1])
                if x.shape == y.shape and np.array_equal(x, y, equal_nan=x.dtype.kind in "fc"):
                    res.violation("noise-stuck", "%s gave the same noise for two different random states" % fn, fn)
        res["sig"] = digest(sig)[:16]
        res["nontrivial"] = n > 0
        res["loghash"] = log.hexdigest()
        return res

    def shrink(self, plan):
        ops = plan["phases"][0]["actors"][0]
        for i in range(len(ops)):
            if len(ops) > 1:
                p = copy.deepcopy(plan)
                del p["phases"][0]["actors"][0][i]
                yield p


ALL = {k.prop: k for k in (C01, C02, C03, C04, C05, C06, R01, R02, R03)}
