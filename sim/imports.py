"""I01: importing the package in any order, from several threads, again, and after interrupted imports."""
import copy
import errno
import importlib
import importlib._bootstrap as boot
import importlib.machinery
import io
import os
import sys
import types
import warnings
import _thread

from . import calls as K
from . import catalogue as C
from . import engine as E
from . import sched as S
from .core import Log, Result, Scenario, digest, rng_for

mon = sys.monitoring
PKG = E.PKG
CODE = {}           # path -> compiled module
LOADS = None        # fault plan of the loader while a run is active


def module_names():
    out = []
    for root, dirs, files in os.walk(PKG):
        dirs[:] = sorted(d for d in dirs if d not in ("examples", "__pycache__") and not d.startswith("_bundled"))
        rel = os.path.relpath(root, os.path.dirname(PKG.rstrip(os.sep))).replace(os.sep, ".")
        for f in sorted(files):
            if f.endswith(".py") and f != "__main__.py":
                out.append(rel if f == "__init__.py" else rel + "." + f[:-3])
    return sorted(out)


class Loads:
    """Seam on reading module files: the n-th read of a run may fail."""

    def __init__(self):
        self.n = {}
        self.fail = {}

    def read(self, path):
        a = S.current_actor()
        k = a.idx if a else 0
        self.n[k] = self.n.get(k, 0) + 1
        f = self.fail.get(k)
        if f and self.n[k] == f[0]:
            self.fail.pop(k)
            f[2].append("read of %s" % path[len(PKG):])
            raise f[1]


def install():
    real = importlib.machinery.SourceFileLoader.get_code

    def get_code(self, name):
        path = self.path
        if not path.startswith(PKG):
            return real(self, name)
        if LOADS is not None:
            LOADS.read(path)
        if path not in CODE:
            CODE[path] = self.source_to_code(self.get_data(path), path)
        return CODE[path]
    importlib.machinery.SourceFileLoader.get_code = get_code
    real_acquire = boot._ModuleLock.acquire

    def acquire(self):
        sched = getattr(S._local, "sched", None)
        if S.current_actor() is None or sched is None:
            return real_acquire(self)
        tid = _thread.get_ident()
        with boot._BlockingOnManager(tid, self):
            while True:
                if self.count == [] or self.owner == tid:
                    self.owner = tid
                    self.count.append(True)
                    return True
                if self.has_deadlock():
                    raise boot._DeadlockError("deadlock detected by %r" % self.name)
                sched.block_until(lambda: self.count == [])
    boot._ModuleLock.acquire = acquire


def _where(v):
    return "%s.%s" % (getattr(v, "__module__", "?"), getattr(v, "__qualname__", type(v).__name__))


def interface(modules, identity=True):
    """Public names of these modules and what they are bound to."""
    out = {}
    for name in modules:
        m = sys.modules.get(name)
        if m is None:
            continue
        public = vars(m).get("__all__")
        if public is not None:
            out[name + " __all__"] = repr(sorted(map(str, public)))
            names = list(public)
        else:
            names = [k for k, v in vars(m).items()
                     if not k.startswith("_") and callable(v) and getattr(v, "__module__", "") == name]
        for k in names:
            v = getattr(m, k, None)
            if isinstance(v, types.ModuleType):
                d = "module " + v.__name__
            elif callable(v):
                d = "callable " + _where(v)
                home = sys.modules.get(getattr(v, "__module__", None))
                if identity and home is not None and getattr(v, "__module__", "").startswith("adctoolbox"):
                    d += " (the one of its module)" if getattr(home, getattr(v, "__name__", ""), None) is v else " (another)"
            else:
                d = type(v).__name__
            out["%s %s" % (name, k)] = d
    return out


def import_one(name):
    try:
        importlib.import_module(name)
        return ("ok",)
    except S.Deadlock as e:
        return ("stuck", str(e))
    except BaseException as e:
        return ("exc", type(e).__name__, str(e)[:200])


ERRORS = {"kbi": KeyboardInterrupt, "mem": lambda: MemoryError("simulated allocation failure"),
          "eio": lambda: OSError(errno.EIO, "simulated read error"),
          "emfile": lambda: OSError(errno.EMFILE, "simulated: too many open files"),
          "perm": lambda: PermissionError(errno.EACCES, "simulated: file not readable")}
NAMES = {"kbi": "user interrupt during import", "mem": "allocation failure during import",
         "eio": "module file read error", "emfile": "out of file handles during import",
         "perm": "module file not readable"}


class I01(Scenario):
    prop = "I01"
    quick_runs = 4000
    thorough_runs = 25000
    run_timeout = 90.0
    hang_is_violation = True
    components = {"real": ["module code of the whole package", "Python's import system"],
                  "simulated": ["thread scheduling at module source lines", "import locks", "reading of module files "
                                "(compiled once from the working tree)", "interrupts and failures during import"]}
    assumptions = ["third-party modules are already imported and do not fail",
                   "threads import the package itself before its parts (Python's own import locks refuse circular waits otherwise)",
                   "submodules as attributes of a package are not part of its public interface after a failed import"]
    sig_measure = "distinct sequences of (import step, outcome, fault, hand-overs)"
    rule = ("one case = one import history (orders, threads, interruptions, reloads) followed by a plain import; it counts "
            "when at least one step before the final import did something")

    def prepare(self):
        warnings.simplefilter("ignore")
        E.install_seams()
        import matplotlib
        matplotlib.use("Agg")
        import matplotlib.pyplot  # noqa
        E.preimport()
        E.warm_plotting()
        install()
        self.mods = module_names()
        for m in self.mods:     # compile once, in the parent
            p = os.path.join(os.path.dirname(PKG.rstrip(os.sep)), *m.split("."))
            p = p + ".py" if os.path.exists(p + ".py") else os.path.join(p, "__init__.py")
            CODE[p] = compile(open(p, "rb").read(), p, "exec", dont_inherit=True)

        def base():
            E.import_library(touch_backend=False)
            return [n for n in C.NAMES if C.known(n)]
        known = set(E._pipe_child(base))
        C.drop([n for n in C.NAMES if n not in known])

        def plain():
            n = [0]

            def line(code, ln):
                if code.co_filename.startswith(PKG):
                    n[0] += 1
                    return None
                return mon.DISABLE
            self.start(line)
            import_one("adctoolbox")
            self.stop()
            return n[0]
        self.lines = E._pipe_child(plain)

        def alone(m):
            o = import_one(m)
            return o, interface([m]), interface([m], False)
        self.outs, self.expect, self.expect_reload = {}, {}, {}
        for m in self.mods:
            self.outs[m], self.expect[m], self.expect_reload[m] = E._pipe_child(lambda: alone(m))
        r = rng_for("imports", "calls")
        c = C.Ctx(r, True, 0.0)
        names = K.noplot(C.NAMES)
        self.calls = [C.make(c, r, n) for n in r.sample(names, min(60, len(names)))]

        def refs():
            sys.stdout = io.StringIO()
            E.import_library(touch_backend=False)
            return [E.isolated(op, {}, count=False)["out"] for op in self.calls]
        self.refs = E._pipe_child(refs)

    @staticmethod
    def start(line):
        mon.use_tool_id(E.TOOL, "verif")
        mon.register_callback(E.TOOL, mon.events.LINE, line)
        mon.set_events(E.TOOL, mon.events.LINE)

    @staticmethod
    def stop():
        mon.set_events(E.TOOL, 0)
        mon.register_callback(E.TOOL, mon.events.LINE, None)
        mon.free_tool_id(E.TOOL)

    def gen(self, r, i, tier):
        pkgs = [m for m in self.mods if m.count(".") <= 1]

        def some(k):
            return [r.choice(pkgs if r.random() < 0.5 else self.mods) for _ in range(k)]

        def fault(u=None):
            how = r.choice(("line", "line", "load"))
            return {"how": how, "u": (r.random() if u is None else u),
                    "kind": r.choice(("kbi", "kbi", "mem") if how == "line" else ("eio", "emfile", "perm", "kbi"))}
        steps = []
        for _ in range(r.choice((1, 1, 2, 3, 4))):
            if r.random() < 0.35:
                na = r.choice((2, 2, 3))
                st = {"actors": [["adctoolbox"] + some(r.choice((0, 1, 2))) for _ in range(na)], "sched": K.sched_plan(r)}
                st["sched"]["mode"] = r.choice(("walk", "few"))
                st["faults"] = [fault() if r.random() < 0.25 else None for _ in range(na)]
            else:
                st = {"actors": [some(r.choice((1, 1, 3, 8)))], "faults": [fault() if r.random() < 0.7 else None]}
            steps.append(st)
        return {"steps": steps, "reload": some(r.choice((1, 1, 2))) if r.random() < 0.2 else [],
                "calls": [r.randrange(len(self.calls)) for _ in range(2)]}

    def step(self, si, st, res, log, sig):
        global LOADS
        LOADS = Loads()
        fired = {}
        count = {}
        limits = {}
        for ai, f in enumerate(st["faults"]):
            if not f:
                continue
            if f["how"] == "line":
                limits[ai] = f.get("at") or 1 + int(f["u"] ** 2 * self.lines)
            else:
                fired[ai] = []
                LOADS.fail[ai] = (f.get("at") or 1 + int(f["u"] ** 2 * len(self.mods)), ERRORS[f["kind"]](), fired[ai])

        def hit(ai, code, ln):
            count[ai] = count.get(ai, 0) + 1
            if limits.get(ai) == count[ai]:
                fired[ai] = ["line %s:%d" % (code.co_filename[len(PKG):], ln)]
                raise ERRORS[st["faults"][ai]["kind"]]()
        outs = [[] for _ in st["actors"]]
        ok = True
        if len(st["actors"]) == 1:
            def line(code, ln):
                if not code.co_filename.startswith(PKG):
                    return mon.DISABLE
                hit(0, code, ln)
            self.start(line)
            for m in st["actors"][0]:
                outs[0].append(import_one(m))
            self.stop()
            taken = []
        else:
            sched = S.Sched(dict(st["sched"], est=self.lines), log)

            def line(code, ln):
                if not code.co_filename.startswith(PKG):
                    return mon.DISABLE
                a = S.current_actor()
                if a is not None and not a.muted:
                    sched.point()
                    hit(a.idx, code, ln)

            def body(ai):
                def go():
                    for m in st["actors"][ai]:
                        outs[ai].append(import_one(m))
                return go
            for ai in range(len(st["actors"])):
                sched.add("importer%d" % ai, body(ai))
            self.start(line)
            ok = sched.run(hang_s=60.0)
            self.stop()
            taken = sched.taken
            res["steps"] += sched.step
            res.probe("thread switches", len(taken))
            if sched.relaxed:
                res.probe("left simulated time (real blocking)")
        LOADS = None
        any_fault = False
        for ai, w in fired.items():
            if w:
                any_fault = True
                res.fault(NAMES[st["faults"][ai]["kind"]])
                log.add("fault", ai, w)
        res["steps"] += sum(count.values())
        for ai, mods in enumerate(st["actors"]):
            for m, o in zip(mods, outs[ai]):
                log.add("import", ai, m, o)
                sig.append((m, o[:2]))
                if o[0] == "stuck" or (not any_fault and o[:2] != self.outs[m][:2]):
                    res.violation("import-failed", "importing %s gave %s (alone: %s)" % (m, o, self.outs[m]), "import-failed")
            if not ok and len(outs[ai]) < len(mods):
                res.violation("import-stuck", "importing %s never finished" % mods[len(outs[ai])], "import-stuck")
        sig.append(digest(taken)[:10])
        if not any_fault:
            res.probe("fault-free import steps")
        return taken, ok

    def run(self, plan, scratch):
        res = Result()
        log = Log()
        sig = []
        record = copy.deepcopy(plan)
        for si, st in enumerate(plan["steps"]):
            taken, ok = self.step(si, st, res, log, sig)
            if len(st["actors"]) > 1:
                record["steps"][si]["sched"] = {"mode": "explicit", "switches": taken}
            if not ok:
                break
        else:
            o = import_one("adctoolbox")
            log.add("import", o)
            if o[0] != "ok":
                res.violation("import-failed", "a plain import after this history gave %s" % (o,))
            else:
                self.judge(plan, res, log)
        res["loghash"] = log.hexdigest()
        res["sig"] = digest(sig)[:16]
        res["nontrivial"] = bool(sig)
        if res["viol"]:
            res["record"] = record
            res["trace"] = log.tail[-60:]
        return res

    def judge(self, plan, res, log):
        for m in plan["reload"]:
            if m in sys.modules and self.outs[m][0] == "ok":
                try:
                    importlib.reload(sys.modules[m])
                    res.probe("reloads")
                except BaseException as e:
                    res.violation("reload-failed", "reloading %s gave %r" % (m, e), "reload-failed")
        r = rng_for("imports", plan["calls"])
        for m in r.sample(self.mods, len(self.mods)):
            o = import_one(m)
            if o[:2] != self.outs[m][:2]:
                res.violation("import-failed", "importing %s afterwards gave %s (alone: %s)" % (m, o, self.outs[m]))
                continue
            got = interface([m], not plan["reload"])
            exp = (self.expect_reload if plan["reload"] else self.expect)[m]
            log.add("interface", digest(sorted(got.items()))[:12])
            for k in sorted(set(got) | set(exp)):
                if got.get(k) != exp.get(k):
                    res.violation("interface", "%s is %s instead of %s" % (k, got.get(k), exp.get(k)), "interface")
                    return
        for j in plan["calls"]:
            op = self.calls[j]
            out = E.outcome_canon(E.Call(op, C.Arena(shared=False)).perform())
            log.add("op", op["fn"], out[0])
            d = E.outcome_differ(self.refs[j], out, op)
            if d:
                res.violation("answer", "%s after this import history: %s" % (op["fn"], d), op["fn"])

    def explicit(self, plan, result):
        return result.get("record") or plan

    def shrink(self, plan):
        for i in range(len(plan["steps"])):
            p = copy.deepcopy(plan)
            del p["steps"][i]
            yield p
        for key in ("reload", "calls"):
            if plan[key]:
                yield dict(copy.deepcopy(plan), **{key: []})
        for i, st in enumerate(plan["steps"]):
            for ai in range(len(st["actors"])):
                if len(st["actors"]) > 1:
                    p = copy.deepcopy(plan)
                    del p["steps"][i]["actors"][ai]
                    del p["steps"][i]["faults"][ai]
                    if len(p["steps"][i]["actors"]) > 1:
                        p["steps"][i]["sched"] = {"mode": "few", "seed": 1, "k": 2}
                    yield p
                for mi in range(1, len(st["actors"][ai])):
                    if len(st["actors"][ai]) > 1:
                        p = copy.deepcopy(plan)
                        del p["steps"][i]["actors"][ai][mi]
                        yield p
                if st["faults"][ai]:
                    p = copy.deepcopy(plan)
                    p["steps"][i]["faults"][ai] = None
                    yield p


ALL = {"I01": I01}
