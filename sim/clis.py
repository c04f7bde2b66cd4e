"""Examples copier on the simulated disk (E01, E02) and the external test runner (M01)."""
import copy
import importlib.util
import io
import os
import shutil
import subprocess
import sys

from . import core, fsim, procs, skills
from . import sched as S

cli = None
PKG = None
SOURCE = {}


class Argv(list):
    """sys.argv with one private value per actor."""

    def __init__(self):
        super().__init__(["prog"])
        self.per = {}

    def _l(self):
        a = S.current_actor()
        return self.per.get(a.idx, ["prog"]) if a is not None else ["prog"]

    def __getitem__(self, i):
        return self._l()[i]

    def __len__(self):
        return len(self._l())

    def __iter__(self):
        return iter(self._l())


def load():
    global cli, PKG
    skills.load()
    import adctoolbox.cli as m
    cli = m
    PKG = os.path.dirname(sys.modules["adctoolbox"].__file__)
    snap = fsim.content(fsim.snapshot(os.path.join(PKG, "examples")))
    for k, v in snap.items():
        parts = k.split("/")
        if "__pycache__" in parts or k.endswith(".pyc"):
            continue
        SOURCE[k] = v


DESTS = ["default", "default", "name", "name", "nested", "abs", "dotted", "slash", "existing_parent", "updir", "space"]
PRIOR = ["missing", "empty", "folder", "file", "dangling", "loop", "link_dir", "link_file", "partial", "complete"]


def gen_world(rng, p_missing):
    return {"seed": rng.randrange(1 << 30), "dest": rng.choice(DESTS),
            "prior": "missing" if rng.random() < p_missing else rng.choice(PRIOR[1:]),
            "pkg": rng.choice(["real", "real", "caches", "caches", "none"]) if rng.random() < 0.8 else "real",
            "phases": []}


class ExamplesScenario(skills.SkillScenario):
    needs_scratch = True
    run_timeout = 90.0
    quick_runs = 4000
    thorough_runs = 25000
    components = {
        "real": ["adctoolbox.cli.copy_examples", "shutil, pathlib, argparse (CPython)",
                 "kernel file system semantics on a scratch directory"],
        "stub": ["error returns, short transfers, full/read-only disk, kills: injected at the seam",
                 "process boundaries: each command is a scheduled thread with its own argv and output",
                 "installed package folder: in some runs a scratch folder with added bytecode caches, or none"],
    }
    rule = ("one case = one seeded plan (destination form, prior content, package folder variant, number of commands, "
            "schedule, faults) executed on the simulated disk; non-trivial = a fault was injected, actors were "
            "interleaved, or the destination existed; distinct = distinct event-log hash")

    def prepare(self):
        if cli is None:
            load()
        self.drop = procs.readable_by_nobody(PKG)

    def run(self, plan, scratch):
        res, log = core.Result(), core.Log()
        fsim.seed_process(plan["seed"])
        self.scratch, self.log = scratch, log
        j = os.path.join
        for d in ("cwd", "outside", "tmp", "cwd/have", "cwd/have/sub"):
            os.mkdir(j(scratch, d))
        import tempfile
        tempfile.tempdir = j(scratch, "tmp")
        os.environ["TMPDIR"] = j(scratch, "tmp")
        os.environ["HOME"] = scratch
        for p in ("outside/a.txt", "cwd/keep.txt", "cwd/have/b.txt", "cwd/have/sub/c.txt"):
            with open(j(scratch, p), "wb") as f:
                f.write(b"precious " + p.encode())
        spell = {"default": (None, "cwd/adctoolbox_examples"), "name": ("my_ex", "cwd/my_ex"),
                 "nested": ("new/deep/ex", "cwd/new/deep/ex"), "abs": (j(scratch, "abs_ex"), "abs_ex"),
                 "dotted": ("./my.ex", "cwd/my.ex"), "slash": ("my_ex/", "cwd/my_ex"),
                 "existing_parent": ("have/ex", "cwd/have/ex"), "updir": ("../up_ex", "up_ex"),
                 "space": ("my examples", "cwd/my examples")}[plan["dest"]]
        self.arg, self.dest_rel = spell
        self.dest = j(scratch, self.dest_rel)
        self.mk_prior(plan["prior"])
        pkg = plan.get("pkg", "real")
        mod = sys.modules["adctoolbox"]
        if pkg != "real":
            base = j(scratch, "pkg", "adctoolbox")
            os.makedirs(base)
            mod.__file__ = j(base, "__init__.py")
            open(mod.__file__, "w").close()
            if pkg == "caches":
                shutil.copytree(j(PKG, "examples"), j(base, "examples"), ignore=shutil.ignore_patterns("__pycache__", "*.pyc"))
                for d in ("", "01_basic", "04_debug_digital"):
                    if os.path.isdir(j(base, "examples", d)):
                        os.makedirs(j(base, "examples", d, "__pycache__"))
                        with open(j(base, "examples", d, "__pycache__", "x.cpython-312.pyc"), "wb") as f:
                            f.write(b"cache")
                        with open(j(base, "examples", d, "stale.pyc"), "wb") as f:
                            f.write(b"cache")
        os.chdir(j(scratch, "cwd"))
        if self.drop:
            procs.drop_privileges(scratch)
        self.body(plan, res)
        res["loghash"] = res["sig"] = log.hexdigest()
        res["nontrivial"] = bool(res["faults"] or any(res["record"].get("switches", [])) or plan["prior"] != "missing")
        return res

    def mk_prior(self, kind):
        t, out = self.dest, os.path.join(self.scratch, "outside")
        if kind == "missing":
            return
        os.makedirs(os.path.dirname(t), exist_ok=True)
        if kind == "empty":
            os.mkdir(t)
        elif kind == "folder":
            os.makedirs(t + "/01_basic")
            with open(t + "/01_basic/mine.py", "w") as f:
                f.write("my work\n")
        elif kind == "file":
            with open(t, "w") as f:
                f.write("a file\n")
        elif kind == "dangling":
            os.symlink(out + "/gone", t)
        elif kind == "loop":
            os.symlink(t, t)
        elif kind == "link_dir":
            os.symlink(out, t)
        elif kind == "link_file":
            os.symlink(out + "/a.txt", t)
        elif kind in ("partial", "complete"):
            shutil.copytree(os.path.join(PKG, "examples"), t, ignore=shutil.ignore_patterns("__pycache__", "*.pyc"))
            if kind == "partial":
                for r, v in sorted(SOURCE.items()):
                    if v[0] == "file" and len(v[1]) > 40:
                        with open(os.path.join(t, r), "r+b") as f:
                            f.truncate(11)
                        break

    def phase(self, cmds, sched_plan, res, extra=()):
        disk = fsim.Disk(self.scratch, [core.SRC, PKG], self.log, res)
        ph = procs.Phase(disk, self.log, sched_plan)
        argv = Argv()
        acts = []
        for c in cmds:
            a = ph.add("cmd", cli.copy_examples, c.get("faults", []))
            argv.per[a.idx] = ["adctoolbox-get-examples"] + ([] if self.arg is None else [self.arg])
            acts.append(a)
        for fn in extra:
            ph.add("other", fn)
        old = sys.argv
        sys.argv = argv
        try:
            fin = ph.run()
        finally:
            sys.argv = old
        skills._keep.append((disk, ph))
        if not fin:
            res.violation("no-progress", "the commands never finish")
        outs = []
        for a in acts:
            oc = ph.outcome(a)
            self.log.add("outcome", a.idx, oc[0], str(oc[1:]).replace(self.scratch, "ROOT")[:200])
            disk.trace.append("actor%d ended: %s" % (a.idx, str(oc)[:160]))
            outs.append((a, oc, ph.out.text(a.idx) + ph.err.text(a.idx)))
        res["steps"] += ph.sched.step
        res["record"].setdefault("switches", []).append(list(ph.sched.taken))
        res.setdefault("trace", []).extend(disk.trace[-200:])
        self.disk = disk
        return outs

    def shrink(self, plan):
        yield from super().shrink(plan)
        for k, v in (("dest", "default"), ("pkg", "real"), ("prior", "missing")):
            if plan.get(k) != v:
                p = copy.deepcopy(plan)
                p[k] = v
                yield p
        for i, ph in enumerate(plan["phases"]):
            for k in range(len(ph.get("foreign", []))):
                p = copy.deepcopy(plan)
                del p["phases"][i]["foreign"][k]
                yield p

    def ok(self, oc):
        return (oc[0] == "ok") or (oc[0] == "exit" and not oc[1])


EST = 560


class E01(ExamplesScenario):
    prop = "E01"

    def gen(self, rng, i, tier):
        p = gen_world(rng, 0.9)
        f = skills.gen_faults(rng, EST, ["none", "error", "error", "error", "error", "errors", "short", "short", "full",
                                         "readonly", "badread", "interrupt", "memory", "crash", "torn"])
        p["phases"].append({"cmds": [{"faults": f}], "sched": {"mode": "explicit", "switches": []}})
        return p

    def body(self, plan, res):
        before = fsim.content(fsim.snapshot(self.dest))
        (a, oc, out), = self.phase(plan["phases"][0]["cmds"], plan["phases"][0]["sched"], res)
        now = fsim.content(fsim.snapshot(self.dest))
        good = now == SOURCE
        said = "success" in out.lower()
        ok = self.ok(oc)
        res.probe("success" if ok else "failure")
        inj = self.disk.actors[a.idx]["injected"]
        if ok and not good:
            res.violation("incomplete-success", "ended with success but the copy differs: %s" % fsim.diff(SOURCE, now))
        if said and not good and oc[0] != "crash":
            res.violation("false-announcement", "printed success but the copy differs: %s" % fsim.diff(SOURCE, now))
        if said and not ok and oc[0] != "crash":
            res.violation("contradiction", "printed success but ended with %r" % (oc,))
        if ok and not said:
            res.violation("contradiction", "ended with success without printing it")
        if not ok and not inj and plan["prior"] == "missing" and plan["pkg"] != "none":
            res.violation("needless-failure", "no fault and nothing in the way, yet %r %r" % (oc, out[-200:]))


class E02(ExamplesScenario):
    prop = "E02"

    def gen(self, rng, i, tier):
        p = gen_world(rng, 0.5)
        if p["pkg"] == "none" and rng.random() < 0.7:
            p["pkg"] = "real"
        k = rng.choice([1, 2, 2, 3])
        cmds = [{"faults": skills.gen_faults(rng, EST, ["none", "none", "none", "error", "errors", "crash", "torn", "full",
                                                        "interrupt", "memory"])} for _ in range(k)]
        ph = {"cmds": cmds, "sched": {"mode": rng.choice(["walk", "few"]), "p": rng.choice([0.02, 0.2, 0.6]),
                                      "k": rng.choice([1, 2, 4]), "est": rng.choice([12, 40, EST * k]),
                                      "seed": rng.randrange(1 << 30)}}
        if rng.random() < 0.5:
            ph["foreign"] = [{"kind": rng.choice(["file", "link", "dir", "dangling"]), "after": rng.randrange(12)}]
        p["phases"].append(ph)
        return p

    def body(self, plan, res):
        ph = plan["phases"][0]
        before = fsim.snapshot(self.scratch)
        placed = {}

        def writer(f):
            def go():
                disk = fsim.ACTIVE
                for _ in range(f["after"]):
                    disk.sched.point()
                with fsim.quiet():
                    t = self.dest
                    if os.path.lexists(t):
                        return
                    made = os.path.dirname(t)
                    os.makedirs(made, exist_ok=True)
                    if f["kind"] == "dir":
                        st = os.path.join(self.scratch, "stage")
                        os.makedirs(st + "/01_basic")
                        with open(st + "/01_basic/mine.py", "w") as h:
                            h.write("placed by someone else\n")
                        os.rename(st, t)
                    elif f["kind"] == "file":
                        with open(t, "w") as h:
                            h.write("someone else's file\n")
                    elif f["kind"] == "link":
                        os.symlink(os.path.join(self.scratch, "outside"), t)
                    else:
                        os.symlink(os.path.join(self.scratch, "outside", "not_there"), t)
                    placed["snap"] = fsim.snapshot(t)
                    self.log.add("foreign", f["kind"])
                    disk.trace.append("   other process creates a %s at the destination" % f["kind"])
            return go
        outs = self.phase(ph["cmds"], ph["sched"], res, [writer(f) for f in ph.get("foreign", [])])
        after = fsim.snapshot(self.scratch)
        d = self.dest_rel
        existed = d in before

        def own(p):
            return p == d or p.startswith(d + "/")
        for p, v in before.items():
            if own(p) and not existed:
                continue
            if after.get(p) != v:
                res.violation("disturbed", "%s existed and was changed: %s" % (p, fsim.diff({p: v}, {p: after[p]} if p in after else {})))
                break
        if existed:
            new = [p for p in after if own(p) and p not in before]
            if new:
                res.violation("disturbed", "the destination existed and got new entries: %s" % new[:3])
        if "snap" in placed:
            res.probe("foreign_entry_appeared")
            now = fsim.snapshot(self.dest)
            if now != placed["snap"]:
                res.violation("disturbed", "a destination that appeared during the run was changed: %s" %
                              fsim.diff(placed["snap"], now))
        stray = [p for p in after if p not in before and not own(p) and not (d + "/").startswith(p + "/")]
        clean = not any(self.disk.actors[a.idx]["injected"] for a, _, _ in outs) and len(outs) == 1
        for p in stray:
            if clean:
                res.violation("stray", "a run without faults left %s behind" % p)
                break
            top = os.path.dirname(d)
            if not (p.startswith("tmp/") or top == "" or p.startswith(top + "/")):
                res.violation("stray", "%s appeared outside the destination" % p)
                break
        for k, p in self.disk.source_touched[:1]:
            res.violation("source-touched", "tried to %s %s" % (k, p))
        for k, p in self.disk.escapes[:1]:
            res.violation("escape", "tried to %s %s" % (k, p))
        wins = [a.idx for a, oc, out in outs if self.ok(oc)]
        res.probe("winners_%d" % len(wins))
        if existed and wins:
            res.violation("false-success", "success although the destination existed")
        if "snap" in placed and wins:
            res.violation("false-success", "success although the destination was taken by someone else")
        if len(wins) > 1:
            res.violation("two-winners", "commands %s all reported success" % wins)
        if wins and not existed and "snap" not in placed:
            now = fsim.content(fsim.snapshot(self.dest))
            if now != SOURCE:
                res.violation("winner-disturbed", "a command reported success but the copy differs: %s" % fsim.diff(SOURCE, now))


# ---------------------------------------------------------------- M01

class FakeProcess:
    """Stand-in for subprocess.Popen: the external program is simulated."""

    world = None

    def __init__(self, args, *a, **kw):
        w = FakeProcess.world
        self.args = args
        exe = args if isinstance(args, str) else os.fspath(args[0])
        w["launches"].append([exe] + ([] if isinstance(args, str) else [str(x) for x in args[1:]]))
        w["log"].add("launch", os.path.basename(exe))
        n = len(w["launches"]) - 1
        self.script = w["scripts"][min(n, len(w["scripts"]) - 1)]
        self.stdin = self.stdout = self.stderr = None
        self.returncode = None
        self.pid = 5000 + n
        k = self.script["kind"]
        if k == "oserror":
            w["res"].fault("launch-" + self.script["errno"])
            e = getattr(__import__("errno"), self.script["errno"])
            raise OSError(e, os.strerror(e), exe)
        if k == "memory":
            w["res"].fault("launch-MemoryError")
            raise MemoryError()
        if not os.path.isfile(exe) or not os.access(exe, os.X_OK):
            raise FileNotFoundError(2, "No such file", exe)
        w["started"].append(exe)

    def _end(self):
        w = FakeProcess.world
        k = self.script["kind"]
        if k == "interrupt" and not self.script.get("done"):
            self.script["done"] = True
            w["res"].fault("interrupt-while-waiting")
            raise KeyboardInterrupt()
        if k == "interrupt":
            self.returncode = -2
        elif self.returncode is None:
            self.returncode = self.script.get("code", 0)
            if self.returncode < 0:
                w["res"].fault("killed-by-signal")
            elif self.returncode:
                w["res"].fault("program-failed")
        return self.returncode

    def wait(self, timeout=None):
        return self._end()

    def poll(self):
        return self._end()

    def communicate(self, input=None, timeout=None):
        self._end()
        return (None, None)

    def kill(self):
        self.returncode = -9

    terminate = kill

    def send_signal(self, s):
        self.returncode = -s

    def __enter__(self):
        return self

    def __exit__(self, *a):
        if self.returncode is None and self.script["kind"] != "interrupt":
            self._end()


class M01(core.Scenario):
    prop = "M01"
    needs_scratch = True
    quick_runs = 3000
    thorough_runs = 20000
    rule = ("one case = one seeded environment (programs named on the command line, in either variable, on PATH; usable, "
            "non-executable, a folder, missing, or vanishing before launch), options and program outcome; non-trivial = "
            "the program was launched or a fault was injected; distinct = distinct event-log hash")
    sig_measure = "distinct (environment, options, launches, outcome) event-log hashes"
    components = {"real": ["matlab/tests/run_matlab_tests.py", "argparse, shutil.which, pathlib, subprocess.run logic"],
                  "stub": ["the external program and process creation (subprocess.Popen)"]}
    assumptions = ["the runner starts the program through the subprocess module",
                   "no program is installed under /usr/local/MATLAB on the checking machine"]

    def prepare(self):
        path = os.path.join(core.REPO, "matlab", "tests", "run_matlab_tests.py")
        spec = importlib.util.spec_from_file_location("run_matlab_tests_under_check", path)
        self.mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(self.mod)

    KINDS = ["good", "good", "noexec", "folder", "missing", "unset", "unset", "bare", "bare_missing"]

    def gen(self, rng, i, tier):
        def script():
            k = rng.choice(["end"] * 6 + ["oserror", "oserror", "interrupt", "memory"])
            s = {"kind": k, "code": rng.choice([0, 0, 0, 1, 2, 77, 255, -9, -15, -11])}
            if k == "oserror":
                s["errno"] = rng.choice(["ENOENT", "EACCES", "ENOEXEC", "ENOMEM", "EAGAIN", "ETXTBSY", "EIO"])
            return s
        return {"explicit": rng.choice(self.KINDS), "env1": rng.choice(self.KINDS), "env2": rng.choice(self.KINDS),
                "path": rng.choice(["good", "good", "noexec", "folder", "missing"]),
                "suite": rng.choice([None, "all", "common", "aout", "dout", "jitter", "bogus"]),
                "missing_ok": rng.random() < 0.4, "dry": rng.random() < 0.2, "scripts": [script() for _ in range(3)]}

    def run(self, plan, scratch):
        res, log = core.Result(), core.Log()
        j = os.path.join
        os.mkdir(j(scratch, "bin"))
        os.mkdir(j(scratch, "cwd"))
        os.chdir(j(scratch, "cwd"))
        log.add("plan", plan)

        def make(tag, kind, where=None, name=None):
            p = j(where or scratch, name or ("prog_" + tag))
            if kind in ("good", "noexec", "bare"):
                if kind == "bare":
                    p = j(scratch, "bin", "tool_" + tag)
                with open(p, "w") as f:
                    f.write("#!/bin/sh\nexit 0\n")
                os.chmod(p, 0o755 if kind != "noexec" else 0o644)
                return ("tool_" + tag, p) if kind == "bare" else (p, p if kind == "good" else None)
            if kind == "folder":
                os.mkdir(p)
                return p, None
            if kind == "missing":
                return p, None
            if kind == "bare_missing":
                return "tool_nowhere_" + tag, None
            return None, None
        exp_arg, exp_real = make("x", plan["explicit"])
        e1, r1 = make("e1", plan["env1"])
        e2, r2 = make("e2", plan["env2"])
        _, rp = make("p", plan["path"], j(scratch, "bin"), "matlab")
        os.environ["PATH"] = j(scratch, "bin")
        for n, v in (("ADCTOOLBOX_MATLAB", e1), ("MATLAB_EXECUTABLE", e2)):
            os.environ.pop(n, None)
            if v:
                os.environ[n] = v
        argv = []
        if plan["suite"]:
            argv.append(plan["suite"])
        if exp_arg:
            argv += ["--matlab-executable", exp_arg]
        if plan["missing_ok"]:
            argv.append("--missing-ok")
        if plan["dry"]:
            argv.append("--dry-run")
        w = {"launches": [], "started": [], "scripts": copy.deepcopy(plan["scripts"]), "res": res, "log": log}
        FakeProcess.world = w
        subprocess.Popen = FakeProcess
        real_std = sys.stdout, sys.stderr
        sys.stdout = sys.stderr = io.StringIO()
        try:
            try:
                rc = self.mod.main(argv)
                status = 0 if rc is None else rc
            except SystemExit as e:
                status = 0 if e.code is None else (e.code if isinstance(e.code, int) else 1)
            except BaseException as e:
                status = 1
                log.add("raised", type(e).__name__)
        finally:
            sys.stdout, sys.stderr = real_std
        status = int(status) & 0xFF if isinstance(status, int) else 1      # what the shell sees
        log.add("status", status, len(w["launches"]))
        res.probe("status_zero" if status == 0 else "status_nonzero")
        usable = exp_real if exp_arg else (r1 or r2 or rp)
        allowed = {x for x in (exp_real, r1, r2, rp) if x} if not exp_arg else {exp_real}
        for ln in w["launches"]:
            if ln[0] not in allowed:
                res.violation("wrong-program", "launched %s although %s was named" % (ln[0], exp_arg or "nothing"))
        suite_fn = {None: "run_all", "all": "run_all", "common": "run_common", "aout": "run_aout", "dout": "run_dout",
                    "jitter": "run_jitter_load"}.get(plan["suite"])
        for ln in w["launches"]:
            if plan["dry"]:
                res.violation("dry-run-launched", "a dry run started the program")
            if suite_fn and not any(suite_fn in x for x in ln[1:]):
                res.violation("wrong-suite", "suite %s ran %r" % (plan["suite"], ln[-1]))
        if status == 0:
            last_ok = bool(w["started"]) and w["scripts"][min(len(w["launches"]) - 1, 2)]["kind"] == "end" and \
                w["scripts"][min(len(w["launches"]) - 1, 2)]["code"] == 0
            tolerated = plan["missing_ok"] and not exp_arg and usable is None
            if not (last_ok or (plan["dry"] and usable) or tolerated):
                res.violation("false-success", "status 0 with launches=%s outcome=%s" % (
                    w["launches"], w["scripts"][0]))
        elif plan["suite"] != "bogus" and usable and not plan["dry"] and w["scripts"][0]["kind"] == "end" and \
                w["scripts"][0]["code"] == 0:
            res.violation("false-failure", "the program ended with 0 but the runner with %s" % status)
        res["steps"] = log.n
        res["loghash"] = res["sig"] = log.hexdigest()
        res["nontrivial"] = bool(w["launches"] or res["faults"] or exp_arg)
        return res

    def shrink(self, plan):
        for k in ("explicit", "env1", "env2"):
            if plan[k] != "unset":
                yield dict(plan, **{k: "unset"})
        for k in ("missing_ok", "dry"):
            if plan[k]:
                yield dict(plan, **{k: False})
        if plan["suite"]:
            yield dict(plan, suite=None)


ALL = {c.prop: c for c in (E01, E02, M01)}
