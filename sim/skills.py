"""Skill installer and status command on the simulated disk (properties S01-S07)."""
import copy
import os
import random
import shutil
import sys

from . import core, fsim, procs
from . import sched as S

USER, DEV = "adctoolbox-user-guide", "adctoolbox-contributor-guide"
ALIASES = {"user": USER, "user-guide": USER, USER: USER, "dev": DEV, "contributor": DEV,
           "contributor-guide": DEV, DEV: DEV}

# prior states of a skill's place in the destination
PRIOR = ["missing", "complete", "stale", "partial", "extra", "file", "empty", "link_outside", "link_source",
         "dangling", "loop", "dir_with_links", "foreign", "link_file"]

skill_cli = None
SOURCE_ROOT = None
SOURCE = {}


def load():
    """Import the library behind the seam; called once in the pristine parent."""
    global skill_cli, SOURCE_ROOT
    fsim.install()
    import adctoolbox
    import adctoolbox.skill_cli as m
    import adctoolbox.cli  # noqa
    import adctoolbox._bundled_skills  # noqa
    from importlib import resources
    import tempfile, filecmp, uuid, argparse, gettext  # noqa: nothing is imported lazily inside a run
    skill_cli = m
    SOURCE_ROOT = os.path.join(os.path.dirname(adctoolbox.__file__), "_bundled_skills", "skills")
    for n in sorted(os.listdir(SOURCE_ROOT)):
        if os.path.isfile(os.path.join(SOURCE_ROOT, n, "SKILL.md")):
            SOURCE[n] = fsim.content(fsim.snapshot(os.path.join(SOURCE_ROOT, n)))
    resources.files("adctoolbox._bundled_skills")


def requested(spec):
    if spec.get("all"):
        return sorted(SOURCE)
    if spec.get("dev"):
        return [USER, DEV]
    names = []
    for n in spec.get("names", []):
        r = ALIASES[n]
        if r not in names:
            names.append(r)
    return names or [USER]


# ---------------------------------------------------------------- world

class World:
    def __init__(self, plan, scratch, result, log):
        self.root = scratch
        self.plan = plan
        self.result = result
        self.log = log
        for d in ("home", "cwd", "outside", "tmp"):
            os.mkdir(os.path.join(scratch, d))
        os.environ["HOME"] = os.path.join(scratch, "home")
        os.environ["TMPDIR"] = os.path.join(scratch, "tmp")
        import tempfile
        tempfile.tempdir = os.path.join(scratch, "tmp")
        os.makedirs(os.path.join(scratch, "outside", "precious", "deep"))
        self._w("outside/precious/a.txt", b"precious a\n")
        self._w("outside/precious/deep/b.txt", b"precious b\n")
        self._w("outside/file.txt", b"precious file\n")
        self._w("cwd/keep.txt", b"keep\n")
        spell = plan.get("spell", "abs")
        self.dest_real = {"abs": "d/skills", "tilde": "home/.codex/skills", "rel": "cwd/sub/skills", "dot": "cwd/skills",
                          "linked": "real_skills", "slash": "d/skills", "odd": "d/my $HOME ~ski\u00fclls",
                          "deep": "cwd/a/b/c/d/skills"}[spell]
        self.dest_real = os.path.join(scratch, self.dest_real)
        self.dest_arg = {"abs": self.dest_real, "tilde": "~/.codex/skills", "rel": "sub/skills",
                         "dot": "./skills", "linked": os.path.join(scratch, "linkdest"),
                         "slash": self.dest_real + "/", "odd": self.dest_real, "deep": "a/b/c/d/skills"}[spell]
        if spell == "linked":
            os.mkdir(self.dest_real)
            os.symlink(self.dest_real, os.path.join(scratch, "linkdest"))
        self.dest_view = os.path.join(scratch, "linkdest") if spell == "linked" else self.dest_real
        prior = plan.get("prior", {})
        if plan.get("neighbours") or any(v != "missing" for v in prior.values()):
            os.makedirs(self.dest_real, exist_ok=True)
        if plan.get("neighbours"):
            self._w(self.dest_real + "/other-skill/SKILL.md", b"another skill\n")
            self._w(self.dest_real + "/other-skill/references/x.md", b"x\n")
            self._w(self.dest_real + "/notes.txt", b"notes\n")
            self._w(self.dest_real + "/.system/SKILL.md", b"hidden\n")
            self._w(self.dest_real + "/" + USER + "-backup/SKILL.md", b"old backup\n")
            self._w(self.dest_real + "/" + USER + ".old/SKILL.md", b"old\n")
            os.symlink(os.path.join(scratch, "outside", "precious"), self.dest_real + "/linked-skill")
        for name, kind in prior.items():
            self.make_prior(name, kind)

    def _w(self, path, data):
        p = path if os.path.isabs(path) else os.path.join(self.root, path)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(data)

    def target(self, name):
        return os.path.join(self.dest_real, name)

    def make_prior(self, name, kind):
        t = self.target(name)
        src = os.path.join(SOURCE_ROOT, name)
        out = os.path.join(self.root, "outside")
        if kind == "missing":
            return
        if kind in ("complete", "stale", "partial", "extra", "dir_with_links"):
            shutil.copytree(src, t)
        if kind == "stale":
            self._w(t + "/SKILL.md", b"---\nname: old\n---\nold version\n")
        elif kind == "partial":
            os.unlink(t + "/SKILL.md")
            for r in sorted(os.listdir(t + "/references"))[:1]:
                with open(t + "/references/" + r, "r+b") as f:
                    f.truncate(7)
        elif kind == "extra":
            self._w(t + "/my_notes/private.txt", b"user notes\n")
        elif kind == "file":
            self._w(t, b"just a file\n")
        elif kind == "empty":
            os.mkdir(t)
        elif kind == "link_outside":
            os.symlink(os.path.join(out, "precious"), t)
        elif kind == "link_source":
            os.symlink(src, t)
        elif kind == "link_file":
            os.symlink(os.path.join(out, "file.txt"), t)
        elif kind == "dangling":
            os.symlink(os.path.join(out, "gone"), t)
        elif kind == "loop":
            os.symlink(t, t)
        elif kind == "dir_with_links":
            os.symlink(os.path.join(out, "precious"), t + "/precious")
            os.symlink(os.path.join(out, "file.txt"), t + "/references/link.md")
            os.symlink(src, t + "/srclink")
        elif kind == "foreign":
            self._w(t + "/README", b"someone else's folder\n")
            self._w(t + "/a/b/c.txt", b"c\n")

    # -- actions
    def argv(self, spec):
        a = []
        for n in spec.get("names", []):
            a.append(n)
        if spec.get("dev"):
            a.append("--dev")
        if spec.get("all"):
            a.append("--all")
        if spec.get("force"):
            a.append(spec.get("force_word", "--force"))
        if spec.get("editable"):
            a.append("--editable")
        if spec.get("status"):
            a.append("--status")
        if spec.get("list"):
            a.append("--list")
            return a
        return a + ["--dest", self.dest_arg]

    def command(self, spec):
        if spec.get("api"):
            kw = dict(install_dev=bool(spec.get("dev")), install_all=bool(spec.get("all")), dest=self.dest_arg)
            names = list(spec.get("names", [])) or None
            if spec.get("status"):
                return lambda: skill_cli.skill_status(names, **kw)
            kw.update(overwrite=bool(spec.get("force")), editable=bool(spec.get("editable")))
            return lambda: [str(p) for p in skill_cli.install_bundled_skills(names, **kw)]
        av = self.argv(spec)
        return lambda: skill_cli.main(av)

    def phase(self, specs, sched_plan, observers=(), extra=()):
        """Run commands concurrently; returns list of (spec, actor, outcome, stdout)."""
        disk = fsim.Disk(self.root, [core.SRC, os.path.dirname(os.path.dirname(SOURCE_ROOT))], self.log, self.result)
        disk.observers = list(observers)
        ph = procs.Phase(disk, self.log, sched_plan)
        acts = []
        for sp in specs:
            acts.append((sp, ph.add("cmd", self.command(sp), sp.get("faults", []))))
        for fn in extra:
            ph.add("other", fn)
        fin = ph.run()
        self.disk, self.ph = disk, ph
        _keep.append((disk, ph))
        if not fin:
            self.result.violation("no-progress", "the commands never finish")
        out = []
        for sp, a in acts:
            oc = ph.outcome(a)
            self.log.add("outcome", a.idx, oc[0], str(oc[1:]).replace(self.root, "ROOT")[:200])
            disk.trace.append("actor%d ended: %s" % (a.idx, str(oc)[:160]))
            out.append((sp, a, oc, ph.out.text(a.idx)))
            for k in disk.actors[a.idx]["injected"]:
                self.result.probe("fault_fired")
        self.result["steps"] += self.ph.sched.step
        self.result["record"].setdefault("switches", []).append(list(ph.sched.taken))
        self.result["record"].setdefault("ops", []).append([disk.actors[a.idx]["n"] for _, a in acts])
        self.result.setdefault("trace", []).extend(disk.trace[-120:])
        return out

    # -- observations
    def place(self, name):
        return fsim.content(fsim.snapshot(self.target(name)))

    def complete_copy(self, name):
        return self.place(name) == SOURCE[name]

    def good_link(self, name):
        t = self.target(name)
        return os.path.islink(t) and os.path.realpath(t) == os.path.realpath(os.path.join(SOURCE_ROOT, name))


_keep = []


def succeeded(spec, oc):
    if spec.get("api"):
        return oc[0] == "ok"
    return (oc[0] == "ok" and oc[1] == 0) or (oc[0] == "ok" and oc[1] is None) or (oc[0] == "exit" and not oc[1])


def single_sched(plan):
    return {"mode": "explicit", "switches": []}


# ---------------------------------------------------------------- plan pieces

EST_OPS = {"one": 70, "two": 130}


def gen_request(rng, allow_dup=True):
    r = rng.random()
    sp = {}
    if r < 0.25:
        pass
    elif r < 0.55:
        sp["names"] = [rng.choice(sorted(ALIASES))]
    elif r < 0.75:
        sp["names"] = [rng.choice(sorted(ALIASES)) for _ in range(rng.choice([2, 2, 3]))]
    elif r < 0.9:
        sp["dev"] = True
    else:
        sp["all"] = True
        sp["dev"] = rng.random() < 0.3
    if r >= 0.75 and rng.random() < 0.3:
        sp["names"] = [rng.choice(sorted(ALIASES))]
    if rng.random() < 0.25:
        sp["editable"] = True
    if rng.random() < 0.4:
        sp["api"] = True
    return sp


def gen_faults(rng, est, kinds=None, heavy=False):
    kinds = kinds or ["none", "error", "error", "errors", "crash", "torn", "short", "full", "readonly", "badread",
                      "interrupt", "memory"]
    k = rng.choice(kinds)
    op = rng.randrange(est)
    if k == "none":
        return []
    if k == "error":
        return [{"op": op, "kind": "error", "pick": rng.randrange(8)}]
    if k == "errors":
        return [{"op": rng.randrange(est), "kind": "error", "pick": rng.randrange(8)} for _ in range(rng.choice([2, 3, 5]))]
    if k == "torn":
        return [{"op": op, "kind": "torn", "frac": rng.choice([0.0, 0.3, 0.9])}]
    if k == "short":
        return [{"op": o, "kind": "short", "frac": rng.choice([0.1, 0.5])} for o in
                sorted(rng.sample(range(est), min(est, rng.choice([3, 12, 40]))))]
    return [{"op": op, "kind": k}]


def gen_prior(rng, names, p_missing=0.3):
    out = {}
    for n in names:
        out[n] = "missing" if rng.random() < p_missing else rng.choice(PRIOR[1:])
    return out


SPELL = ["abs", "abs", "tilde", "rel", "dot", "linked", "slash", "odd", "deep"]


def est_for(spec):
    return EST_OPS["two"] if len(requested(spec)) > 1 else EST_OPS["one"]


class SkillScenario(core.Scenario):
    needs_scratch = True
    run_timeout = 60.0
    quick_runs = 6000
    thorough_runs = 40000
    sig_measure = ("distinct (prior state, request, operation/outcome/fault sequence) signatures: hash of every "
                   "file-system operation with its actor, every hand-over, fault and outcome of the run")
    rule = ("one case = one seeded plan (destination spelling, prior content of each skill's place, request options, "
            "schedule, faults) executed on the simulated disk; non-trivial = the run injected a fault, handed over "
            "between actors, or met a pre-existing entry; distinct = distinct event-log hash")
    components = {
        "real": ["adctoolbox.skill_cli (all of it)", "shutil, pathlib, filecmp, tempfile, argparse (CPython)",
                 "kernel file system semantics on a scratch directory"],
        "stub": ["error returns, short transfers, full/read-only disk, kills: injected at the seam",
                 "process boundaries: each command is a scheduled thread", "clock, pid, temporary names: seeded"],
    }
    assumptions = [
        "a kill loses the process and its user-space buffers, not data already handed to the operating system "
        "(the code never asks for fsync, so durability across power loss is not claimed)",
        "no file descriptor or directory content is changed behind the seam by anybody outside the simulation",
    ]

    def prepare(self):
        if skill_cli is None:
            load()
        self.drop = procs.readable_by_nobody(os.path.dirname(SOURCE_ROOT))

    def run(self, plan, scratch):
        res, log = core.Result(), core.Log()
        fsim.seed_process(plan["seed"])
        w = World(plan, scratch, res, log)
        os.chdir(os.path.join(scratch, "cwd"))
        if self.drop:
            procs.drop_privileges(scratch)
        self.body(plan, w, res)
        for k, p in getattr(w, "all_escapes", []):
            pass
        res["loghash"] = log.hexdigest()
        res["sig"] = log.hexdigest()
        res["nontrivial"] = bool(res["faults"] or any(res["record"].get("switches", [])) or
                                 any(v != "missing" for v in plan.get("prior", {}).values()))
        return res

    def body(self, plan, w, res):
        raise NotImplementedError

    # -- shrinking shared by all skill plans
    def explicit(self, plan, result):
        p = copy.deepcopy(plan)
        sw = result.get("record", {}).get("switches", [])
        for i, ph in enumerate(p["phases"]):
            if i < len(sw):
                ph["sched"] = {"mode": "explicit", "switches": sw[i]}
        return p

    def shrink(self, plan):
        # drop whole phases, then actors, then faults, then hand-overs, then simplify the world
        for i in range(len(plan["phases"])):
            if len(plan["phases"]) > 1:
                p = copy.deepcopy(plan)
                del p["phases"][i]
                yield p
        for i, ph in enumerate(plan["phases"]):
            if len(ph.get("cmds", [])) > 1:
                for j in range(len(ph["cmds"])):
                    p = copy.deepcopy(plan)
                    del p["phases"][i]["cmds"][j]
                    yield p
            for j, c in enumerate(ph.get("cmds", [])):
                fs = c.get("faults", [])
                if len(fs) > 1:
                    p = copy.deepcopy(plan)
                    p["phases"][i]["cmds"][j]["faults"] = fs[: len(fs) // 2]
                    yield p
                    p = copy.deepcopy(plan)
                    p["phases"][i]["cmds"][j]["faults"] = fs[len(fs) // 2:]
                    yield p
                for k in range(len(fs)):
                    p = copy.deepcopy(plan)
                    del p["phases"][i]["cmds"][j]["faults"][k]
                    yield p
                if len(c.get("names", [])) > 1:
                    for k in range(len(c["names"])):
                        p = copy.deepcopy(plan)
                        del p["phases"][i]["cmds"][j]["names"][k]
                        yield p
                if c.get("api"):
                    p = copy.deepcopy(plan)
                    del p["phases"][i]["cmds"][j]["api"]
                    yield p
            if len(ph.get("edits", [])) > 1:
                for k in range(len(ph["edits"])):
                    p = copy.deepcopy(plan)
                    del p["phases"][i]["edits"][k]
                    yield p
            sw = ph.get("sched", {}).get("switches", [])
            if sw:
                p = copy.deepcopy(plan)
                p["phases"][i]["sched"]["switches"] = []
                yield p
                if len(sw) > 3:
                    for half in (sw[: len(sw) // 2], sw[len(sw) // 2:]):
                        p = copy.deepcopy(plan)
                        p["phases"][i]["sched"]["switches"] = half
                        yield p
                for k in range(min(len(sw), 40)):
                    p = copy.deepcopy(plan)
                    del p["phases"][i]["sched"]["switches"][k]
                    yield p
        if plan.get("neighbours"):
            p = copy.deepcopy(plan)
            p["neighbours"] = False
            yield p
        if plan.get("spell", "abs") != "abs":
            p = copy.deepcopy(plan)
            p["spell"] = "abs"
            yield p
        for n, v in (plan["prior"].items() if isinstance(plan.get("prior"), dict) else ()):
            if v != "missing":
                p = copy.deepcopy(plan)
                p["prior"][n] = "missing"
                yield p


def base_plan(rng, p_missing=0.3):
    return {"seed": rng.randrange(1 << 30), "spell": rng.choice(SPELL), "neighbours": rng.random() < 0.6,
            "prior": gen_prior(rng, [USER, DEV], p_missing), "phases": []}


def solo(cmd):
    return {"cmds": [cmd], "sched": {"mode": "explicit", "switches": []}}


# ---------------------------------------------------------------- S01

class S01(SkillScenario):
    prop = "S01"

    def gen(self, rng, i, tier):
        p = base_plan(rng, 0.5)
        c = gen_request(rng)
        c["force"] = rng.random() < 0.6
        if c["force"] and rng.random() < 0.5:
            c["force_word"] = "--upgrade"
        c["faults"] = gen_faults(rng, est_for(c), ["none", "error", "error", "error", "errors", "short", "short", "full",
                                                   "readonly", "badread", "interrupt", "memory"])
        p["phases"].append(solo(c))
        if rng.random() < 0.3:
            c2 = gen_request(rng)
            c2["force"] = rng.random() < 0.7
            c2["faults"] = gen_faults(rng, est_for(c2), ["none", "error", "short", "full"])
            p["phases"].append(solo(c2))
        return p

    def body(self, plan, w, res):
        for ph in plan["phases"]:
            before = {n: w.place(n) for n in (USER, DEV)}
            for sp, a, oc, out in w.phase(ph["cmds"], ph["sched"]):
                req = requested(sp)
                ok = succeeded(sp, oc)
                res.probe("success" if ok else "failure")
                if ok:
                    for n in req:
                        if sp.get("editable"):
                            if not w.good_link(n):
                                res.violation("incomplete-success", "success reported but %s is not a link to the "
                                              "bundled skill: %s" % (n, fsim.diff(SOURCE[n], w.place(n))))
                        elif not w.complete_copy(n):
                            res.violation("incomplete-success", "success reported but %s differs from the bundled "
                                          "skill: %s" % (n, fsim.diff(SOURCE[n], w.place(n))))
                    want = {os.path.realpath(os.path.join(os.path.dirname(w.target(n)), "x"))[:-1] + n for n in req}
                    if sp.get("api"):
                        got = [os.path.join(os.path.realpath(os.path.dirname(os.path.expanduser(x))), os.path.basename(x))
                               for x in oc[1]]
                        if sorted(got) != sorted(want):
                            res.violation("wrong-report", "reported %r for request %r" % (got, req))
                    else:
                        missing = [n for n in req if n not in out]
                        other = [n for n in SOURCE if n not in req and any(
                            ln.rstrip().endswith("/" + n) for ln in out.splitlines())]
                        if missing or other:
                            res.violation("wrong-report", "printed report misses %r, names extra %r" % (missing, other))
                else:
                    # nothing may pass for done: a fault-free request that is allowed must succeed
                    if not w.disk.actors[a.idx]["injected"] and (
                            sp.get("force") or all(not before[n] for n in req)):
                        res.violation("needless-failure", "no fault was injected and nothing was in the way, yet: %r" % (oc,))


# ---------------------------------------------------------------- S02

class S02(SkillScenario):
    prop = "S02"

    def gen(self, rng, i, tier):
        p = base_plan(rng, 0.25)
        k = rng.choice([1, 1, 2, 3])
        cmds = []
        for _ in range(k):
            c = gen_request(rng)
            c["faults"] = gen_faults(rng, est_for(c), ["none", "none", "error", "error", "errors", "crash", "torn", "full",
                                                       "readonly", "interrupt", "memory"])
            cmds.append(c)
        ph = {"cmds": cmds, "sched": {"mode": rng.choice(["walk", "few"]), "p": rng.choice([0.05, 0.2, 0.5]),
                                      "k": rng.choice([1, 2, 4]), "est": 90 * k, "seed": rng.randrange(1 << 30)}}
        if rng.random() < 0.6:
            ph["foreign"] = [{"name": rng.choice([USER, DEV]), "kind": rng.choice(["file", "link", "dir"]),
                              "after": rng.randrange(60)} for _ in range(rng.choice([1, 2]))]
            ph["sched"]["p"] = rng.choice([0.3, 0.6])
            ph["sched"]["mode"] = rng.choice(["walk", "few"])
        p["phases"].append(ph)
        return p

    def body(self, plan, w, res):
        for ph in plan["phases"]:
            before = {n: fsim.snapshot(w.target(n)) for n in (USER, DEV)}
            placed = {}

            def writer(f, idx):
                def go():
                    disk = fsim.ACTIVE
                    stage = os.path.join(w.root, "stage%d" % idx)
                    t = w.target(f["name"])
                    for _ in range(f["after"]):
                        disk.sched.point()
                    with fsim.quiet():
                        if os.path.lexists(t) or not os.path.isdir(w.dest_real):
                            return
                        if f["kind"] == "dir":
                            os.makedirs(stage + "/x")
                            w._w(stage + "/x/mine.txt", b"placed by someone else\n")
                            os.rename(stage, t)
                        elif f["kind"] == "file":
                            w._w(t, b"someone else's file\n")
                        else:
                            os.symlink(os.path.join(w.root, "outside", "precious"), t)
                        placed[f["name"]] = fsim.snapshot(t)
                        w.log.add("foreign", f["name"], f["kind"])
                        disk.trace.append("   other process creates a %s at %s" % (f["kind"], f["name"]))
                return go
            outs = w.phase(ph["cmds"], ph["sched"],
                           extra=[writer(f, k) for k, f in enumerate(ph.get("foreign", []))])
            for n, snap in before.items():
                if snap:
                    now = fsim.snapshot(w.target(n))
                    if now != snap:
                        res.violation("replaced", "%s existed (%s) and was changed without force: %s" % (
                            n, plan["prior"].get(n), fsim.diff(snap, now)))
            for n, snap in placed.items():
                res.probe("foreign_entry_appeared")
                now = fsim.snapshot(w.target(n))
                if now != snap:
                    res.violation("replaced", "an entry that appeared at %s during the run was changed: %s" % (
                        n, fsim.diff(snap, now)))
            for sp, a, oc, out in outs:
                if succeeded(sp, oc):
                    hit = [n for n in requested(sp) if before[n] or n in placed]
                    if hit:
                        res.violation("false-success", "success reported although %s was already taken" % hit)


# ---------------------------------------------------------------- S03

class S03(SkillScenario):
    prop = "S03"

    def gen(self, rng, i, tier):
        p = base_plan(rng, 0.15)
        p["neighbours"] = rng.random() < 0.85
        if rng.random() < 0.12:         # nothing there at all, not even the destination
            p["neighbours"] = False
            p["prior"] = {n: "missing" for n in p["prior"]}
        for _ in range(rng.choice([1, 1, 2])):
            c = gen_request(rng)
            r = rng.random()
            if r < 0.18:
                c["status"] = True
                c.pop("editable", None)
            elif r < 0.23:
                c = {"list": True}
            else:
                c["force"] = rng.random() < 0.8
            c["faults"] = gen_faults(rng, est_for(c), ["none", "none", "none", "error", "errors", "crash", "torn", "full",
                                                       "interrupt", "memory"])
            p["phases"].append(solo(c))
        return p

    def body(self, plan, w, res):
        for ph in plan["phases"]:
            before = fsim.snapshot(w.root)
            (sp, a, oc, out), = w.phase(ph["cmds"], ph["sched"])
            after = fsim.snapshot(w.root)
            rd = os.path.relpath(w.dest_real, w.root)
            readonly = sp.get("status") or sp.get("list")
            mine = () if readonly else tuple(rd + "/" + n for n in requested(sp))

            def own(path):
                return any(path == m or path.startswith(m + "/") for m in mine)
            for path, v in before.items():
                if own(path):
                    continue
                if after.get(path) != v:
                    res.violation("collateral", "%s was changed or removed: %s" % (path, fsim.diff({path: v}, {path: after.get(path)} if path in after else {})))
                    break
            clean = not w.disk.actors[a.idx]["injected"]
            for path in after:
                if path in before or own(path):
                    continue
                if not readonly and (rd + "/").startswith(path + "/"):
                    continue                    # the destination folder itself and its parents
                if clean or readonly:
                    res.violation("stray", "a run without faults left %s behind" % path)
                    break
                if not (path.startswith(rd + "/") or path.startswith("tmp/")):
                    res.violation("stray", "%s appeared outside the destination" % path)
                    break
            for k, p in w.disk.source_touched[:1]:
                res.violation("source-touched", "tried to %s the bundled files: %s" % (k, p))
            for k, p in w.disk.escapes[:1]:
                res.violation("escape", "tried to %s %s" % (k, p))


# ---------------------------------------------------------------- S04

EDITS = ["flip_same_stat", "flip", "append", "truncate", "delete_file", "add_file", "add_dir", "delete_dir",
         "file_to_dir", "dir_to_file", "file_to_badlink", "restore", "prior", "empty_file", "rename_file", "touch",
         "swap_content", "case_rename", "dir_to_link", "hidden_file", "chmod_file"]


class S04(SkillScenario):
    prop = "S04"

    def gen(self, rng, i, tier):
        p = base_plan(rng, 0.15)
        p["prior"] = {n: ("complete" if rng.random() < 0.5 else rng.choice(PRIOR)) for n in (USER, DEV)}
        for _ in range(rng.choice([2, 3, 4, 6])):
            r = rng.random()
            if r < 0.35:
                p["phases"].append({"edits": [{"name": rng.choice([USER, DEV]), "kind": rng.choice(EDITS),
                                               "seed": rng.randrange(1 << 20)} for _ in range(rng.choice([1, 1, 2, 3]))]})
            elif r < 0.5:
                c = gen_request(rng)
                c["force"] = rng.random() < 0.8
                c["faults"] = gen_faults(rng, est_for(c))
                p["phases"].append(solo(c))
            else:
                pass
            c = {"status": True, "all": rng.random() < 0.6, "api": rng.random() < 0.6}
            if not c["all"]:
                c["names"] = [rng.choice(sorted(ALIASES)) for _ in range(rng.choice([0, 1, 2]))]
            c["faults"] = gen_faults(rng, 60, ["none"] * 6 + ["error", "badread", "short", "memory"])
            p["phases"].append(solo(c))
        return p

    def body(self, plan, w, res):
        for ph in plan["phases"]:
            if "edits" in ph:
                for e in ph["edits"]:
                    try:
                        self.edit(w, e)
                    except OSError as err:      # what the user wants is in the way of an earlier edit
                        w.log.add("edit refused", err.errno)
                        continue
                    res.probe("edit_" + e["kind"])
                continue
            (sp, a, oc, out), = w.phase(ph["cmds"], ph["sched"])
            if not sp.get("status"):
                continue
            injected = w.disk.actors[a.idx]["injected"]
            rows = None
            if sp.get("api") and oc[0] == "ok":
                rows = {r["name"]: (bool(r["installed"]), r["mode"], bool(r["synced"])) for r in oc[1]}
            elif not sp.get("api") and succeeded(sp, oc):
                rows = parse_status(out)
            if rows is None:
                if not injected:
                    res.violation("no-report", "status gave no report without any fault: %r" % (oc,))
                continue
            req = requested(sp)
            if sorted(rows) != sorted(req):
                res.violation("wrong-rows", "status rows %s for request %s" % (sorted(rows), req))
            for n in req:
                if n not in rows:
                    continue
                want = model_status(w, n)
                res.probe("truth_" + want[1] + ("_synced" if want[2] else "_unsynced"))
                if injected:
                    if rows[n][2] and not want[2]:
                        res.violation("false-sync", "after a read fault %s is reported in sync but is not" % n)
                elif rows[n] != want:
                    res.violation("untrue-status", "%s reported (installed,mode,synced)=%s but truth is %s" % (
                        n, rows[n], want))

    def edit(self, w, e):
        t = w.target(e["name"])
        rng = random.Random(e["seed"])
        kind = e["kind"]
        w.log.add("edit", e)
        os.makedirs(w.dest_real, exist_ok=True)
        if kind in ("prior", "restore"):
            if os.path.islink(t) or os.path.isfile(t):
                os.unlink(t)
            elif os.path.isdir(t):
                shutil.rmtree(t)
            w.make_prior(e["name"], "complete" if kind == "restore" else rng.choice(PRIOR))
            return
        if os.path.islink(t) or not os.path.isdir(t):
            return
        files, dirs = [], []
        for d, dn, fn in os.walk(t):
            for n in fn:
                if not os.path.islink(os.path.join(d, n)):
                    files.append(os.path.join(d, n))
            for n in dn:
                if not os.path.islink(os.path.join(d, n)):
                    dirs.append(os.path.join(d, n))
        files.sort()
        dirs.sort()
        f = rng.choice(files) if files else None
        dd = rng.choice(dirs) if dirs else None
        if kind in ("flip_same_stat", "flip") and f and os.path.getsize(f):
            st = os.stat(f)
            with open(f, "r+b") as h:
                pos = rng.choice([0, st.st_size - 1, rng.randrange(st.st_size)])
                h.seek(pos)
                b = h.read(1)
                h.seek(pos)
                h.write(bytes([b[0] ^ 0x21]))
            if kind == "flip_same_stat":
                os.utime(f, ns=(st.st_atime_ns, st.st_mtime_ns))
        elif kind == "append" and f:
            with open(f, "ab") as h:
                h.write(b"\n")
        elif kind == "truncate" and f:
            with open(f, "r+b") as h:
                h.truncate(max(0, os.path.getsize(f) - 1))
        elif kind == "empty_file" and f:
            open(f, "wb").close()
        elif kind == "delete_file" and f:
            os.unlink(f)
        elif kind == "rename_file" and f:
            os.rename(f, f + ".bak")
        elif kind == "case_rename" and f:
            os.rename(f, os.path.join(os.path.dirname(f), os.path.basename(f).swapcase()))
        elif kind == "add_file":
            w._w((dd or t) + "/zz_extra.md", b"extra\n")
        elif kind == "hidden_file":
            w._w((dd or t) + "/.hidden", b"")
        elif kind == "add_dir":
            os.makedirs((dd or t) + "/zz_dir", exist_ok=True)
        elif kind == "delete_dir" and dd:
            shutil.rmtree(dd)
        elif kind == "file_to_dir" and f:
            os.unlink(f)
            os.mkdir(f)
        elif kind == "dir_to_file" and dd:
            shutil.rmtree(dd)
            w._w(dd, b"not a folder\n")
        elif kind == "dir_to_link" and dd:
            shutil.rmtree(dd)
            os.symlink(os.path.join(w.root, "outside", "precious"), dd)
        elif kind == "file_to_badlink" and f:
            os.unlink(f)
            os.symlink(os.path.join(w.root, "outside", rng.choice(["gone", "file.txt"])), f)
        elif kind == "swap_content" and len(files) > 1:
            g = rng.choice([x for x in files if x != f])
            os.rename(f, f + ".t")
            os.rename(g, f)
            os.rename(f + ".t", g)
        elif kind == "touch" and f:
            os.utime(f, (1e9, 1e9))
        elif kind == "chmod_file" and f:
            os.chmod(f, 0o600)


def model_status(w, name):
    t = w.target(name)
    if os.path.islink(t):
        return (True, "editable-link", w.good_link(name))
    if os.path.isdir(t):
        return (True, "copy", w.complete_copy(name))
    if os.path.lexists(t):
        return (True, "non-directory", False)
    return (False, "missing", False)


def parse_status(out):
    rows, cur = {}, None
    vals = {}
    for ln in out.splitlines():
        s = ln.strip()
        if s.startswith("- "):
            cur = s[2:].strip()
            vals[cur] = {}
        elif cur and ":" in s:
            k, _, v = s.partition(":")
            vals[cur][k.strip()] = v.strip()
    for n, v in vals.items():
        rows[n] = (v.get("installed") == "yes", v.get("mode"), v.get("synced") == "yes")
    return rows


# ---------------------------------------------------------------- S05

class S05(SkillScenario):
    prop = "S05"
    hang_is_violation = True
    quick_runs = 4000

    def gen(self, rng, i, tier):
        p = base_plan(rng, 0.3)
        for _ in range(rng.choice([1, 1, 2, 3])):
            c = gen_request(rng)
            c["force"] = rng.random() < 0.8
            c["faults"] = gen_faults(rng, est_for(c), ["crash", "crash", "torn", "error", "errors", "full", "readonly",
                                                       "interrupt", "memory"])
            p["phases"].append(solo(c))
            if rng.random() < 0.3:
                p["phases"].append({"edits": [{"name": rng.choice([USER, DEV]), "kind": rng.choice(EDITS),
                                               "seed": rng.randrange(1 << 20)} for _ in range(rng.choice([1, 3]))]})
        c = gen_request(rng)
        c["force"] = True
        if rng.random() < 0.4:
            c["force_word"] = "--upgrade"
        c["faults"] = []
        p["final"] = c
        return p

    def body(self, plan, w, res):
        for ph in plan["phases"]:
            if "edits" in ph:
                for e in ph["edits"]:
                    S04.edit(self, w, e)
            else:
                w.phase(ph["cmds"], ph["sched"])
        c = plan["final"]
        seen = None
        for rnd in (1, 2):
            left = {n: model_status(w, n)[1] + ("+" if model_status(w, n)[2] else "-") for n in requested(c)}
            (sp, a, oc, out), = w.phase([c], {"mode": "explicit", "switches": []})
            for n in requested(c):
                res.probe("repaired_from_" + left[n])
            if not succeeded(sp, oc):
                res.violation("not-repaired", "forced install without faults failed from %s: %r" % (left, oc))
                return
            for n in requested(c):
                good = w.good_link(n) if sp.get("editable") else w.complete_copy(n)
                if not good:
                    res.violation("not-repaired", "forced install reported success but %s is not right: %s" % (
                        n, fsim.diff(SOURCE[n], w.place(n))))
                    return
            st = {"status": True, "api": True, "names": requested(c)}
            (sp2, a2, oc2, _), = w.phase([st], {"mode": "explicit", "switches": []})
            bad = oc2[0] != "ok" or any(not (r["installed"] and r["synced"]) for r in oc2[1])
            if bad:
                res.violation("status-after-repair", "status after repair: %r" % (oc2,))
            now = {n: w.place(n) for n in requested(c)}
            if seen is not None and now != seen:
                res.violation("not-idempotent", "repeating the forced install changed the skill")
            seen = now

    def shrink(self, plan):
        yield from super().shrink(plan)
        if len(plan["phases"]) == 1:
            p = copy.deepcopy(plan)
            p["phases"] = []
            yield p


# ---------------------------------------------------------------- S06

class S06(SkillScenario):
    prop = "S06"
    hang_is_violation = True
    quick_runs = 5000

    def gen(self, rng, i, tier):
        p = base_plan(rng, 1.0)
        k = rng.choice([2, 2, 3, 4])
        cmds = [gen_request(rng) for _ in range(k)]
        if rng.random() < 0.6:              # everybody wants the same skills
            for c in cmds[1:]:
                for key in ("names", "dev", "all"):
                    c.pop(key, None)
                    if key in cmds[0]:
                        c[key] = copy.copy(cmds[0][key])
        for c in cmds:
            c["faults"] = []
        if rng.random() < 0.35:
            c = rng.choice(cmds)
            c["faults"] = gen_faults(rng, est_for(c), ["error", "crash", "torn", "full", "interrupt", "short", "memory"])
        est = 90 * k
        p["phases"].append({"cmds": cmds, "sched": {"mode": rng.choice(["walk", "walk", "few"]),
                                                    "p": rng.choice([0.05, 0.2, 0.5, 0.8]), "k": rng.choice([1, 2, 3, 5]),
                                                    "est": est, "seed": rng.randrange(1 << 30)}})
        return p

    def body(self, plan, w, res):
        for ph in plan["phases"]:
            outs = w.phase(ph["cmds"], ph["sched"])
            wins = {}
            anyfault = False
            for sp, a, oc, out in outs:
                anyfault = anyfault or bool(w.disk.actors[a.idx]["injected"]) or oc[0] == "crash"
                if succeeded(sp, oc):
                    for n in requested(sp):
                        wins.setdefault(n, []).append(a.idx)
                        good = w.good_link(n) if sp.get("editable") else w.complete_copy(n)
                        if not good:
                            res.violation("winner-disturbed", "installer %d reported success for %s but it is not "
                                          "complete at the end: %s" % (a.idx, n, fsim.diff(SOURCE[n], w.place(n))))
            for n, l in wins.items():
                if len(l) > 1:
                    res.violation("two-winners", "installers %s all reported success for %s" % (l, n))
            res.probe("winners_%d" % sum(len(l) for l in wins.values()))
            if not anyfault and len({tuple(sorted(requested(sp))) for sp in ph["cmds"]}) == 1:
                res.probe("same_request_no_fault")
                for n in requested(ph["cmds"][0]):
                    if not (w.good_link(n) or w.complete_copy(n)):
                        res.violation("nobody-won", "no fault occurred but %s is not installed at the end: %s" % (
                            n, fsim.diff(SOURCE[n], w.place(n))))


# ---------------------------------------------------------------- S07

class S07(SkillScenario):
    prop = "S07"

    def gen(self, rng, i, tier):
        p = base_plan(rng, 0.35)
        c = gen_request(rng)
        c["force"] = rng.random() < 0.75
        c["faults"] = gen_faults(rng, est_for(c), ["none", "error", "error", "error", "crash", "crash", "torn", "full",
                                                   "full", "interrupt", "memory", "short", "errors", "readonly"])
        p["phases"].append(solo(c))
        if rng.random() < 0.25:
            d = gen_request(rng)
            d["force"] = True
            d["faults"] = gen_faults(rng, est_for(d), ["none", "error", "crash", "full"])
            p["phases"].append(solo(d))
        return p

    def body(self, plan, w, res):
        for ph in plan["phases"]:
            before = {n: w.place(n) for n in (USER, DEV)}
            new = {}
            sp0 = ph["cmds"][0]
            for n in (USER, DEV):
                new[n] = SOURCE[n]
            flagged = set()

            def state(n):
                now = w.place(n)
                if not now:
                    return "nothing"
                if now == before[n]:
                    return "previous"
                if now == new[n] or w.good_link(n):
                    return "new"
                return "partial"

            def watch(disk, kind, p, idx):
                if kind not in fsim.MUTATING:
                    return
                for n in (USER, DEV):
                    if n not in flagged and state(n) == "partial":
                        flagged.add(n)
                        disk.trace.append("   !! %s is half-written here" % n)
                        res.violation("half-written", "during the install the place of %s held a partial copy: %s" % (
                            n, fsim.diff(SOURCE[n], w.place(n))))
            (sp, a, oc, out), = w.phase(ph["cmds"], ph["sched"], observers=[watch])
            inj = w.disk.actors[a.idx]["injected"]
            kinds = [f["kind"] for f in sp.get("faults", [])]
            for n in (USER, DEV):
                s = state(n)
                res.probe("end_" + s)
                if s == "partial" and n not in flagged:
                    res.violation("half-written", "after the install (%r) the place of %s holds a partial copy: %s" % (
                        oc[:2], n, fsim.diff(SOURCE[n], w.place(n))))
                if n in requested(sp) and sp.get("force") and before[n] and s == "nothing" and oc[0] != "crash" and \
                        not succeeded(sp, oc) and (len(kinds) <= 1 or all(k == "short" for k in kinds)) and \
                        (not kinds or kinds[0] not in ("readonly",)):
                    res.violation("previous-lost", "the forced install failed (%r) and the previous content of %s is "
                                  "gone" % (oc[:2], n))


ALL = {c.prop: c for c in (S01, S02, S03, S04, S05, S06, S07)}
