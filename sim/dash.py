"""D01: saving a dashboard on the simulated disk; D02: dashboards in busy sessions."""
import copy
import hashlib
import io
import json
import logging
import os
import sys
import warnings

import numpy as np

from . import calls as K
from . import catalogue as C
from . import core, fsim, figs, procs, skills
from . import engine as E

KINDS = {"aout": ("adctoolbox.toolset.generate_aout_dashboard", "generate_aout_dashboard"),
         "aout12": ("adctoolbox.toolset.generate_aout_dashboard_3x4", "generate_aout_dashboard"),
         "dout": ("adctoolbox.toolset.generate_dout_dashboard", "generate_dout_dashboard")}


def function(kind):
    mod, name = KINDS[kind]
    return getattr(sys.modules[mod], name)


def spec_gen(r, small=False):
    kind = r.choice(("aout", "aout12", "dout"))
    n = 256 if small else r.choice((256, 512))
    s = {"kind": kind, "n": n, "base": r.randrange(40)}
    if kind == "dout":
        s["nb"] = r.choice((5, 6, 8))
        if r.random() < 0.3:
            s["weights"] = 1
    else:
        s["var"] = r.choice(("plain", "plain", "neg", "shift"))
        if r.random() < 0.4:
            s["fs"] = r.choice((1.0, 1e6))
        if r.random() < 0.4:
            s["resolution"] = r.choice((8, 10))
    return s


def arguments(s):
    if s["kind"] == "dout":
        kw = {}
        if s.get("weights"):
            kw["weights"] = [float(2 ** (s["nb"] - 1 - i)) * (1.01 if i == 0 else 1.0) for i in range(s["nb"])]
        x = C.bit_matrix(s["n"], s["nb"], s["base"])
        if s.get("bad") == "shape":
            x = x[:, 0]
        elif s.get("bad") == "empty":
            x = x[:0]
        elif s.get("bad") == "text":
            x = "not bits"
        return x, kw
    kw = {k: s[k] for k in ("fs", "resolution") if k in s}
    x = np.array(C.base_signal(s["n"], s["base"], s.get("var", "plain")))
    if s.get("bad") == "shape":
        x = x.reshape(2, 2, -1)
    elif s.get("bad") == "empty":
        x = x[:0]
    elif s.get("bad") == "text":
        x = "not a signal"
    return x, kw


def coarse_saves():
    """Seam: images are rendered at a low resolution (the request says 150 dpi) to keep runs short."""
    import matplotlib.figure as mf
    real = mf.Figure.savefig

    def savefig(self, *a, **k):
        if "dpi" in k:
            k["dpi"] = 12
        return real(self, *a, **k)
    mf.Figure.savefig = savefig


# ------------------------------------------------------------------ D01

def complete_image(path, ext):
    """None, or why the bytes at path are not a complete image of that kind."""
    if not os.path.isfile(path):
        return "there is no file" if not os.path.lexists(path) else "it is not a file"
    with open(path, "rb") as f:
        data = f.read()
    if not data:
        return "the file is empty"
    try:
        if ext in ("png", "jpg", "jpeg", "tif", "webp"):
            from PIL import Image, ImageFile
            ImageFile.LOAD_TRUNCATED_IMAGES = False
            im = Image.open(io.BytesIO(data))
            im.load()
            fmt = {"png": "PNG", "jpg": "JPEG", "jpeg": "JPEG", "tif": "TIFF", "webp": "WEBP"}[ext]
            if im.format != fmt:
                return "it is %s data" % im.format
            if ext == "png" and not data.rstrip().endswith(b"IEND\xaeB`\x82"):
                return "the end of the image is missing"
            if ext in ("jpg", "jpeg") and not data.endswith(b"\xff\xd9"):
                return "the end of the image is missing"
            if min(im.size) < 60:
                return "it is the old image or far too small: %s" % (im.size,)
            if im.convert("L").getextrema()[0] == im.convert("L").getextrema()[1]:
                return "the image is blank"
        elif ext == "pdf":
            if not data.startswith(b"%PDF") or b"%%EOF" not in data[-32:] or b"startxref" not in data[-64:]:
                return "the PDF is cut off"
            at = int(data[data.rindex(b"startxref") + 9:].split()[0])
            if not data[at:at + 4] == b"xref":
                return "the PDF's table is not where it says"
        elif ext == "svg":
            import xml.etree.ElementTree as ET
            if not ET.fromstring(data).tag.endswith("svg"):
                return "it is not an SVG"
    except Exception as e:
        return "it cannot be decoded (%s: %s)" % (type(e).__name__, str(e)[:80])
    return None


EXTS = ("png", "png", "png", "png", "pdf", "svg", "jpg")
PARENTS = ("", "have", "have/sub", "new", "new/deep/er", "have/new", "link", "blocked", "blocked/x", "up")
PRIOR = ("missing", "missing", "missing", "old_image", "garbage", "longer", "dir", "link_file", "dangling")


class D01(skills.SkillScenario):
    prop = "D01"
    quick_runs = 500
    thorough_runs = 3500
    run_timeout = 90.0
    components = {
        "real": ["the three dashboard functions", "matplotlib figure saving (Agg, PDF, SVG), Pillow encoders",
                 "pathlib, kernel file system semantics on a scratch directory"],
        "stub": ["disk faults, short transfers, kills: injected at the seam", "resolution of the rendered image (12 dpi)",
                 "in most runs the panels' analysis functions draw one line instead of analysing",
                 "another process making the same folders: a scheduled thread"],
    }
    assumptions = ["the requested name ends in an image type matplotlib knows",
                   "no power loss: bytes handed to the kernel before the announcement count as on disk"]
    rule = ("one case = one seeded plan (dashboard, output path form, prior state, faults, hand-overs) with one or two "
            "saves; non-trivial = a fault was injected, actors were interleaved or the path existed; distinct = "
            "distinct event-log hash")

    def prepare(self):
        warnings.simplefilter("ignore")
        logging.getLogger("matplotlib").setLevel(logging.ERROR)
        fsim.install()
        E.import_library()
        E.warm_plotting()
        coarse_saves()
        self.warm_writers()
        self.drop = procs.readable_by_nobody(core.SRC)
        import matplotlib
        self.drop = self.drop and procs.readable_by_nobody(os.path.join(os.path.dirname(matplotlib.__file__), "mpl-data"))

    def warm_writers(self):
        import matplotlib.pyplot as plt
        fig, ax = plt.subplots()
        ax.plot([1, 2])
        ax.set_title("warm")
        for ext in sorted(set(EXTS)):
            fig.savefig(io.BytesIO(), format=ext, dpi=12, bbox_inches="tight")
        plt.close("all")

    def gen(self, r, i, tier):
        p = {"seed": r.randrange(1 << 30), "spec": spec_gen(r, True), "real": r.random() < 0.12,
             "parent": r.choice(PARENTS), "prior": r.choice(PRIOR), "ext": r.choice(EXTS),
             "form": r.choice(("str", "path", "abs", "abspath")), "name": r.choice(("dash", "my dash", "a.b", "UP", ".hid", "~x", "d%d", "grün")),
             "phases": []}
        if p["prior"] != "missing":
            p["parent"] = r.choice(("", "have", "have/sub", "link", "up"))
        if r.random() < 0.1:
            p["ext"] = r.choice(("xyz", "PNG", "tif"))
        est = r.choice((6, 8, 10, 14, 30))
        f = skills.gen_faults(r, est, ["none", "error", "error", "error", "errors", "short", "full", "full", "readonly",
                                       "interrupt", "memory", "crash", "torn", "error"])
        if f and f[0]["kind"] in ("full", "readonly") and r.random() < 0.3:
            f[0]["op"] = r.randrange(3)
        ph = {"cmds": [{"faults": f}], "sched": {"mode": "explicit", "switches": []}}
        if r.random() < 0.3:
            ph["other"] = 1
            ph["sched"] = {"mode": r.choice(("walk", "few")), "p": r.choice((0.3, 0.6)), "k": r.choice((1, 2)), "est": 12,
                           "seed": r.randrange(1 << 30)}
        if ph.get("other") and r.random() < 0.6:
            p["parent"], p["prior"] = r.choice(("new", "new/deep/er", "have/new")), "missing"
            ph["cmds"][0]["faults"] = []
        p["phases"].append(ph)
        if r.random() < 0.6:
            p["phases"].append({"cmds": [{"faults": []}], "sched": {"mode": "explicit", "switches": []}})
        return p

    def light_panels(self):
        """Replace the panels' analyses (not what is under test here) by one line each."""
        import matplotlib.pyplot as plt

        def light(*a, **k):
            ax = k.get("ax") or plt.gca()
            ax.plot([0, 1, 2], [1, 3, 2])
            ax.set_axis_off()
            return {}
        for mod, own in KINDS.values():
            m = sys.modules[mod]
            for n, f in list(vars(m).items()):
                if callable(f) and n.startswith(("analyze_", "plot_", "fit_")) and \
                        getattr(f, "__module__", "").startswith("adctoolbox.") and f.__module__ != mod:
                    setattr(m, n, light)

    def run(self, plan, scratch):
        res, log = core.Result(), core.Log()
        fsim.seed_process(plan["seed"])
        np.random.seed(plan["seed"] % (1 << 32))
        self.scratch, self.log = scratch, log
        j = os.path.join
        for d in ("cwd", "tmp", "outside", "cwd/have", "cwd/have/sub", "outside/real"):
            os.mkdir(j(scratch, d))
        with open(j(scratch, "cwd/blocked"), "w") as f:
            f.write("a file in the way")
        os.symlink(j(scratch, "outside/real"), j(scratch, "cwd/link"))
        import tempfile
        tempfile.tempdir = j(scratch, "tmp")
        os.environ["TMPDIR"] = j(scratch, "tmp")
        os.chdir(j(scratch, "cwd"))
        par = {"up": "..", "": "."}.get(plan["parent"], plan["parent"])
        rel = os.path.normpath(j(par, "%s.%s" % (plan["name"], plan["ext"])))
        self.rel = rel
        self.target = os.path.normpath(j(scratch, "cwd", rel))
        self.mk_prior(plan["prior"])
        if self.drop:
            procs.drop_privileges(scratch)
        if not plan["real"]:
            self.light_panels()
        self.body(plan, res)
        res["loghash"] = res["sig"] = log.hexdigest()
        res["nontrivial"] = bool(res["faults"] or any(res["record"].get("switches", [])) or plan["prior"] != "missing")
        return res

    def mk_prior(self, kind):
        t = self.target
        if kind == "missing":
            return
        if kind == "old_image":
            from PIL import Image
            Image.new("RGB", (20, 20)).save(t, format="PNG")
        elif kind == "garbage":
            with open(t, "wb") as f:
                f.write(b"something else")
        elif kind == "longer":
            with open(t, "wb") as f:
                f.write(b"x" * 3_000_000)
        elif kind == "dir":
            os.mkdir(t)
        elif kind == "link_file":
            with open(os.path.join(self.scratch, "outside/there.bin"), "wb") as f:
                f.write(b"linked")
            os.symlink(os.path.join(self.scratch, "outside/there.bin"), t)
        elif kind == "dangling":
            os.symlink(os.path.join(self.scratch, "outside/notyet.bin"), t)

    def usable(self, plan):
        return (plan["ext"] in ("png", "pdf", "svg", "jpg", "PNG", "tif") and not plan["parent"].startswith("blocked")
                and plan["prior"] != "dir")

    def body(self, plan, res):
        from pathlib import Path
        fn = function(plan["spec"]["kind"])
        x, kw = arguments(plan["spec"])
        p = self.rel if plan["form"] in ("str", "path") else self.target
        kw["output_path"] = Path(p) if plan["form"] in ("path", "abspath") else p
        for phase in plan["phases"]:
            disk = fsim.Disk(self.scratch, [core.SRC], self.log, res)
            disk.no_fileno = True
            ph = procs.Phase(disk, self.log, phase["sched"])
            a = ph.add("save", lambda: fn(x, **kw), phase["cmds"][0]["faults"] if phase["cmds"] else [])
            if phase.get("other") and plan["parent"] and not plan["parent"].startswith("blocked"):
                ph.add("other", lambda: os.makedirs(os.path.dirname(self.target), exist_ok=True))
            fin = ph.run()
            skills._keep.append((disk, ph))
            if not fin:
                res.violation("no-progress", "the save never finishes")
                return
            oc = ph.outcome(a)
            out = ph.out.text(a.idx) + ph.err.text(a.idx)
            inj = disk.actors[a.idx]["injected"]
            self.log.add("outcome", oc[0], oc[1] if oc[0] == "exc" else "")
            res["steps"] += ph.sched.step
            res["record"].setdefault("switches", []).append(list(ph.sched.taken))
            res.setdefault("trace", []).extend(disk.trace[-200:] + ["ended: %s" % (oc[0],), "printed: %r" % out[-160:]])
            said = "saved" in out.lower()
            ok = oc[0] == "ok"
            why = complete_image(self.target, plan["ext"].lower())
            res.probe("saved" if ok else "failed")
            if inj and not ok:
                res.probe("failed under a fault")
            if ok and why:
                res.violation("incomplete-save", "%s returned normally but at %s: %s" % (plan["spec"]["kind"], self.rel, why))
            if said and why:
                res.violation("false-announcement", "%s announced the save but at %s: %s" % (
                    plan["spec"]["kind"], self.rel, why))
            if said and not ok and oc[0] != "crash" and not any(n[2] in ("stat", "read", "open") for n in inj):
                res.violation("announced-then-raised", "%s announced the save and then raised %s" % (
                    plan["spec"]["kind"], oc[1:]))
            if not ok and not inj and self.usable(plan):
                res.violation("needless-failure", "%s: no fault and nothing in the way, yet %s %s" % (
                    plan["spec"]["kind"], oc, out[-120:]))
            if oc[0] == "crash":
                return

    def shrink(self, plan):
        q = copy.deepcopy(plan)
        prior = q.pop("prior")
        for p in skills.SkillScenario.shrink(self, q):
            p["prior"] = prior
            yield p
        for k, v in (("real", False), ("prior", "missing"), ("parent", ""), ("ext", "png"), ("form", "str"),
                     ("name", "dash")):
            if plan[k] != v:
                p = copy.deepcopy(plan)
                p[k] = v
                yield p
        for i, ph in enumerate(plan["phases"]):
            if ph.get("other"):
                p = copy.deepcopy(plan)
                del p["phases"][i]["other"]
                p["phases"][i]["sched"] = {"mode": "explicit", "switches": []}
                yield p


# ------------------------------------------------------------------ D02

REFS = {}


def spec_key(s):
    return json.dumps(s, sort_keys=True)


def content(fig):
    return E.canon(figs.figure_fp(fig))


def drawn(fig):
    """Content of a dashboard; limits that only follow from a fixed aspect when it is rendered do not count."""
    return E.canon({"fig": figs.figure_fp(fig, axes=False), "axes": [figs.axes_fp(a, True) for a in fig.axes],
                    "pos": [figs._arr(a.get_position(original=True).bounds) for a in fig.axes],
                    "size": figs._arr(fig.get_size_inches())})


def reference(spec):
    """The dashboard of a fresh process: its content and the places where a call can fail."""
    def go():
        x, kw = arguments(spec)
        cnt = E.Counter()
        np.random.seed(1)
        E.watch(cnt.call)
        fig, axes = function(spec["kind"])(x, **kw)
        E.unwatch()
        return {"fp": drawn(fig), "sites": cnt.sites, "n": cnt.n, "axes": len(np.ravel(axes))}
    return E._pipe_child(go)


class D02(figs.FigScenario):
    prop = "D02"
    quick_runs = 150
    thorough_runs = 1200
    run_timeout = 120.0
    needs_scratch = True
    assumptions = ["plots are made from one thread (pyplot's own rule)", "values and positions are compared up to rounding"]

    def prepare(self):
        super().prepare()
        logging.getLogger("matplotlib").setLevel(logging.ERROR)
        coarse_saves()
        r = core.rng_for("D02 inputs", os.environ.get("VERIF_SEED", "1"))
        self.pool = []
        for k in range(12):
            s = spec_gen(r)
            s["kind"] = ("aout", "aout12", "dout")[k % 3]
            s.pop("weights", None)
            s["nb"] = r.choice((5, 6, 8))
            self.pool.append(s)
        self.fill(self.pool)

    def fill(self, specs):
        """References of the pool, computed in parallel forks."""
        import pickle
        import tempfile
        d = tempfile.mkdtemp(prefix="d02-")
        pids = []
        for i, s in enumerate(specs):
            pid = os.fork()
            if pid == 0:
                try:
                    with open(os.path.join(d, "%d" % i), "wb") as f:
                        pickle.dump(reference(s), f)
                except BaseException:
                    os._exit(1)
                os._exit(0)
            pids.append(pid)
        for i, pid in enumerate(pids):
            os.waitpid(pid, 0)
            p = os.path.join(d, "%d" % i)
            try:
                with open(p, "rb") as f:
                    REFS[spec_key(specs[i])] = pickle.load(f)
            except (OSError, EOFError, pickle.UnpicklingError):
                pass
            if os.path.exists(p):
                os.unlink(p)
        os.rmdir(d)

    def gen(self, r, i, tier):
        c = C.Ctx(r, True)
        c.plot = 1.0
        pool = sorted(n for n in C.NAMES if n in C.CAN_PLOT)
        ops = []
        k = r.choice((1, 2, 2, 3))
        mine = r.sample(self.pool, 2)
        for _ in range(k):
            for _ in range(r.choice((0, 1, 1, 2))):
                u = r.random()
                if u < 0.35:
                    ops.append(figs.user_figop(r))
                elif u < 0.45:
                    ops.append({"fn": "user.close", "a": [r.randrange(4)], "k": {}, "rs": 1})
                elif u < 0.75:
                    ops.append(figs.aim(r, C.make(c, r, r.choice(pool))))
                else:
                    s = dict(r.choice(mine))
                    op = {"fn": "user.dashboard", "a": [s], "k": {}, "rs": r.randrange(1 << 20)}
                    if r.random() < 0.6:
                        op["fault"] = K.fault_plan(r)
                    else:
                        s["bad"] = r.choice(("shape", "empty", "text", "path"))
                    ops.append(op)
            op = {"fn": "user.dashboard", "a": [dict(r.choice(mine))], "k": {}, "rs": r.randrange(1 << 20)}
            if r.random() < 0.6:
                op["save"] = r.choice(("a.png", "out/a.png", "b.svg", "c.pdf"))
            elif r.random() < 0.2 and op["a"][0]["kind"] != "aout":
                op["show"] = 1
            ops.append(op)
        return {"phases": [{"actors": [ops]}], "arena": "shared", "layout": figs.layout_plan(r)}

    def run(self, plan, scratch):
        res, log = core.Result(), core.Log()
        os.chdir(scratch)
        with open("blocked", "w"):
            pass
        ses = E.Session(plan, res, log, None, count=False)
        ses.nested_only()
        for op in ses.all_ops():
            if op["fn"] == "user.dashboard" and not op["a"][0].get("bad"):
                key = spec_key(op["a"][0])
                if key not in REFS:
                    REFS[key] = reference(op["a"][0])
        bench = figs.Bench(plan["layout"])
        ses.make_arena(figs=bench)
        sys.stdout = io.StringIO()
        try:
            self.live(plan, res, ses, bench)
        finally:
            sys.stdout = sys.__stdout__
        ses.sig.append([f["kind"] for f in plan["layout"]["figs"]])
        out = self.wrap(ses, res, plan)
        out["nontrivial"] = any(op["fn"] == "user.dashboard" for op in ses.all_ops())
        return out

    def live(self, plan, res, ses, bench):
        import matplotlib.pyplot as plt
        for op in plan["phases"][0]["actors"][0]:
            if op["fn"] == "user.select":
                bench.select(*op["a"])
            elif op["fn"] == "user.close":
                n = plt.get_fignums()
                if n:
                    plt.close(n[op["a"][0] % len(n)])
            elif op["fn"] == "user.dashboard":
                self.dashboard(op, res, ses, plt)
            else:
                call = E.Call(op, ses.arena)
                E.ready_axes()
                out = call.perform(seed=True)
                ses.finished((0, 0, 0), call, out, None)

    def dashboard(self, op, res, ses, plt):
        spec = op["a"][0]
        kind = spec["kind"]
        x, kw = arguments(spec)
        if op.get("save"):
            kw["output_path"] = op["save"]
        if spec.get("bad") == "path":
            kw["output_path"] = "blocked/x.png"
        if op.get("show"):
            kw["show"] = True
        before = figs.open_figures()
        fps = [content(f) for f in before]
        inj = E.pick_fault(op["fault"], REFS[spec_key(spec)]) if op.get("fault") else None
        np.random.seed(op["rs"])
        if inj:
            E.watch(inj.call)
        try:
            out = ("ok", function(kind)(x, **kw))
        except BaseException as e:
            out = ("exc", type(e).__name__, str(e)[:200])
        if inj:
            E.unwatch()
        ses.note_fault(op, inj)
        res["steps"] += 1
        how = " (%s)" % inj.fired if inj and inj.fired else ""
        now = figs.open_figures()
        res.probe("dashboards built" if out[0] == "ok" else "dashboards failed")
        ses.sig.append((kind, out[0] if out[0] == "ok" else out[1]))
        ses.log.add("dash", kind, out[0], out[1] if out[0] != "ok" else
                    hashlib.sha256(repr(E.canon_digest(drawn(out[1][0]))).encode()).hexdigest()[:12])
        for f, fp in zip(before, fps):
            if not any(f is g for g in now):
                res.violation("figure-closed", "the %s dashboard%s closed another figure" % (kind, how), kind)
                continue
            d = E.differ(fp, content(f), exact=True, path="figure")
            if d:
                res.violation("other-figure", "the %s dashboard%s changed another figure: %s" % (kind, how, d), kind)
        if out[0] != "ok":
            if not how and not spec.get("bad"):
                res.violation("failed", "the %s dashboard fails in a busy session: %s" % (kind, out[1:]), kind)
            return
        if spec.get("bad"):
            return
        fig, axes = out[1]
        if how:
            return          # an injected failure was absorbed: the content may lack what failed
        ref = REFS[spec_key(spec)]
        if len(np.ravel(axes)) != ref["axes"]:
            res.violation("content", "the %s dashboard returns %d axes instead of %d" % (
                kind, len(np.ravel(axes)), ref["axes"]), kind)
        d = E.differ(ref["fp"], drawn(fig), path="dashboard")
        if d:
            res.violation("content", "the %s dashboard differs from a fresh session's: %s" % (kind, d), kind)
        new = [g for g in now if not any(g is f for f in before)]
        want = 0 if op.get("save") else 1
        if len(new) != want:
            res.violation("extra-figure" if len(new) > want else "no-figure",
                          "the %s dashboard (%s) leaves %d new figures open instead of %d" % (
                              kind, "saved" if want == 0 else "not saved", len(new), want), kind)
        elif new and new[0] is not fig:
            res.violation("extra-figure", "the figure left open is not the dashboard", kind)

    def shrink(self, plan):
        yield from figs.FigScenario.shrink(self, plan)


ALL = {k.prop: k for k in (D01, D02)}
