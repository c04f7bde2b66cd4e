"""F01-F03: plotting sessions with several open figures, a chosen current one, earlier plots and faults."""
import copy
import inspect
import random
import sys

import numpy as np

from . import calls as K
from . import catalogue as C
from . import engine as E
from .core import Log, Result, digest

# ------------------------------------------------------------------ fingerprints


def _arr(x):
    try:
        a = np.ma.filled(np.ma.asarray(x), np.nan) if np.ma.isMaskedArray(x) else np.asarray(x)
        if a.dtype == object:
            return [str(v) for v in a.ravel().tolist()[:50]]
        return np.array(a)
    except Exception:
        return str(type(x))


def _colour(c):
    try:
        import matplotlib.colors as mc
        return np.round(np.asarray(mc.to_rgba_array(c), dtype=float), 6)
    except Exception:
        return str(c)


def artist_fp(a):
    from matplotlib.collections import Collection
    from matplotlib.image import AxesImage
    from matplotlib.legend import Legend
    from matplotlib.lines import Line2D
    from matplotlib.patches import Patch
    from matplotlib.text import Text
    out = {"type": type(a).__name__, "visible": bool(a.get_visible()), "alpha": str(a.get_alpha()),
           "z": float(a.get_zorder())}
    if isinstance(a, Line2D):
        out.update(x=_arr(a.get_xdata()), y=_arr(a.get_ydata()), color=_colour(a.get_color()), ls=str(a.get_linestyle()),
                   marker=str(a.get_marker()), width=float(a.get_linewidth()), label=str(a.get_label()))
    elif isinstance(a, Text):
        out.update(text=a.get_text(), size=float(a.get_fontsize()), color=_colour(a.get_color()),
                   weight=str(a.get_fontweight()), turn=float(a.get_rotation()))
        if type(a).__name__ == "Annotation" or a.axes is not None:
            out["pos"] = _arr(a.get_position()) if not isinstance(a.get_position()[0], str) else str(a.get_position())
    elif isinstance(a, Collection):
        out.update(offsets=_arr(a.get_offsets()), paths=[_arr(p.vertices) for p in a.get_paths()[:40]],
                   array=_arr(a.get_array()) if a.get_array() is not None else None, face=_colour(a.get_facecolor()),
                   label=str(a.get_label()))
    elif isinstance(a, AxesImage):
        out.update(data=_arr(a.get_array()), extent=_arr(a.get_extent()))
    elif isinstance(a, Legend):
        out.update(entries=[t.get_text() for t in a.get_texts()], title=a.get_title().get_text())
    elif isinstance(a, Patch):
        out.update(verts=_arr(a.get_path().vertices), trans=_arr(a.get_patch_transform().get_matrix()),
                   face=_colour(a.get_facecolor()), label=str(a.get_label()))
    return out


def _lim(f):
    try:
        return _arr(f())
    except Exception as e:      # content that cannot be scaled
        return "no limits: %s" % type(e).__name__


def axes_fp(ax, own=False):
    """What is drawn in one axes. own: its figure may be laid out again, so positions and the limits that follow from
    a fixed aspect are not part of it."""
    skip = {id(ax.patch), id(ax.title), id(ax._left_title), id(ax._right_title), id(ax.xaxis), id(ax.yaxis)}
    skip |= {id(s) for s in ax.spines.values()}
    leg = ax.get_legend()
    kids = [a for a in ax.get_children() if id(a) not in skip and a is not leg and a not in ax.child_axes]

    def ticks(axis):
        out = []
        for which in ("major", "minor"):
            tick = getattr(axis, which)
            out += [type(tick.locator).__name__, type(tick.formatter).__name__,
                    _arr(getattr(tick.locator, "locs", ())), [str(x) for x in getattr(tick.formatter, "seq", ())],
                    sorted("%s=%s" % kv for kv in getattr(axis, "_%s_tick_kw" % which).items())]
        if ax.name != "polar":      # only ticks that exist: asking for them would make them
            made = list(axis.__dict__.get("majorTicks", ())) + list(axis.__dict__.get("minorTicks", ()))
            out.append(sorted({float(t.label1.get_rotation()) for t in made} - {0.0}))
        return out + [bool(axis.get_visible()), axis.label.get_fontsize(), str(axis.label.get_fontweight())]
    out = {"name": ax.name, "artists": [artist_fp(a) for a in kids], "titles": [ax.title.get_text(),
           ax._left_title.get_text(), ax._right_title.get_text(), ax.title.get_fontsize(), _colour(ax.title.get_color())], "labels": [ax.get_xlabel(), ax.get_ylabel()],
           "scale": [ax.get_xscale(), ax.get_yscale()],
           "face": _colour(ax.get_facecolor()), "on": bool(ax.axison), "visible": bool(ax.get_visible()),
           "legend": artist_fp(leg) if leg is not None else None, "aspect": str(ax.get_aspect()),
           "xticks": ticks(ax.xaxis), "yticks": ticks(ax.yaxis), "spines": [
               [k, bool(s.get_visible()), _colour(s.get_edgecolor())] for k, s in sorted(ax.spines.items())],
           "children": [axes_fp(c, True) for c in ax.child_axes]}
    if not own or ax.get_aspect() == "auto":
        out.update(xlim=_lim(ax.get_xlim), ylim=_lim(ax.get_ylim))
    if not own:
        out["pos"] = _arr(ax.get_position(original=True).bounds)
    return out


def figure_fp(fig, axes=True):
    own = [artist_fp(a) for a in list(fig.texts) + list(fig.legends) + list(fig.lines) + list(fig.patches) +
           list(fig.images) + list(fig.artists)]
    sup = [t.get_text() if t is not None else None for t in (fig._suptitle, fig._supxlabel, fig._supylabel)]
    out = {"own": own, "sup": sup}
    if axes:
        out.update(axes=[axes_fp(a) for a in fig.axes], size=_arr(fig.get_size_inches()), dpi=float(fig.dpi),
                   face=_colour(fig.get_facecolor()))
    return out


# ------------------------------------------------------------------ the session's figures

def decorate(ax, seed):
    """Content the user has drawn before."""
    r = random.Random(seed)
    if r.random() < 0.25:
        return
    n = r.choice((3, 8))
    x = list(range(1, n + 1))
    y = [r.uniform(0.1, 5) for _ in x]
    ax.plot(x, y, label="mine %d" % (seed % 97))
    if r.random() < 0.5:
        ax.set_title("user title %d" % (seed % 89))
    if r.random() < 0.3:
        ax.legend()
    if r.random() < 0.3 and ax.name == "rectilinear":
        ax.scatter(x, y)
        ax.set_xlim(-1, 12)
        ax.set_xlabel("user x")
    if r.random() < 0.2:
        ax.text(1, 1, "note %d" % (seed % 83))
    if r.random() < 0.2:
        ax.grid(True)


class Bench:
    """The figures of a session, built from a plan; ax specs {"$":"ax","f":figure,"a":axes,"polar":0/1}."""

    def __init__(self, layout):
        import matplotlib.pyplot as plt
        self.layout = layout
        self.figs = []
        self.slots = []
        for i, f in enumerate(layout["figs"]):
            self.figs.append(None)
            self.slots.append([])
            self.open(i)
        self.select(*layout["current"])
        self.plt = plt

    def open(self, i):
        import matplotlib.pyplot as plt
        f = self.layout["figs"][i]
        kind = f["kind"]
        fig = plt.figure(layout="constrained" if f.get("constrained") else None)
        axs = []
        if kind == "grid":
            for j in range(f["r"] * f["c"]):
                axs.append(fig.add_subplot(f["r"], f["c"], j + 1, projection="polar" if f.get("polar") == j else None))
        elif kind == "free":
            axs.append(fig.add_axes([0.1, 0.1, 0.35, 0.8]))
            axs.append(fig.add_axes([0.6, 0.1, 0.35, 0.8]))
        elif kind == "spec":
            gs = fig.add_gridspec(2, 3)
            axs = [fig.add_subplot(gs[0, :2]), fig.add_subplot(gs[1, 0]), fig.add_subplot(gs[:, 2])]
        for j, a in enumerate(axs):
            if f.get("content"):
                decorate(a, f["content"] + j)
        if f.get("suptitle"):
            fig.suptitle("user figure %d" % i)
        self.figs[i] = fig
        self.slots[i] = [Slot(a) for a in axs]

    def plt_has(self, fig):
        return fig is not None and any(fig is f for f in open_figures())

    def select(self, i, j):
        import matplotlib.pyplot as plt
        if not self.figs:
            return
        i %= len(self.figs)
        if not self.plt_has(self.figs[i]):
            return
        plt.figure(self.figs[i].number)
        axs = self.figs[i].axes
        if axs and j is not None:
            plt.sca(axs[j % len(axs)])

    def ax(self, spec):
        import matplotlib.pyplot as plt
        polar = bool(spec.get("polar"))
        cur = plt.gcf().number if plt.get_fignums() else None
        try:
            if self.figs:
                i = spec["f"] % len(self.figs)
                if not self.plt_has(self.figs[i]):
                    self.open(i)
                slots = [s for s in self.slots[i] if s.polar == polar]
                if slots:
                    return slots[spec.get("a", 0) % len(slots)].axes()
            key = ("extra", polar)
            if not hasattr(self, "extra"):
                self.extra = {}
            a = self.extra.get(key)
            if a is None or a.figure is None or not self.plt_has(a.figure):
                a = plt.figure().add_subplot(projection="polar" if polar else None)
                self.extra[key] = a
            return a
        finally:
            if cur is not None and cur in plt.get_fignums():
                plt.figure(cur)


class Slot:
    def __init__(self, a):
        self.a = a
        self.polar = a.name == "polar"
        self.fig = a.figure
        self.ss = a.get_subplotspec()
        self.pos = a.get_position(original=True).bounds

    def axes(self):
        """The slot's axes; if the library replaced them, the user makes new ones there."""
        if self.a.figure is None or self.a not in self.fig.axes or self.a.name != ("polar" if self.polar else "rectilinear"):
            for b in list(self.fig.axes):
                if in_slot(b, self):
                    b.remove()
            kw = {"projection": "polar"} if self.polar else {}
            self.a = self.fig.add_subplot(self.ss, **kw) if self.ss is not None else self.fig.add_axes(self.pos, **kw)
        return self.a


def top(ss):
    return ss.get_topmost_subplotspec() if ss is not None else None


def in_slot(b, slot):
    sb = b.get_subplotspec()
    if slot.ss is not None and sb is not None:
        x, y = top(sb), top(slot.ss)
        if x is y or (x.get_gridspec() is y.get_gridspec() and x.num1 == y.num1 and x.num2 == y.num2):
            if sb is slot.ss or top(slot.ss) is slot.ss:
                return True
            return True
        return False
    x0, y0, w, h = slot.pos
    bx, by, bw, bh = b.get_position(original=True).bounds
    cx, cy = bx + bw / 2, by + bh / 2
    return x0 - 0.02 <= cx <= x0 + w + 0.02 and y0 - 0.02 <= cy <= y0 + h + 0.02


def layout_plan(r, min_figs=0, polar=True):
    figs = []
    for _ in range(r.choice((max(min_figs, 1), 2, 3, 4))):
        kind = r.choice(("grid", "grid", "grid", "free", "spec", "empty"))
        f = {"kind": kind, "content": r.randrange(1, 1 << 20) if r.random() < 0.75 else 0}
        if kind == "grid":
            f["r"], f["c"] = r.choice(((1, 1), (1, 2), (2, 2), (2, 1)))
            if polar and r.random() < 0.3:
                f["polar"] = r.randrange(f["r"] * f["c"])
        if r.random() < 0.2:
            f["suptitle"] = 1
        figs.append(f)
    if min_figs == 0 and r.random() < 0.1:
        figs = []
    return {"figs": figs, "current": [r.randrange(4), r.randrange(4)]}


_PARAMS = {}


def params(name):
    if name not in _PARAMS:
        try:
            _PARAMS[name] = set(inspect.signature(C.function(name)).parameters)
        except (TypeError, ValueError):
            _PARAMS[name] = set()
    return _PARAMS[name]


class Watch:
    """Seam on pyplot's figure registry: every figure made, destroyed or selected is recorded."""

    def __init__(self):
        from matplotlib._pylab_helpers import Gcf
        self.events = []
        self.on = False
        for name in ("destroy", "set_active", "_set_new_active_manager", "destroy_all", "destroy_fig"):
            old = getattr(Gcf, name, None)
            if old is not None:
                setattr(Gcf, name, self.wrap(name, old))

    def wrap(self, name, old):
        def f(*a, **k):
            if self.on:
                self.events.append(name)
            return old(*a, **k)
        return f


def registry():
    import matplotlib
    import matplotlib.pyplot as plt
    from matplotlib._pylab_helpers import Gcf
    out = {"open": [[n, id(m.canvas.figure)] for n, m in sorted(Gcf.figs.items())], "current": None,
           "backend": str(matplotlib.get_backend()), "interactive": bool(matplotlib.is_interactive()),
           "module": str(getattr(plt, "_backend_mod", None) and plt._backend_mod.__name__), "axes": []}
    act = Gcf.get_active()
    if act is not None:
        out["current"] = act.num
    for n, m in sorted(Gcf.figs.items()):
        fig = m.canvas.figure
        st = fig._axstack
        cur = st.current()
        out["axes"].append([n, [id(a) for a in fig.axes], id(cur) if cur is not None else None])
    return out


def open_figures():
    from matplotlib._pylab_helpers import Gcf
    return [m.canvas.figure for _, m in sorted(Gcf.figs.items())]


class FigScenario(K.CallScenario):
    components = dict(K.COMPONENTS, simulated=["allocation, numerical and interrupt failures at calls into numpy/scipy",
                                              "figure registry (recorded)", "user's figures, selection and drawing"])
    assumptions = ["plots are made from one thread (pyplot's own rule)", "axes positions are not part of an axes' content",
                   "answers are compared up to rounding"]
    rule = "a run counts when at least one library call ran with figures open; distinct = different sequence of " \
           "(function, outcome, figure layout)"
    sig_measure = "distinct sequences of (function, target, outcome) with figure layouts"

    def explicit(self, plan, result):
        return result.get("record") or plan

    def shrink(self, plan):
        yield from K.CallScenario.shrink(self, plan)
        figs = plan["layout"]["figs"]
        for i in range(len(figs)):
            p = copy.deepcopy(plan)
            p["layout"]["figs"][i]["content"] = 0
            if p != plan:
                yield p
        if len(figs) > 1:
            p = copy.deepcopy(plan)
            p["layout"]["figs"].pop()
            yield p

    def run(self, plan, scratch):
        res = Result()
        log = Log()
        need = any(op.get("fault") for ops in plan["phases"][0]["actors"] for op in ops)
        ses = E.Session(plan, res, log, None, count=need)
        factory = lambda: Bench(plan["layout"])     # noqa: E731
        if need or self.needs_refs:
            ses.references(figs=factory, after=getattr(self, "ref_after", None))
        else:
            ses.nested_only()
        bench = Bench(plan["layout"])
        ses.make_arena(figs=bench)
        self.live(plan, res, ses, bench)
        ses.sig.append([f["kind"] for f in plan["layout"]["figs"]])
        return self.wrap(ses, res, plan)

    needs_refs = False

    def wrap(self, ses, res, plan):
        super().wrap(ses, res, plan)
        res["nontrivial"] = any(K.is_lib(op) for op in ses.all_ops())
        return res

    def perform(self, ses, op, call):
        inj = E.pick_fault(op["fault"], ses.ref(op)) if op.get("fault") else None
        if inj:
            E.watch(inj.call)
        out = call.perform(seed=True)
        if inj:
            E.unwatch()
        ses.note_fault(op, inj)
        ses.res["steps"] += ses.ref(op)["n"] if ses.count else 1
        ses.finished((0, 0, 0), call, out, inj)
        return out, inj


def user_figop(r):
    return {"fn": "user.select", "a": [r.randrange(4), r.randrange(4)], "k": {}, "rs": 1}


# ------------------------------------------------------------------ F01

DRAWS_IF_AX = {"aout.analyze_phase_plane", "aout.analyze_error_phase_plane"}


class F01(FigScenario):
    prop = "F01"
    quick_runs = 1500
    thorough_runs = 12000

    def prepare(self):
        super().prepare()
        self.watch = Watch()

    def gen(self, r, i, tier):
        c = C.Ctx(r, True)
        ops, _ = C.history(r, r.choice((3, 5, 7)), plot=0.0, names=K.pick_names(r, K.noplot(C.NAMES), 0.6), bad=0.15, ctx=c)
        faulty = r.random() < 0.4
        out = []
        for op in ops:
            if op["fn"] in C.CAN_PLOT and op["fn"] not in DRAWS_IF_AX and "ax" in params(op["fn"]) and r.random() < 0.25 \
                    and "polar" not in op["fn"]:
                op["k"]["ax"] = {"$": "ax", "f": r.randrange(4), "a": r.randrange(4)}
            if faulty and r.random() < 0.5:
                op["fault"] = K.fault_plan(r)
            if r.random() < 0.15:
                out.append(user_figop(r))
            out.append(op)
        return {"phases": [{"actors": [out]}], "arena": "shared", "layout": layout_plan(r),
                "mplbackend": r.choice(("Agg", "Agg", "svg", "template"))}

    def run(self, plan, scratch):
        import matplotlib.pyplot as plt
        if plan["mplbackend"] != "Agg":
            plt.switch_backend(plan["mplbackend"])
        return super().run(plan, scratch)

    def live(self, plan, res, ses, bench):
        for op in plan["phases"][0]["actors"][0]:
            if not K.is_lib(op):
                bench.select(*op["a"])
                continue
            call = E.Call(op, ses.arena)
            figs = open_figures()
            before = [E.canon(figure_fp(f)) for f in figs]
            reg = registry()
            for f in figs:
                f.stale = False
            self.watch.events = []
            self.watch.on = True
            out, inj = self.perform(ses, op, call)
            self.watch.on = False
            how = " (%s)" % inj.fired if inj and inj.fired else ""
            if self.watch.events:
                res.violation("figure-event", "%s%s, asked not to plot, made, closed or selected a figure: %s" % (
                    op["fn"], how, self.watch.events[:3]), op["fn"])
            now = registry()
            if now != reg:
                k = next(k for k in reg if reg[k] != now[k])
                res.violation("figure-state", "%s%s, asked not to plot, changed the %s" % (op["fn"], how, {
                    "open": "set of open figures", "current": "current figure", "backend": "backend",
                    "module": "backend", "interactive": "interactive mode", "axes": "axes or current axes"}[k]), op["fn"])
            stale = [f.stale for f in figs]
            after = [E.canon(figure_fp(f)) for f in figs]
            for i, f in enumerate(figs):
                d = E.differ(before[i], after[i], exact=True, path="figure")
                if d or stale[i]:
                    res.violation("drawn-on", "%s%s, asked not to plot, changed an open figure: %s" % (
                        op["fn"], how, d or "it was drawn on and restored"), op["fn"])
                    break
        res.probe("open figures watched", len(open_figures()))


# ------------------------------------------------------------------ F02

OWN_FIGURE = {"spectrum.sweep_performance_vs_osr", "oversampling.perfosr", "dout.plot_residual_scatter"}
NEEDS_POLAR = {"spectrum.analyze_spectrum_polar", "spectrum.plot_spectrum_polar"}
# the old names hand everything on to these
LEGACY = {"aout.analyze_spectrum": "spectrum.analyze_spectrum", "aout.plot_error_pdf": "aout.analyze_error_pdf",
          "aout.plot_error_autocorr": "aout.analyze_error_autocorr",
          "aout.plot_envelope_spectrum": "aout.analyze_error_envelope_spectrum",
          "aout.plot_error_hist_phase": "aout.analyze_error_by_phase",
          "aout.plot_error_hist_code": "aout.analyze_error_by_value",
          "dout.check_bit_activity": "dout.analyze_bit_activity", "dout.check_overflow": "dout.analyze_overflow",
          "dout.plot_weight_radix": "dout.analyze_weight_radix"}


def wants_plot(op):
    """Whether the call, as written, asks for a plot."""
    k, fn = op["k"], op["fn"]
    if op.get("bad"):
        return False
    for name in ("create_plot", "disp", "is_plot"):
        if name in k:
            return bool(k[name])
    if fn in C.PLOT_ALWAYS:
        return True
    try:
        sig = inspect.signature(C.function(LEGACY.get(fn, fn))).parameters
    except (TypeError, ValueError, KeyError, AttributeError):
        return False
    for name in ("create_plot", "disp", "is_plot"):
        if name in sig:
            return sig[name].default is not inspect.Parameter.empty and bool(sig[name].default)
    return False


def aim(r, op, own_ok=True):
    """Give a plotting operation a target: explicit axes, a pair of axes, or none."""
    fn = op["fn"]
    p = params(fn)
    k = op["k"]
    k.pop("ax", None)
    k.pop("axes", None)
    if fn in NEEDS_POLAR:
        k["ax"] = {"$": "ax", "f": r.randrange(4), "a": r.randrange(4), "polar": 1}
        return op
    if fn in ("aout.analyze_decomposition_polar", "aout.plot_decomposition_polar") and r.random() < 0.4:
        k["ax"] = {"$": "ax", "f": r.randrange(4), "a": r.randrange(4), "polar": 1}
        return op
    u = r.random()
    if "axes" in p and u < 0.2:
        f, a = r.randrange(4), r.randrange(4)
        k["axes"] = {"$": r.choice(("tuple", "tuple", "seq")), "v": [{"$": "ax", "f": f, "a": a},
                                                                  {"$": "ax", "f": f, "a": a + 1}]}
    elif ("ax" in p or fn in LEGACY) and u < 0.7:
        k["ax"] = {"$": "ax", "f": r.randrange(4), "a": r.randrange(4)}
    return op


class F02(FigScenario):
    prop = "F02"
    quick_runs = 1300
    thorough_runs = 10000
    needs_refs = False

    def gen(self, r, i, tier):
        c = C.Ctx(r, True)
        pool = sorted(n for n in C.NAMES if n in C.CAN_PLOT)
        names = r.sample(pool, r.choice((1, 2, 4))) if r.random() < 0.7 else pool
        ops = []
        faulty = r.random() < 0.2
        for _ in range(r.choice((2, 3, 4))):
            if r.random() < 0.35:
                ops.append(user_figop(r))
            if r.random() < 0.1:
                ops.append({"fn": "user.close", "a": [r.randrange(4)], "k": {}, "rs": 1})
            c.plot = 1.0
            op = aim(r, C.make(c, r, C.choose_name(r, names)))
            if faulty and r.random() < 0.5:
                op["fault"] = K.fault_plan(r)
            elif r.random() < 0.06:
                op = C.broken(c, r, op)
            ops.append(op)
        return {"phases": [{"actors": [ops]}], "arena": "shared", "layout": layout_plan(r)}

    def live(self, plan, res, ses, bench):
        import matplotlib.pyplot as plt
        for op in plan["phases"][0]["actors"][0]:
            if not K.is_lib(op):
                if op["fn"] == "user.select":
                    bench.select(*op["a"])
                else:
                    n = plt.get_fignums()
                    if n:
                        plt.close(n[op["a"][0] % len(n)])
                continue
            call = E.Call(op, ses.arena)
            self.one(op, call, res, ses, plt)

    def targets(self, call):
        t = []
        a = call.kw.get("ax")
        if hasattr(a, "get_figure"):
            t.append(a)
        for b in (call.kw.get("axes") if isinstance(call.kw.get("axes"), (list, tuple)) else []):
            if hasattr(b, "get_figure"):
                t.append(b)
        return t

    def one(self, op, call, res, ses, plt):
        fn = op["fn"]
        explicit = self.targets(call)
        if not explicit:
            E.ready_axes()
        t = explicit
        own = not explicit and fn in OWN_FIGURE
        if not explicit and not own and plt.get_fignums():
            fig = plt.gcf()
            t = [plt.gca()] if fig.axes else []
            whole = fig if not fig.axes else None
        else:
            whole = None
        slots = [Slot(a) for a in t]
        tfig = t[0].figure if t else whole
        figs = open_figures()
        others = {id(a) for s in slots for a in [s.a]}
        ids = {}
        before = {}
        for f in figs:
            if f is whole:
                continue
            before[id(f)] = E.canon(figure_fp(f, axes=f is not tfig))
            for a in f.axes:
                if id(a) in others:
                    continue
                if any(s.fig is f and a is not s.a and in_slot(a, s) and s.a in getattr(a, "_twinned_axes", None).get_siblings(a)
                       if getattr(a, "_twinned_axes", None) is not None else False for s in slots):
                    continue        # a twin of the target belongs to the target
                ids[id(a)] = (a, E.canon(axes_fp(a, f is tfig)), f is tfig)
        tb = [E.canon(axes_fp(a)) for a in t]
        old_axes = {id(a) for f in figs for a in f.axes}
        keep = [list(f.axes) for f in figs]     # keep references so that ids stay unique
        out, inj = self.perform(ses, op, call)
        how = " (%s)" % inj.fired if inj and inj.fired else ""
        now = open_figures()
        gone = [f for f in figs if f not in now]
        new = [f for f in now if f not in figs]
        if gone:
            res.violation("figure-closed", "%s%s closed a figure of the user" % (fn, how), fn)
        if out[0] == "ok" and wants_plot(op):
            want = 1 if own or (not t and whole is None) else 0
        else:
            want = None
        if want is None:
            if len(new) > 1 or (len(new) and explicit):
                res.violation("extra-figure", "%s%s failed and left %d extra figures" % (fn, how, len(new)), fn)
        elif len(new) != want:
            res.violation("extra-figure" if len(new) > want else "no-figure",
                          "%s opened %d figures instead of %d (explicit axes: %s)" % (fn, len(new), want, bool(explicit)), fn)
        for f in figs:
            if f is whole or f in gone:
                continue
            d = E.differ(before[id(f)], E.canon(figure_fp(f, axes=f is not tfig)), exact=True, path="figure")
            if d:
                where = "the target's figure outside its axes" if f is tfig else "another figure"
                res.violation("wrong-figure", "%s%s changed %s: %s" % (fn, how, where, d), fn)
        for a, c0, mine in ids.values():
            if a.figure is None or a not in a.figure.axes:
                if a.figure is None or a.figure not in gone:
                    res.violation("axes-removed", "%s%s removed axes it was not aimed at" % (fn, how), fn)
                continue
            d = E.differ(c0, E.canon(axes_fp(a, mine)), exact=True, path="axes")
            if d:
                res.violation("wrong-axes", "%s%s changed axes it was not aimed at: %s" % (fn, how, d), fn)
        if tfig is not None and tfig in now and slots:
            for b in tfig.axes:
                if id(b) not in old_axes and not any(in_slot(b, s) for s in slots):
                    res.violation("outside-slot", "%s%s added axes outside the slot it was aimed at" % (fn, how), fn)
            if out[0] == "ok" and wants_plot(op):
                changed = any(a.figure is None or a not in tfig.axes or E.differ(b0, E.canon(axes_fp(a)), exact=True)
                              for a, b0 in zip(t, tb)) or any(id(b) not in old_axes for b in tfig.axes)
                res.probe("plots on existing axes")
                if not changed:
                    res.violation("nothing-drawn", "%s drew nothing on the axes it was aimed at" % fn, fn)
        del keep


# ------------------------------------------------------------------ F03

class F03(FigScenario):
    prop = "F03"
    quick_runs = 2000
    thorough_runs = 9000
    count = False

    def gen(self, r, i, tier):
        c = C.Ctx(r, True)
        c.stretch = {"full_scale", "max_iterations", "max_iter", "tolerance", "fs", "side_bin"}
        pool = sorted(n for n in C.NAMES if n in C.CAN_PLOT and n not in C.PLOT_ALWAYS)
        names = r.sample(pool, r.choice((1, 2, 4))) if r.random() < 0.7 else pool
        ops = []
        for _ in range(r.choice((2, 3))):
            c.plot = 0.0
            quiet = C.make(c, r, C.choose_name(r, names))
            flag = next((n for n in ("create_plot", "disp", "is_plot") if n in quiet["k"]), None)
            if flag is None:
                continue
            if r.random() < 0.35:
                ops.append(user_figop(r))
            for _ in range(r.choice((1, 2, 2))):
                op = C.clone(quiet)
                op["k"][flag] = True if flag != "disp" else r.choice((True, 1))
                aim(r, op)
                op["flag"] = flag
                ops.append(op)
            if r.random() < 0.3:
                q = C.clone(quiet)
                q["flag"] = flag
                ops.append(q)
        rc = {k: r.choice(K.RC[k]) for k in r.sample(sorted(K.RC), r.choice((0, 0, 4)))}
        return {"phases": [{"actors": [ops]}], "arena": "shared", "layout": layout_plan(r), "rc": rc}

    def run(self, plan, scratch):
        import matplotlib
        res = Result()
        log = Log()
        ses = E.Session(plan, res, log, None, count=False)
        ses.nested_only()
        refs = {}
        for op in ses.all_ops():
            if not K.is_lib(op):
                continue
            q = self.quiet(op)
            key = E.op_key(q)
            if key not in refs:
                refs[key] = E.isolated(q, ses.nested, count=False)
        bench = Bench(plan["layout"])
        ses.make_arena(figs=bench)
        for k, v in plan["rc"].items():
            matplotlib.rcParams[k] = v
        for op in plan["phases"][0]["actors"][0]:
            if not K.is_lib(op):
                bench.select(*op["a"])
                continue
            call = E.Call(op, ses.arena)
            if not op["k"].get("ax") and not op["k"].get("axes"):
                E.ready_axes()
            out, inj = self.perform(ses, op, call)
            exp = refs[E.op_key(self.quiet(op))]["out"]
            got = E.outcome_canon(out)
            if exp[0] == "exc":
                continue
            res.probe("plotting answers compared" if wants_plot(op) else "non-plotting answers compared")
            d = E.outcome_differ(exp, got, op)
            if d:
                text = " (%s)" % out[2] if out[0] == "exc" else ""
                res.violation("plot-changes-answer", "%s with a plot: %s%s" % (op["fn"], d, text), op["fn"])
        ses.sig.append([f["kind"] for f in plan["layout"]["figs"]])
        return self.wrap(ses, res, plan)

    def quiet(self, op):
        q = C.clone(op)
        q["k"].pop("ax", None)
        q["k"].pop("axes", None)
        q["k"][op["flag"]] = False
        return q


ALL = {k.prop: k for k in (F01, F02, F03)}
