"""What a user session can do: every public function with a generator of arguments.

An operation is a JSON document {"fn", "a", "k", "rs"}; arrays, generators and
axes appear in it as small descriptions {"$": kind, ...} that an Arena turns
into objects.  The same description always means the same content.
"""
import importlib
import random

import numpy as np

from .core import derive

# ------------------------------------------------------------------ data descriptions

LENGTHS = (256, 512, 512, 1024, 1024, 1000, 2048)
LONG = (3000, 4100, 5000, 8192, 21000)      # records that take other code paths than usual ones
DTYPES = ("f8", "f8", "f8", "f8", "f4", "i4", "i2")
LAYOUTS = ("c", "c", "c", "c", "step", "mid", "rev", "col", "ro", "be")
VARIANTS = ("plain", "plain", "rev", "perm", "scaled", "neg", "shift", "other", "centred", "volts", "glitch", "tiny",
            "levels", "noisy", "clipped", "twotone", "offset", "spike")


def _rs(*parts):
    return np.random.RandomState(derive(*parts) % (1 << 32))


def base_signal(n, base, var="plain", lo=0.03, hi=0.97):
    """A noisy, slightly distorted sine inside (0, 1); variants keep cheap fingerprints equal."""
    r = _rs("sig", n, base)
    k = int(r.randint(n // 40 + 3, n // 3)) | 1
    frac = 0.0 if base % 3 else float(r.uniform(-0.2, 0.2))
    a = float(r.uniform(0.35, 0.45))
    ph = float(r.uniform(0, 6.28))
    t = np.arange(n)
    x = a * np.sin(2 * np.pi * (k + frac) / n * t + ph)
    x = x + float(r.uniform(0.002, 0.02)) * x ** 2 + float(r.uniform(0.002, 0.02)) * x ** 3
    x = x + r.randn(n) * float(r.uniform(5e-4, 4e-3)) + 0.5
    if var == "rev":
        x[1:-1] = x[1:-1][::-1].copy()
    elif var == "perm":
        x[1:-1] = x[1:-1][_rs("perm", n, base).permutation(n - 2)]
    elif var == "scaled":
        x = 0.6 * x + 0.21
    elif var == "neg":
        x = 1.0 - x
    elif var == "shift":
        x = np.roll(x, n // 7)
    elif var == "other":
        return base_signal(n, base + 1000, "plain")
    elif var == "nan":
        x[n // 3] = np.nan
    elif var == "const":
        x = np.full(n, 0.5)
    elif var == "inf":
        x[n // 4] = np.inf
    elif var == "centred":
        x = x - 0.5
    elif var == "volts":
        x = 3.0 * (x - 0.5)
    elif var == "glitch":
        x[[n // 5, n // 2, n - 9]] += (0.7, -0.9, 0.4)
    elif var == "tiny":
        x = (x - 0.5) * 1e-6
    elif var == "levels":
        x = np.round(4095 * x)
    elif var == "noisy":
        x = x + 0.1 * _rs("noisy", n, base).randn(n)
    elif var == "clipped":
        x = np.clip(1.5 * (x - 0.5), -0.5, 0.5)
    elif var == "twotone":
        x = x + 0.3 * np.sin(2 * np.pi * (k // 2 + 1) / n * t)
    elif var == "offset":
        x = x + 40.0
    elif var == "spike":
        x[[0, n - 1]] += (5.0, -4.0)
    return np.clip(x, lo, hi) if var in ("plain", "rev", "perm") else x


def as_dtype(x, dt):
    if dt == "f8":
        return np.ascontiguousarray(x, dtype=np.float64)
    if dt == "f4":
        return x.astype(np.float32)
    x = np.nan_to_num(x)
    top = np.abs(x).max() if x.size else 0.0
    k = 1 if top > 300 else 100 if top > 30 else 1000 if np.ptp(x) > 1e-3 or not np.ptp(x) else 1e7
    return np.round(x * k).astype({"i4": np.int32, "i2": np.int16, "i8": np.int64}[dt])


def lay_out(x, lay):
    """x with the requested memory layout; returns (array, owner buffer)."""
    if lay == "list":
        return x.tolist(), None
    if x.ndim == 1:
        n = x.shape[0]
        if lay == "step":
            o = np.full(2 * n + 3, 7, dtype=x.dtype)
            v = o[1:2 * n:2]
        elif lay == "mid":
            o = np.full(n + 64, 7, dtype=x.dtype)
            v = o[32:32 + n]
        elif lay == "rev":
            o = np.full(n + 8, 7, dtype=x.dtype)
            v = o[4:4 + n][::-1]
        elif lay == "col":
            o = np.full((n, 3), 7, dtype=x.dtype)
            v = o[:, 1]
        elif lay == "be":
            o = np.full(n, 7, dtype=x.dtype.newbyteorder(">"))
            v = o[:]
        else:
            o = x.copy()
            v = o
            if lay == "ro":
                v.setflags(write=False)
            return v, o
        v[:] = x
        return v, o
    if lay == "F":
        o = np.asfortranarray(x).copy(order="F")
        return o, o
    if lay == "step":
        o = np.full((2 * x.shape[0], x.shape[1]), 1, dtype=x.dtype)
        o[::2] = x
        return o[::2], o
    if lay in ("mid", "col"):
        o = np.full((x.shape[0] + 4, x.shape[1] + 3), 1, dtype=x.dtype)
        o[2:2 + x.shape[0], 1:1 + x.shape[1]] = x
        return o[2:2 + x.shape[0], 1:1 + x.shape[1]], o
    if lay == "rev":
        o = x[::-1].copy()
        return o[::-1], o
    o = x.copy()
    if lay == "ro":
        o.setflags(write=False)
    return o, o


def bit_matrix(n, nb, base, var="plain"):
    """Bits of a sine through a slightly non-ideal converter, MSB first."""
    x = base_signal(n, base)
    r = _rs("bits", n, nb, base)
    w = 2.0 ** np.arange(nb - 1, -1, -1)
    w = w * (1 + 0.002 * r.randn(nb) * (np.arange(nb) < 3))
    if var == "redundant" and nb > 4:
        w = np.insert(w, 3, w[2])[:nb]
    w = w / (w.sum() + w[-1])
    if var == "shift":
        x = np.roll(x, n // 5)
    v = np.zeros(n)
    out = np.zeros((n, nb), dtype=np.int64)
    for j in range(nb):
        b = x >= v + w[j]
        out[:, j] = b
        v = v + w[j] * b
    if var == "dup" and nb > 3:
        out[:, 2] = out[:, 1]
    elif var == "stuck0":
        out[:, nb // 2] = 0
    elif var == "stuck1":
        out[:, nb // 2] = 1
    elif var == "twos":
        out[n // 2, 0] = 2
    elif var == "perm":
        out[1:-1] = out[1:-1][r.permutation(n - 2)]
    elif var == "rev":
        out[1:-1] = out[1:-1][::-1].copy()
    return out


def code_record(n, nb, base, kind="sine", var="plain"):
    if kind == "ramp":
        r = _rs("ramp", n, nb, base)
        x = np.linspace(0, 1, n) ** (1.0 + 0.03 * r.rand())
        c = np.clip(np.floor((x + r.randn(n) * 1e-4) * 2 ** nb), 0, 2 ** nb - 1)
        if var == "missing":
            c[c == 2 ** nb // 2] += 1
        elif var == "rev":
            c = c[::-1].copy()
        elif var == "half":
            c = np.floor(c / 2)
        elif var == "neg":
            c = c - 2 ** (nb - 1)
    else:
        c = np.clip(np.floor(base_signal(n, base, var if var in VARIANTS and var != "tiny" else "plain") * 2 ** nb), 0, 2 ** nb - 1)
    return c.astype(np.int64)


class Figs:
    """Plotting targets of a session."""

    def __init__(self):
        self.axes = {}

    def ax(self, spec):
        import matplotlib.pyplot as plt
        key = key_of(spec)
        a = self.axes.get(key)
        if a is None or a.figure is None:
            cur = plt.gcf().number if plt.get_fignums() else None
            a = plt.figure().add_subplot(projection="polar" if spec.get("polar") else None)
            if cur is not None:
                plt.figure(cur)
            self.axes[key] = a
        return a


class Arena:
    """Objects of one session.

    shared=True: one description is one object for the whole session.
    reuse=True: one buffer per shape and dtype, refilled for every operation (a caller's reading loop).
    """

    def __init__(self, shared=True, reuse=False, nested=None, figs=None):
        self.shared = shared
        self.reuse = reuse
        self.objects = {}
        self.buffers = {}
        self.owners = {}        # id(array) -> owner buffer
        self.nested = nested or {}
        self.figs = figs or Figs()
        self.keep_rng = False
        self.slots = {}

    def begin_op(self):
        self.slots = {}

    def get(self, spec):
        kind = spec["$"]
        if kind == "ax":
            return self.figs.ax(spec)
        if kind == "res":
            import pickle
            return pickle.loads(self.nested[key_of(spec)])
        if kind == "rng" and not self.keep_rng:
            return self.build(spec)
        key = key_of(spec)
        keep = (self.shared or kind in ("gen", "rng")) and '"ax"' not in key     # axes come and go
        if keep and key in self.objects:
            return self.objects[key]
        obj = self.build(spec)
        if keep:
            self.objects[key] = obj
        return obj

    def build(self, spec):
        kind = spec["$"]
        if kind == "rng":
            bg = getattr(np.random, spec.get("bg", "PCG64"))
            if spec.get("legacy"):
                return np.random.RandomState(spec["seed"])
            return np.random.Generator(bg(spec["seed"]))
        if kind == "gen":
            cls = importlib.import_module("adctoolbox.siggen").ADC_Signal_Generator
            return cls(N=spec["N"], Fs=spec["Fs"], Fin=spec["Fin"], A=spec["A"], DC=spec["DC"])
        if kind == "tuple":
            return tuple(self.value(v) for v in spec["v"])
        if kind == "seq":
            return [self.value(v) for v in spec["v"]]
        if kind == "map":
            return {k: self.value(v) for k, v in spec["v"].items()}
        if kind == "nan":
            return float("nan")
        if kind == "np":
            return np.float64(spec["v"])
        if kind == "tf":
            from scipy import signal
            return signal.TransferFunction(spec["num"], spec["den"], dt=1)
        x = content_of(spec)
        lay = spec.get("lay", "c")
        if self.reuse and lay in ("c", "mid", "step") and isinstance(x, np.ndarray):
            bkey = (x.shape, x.dtype.str, lay)
            self.slots[bkey] = self.slots.get(bkey, 0) + 1
            bkey += (self.slots[bkey],)
            if bkey in self.buffers:
                arr, owner = self.buffers[bkey]
                arr[...] = x
                return arr
            arr, owner = lay_out(x, lay)
            self.buffers[bkey] = (arr, owner)
        else:
            arr, owner = lay_out(x, lay)
        if owner is not None:
            self.owners[id(arr)] = owner
        return arr

    def value(self, v):
        if isinstance(v, dict):
            if "$" in v:
                return self.get(v)
            return {k: self.value(x) for k, x in v.items()}
        if isinstance(v, list):
            return [self.value(x) for x in v]
        return v


def key_of(spec):
    import json
    return json.dumps(spec, sort_keys=True)


def content_of(spec):
    kind = spec["$"]
    if kind == "sig":
        x = base_signal(spec["n"], spec["base"], spec.get("var", "plain"))
        if spec.get("var") == "empty":
            x = x[:0]
        elif spec.get("var") == "short":
            x = x[:7]
        elif spec.get("var") == "cplx":
            return x + 1j * x[::-1]
        return as_dtype(x, spec.get("dt", "f8"))
    if kind == "sig2":
        rows = [base_signal(spec["n"], spec["base"] + 17 * i, spec.get("var", "plain")) for i in range(spec["m"])]
        if spec.get("var") == "same":
            rows = [base_signal(spec["n"], spec["base"]) + _rs("ch", spec["n"], i).randn(spec["n"]) * 1e-3
                    for i in range(spec["m"])]
        x = as_dtype(np.array(rows), spec.get("dt", "f8"))
        return np.ascontiguousarray(x.T) if spec.get("T") else x
    if kind == "bits":
        x = bit_matrix(spec["n"], spec["nb"], spec["base"], spec.get("var", "plain"))
        x = x.astype({"i8": np.int64, "i1": np.int8, "f8": np.float64, "f4": np.float32, "b": np.bool_,
                      "u1": np.uint8}[spec.get("dt", "i8")])
        return np.ascontiguousarray(x.T) if spec.get("T") else x
    if kind == "codes":
        x = code_record(spec["n"], spec["nb"], spec["base"], spec.get("kind", "sine"), spec.get("var", "plain"))
        return x.astype({"i8": np.int64, "i4": np.int32, "u2": np.uint16, "f8": np.float64}[spec.get("dt", "i8")])
    if kind == "arr":
        return np.array(spec["v"], dtype=spec.get("dt", "f8"))
    if kind == "nums":      # positive numbers
        r = _rs("nums", spec["n"], spec["base"])
        x = spec.get("lo", 0.1) + r.rand(spec["n"]) * (spec.get("hi", 10.0) - spec.get("lo", 0.1))
        return x.astype(spec.get("dt", "f8"))
    if kind == "wts":
        nb = spec["nb"]
        r = _rs("wts", nb, spec["base"])
        w = 2.0 ** np.arange(nb - 1, -1, -1)
        if spec.get("var") == "ints":
            return w.astype(spec.get("dt", "i8"))
        w = w * (1 + 0.01 * r.randn(nb))
        if spec.get("var") == "norm":
            w = w / (w.sum() + w[-1])
        elif spec.get("var") == "neg":
            w[nb // 2] = -w[nb // 2]
        elif spec.get("var") == "tail":
            w[-1] = w[max(nb - 2, 0)] / 7
        elif spec.get("var") == "minus":
            w = -w
        elif spec.get("var") == "rev":
            w = w[::-1].copy()
        elif spec.get("var") == "equal":
            w = np.full(nb, 1.0 / (nb + 1))
        return w.astype(spec.get("dt", "f8"))
    raise KeyError(kind)


# ------------------------------------------------------------------ argument generators

class Ctx:
    """Choices made once per history, so that operations meet on the same data."""

    def __init__(self, r, small=False, long=0.04):
        lengths = LENGTHS[:5] if small else LENGTHS
        self.n = [r.choice(lengths) for _ in range(r.choice((1, 1, 2)))]
        if r.random() < long:
            self.n = [r.choice(LONG)]
        self.bases = [r.randrange(60) for _ in range(r.choice((1, 2, 2)))]
        self.vars = ["plain"] + [r.choice(VARIANTS) for _ in range(3)]
        self.dts = ["f8"] if r.random() < 0.4 else ["f8", r.choice(DTYPES), r.choice(DTYPES)]
        self.lays = ["c"] if r.random() < 0.35 else ["c", r.choice(LAYOUTS), r.choice(LAYOUTS)]
        self.nb = [r.choice((5, 6, 8, 8, 10)) if r.random() < 0.9 else r.choice((3, 12, 14)) for _ in range(r.choice((1, 2)))]
        self.fs = [1.0, r.choice((1.0, 1e6, 8e8))]
        self.plot = 0.0
        self.stretch = STRETCH

    def sig(self, r, **kw):
        s = {"$": "sig", "n": r.choice(self.n), "base": r.choice(self.bases), "var": r.choice(self.vars),
             "dt": r.choice(self.dts), "lay": r.choice(self.lays)}
        s.update(kw)
        return s

    def multi(self, r):
        if r.random() < 0.08:       # as many records as samples, or more
            return {"$": "sig2", "n": r.choice((64, 96)), "m": r.choice((40, 64, 96)), "base": r.choice(self.bases),
                    "var": "same", "dt": "f8", "lay": "c", "T": r.random() < 0.5}
        return {"$": "sig2", "n": r.choice(self.n), "m": r.choice((2, 3, 4)), "base": r.choice(self.bases),
                "var": r.choice(("plain", "same", "same")), "dt": r.choice(self.dts),
                "lay": r.choice(("c", "c", "F", "mid", "step", "ro")), "T": r.random() < 0.25}

    def data(self, r):
        return self.multi(r) if r.random() < 0.3 else self.sig(r)

    def bits(self, r, **kw):
        s = {"$": "bits", "n": min(8192, r.choice(self.n)), "nb": r.choice(self.nb), "base": r.choice(self.bases),
             "var": r.choice(("plain", "plain", "plain", "redundant", "dup", "stuck0", "stuck1", "shift", "rev", "perm")),
             "dt": r.choice(("i8", "i8", "i1", "f8", "b", "u1", "f4")),
             "lay": r.choice(("c", "c", "c", "F", "mid", "step", "rev", "ro")), "T": r.random() < 0.1}
        s.update(kw)
        return s

    def wts(self, r, nb, **kw):
        s = {"$": "wts", "nb": nb, "base": r.choice(self.bases),
             "var": r.choice(("plain", "plain", "plain", "ints", "ints", "neg", "tail", "minus", "rev", "equal")), "dt": r.choice(("f8", "f8", "f4")),
             "lay": r.choice(("c", "c", "step", "ro", "list", "mid"))}
        if s["var"] == "ints":
            s["dt"] = r.choice(("i8", "f8"))
        s.update(kw)
        return s

    def codes(self, r, kind):
        nb = r.choice(self.nb)
        v = ("plain", "plain", "missing", "rev", "half") if kind == "ramp" else ("plain", "rev", "perm", "other")
        return {"$": "codes", "n": r.choice(self.n), "nb": nb, "base": r.choice(self.bases), "kind": kind,
                "var": r.choice(v), "dt": r.choice(("i8", "i4", "u2", "f8")), "lay": r.choice(self.lays)}

    def freq(self, r):
        """A plausible normalised frequency guess for base signals."""
        return round(r.uniform(0.03, 0.45), 6)


def maybe(r, k, name, choices, p=0.35):
    if r.random() < p:
        v = r.choice(choices)
        k[name] = v(r) if callable(v) else v


WINS = ("boxcar", "rectangular", "hann", "hamming", "blackman", "blackmanharris", "flattop", "kaiser", "chebwin")
NUM = {"$": "nums", "n": 16, "base": 1}


def _plot(c, r, k, name="create_plot", extra=True):
    """Decide about plotting: k[name] = False unless the history plots."""
    if r.random() < c.plot:
        if r.random() < 0.6:
            k[name] = True
        elif name in ("disp", "is_plot"):
            k[name] = 1
        return True
    k[name] = False
    return False


def _scale(r):
    return r.choice((1.0, 2.0, [0.0, 1.0], [-1.0, 1.0], 4096.0, {"$": "tuple", "v": [0.0, 2.0]}))


def g_spectrum(c, r, polar=False, compute=False):
    k = {}
    maybe(r, k, "fs", c.fs)
    maybe(r, k, "osr", (1, 2, 4, 8))
    maybe(r, k, "max_scale_range", (lambda q: _scale(q),))
    maybe(r, k, "win_type", WINS, 0.6)
    maybe(r, k, "side_bin", (0, 1, 2, 3, 8))
    maybe(r, k, "max_harmonic", (2, 3, 5, 7, 10))
    maybe(r, k, "nf_method", (0, 1, 2, 3, 4))
    maybe(r, k, "assumed_sig_pwr_dbfs", (-3.0, 0.0, {"$": "nan"}), 0.15)
    maybe(r, k, "coherent_averaging", (True, False))
    if compute:
        maybe(r, k, "cutoff_freq", (0.0, 0.02, 0.6), 0.25)
        maybe(r, k, "verbose", (0, 1, 2), 0.25)
    elif _plot(c, r, k):
        maybe(r, k, "show_title", (True, False))
        maybe(r, k, "show_label", (True, False))
        maybe(r, k, "plot_harmonics_up_to", (0, 3, 5))
    return [c.data(r)], k


def g_compute_spectrum(c, r):
    return g_spectrum(c, r, compute=True)


def g_polar(c, r):
    k = {}
    maybe(r, k, "max_code", (1.0, 4096.0))
    maybe(r, k, "harmonic", (2, 3, 5, 8))
    maybe(r, k, "osr", (1, 2, 4))
    maybe(r, k, "cutoff_freq", (0.0, 0.02))
    maybe(r, k, "fs", c.fs)
    maybe(r, k, "win_type", ("boxcar", "hann", "hamming"))
    if _plot(c, r, k):
        maybe(r, k, "fixed_radial_range", (60.0, 120.0))
        k["ax"] = {"$": "ax", "f": r.randrange(3), "polar": 1}
    return [c.data(r)], k


def g_quick(c, r):
    k = {}
    maybe(r, k, "fs", c.fs)
    maybe(r, k, "win_type", WINS, 0.6)
    maybe(r, k, "side_bin", (1, 3, 8))
    maybe(r, k, "max_scale_range", (lambda q: _scale(q),))
    return [c.data(r)], k


def _bands(r):
    rows = []
    for _ in range(r.choice((1, 1, 2, 3))):
        lo = round(r.uniform(0, 0.3), 3)
        rows.append([lo, round(lo + r.uniform(0.02, 0.2), 3)])
    if r.random() < 0.3:
        rows[0] = rows[0][::-1]
    return r.choice(({"$": "arr", "v": rows, "lay": r.choice(("c", "F", "ro"))}, rows, rows[0]))


def g_bands(c, r):
    return [c.data(r), _bands(r)], {}


def g_osr(c, r):
    k = {}
    maybe(r, k, "osr", ({"$": "arr", "v": [1.0, 2.0, 4.0, 8.0]}, {"$": "arr", "v": [16.0, 2.0, 5.0], "lay": "mid"},
                        {"$": "arr", "v": [1, 2, 4], "dt": "i8"}), 0.7)
    maybe(r, k, "harmonic", (1, 3, 5))
    if _plot(c, r, k):
        maybe(r, k, "logscale", (True, False))
        maybe(r, k, "smooth", (1, 2, 5))
    return [c.sig(r)], k


def g_perfosr(c, r):
    a, k = g_osr(c, r)
    k["disp"] = k.pop("create_plot", c.plot > 0)
    return a, k


def _fitkw(c, r, k, name):
    maybe(r, k, name, (lambda q: c.freq(q), None))
    maybe(r, k, "max_iterations", (1, 2, 5))
    maybe(r, k, "tolerance", (1e-9, 1e-6), 0.15)
    return k


def g_by_value(c, r, plots=True):
    k = _fitkw(c, r, {}, "norm_freq")
    maybe(r, k, "n_bins", (10, 32, 100))
    maybe(r, k, "clip_percent", (0.0, 0.01, 0.05))
    maybe(r, k, "value_range", ([0.1, 0.9], {"$": "tuple", "v": [0.2, 0.8]}))
    maybe(r, k, "return_fit", (True, False))
    if plots and _plot(c, r, k):
        maybe(r, k, "title", ("Title A",))
    return [c.sig(r)], k


def g_rearr_value(c, r):
    return g_by_value(c, r, plots=False)


def g_by_phase(c, r, plots=True):
    k = _fitkw(c, r, {}, "norm_freq")
    maybe(r, k, "n_bins", (10, 32, 100))
    maybe(r, k, "include_base_noise", (True, False))
    maybe(r, k, "return_fit", (True, False))
    if plots and _plot(c, r, k):
        maybe(r, k, "title", ("Title A",))
    return [c.sig(r)], k


def g_rearr_phase(c, r):
    return g_by_phase(c, r, plots=False)


def g_pdf(c, r):
    k = _fitkw(c, r, {}, "frequency")
    maybe(r, k, "resolution", (8, 10, 12))
    maybe(r, k, "full_scale", (1.0, 2.0))
    maybe(r, k, "return_fit", (True, False))
    if _plot(c, r, k):
        maybe(r, k, "title", ("Title A",))
    return [c.sig(r)], k


def g_autocorr(c, r):
    k = _fitkw(c, r, {}, "frequency")
    maybe(r, k, "max_lag", (5, 20, 100))
    maybe(r, k, "normalize", (True, False))
    maybe(r, k, "return_fit", (True, False))
    if _plot(c, r, k):
        maybe(r, k, "title", ("Title A",))
    return [c.sig(r)], k


def g_errspec(c, r):
    k = _fitkw(c, r, {}, "frequency")
    maybe(r, k, "fs", c.fs)
    maybe(r, k, "return_fit", (True, False))
    if _plot(c, r, k):
        maybe(r, k, "title", ("Title A",))
    return [c.sig(r)], k


def g_phase_plane(c, r):
    k = {}
    maybe(r, k, "lag", ("auto", 1, 7))
    maybe(r, k, "fs", c.fs)
    maybe(r, k, "detect_outliers", (True, False))
    maybe(r, k, "threshold", (1.0, 2.0, 4.0))
    if _plot(c, r, k):
        maybe(r, k, "title", ("Title A",))
    return [c.sig(r)], k


def g_err_phase_plane(c, r):
    k = {}
    maybe(r, k, "fs", c.fs)
    maybe(r, k, "fit_polynomial_order", (1, 3, 5))
    maybe(r, k, "detect_hysteresis", (True, False))
    maybe(r, k, "unit_mode", ("auto", "code", "voltage", "volts", "lsb"))
    if _plot(c, r, k):
        maybe(r, k, "title", ("Title A",))
    return [c.sig(r)], k


def g_decomp_time(c, r):
    k = _fitkw(c, r, {}, "frequency")
    maybe(r, k, "harmonic", (2, 5, 9))
    if _plot(c, r, k):
        maybe(r, k, "n_cycles", (1.5, 5.0))
        maybe(r, k, "title", ("Title A",))
    return [c.sig(r)], k


def g_decomp_polar(c, r):
    k = _fitkw(c, r, {}, "frequency")
    maybe(r, k, "harmonic", (2, 5, 9))
    if _plot(c, r, k):
        maybe(r, k, "title", ("Title A",))
    return [c.sig(r)], k


def g_decompose(c, r):
    k = _fitkw(c, r, {}, "frequency")
    maybe(r, k, "n_harmonics", (1, 3, 5, 9))
    return [c.sig(r)], k


def g_inl_sine(c, r, plots=True):
    k = {}
    maybe(r, k, "num_bits", (6, 8, 10))
    maybe(r, k, "full_scale", (1.0, 2.0))
    maybe(r, k, "clip_percent", (0.0, 0.01, 0.05))
    if plots and _plot(c, r, k):
        maybe(r, k, "show_title", (True, False))
        maybe(r, k, "col_title", ("Col",))
    return [c.codes(r, "sine") if r.random() < 0.6 else c.sig(r, var=r.choice(("plain", "centred", "volts")))], k


def g_inl_sine_compute(c, r):
    return g_inl_sine(c, r, plots=False)


def g_inl_ramp(c, r, plots=True):
    s = c.codes(r, "ramp")
    k = {}
    maybe(r, k, "num_bits", (s["nb"], s["nb"] + 1), 0.5)
    maybe(r, k, "code_max", (2 ** s["nb"] - 1,))
    maybe(r, k, "endpoint", ("endpoints", "fit", "none", "endpoint"), 0.6)
    maybe(r, k, "exclude_endpoints", (True, False))
    if plots and _plot(c, r, k):
        maybe(r, k, "show_title", (True, False))
        maybe(r, k, "col_title", ("Col",))
    return [s], k


def g_inl_ramp_compute(c, r):
    return g_inl_ramp(c, r, plots=False)


def g_static_nl(c, r):
    return [c.sig(r), r.choice((1, 2, 3, 4, 5, 11))], {}


def g_legacy_spectrum(c, r):
    a, k = g_spectrum(c, r)
    k.pop("max_harmonic", None)
    maybe(r, k, "n_thd", (3, 5))
    return a, k


def g_decompose_harmonics(c, r):
    k = {}
    maybe(r, k, "freq", (lambda q: c.freq(q),))
    maybe(r, k, "harmonic", (2, 5))
    _plot(c, r, k, "disp")
    return [c.sig(r)], k


def g_hist(c, r):
    k = {}
    maybe(r, k, "bins", (10, 50))
    maybe(r, k, "freq", (lambda q: c.freq(q),))
    _plot(c, r, k, "disp")
    return [c.sig(r)], k


def g_overflow(c, r):
    nb = r.choice(c.nb)
    b = c.bits(r, nb=nb, T=False)
    k = {}
    maybe(r, k, "ofb", (1, nb, max(1, nb // 2)))
    if _plot(c, r, k):
        maybe(r, k, "title", ("Title A",))
    return [b, c.wts(r, nb)], k


def g_check_overflow(c, r):
    a, k = g_overflow(c, r)
    k["disp"] = int(bool(k.pop("create_plot", True)))
    return a, k


def g_activity(c, r):
    k = {}
    if _plot(c, r, k):
        maybe(r, k, "title", ("Title A",))
    return [c.bits(r, T=False)], k


def g_enob_sweep(c, r):
    k = {}
    maybe(r, k, "freq", (lambda q: c.freq(q),))
    maybe(r, k, "harmonic_order", (1, 2, 3))
    maybe(r, k, "osr", (1, 2))
    maybe(r, k, "win_type", WINS[:4])
    maybe(r, k, "verbose", (True, False))
    if _plot(c, r, k):
        maybe(r, k, "title", ("Title A",))
    return [c.bits(r, T=False, nb=min(c.nb), n=min(c.n))], k


def g_radix(c, r):
    k = {}
    if _plot(c, r, k):
        maybe(r, k, "title", ("Title A",))
    return [c.wts(r, r.choice(c.nb))], k


def g_residual(c, r):
    n, nb, base = r.choice(c.n), r.choice(c.nb), r.choice(c.bases)
    k = {}
    maybe(r, k, "weights", (lambda q: c.wts(q, nb),))
    maybe(r, k, "pairs", ([[0, nb], [1, 2]], [{"$": "tuple", "v": [0, 1]}], [[2, 3], [0, 2], [1, nb]]), 0.6)
    maybe(r, k, "alpha", ("auto", 0.5))
    _plot(c, r, k)
    if k.get("create_plot") is not False and "pairs" not in k:
        k["pairs"] = [[0, 1], [1, nb]]
    return [c.sig(r, n=n, base=base, dt=r.choice(("f8", "f8", "i4"))), c.bits(r, n=n, nb=nb, T=False)], k


def g_cal(c, r):
    nb = r.choice(c.nb)
    k = {}
    if r.random() < 0.25:
        m = r.choice((2, 3, 3))
        few = min(c.n) if r.random() < 0.5 else None
        b = {"$": "seq", "v": [c.bits(r, nb=nb, n=few or r.choice((256, 300, 512)), T=False) for _ in range(m)]}
        maybe(r, k, "freq", (lambda q: {"$": "arr", "v": [c.freq(q) for _ in range(m)]}, lambda q: c.freq(q), None))
    else:
        b = c.bits(r, nb=nb)
        maybe(r, k, "freq", (lambda q: c.freq(q), lambda q: {"$": "arr", "v": [c.freq(q)]}, 0, None))
    maybe(r, k, "force_search", (True, False, None))
    maybe(r, k, "nominal_weights", (lambda q: c.wts(q, nb),), 0.45)
    maybe(r, k, "harmonic_order", (1, 2, 3))
    maybe(r, k, "learning_rate", (0.5, 0.9))
    maybe(r, k, "reltol", (1e-12, 1e-6))
    k["max_iter"] = r.choice((2, 5, 20))
    maybe(r, k, "verbose", (0, 1, 2))
    return [b], k


def g_cal_legacy(c, r):
    a, k = g_cal(c, r)
    if "harmonic_order" in k and r.random() < 0.7:
        k["order"] = k.pop("harmonic_order")
    return a, k


def g_cal_lite(c, r):
    return [c.bits(r, T=False), c.freq(r)], {}


def _ntf(r):
    num, den = r.choice((([1.0, -1.0], [1.0, 0.0]), ([1.0, -2.0, 1.0], [1.0, 0.0, 0.0]),
                         ([1.0, -1.9, 0.95], [1.0, -0.5, 0.1])))
    if r.random() < 0.3:
        return {"$": "tf", "num": num, "den": den}
    return {"$": "tuple", "v": [{"$": "arr", "v": num}, {"$": "arr", "v": den}] if r.random() < 0.5 else [num, den]}


def g_ntf(c, r):
    k = {}
    if r.random() < c.plot:
        k["is_plot"] = 1
    elif r.random() < 0.3:
        k["is_plot"] = r.choice((0, None))
    return [_ntf(r), r.choice((0, 0.01)), r.choice((0.05, 0.1))], k


def g_ntfperf(c, r):
    k = {}
    if r.random() < c.plot:
        k["disp"] = True
    return [_ntf(r), r.choice((0, 0.01)), r.choice((0.05, 0.1))], k


def _M(c, r):
    return r.choice((2, 4, 4))


def g_deint(c, r):
    return [c.sig(r), r.choice((2, 3, 4, 8))], {}


def g_interleave(c, r):
    return [{"$": "sig2", "n": r.choice(c.n), "m": r.choice((2, 4)), "base": r.choice(c.bases), "var": "same",
             "dt": r.choice(c.dts), "lay": r.choice(("c", "F", "mid", "step", "rev"))}], {}


def g_mismatch(c, r):
    k = {}
    fs = r.choice(c.fs)
    if r.random() < 0.6:
        k["fin"] = c.freq(r) * fs
    return [c.sig(r), _M(c, r), fs], k


def _params(c, r, M):
    q = random.Random(r.randrange(40))
    if r.random() < 0.3:
        gain = [round(1 + 0.02 * q.uniform(-1, 1), 5) for _ in range(M)]
        return {"$": "map", "v": {"gain": gain, "offset": [0.001 * i for i in range(M)],
                                  "skew": [round(0.02 * q.uniform(-1, 1), 5) for _ in range(M)], "fin": 0.12, "A": 0.4}}
    return {"$": "map", "v": {
        "gain": {"$": "arr", "v": [round(1 + 0.02 * q.uniform(-1, 1), 5) for _ in range(M)]},
        "offset": {"$": "arr", "v": [round(0.01 * q.uniform(-1, 1), 5) for _ in range(M)], "lay": r.choice(("c", "mid"))},
        "skew": {"$": "arr", "v": [0.0 if q.random() < 0.2 else round(0.02 * q.uniform(-1, 1), 5) for _ in range(M)]},
        "fin": round(q.uniform(0.05, 0.4), 4), "A": 0.4}}


def g_cal_fg(c, r):
    M = _M(c, r)
    k = {}
    if r.random() < 0.5:
        k["skew_method"] = r.choice(("fft", "farrow"))
    if k.get("skew_method") == "farrow":
        maybe(r, k, "n_taps", (3, 5, 7, 9))
    return [c.sig(r), M, _params(c, r, M), 1.0], k


def g_spurs(c, r):
    k = {}
    maybe(r, k, "fin", (0.11, 0.23))
    maybe(r, k, "full_scale", (1.0, 2.0))
    return [_params(c, r, _M(c, r)), r.choice(c.fs)], k


def g_fd_fft(c, r):
    return [c.sig(r), r.choice((0.0, 0.13, -0.4, 2.6)), 1.0], {}


def g_fd_farrow(c, r):
    k = {}
    maybe(r, k, "n_taps", (1, 3, 5, 7, 9, 4))
    return [c.sig(r), r.choice((0.0, 0.13, -0.4, 2.6)), 1.0], k


def rng_spec(r):
    return {"$": "rng", "seed": r.randrange(1 << 30),
            "bg": r.choice(("PCG64", "PCG64", "MT19937", "Philox", "SFC64", "PCG64DXSM"))}


def g_sar_convert(c, r, rng=None):
    nb = r.choice(c.nb)
    k = {}
    vin = c.sig(r, dt=r.choice(("f8", "f8", "f4"))) if r.random() < 0.75 else c.multi(r)
    if r.random() < 0.4:
        k["quant_range"] = r.choice(([0.0, 1.0], {"$": "tuple", "v": [-1.0, 1.0]}, {"$": "tuple", "v": [0.0, 2.0]}))
    if r.random() < 0.6:
        k["sampling_noise_rms"] = r.choice((0.0, 1e-3, 0.02))
    if r.random() < 0.6:
        k["comparator_noise_rms"] = r.choice((0.0, 1e-3, 0.02))
    if r.random() < 0.75:
        k["rng"] = rng or rng_spec(r)
    return [vin, c.wts(r, nb, var="norm", lay=r.choice(("c", "step", "list", "ro")))], k


def g_sar_recon(c, r):
    nb = r.choice(c.nb)
    k = {}
    maybe(r, k, "quant_range", ([0.0, 1.0], {"$": "tuple", "v": [-1.0, 1.0]}))
    return [c.bits(r, nb=nb, T=False), c.wts(r, nb, var="norm")], k


def g_sar_ideal(c, r):
    nb = r.choice((4, 6, 8, 10, 12))
    k = {}
    maybe(r, k, "redundant_bit", (0, 1, 2, 3, None), 0.5)
    return [nb], k


def g_sar_cap(c, r):
    nb = r.choice(c.nb)
    k = {}
    if r.random() < 0.75:
        k["rng"] = rng_spec(r)
    maybe(r, k, "cap_units", (lambda q: {"$": "nums", "n": nb, "base": q.randrange(9), "lo": 1.0, "hi": 9.0},))
    return [c.wts(r, nb, var=r.choice(("norm", "norm", "equal"))), r.choice((0.0, 0.01, 0.1))], k


def g_sar_mis(c, r):
    k = {}
    if r.random() < 0.75:
        k["rng"] = rng_spec(r)
    return [c.wts(r, r.choice(c.nb), var="norm"), r.choice((0.0, 0.01, 0.1))], k


def g_fit(c, r):
    k = {}
    maybe(r, k, "frequency_estimate", (lambda q: c.freq(q), None))
    maybe(r, k, "max_iterations", (1, 2, 5, 20))
    maybe(r, k, "tolerance", (1e-9, 1e-4))
    maybe(r, k, "verbose", (0, 1, 2))
    s = c.multi(r) if r.random() < 0.2 else c.sig(r)
    return [s], k


def g_estfreq(c, r):
    k = {}
    maybe(r, k, "frequency_estimate", (lambda q: c.freq(q), None))
    maybe(r, k, "fs", c.fs)
    return [c.sig(r)], k


def g_coherent(c, r):
    k = {}
    maybe(r, k, "force_odd", (True, False))
    maybe(r, k, "search_radius", (10, 200))
    fs = r.choice((1.0, 1e6, 1e9))
    return [fs, fs * round(r.uniform(0.01, 0.6), 4), r.choice((256, 1000, 1024, 4096))], k


def g_cap(c, r):
    nb = r.choice((4, 6, 8))
    q = random.Random(r.randrange(50))
    cd = [float(2 ** i) for i in range(nb)]
    cb = [0.0] * nb
    if q.random() < 0.6:
        cb[nb // 2] = 1.2
    cp = [round(q.uniform(0, 0.3), 3) for _ in range(nb)]
    lay = lambda v: r.choice((v, {"$": "arr", "v": v, "lay": r.choice(("c", "step", "ro"))}))
    return [lay(cd), lay(cb), lay(cp)], {}


def num(r, base=None, lo=0.1, hi=10.0):
    if r.random() < 0.5:
        return round(r.uniform(lo, hi), 4)
    return {"$": "nums", "n": r.choice((1, 5, 16)), "base": r.randrange(6) if base is None else base, "lo": lo, "hi": hi,
            "dt": r.choice(("f8", "f8", "f4")), "lay": r.choice(("c", "c", "step", "ro"))}


def unary(lo=0.1, hi=10.0):
    return lambda c, r: ([num(r, lo=lo, hi=hi)], {})


def g_snr(c, r):
    k = {}
    maybe(r, k, "osr", (1, 4, 16))
    maybe(r, k, "return_power", (True, False))
    return [num(r, 1), num(r, 1, 1e-4, 1e-2) if r.random() < 0.5 else 0.0], k


def g_nsd(c, r):
    k = {}
    maybe(r, k, "osr", (1.0, 8.0))
    maybe(r, k, "psignal_dbfs", (0.0, -3.0))
    return [num(r, lo=30, hi=90), r.choice((1e6, 1e9))], k


def g_nsd_legacy(c, r):
    k = {}
    maybe(r, k, "osr", (1.0, 8.0))
    maybe(r, k, "signal_pwr_dbfs", (0.0, -3.0), 0.6)
    return [num(r, lo=30, hi=90), r.choice((1e6, 1e9))], k


def g_lsb(c, r):
    return [num(r, lo=1, hi=1000), r.choice((1.0, 1.8)), r.choice((8, 12))], {}


def g_bin(c, r):
    return [num(r, lo=1, hi=500), r.choice((1.0, 1e6)), 1024], {}


def g_load(c, r):
    k = {}
    maybe(r, k, "z_load", (50, 75))
    return [num(r)], k


def g_valid_a(c, r):
    k = {}
    maybe(r, k, "min_samples", (10, 100))
    return [c.sig(r)], k


def g_valid_d(c, r):
    k = {}
    maybe(r, k, "min_samples", (10, 100))
    return [c.bits(r, var=r.choice(("plain", "stuck0", "stuck1", "twos")))], k


# signal generator ---------------------------------------------------------------

def gen_spec(c, r):
    n = r.choice(c.n)
    fs = 1e9
    k = (derive("g", r.choice(c.bases)) % (n // 3)) | 1
    return {"$": "gen", "N": n, "Fs": fs, "Fin": fs * k / n, "A": 0.45, "DC": r.choice((0.5, 0.5, 0.0))}


def meth(**opts):
    def g(c, r):
        gen = gen_spec(c, r)
        k = {}
        if opts.get("_in", True) and r.random() < 0.6:
            k["input_signal"] = c.sig(r, n=gen["N"], dt=r.choice(("f8", "f8", "f8", "f4", "i4")))
        for name, ch in opts.items():
            if name != "_in":
                maybe(r, k, name, ch, 0.5)
        return [gen], k
    return g


QR = ([0.0, 1.0], {"$": "tuple", "v": [-0.5, 0.5]})
METHODS = {
    "get_clean_signal": meth(_in=False),
    "apply_thermal_noise": meth(noise_rms=(0.0, 50e-6, 1e-2)),
    "apply_quantization_noise": meth(n_bits=(4, 8, 10), quant_range=QR),
    "apply_jitter": meth(jitter_rms=(0.0, 2e-12, 1e-11)),
    "apply_static_nonlinearity": meth(k2=(0, 0.01), k3=(0, 0.02), k4=(0, 0.01), k5=(0, 0.01)),
    "apply_static_nonlinearity_hd": meth(hd2_dB=(None, -60), hd3_dB=(None, -70), hd4_dB=(-80,), hd5_dB=(-75,)),
    "apply_memory_effect": meth(memory_strength=(0.0, 0.009, 0.05)),
    "apply_incomplete_sampling": meth(T_track=(None, 1e-10), tau_nom=(40e-12, 80e-12), coeff_k=(0.0, 0.15)),
    "apply_ra_gain_error": meth(relative_gain=(0.99, 1.0), msb_bits=(3, 4), lsb_bits=(8, 12),
                                mode=("coarse_path", "residue_path")),
    "apply_ra_gain_error_dynamic": meth(relative_gain=(0.99, 1.0), coeff_3=(0.0, 0.15), msb_bits=(3, 4),
                                        mode=("coarse_path", "residue_path")),
    "apply_reference_error": meth(settling_tau=(1.0, 2.0), droop_strength=(0.01, 0.05)),
    "apply_am_noise": meth(strength=(0.0, 0.01, 0.1)),
    "apply_am_tone": meth(am_tone_freq=(5e5, 3e7), am_tone_depth=(0.0, 0.05)),
    "apply_clipping": meth(percentile_clip=(0.0, 1.0, 5.0)),
    "apply_drift": meth(drift_scale=(0.0, 5e-5, 1e-3)),
    "apply_glitch": meth(glitch_prob=(0.0, 0.00015, 0.05), glitch_amplitude=(0.0, 0.1)),
    "apply_noise_shaping": meth(n_bits=(4, 8), quant_range=QR, order=(1, 2, 3, 4, 5),
                                ntf=(None, [1, -1], {"$": "tuple", "v": [[1.0, -1.0], [1.0, -0.5]]},
                                     {"$": "arr", "v": [1.0, -1.5, 0.6]})),
}
NOISE_METHODS = {"gen.apply_thermal_noise", "gen.apply_jitter", "gen.apply_am_noise", "gen.apply_drift",
                 "gen.apply_glitch"}


# plotting of precomputed results --------------------------------------------------

def res(op):
    return {"$": "res", "op": op}


def g_plot_spectrum(c, r):
    a, k = g_compute_spectrum(c, r)
    k.pop("verbose", None)
    kk = {}
    maybe(r, kk, "show_title", (True, False))
    maybe(r, kk, "show_label", (True, False))
    maybe(r, kk, "plot_harmonics_up_to", (0, 3, 5))
    return [res({"fn": "spectrum.compute_spectrum", "a": a, "k": k, "rs": 1})], kk


def g_plot_virtuoso(c, r):
    a, k = g_plot_spectrum(c, r)
    maybe(r, k, "baseline_db", (None, -120.0))
    return a, k


def g_plot_polar(c, r):
    a, k = g_compute_spectrum(c, r)
    k.pop("verbose", None)
    k["coherent_averaging"] = True
    kk = {"ax": {"$": "ax", "f": r.randrange(3), "polar": 1}}
    maybe(r, kk, "show_metrics", (True, False))
    maybe(r, kk, "harmonic", (2, 5))
    maybe(r, kk, "fixed_radial_range", (60.0, 120.0))
    return [res({"fn": "spectrum.compute_spectrum", "a": a, "k": k, "rs": 1})], kk


def g_plot_by_value(c, r):
    a, k = g_rearr_value(c, r)
    kk = {}
    maybe(r, kk, "title", ("Title B",))
    return [res({"fn": "aout.rearrange_error_by_value", "a": a, "k": k, "rs": 1})], kk


def g_plot_by_phase(c, r):
    a, k = g_rearr_phase(c, r)
    kk = {}
    maybe(r, kk, "title", ("Title B",))
    return [res({"fn": "aout.rearrange_error_by_phase", "a": a, "k": k, "rs": 1})], kk


def g_plot_decomp_time(c, r):
    a, k = g_decompose(c, r)
    kk = {}
    maybe(r, kk, "n_cycles", (1.5, 4.0))
    maybe(r, kk, "title", ("Title B",))
    return [res({"fn": "aout.decompose_harmonic_error", "a": a, "k": k, "rs": 1}), a[0]], kk


def g_plot_decomp_polar(c, r):
    a, k = g_decompose(c, r)
    kk = {}
    maybe(r, kk, "harmonic", (2, 5))
    maybe(r, kk, "title", ("Title B",))
    return [res({"fn": "aout.decompose_harmonic_error", "a": a, "k": k, "rs": 1})], kk


def g_plot_inl(c, r):
    nb = r.choice(c.nb)
    n = 2 ** min(nb, 8) - 2
    k = {}
    maybe(r, k, "num_bits", (nb,))
    maybe(r, k, "show_title", (True, False))
    maybe(r, k, "col_title", ("Col",))
    maybe(r, k, "color_dnl", ("r",))
    maybe(r, k, "color_inl", ("g",))
    code = {"$": "arr", "v": list(range(n)), "dt": "i8"}
    d = {"$": "nums", "n": n, "base": r.randrange(5), "lo": -0.5, "hi": 0.5}
    i = {"$": "nums", "n": n, "base": 7 + r.randrange(5), "lo": -1.0, "hi": 1.0}
    return [code, d, i], k


S, A, D, F, T, O, M = ("spectrum.", "aout.", "dout.", "fundamentals.", "timeinterleave.", "oversampling.", "models.")
# name -> (generator, weight, flags). flags: p=can plot, P=always plots, r=uses randomness, c=cheap
OPS = {
    S + "analyze_spectrum": (g_spectrum, 6, "p"),
    S + "analyze_spectrum_virtuoso": (g_spectrum, 2, "p"),
    S + "analyze_spectrum_polar": (g_polar, 3, "p"),
    S + "compute_spectrum": (g_compute_spectrum, 6, ""),
    S + "quick_sndr": (g_quick, 2, ""),
    S + "extract_freq_components": (g_bands, 3, ""),
    S + "sweep_performance_vs_osr": (g_osr, 3, "p"),
    S + "plot_spectrum": (g_plot_spectrum, 2, "P"),
    S + "plot_spectrum_polar": (g_plot_polar, 2, "P"),
    S + "plot_spectrum_virtuoso": (g_plot_virtuoso, 2, "P"),
    A + "analyze_error_by_value": (g_by_value, 3, "p"),
    A + "analyze_error_by_phase": (g_by_phase, 3, "p"),
    A + "rearrange_error_by_value": (g_rearr_value, 3, ""),
    A + "rearrange_error_by_phase": (g_rearr_phase, 3, ""),
    A + "analyze_error_pdf": (g_pdf, 3, "p"),
    A + "analyze_error_autocorr": (g_autocorr, 3, "p"),
    A + "analyze_error_spectrum": (g_errspec, 3, "p"),
    A + "analyze_error_envelope_spectrum": (g_errspec, 3, "p"),
    A + "analyze_phase_plane": (g_phase_plane, 3, "p"),
    A + "analyze_error_phase_plane": (g_err_phase_plane, 3, "p"),
    A + "analyze_decomposition_time": (g_decomp_time, 3, "p"),
    A + "analyze_decomposition_polar": (g_decomp_polar, 3, "p"),
    A + "decompose_harmonic_error": (g_decompose, 3, ""),
    A + "analyze_inl_from_sine": (g_inl_sine, 3, "p"),
    A + "compute_inl_from_sine": (g_inl_sine_compute, 3, ""),
    A + "analyze_inl_from_ramp": (g_inl_ramp, 3, "p"),
    A + "compute_inl_from_ramp": (g_inl_ramp_compute, 3, ""),
    A + "fit_static_nonlin": (g_static_nl, 3, ""),
    A + "analyze_spectrum": (g_legacy_spectrum, 1, "p"),
    A + "decompose_harmonics": (g_decompose_harmonics, 1, "p"),
    A + "plot_error_pdf": (g_pdf, 1, "p"),
    A + "plot_error_autocorr": (g_autocorr, 1, "p"),
    A + "plot_envelope_spectrum": (g_errspec, 1, "p"),
    A + "plot_error_hist_phase": (g_hist, 1, "p"),
    A + "plot_error_hist_code": (g_hist, 1, "p"),
    A + "plot_rearranged_error_by_value": (g_plot_by_value, 2, "P"),
    A + "plot_rearranged_error_by_phase": (g_plot_by_phase, 2, "P"),
    A + "plot_decomposition_time": (g_plot_decomp_time, 2, "P"),
    A + "plot_decomposition_polar": (g_plot_decomp_polar, 2, "P"),
    A + "plot_dnl_inl": (g_plot_inl, 2, "P"),
    D + "analyze_overflow": (g_overflow, 3, "p"),
    D + "analyze_bit_activity": (g_activity, 3, "p"),
    D + "analyze_enob_sweep": (g_enob_sweep, 2, "p"),
    D + "analyze_weight_radix": (g_radix, 3, "p"),
    D + "plot_residual_scatter": (g_residual, 2, "p"),
    D + "calibrate_weight_sine": (g_cal_legacy, 2, ""),
    D + "check_bit_activity": (g_activity, 1, "p"),
    D + "check_overflow": (g_check_overflow, 1, "p"),
    D + "plot_weight_radix": (g_radix, 1, "p"),
    "calibration.calibrate_weight_sine": (g_cal, 7, ""),
    "calibration.calibrate_weight_sine_lite": (g_cal_lite, 2, ""),
    O + "ifilter": (g_bands, 2, ""),
    O + "ntf_analyzer": (g_ntf, 2, "p"),
    O + "ntfperf": (g_ntfperf, 1, "p"),
    O + "perfosr": (g_perfosr, 2, "p"),
    T + "deinterleave": (g_deint, 2, "c"),
    T + "interleave": (g_interleave, 2, "c"),
    T + "extract_mismatch_sine": (g_mismatch, 3, ""),
    T + "predict_spurs": (g_spurs, 3, "c"),
    T + "fractional_delay_fft": (g_fd_fft, 3, "c"),
    T + "fractional_delay_farrow": (g_fd_farrow, 3, "c"),
    T + "calibrate_foreground": (g_cal_fg, 4, ""),
    M + "sar_convert": (g_sar_convert, 4, "r"),
    M + "sar_reconstruct": (g_sar_recon, 2, "c"),
    M + "sar_ideal_weights": (g_sar_ideal, 2, "c"),
    M + "sar_apply_cap_mismatch": (g_sar_cap, 3, "rc"),
    M + "sar_apply_mismatch": (g_sar_mis, 2, "rc"),
    F + "fit_sine_4param": (g_fit, 6, ""),
    "common.fit_sine": (g_fit, 1, ""),
    F + "estimate_frequency": (g_estfreq, 4, ""),
    F + "convert_cap_to_weight": (g_cap, 2, "c"),
    F + "find_coherent_frequency": (g_coherent, 2, "c"),
    F + "fold_bin_to_nyquist": (lambda c, r: ([round(r.uniform(0, 3000), 2), 1024], {}), 1, "c"),
    F + "fold_frequency_to_nyquist": (lambda c, r: ([num(r, lo=0, hi=5), 1.0], {}), 1, "c"),
    F + "amplitudes_to_snr": (g_snr, 2, "c"),
    F + "snr_to_nsd": (g_nsd, 2, "c"),
    F + "nsd_to_snr": (g_nsd, 2, "c"),
    "common.snr_to_nsd": (g_nsd_legacy, 1, "c"),
    "common.nsd_to_snr": (g_nsd_legacy, 1, "c"),
    F + "validate_aout_data": (g_valid_a, 2, "c"),
    F + "validate_dout_data": (g_valid_d, 2, "c"),
    F + "calculate_walden_fom": (lambda c, r: ([num(r, 2), 1e6, num(r, 2, 5, 12)], {}), 1, "c"),
    F + "calculate_schreier_fom": (lambda c, r: ([num(r, 2), num(r, 2, 50, 90), 1e6], {}), 1, "c"),
    F + "calculate_thermal_noise_limit": (unary(), 1, "c"),
    F + "calculate_jitter_limit": (lambda c, r: ([num(r, 2, 1e6, 1e9), 1e-12], {}), 1, "c"),
    F + "db_to_mag": (unary(-60, 20), 1, "c"),
    F + "mag_to_db": (unary(), 1, "c"),
    F + "db_to_power": (unary(-60, 20), 1, "c"),
    F + "power_to_db": (unary(), 1, "c"),
    F + "lsb_to_volts": (g_lsb, 1, "c"),
    F + "volts_to_lsb": (g_lsb, 1, "c"),
    F + "bin_to_freq": (g_bin, 1, "c"),
    F + "freq_to_bin": (g_bin, 1, "c"),
    F + "snr_to_enob": (unary(30, 90), 1, "c"),
    F + "enob_to_snr": (unary(4, 14), 1, "c"),
    F + "dbm_to_vrms": (g_load, 1, "c"),
    F + "vrms_to_dbm": (g_load, 1, "c"),
    F + "dbm_to_mw": (unary(), 1, "c"),
    F + "mw_to_dbm": (unary(), 1, "c"),
    F + "sine_amplitude_to_power": (g_load, 1, "c"),
    F + "units.snr_to_nsd": (g_nsd_legacy, 1, "c"),
    F + "units.nsd_to_snr": (g_nsd_legacy, 1, "c"),
}
for _m, _g in METHODS.items():
    OPS["gen." + _m] = (_g, 2, "c" + ("r" if "gen." + _m in NOISE_METHODS else ""))

NAMES = sorted(OPS)
PLOT_ALWAYS = {n for n in NAMES if "P" in OPS[n][2]}
CAN_PLOT = {n for n in NAMES if "p" in OPS[n][2] or "P" in OPS[n][2]}
RANDOM = {n for n in NAMES if "r" in OPS[n][2]}
CHEAP = [n for n in NAMES if "c" in OPS[n][2]]


def choose_name(r, names=None):
    names = names or NAMES
    return r.choices(names, [OPS[n][1] for n in names])[0]


# Options whose size may vary freely: neither memory nor the meaning of the request grows with them.
STRETCH = {"T_track", "am_tone_depth", "assumed_sig_pwr_dbfs", "baseline_db", "bins", "coeff_3", "coeff_k",
           "comparator_noise_rms", "drift_scale", "droop_strength", "fit_polynomial_order", "fixed_radial_range", "fs",
           "full_scale", "glitch_amplitude", "harmonic", "jitter_rms", "k2", "k3", "k4", "k5", "lag", "max_harmonic",
           "max_iter", "max_iterations", "max_lag", "max_scale_range", "memory_strength", "min_samples", "n_bins",
           "n_cycles", "n_harmonics", "noise_rms", "osr", "percentile_clip", "plot_harmonics_up_to", "psignal_dbfs",
           "sampling_noise_rms", "search_radius", "settling_tau", "side_bin", "signal_pwr_dbfs", "strength", "tau_nom",
           "threshold", "tolerance", "z_load"}


def stretch(r, k, among):
    """One numeric option gets an unusual size."""
    names = sorted(n for n, v in k.items() if type(v) in (int, float) and n in among)
    if names:
        n = r.choice(names)
        if type(k[n]) is int:
            k[n] = max(1, r.choice((k[n] + 1, 2 * k[n], 3 * k[n] + 1, k[n] // 2, 1)))
        else:
            k[n] = k[n] * r.choice((0.1, 0.3, 0.5, 1.7, 3.0))


def make(c, r, name):
    a, k = OPS[name][0](c, r)
    if r.random() < 0.08:
        stretch(r, k, c.stretch)
    return {"fn": name, "a": a, "k": k, "rs": r.randrange(1 << 30)}


def _arrays_in(v, path=()):
    if isinstance(v, dict):
        if v.get("$") in ("sig", "sig2", "bits", "codes", "wts", "nums"):
            yield path, v
        elif v.get("$") != "res":
            for k, x in v.items():
                yield from _arrays_in(x, path + (k,))
    elif isinstance(v, list):
        for i, x in enumerate(v):
            yield from _arrays_in(x, path + (i,))


def _put(root, path, val):
    for p in path[:-1]:
        root = root[p]
    root[path[-1]] = val


def clone(op):
    import json
    return json.loads(json.dumps(op))


def related(c, r, op):
    """Like op, with exactly one thing changed (or the same call on another function of its kind)."""
    o = clone(op)
    o["rs"] = r.randrange(1 << 30)
    u = r.random()
    arrs = list(_arrays_in([o["a"], o["k"]]))
    holder = [o["a"], o["k"]]
    if u < 0.45 and arrs:
        path, s = r.choice(arrs)
        s = dict(s)
        w = r.random()
        if s["$"] in ("sig", "sig2") and w < 0.75:
            s["var"] = r.choice(("plain", "rev", "perm", "scaled", "shift", "other"))
        elif s["$"] == "bits" and w < 0.75:
            s["var"] = r.choice(("plain", "rev", "perm", "shift", "dup", "stuck0"))
        elif w < 0.85 and "base" in s:
            s["base"] = r.choice(c.bases) if r.random() < 0.5 else r.randrange(60)
        elif "lay" in s:
            s["lay"] = r.choice(("c", "mid", "step"))
        _put(holder, path, s)
        return o
    if u < 0.85:
        o2 = make(c, r, op["fn"])
        keys = [k for k in set(o2["k"]) | set(o["k"]) if o2["k"].get(k, 0) != o["k"].get(k, 0)]
        keys = sorted(k for k in keys if k not in ("rng",))
        if keys:
            k = r.choice(keys)
            if k in o2["k"]:
                o["k"][k] = o2["k"][k]
            elif k not in ("create_plot", "disp"):
                del o["k"][k]
            return o
        return o2
    return make(c, r, op["fn"])


BAD = ("nan", "inf", "const", "empty", "short", "cplx")


def broken(c, r, op):
    """A call that will usually be rejected or fail by itself."""
    o = clone(op)
    holder = [o["a"], o["k"]]
    arrs = [(p, s) for p, s in _arrays_in(holder) if s["$"] == "sig"]
    sized = [(p, s) for p, s in _arrays_in(holder) if s["$"] in ("nums", "wts", "sig", "bits", "codes")]
    u = r.random()
    if sized and u < 0.2:
        path, s = r.choice(sized)       # lengths that do not fit together
        key = "nb" if s["$"] == "wts" else "n"
        _put(holder, path, dict(s, **{key: s[key] + r.choice((1, 3)) if s[key] < 3 else s[key] - r.choice((1, 2))}))
    elif arrs and u < 0.5:
        path, s = r.choice(arrs)
        _put(holder, path, dict(s, var=r.choice(BAD), dt="f8"))
    elif u < 0.9 and o["k"]:
        for _ in range(2):              # any option of the function, not only those of this call
            o["k"] = dict(make(c, r, op["fn"])["k"], **o["k"])
        ks = [k for k in sorted(o["k"]) if k not in ("create_plot", "disp", "is_plot", "rng", "input_signal", "ax", "axes")]
        if ks:
            k = r.choice(ks)
            v = o["k"][k]
            odd = ["bogus", -1, [1, 2, 3], None]
            if isinstance(v, list) or (isinstance(v, dict) and v.get("$") == "tuple"):
                odd = [[1, 2, 3], [1], [], {"$": "tuple", "v": [2, 1]}, "bogus"]
            elif isinstance(v, bool):
                odd = [None, [1, 2, 3], "bogus"]
            elif isinstance(v, (int, float)):
                odd = [-1, 0, {"$": "nan"}, "bogus", None, [1, 2, 3], -0.5]
            elif isinstance(v, str):
                odd = ["bogus", "", 7, None]
            o["k"] = {q: x for q, x in o["k"].items() if q in op["k"] or q == k}
            o["k"][k] = r.choice(odd)
    else:
        i = r.randrange(len(o["a"]))
        if not (isinstance(o["a"][i], dict) and o["a"][i].get("$") == "gen"):
            o["a"][i] = r.choice((None, "text", -3, [], {"$": "arr", "v": []}, {"$": "arr", "v": [[1.0, 2.0], [3.0, 4.0]]}))
    o["bad"] = 1
    return o


def widen(c, r):
    """More sizes and data in one session, for state that fills up."""
    c.n = sorted({r.choice(LENGTHS[:5]) for _ in range(4)})
    c.bases = [r.randrange(60) for _ in range(4)]
    return c


def storm(c, r, names):
    """Several rejected calls of one function, some repeated, then good ones."""
    base = make(c, r, choose_name(r, names))
    ops = [clone(base)] if r.random() < 0.5 else []
    for _ in range(r.choice((3, 5, 8))):
        o = broken(c, r, related(c, r, base))
        ops += [clone(o) for _ in range(r.choice((1, 1, 2, 3, 4)))]
    ops += [related(c, r, base), clone(base), make(c, r, base["fn"])]
    return ops


def spread(c, r, names, n):
    """Many different calls of one or two functions, then some of the early ones again."""
    names = r.sample(names, min(len(names), r.choice((1, 1, 2))))
    ops = [make(c, r, r.choice(names)) for _ in range(n)]
    return ops, [clone(r.choice(ops)) if r.random() < 0.6 else make(c, r, r.choice(names)) for _ in range(max(3, n // 3))]


def history(r, length, plot=0.0, names=None, bad=0.1, small=True, ctx=None):
    """Operations of one session: fresh ones, relatives of earlier ones, repeats, rejected ones."""
    c = ctx or Ctx(r, small)
    c.plot = plot
    pool = [n for n in (names or NAMES) if plot > 0 or n not in PLOT_ALWAYS]
    ops = []
    while len(ops) < length:
        if plot > 0 and r.random() < 0.08:
            ops.append(user_op(r))
            continue
        u = r.random()
        prev = [o for o in ops[-5:] if not o["fn"].startswith("user.")]
        if prev and u < 0.45:
            op = related(c, r, r.choice(prev))
        elif prev and u < 0.55:
            op = clone(r.choice(prev))
        else:
            op = make(c, r, choose_name(r, pool))
        if r.random() < bad:
            op = broken(c, r, op)
        ops.append(op)
    return ops, c


def user_op(r):
    """Something the user does between library calls."""
    return {"fn": "user." + r.choice(("new_figure", "close_all", "new_subplots", "draw_something", "new_polar")),
            "a": [], "k": {}, "rs": 1}


def _user(what):
    def go():
        import matplotlib.pyplot as plt
        if what == "draw":
            np.random.rand(3)
            random.random()
            return
        if what == "close_all":
            plt.close("all")
        elif what == "new_figure":
            plt.figure()
        elif what == "new_subplots":
            plt.subplots(2, 2)
        elif what == "new_polar":
            plt.figure().add_subplot(projection="polar")
        else:
            plt.plot([1, 2, 3])
    return go


def known(name):
    """Whether the library (as it is now) offers this function."""
    try:
        f = function(name)
        if isinstance(f, str):
            return callable(getattr(importlib.import_module("adctoolbox.siggen").ADC_Signal_Generator, f, None))
        return callable(f)
    except (ImportError, AttributeError):
        return False


def drop(names):
    for n in names:
        NAMES.remove(n)
        if n in CHEAP:
            CHEAP.remove(n)


def keep_known():
    drop([n for n in NAMES if not known(n)])


def function(name):
    mod, fn = name.rsplit(".", 1)
    if mod == "gen":
        return fn
    if mod == "user":
        return _user(fn)
    return getattr(importlib.import_module("adctoolbox." + mod), fn)
