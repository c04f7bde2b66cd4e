"""Development aid: run every catalogue entry alone; report outcomes, time and line coverage of the library."""
import os, sys, time, json, collections, random
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
os.environ.setdefault("MPLCONFIGDIR", HERE + "/.cache/mpl")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
from sim import core, catalogue as C, engine as E
sys.path.insert(0, core.SRC)
import warnings; warnings.simplefilter("ignore")
E.install_seams(); E.import_library(); E.prepare()
K = int(sys.argv[1]) if len(sys.argv) > 1 else 6
plot = float(sys.argv[2]) if len(sys.argv) > 2 else 0.5
pat = sys.argv[3] if len(sys.argv) > 3 else ""
cov = collections.Counter(); stat = {}
devnull = open(os.devnull, "w")
for name in C.NAMES:
    if pat not in name: continue
    st = collections.Counter(); ts = []; why = collections.Counter(); ns=[]; bitdiff=0
    for s in range(K):
        r = random.Random("%s/%d" % (name, s)); c = C.Ctx(r, True); c.plot = plot
        op = C.make(c, r, name)
        nested = {}; E.nested_specs([op["a"], op["k"]], nested)
        so = os.dup(1); os.dup2(devnull.fileno(), 1)
        try:
            for k, o in list(nested.items()): nested[k] = E.raw_result(o, nested)
            t = time.time(); ref = E.isolated(op, nested, count=True); ts.append(time.time() - t)
            ref2 = E.isolated(op, nested, count=False)
        finally:
            os.dup2(so, 1); os.close(so)
        if E.canon_digest(ref["out"]) != E.canon_digest(ref2["out"]): bitdiff += 1
        st[ref["out"][0]] += 1; ns.append(ref["n"])
        if ref["out"][0] == "exc": why[ref["out"][1] + ": " + ref["text"][:90]] += 1
        cov.update(ref["lines"])
    print("%-45s %s %6.1fms n=%d bitdiff=%d %s" % (name, dict(st), 1e3 * sum(ts) / len(ts), max(ns), bitdiff, dict(why) or ""), flush=True)
# coverage
byfile = collections.defaultdict(set); lines = collections.defaultdict(set)
for c in E.CODES:
    for _, _, ln in c.co_lines():
        if ln and ln != c.co_firstlineno: lines[c.co_filename[len(E.PKG):]].add(ln)
for k in cov:
    f, ln = k.rsplit(":", 1); byfile[f].add(int(ln))
if not pat:
    for f in sorted(lines):
        miss = sorted(lines[f] - byfile[f])
        if miss and not f.startswith(("skill_cli", "cli", "toolset", "examples")):
            print("%-45s %d/%d missing %s" % (f, len(lines[f]) - len(miss), len(lines[f]), miss[:40]))
