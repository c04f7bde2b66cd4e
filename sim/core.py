"""Search driver: seeds -> plans -> forked simulated runs -> verdict, replay file, evidence.

One run = one plan (a JSON document) executed in a child forked from a pristine
process that has imported the library but never called it.  Everything a run
does follows from its plan; the plan follows from (VERIF_SEED, property, run
number).
"""
import errno
import gc
import hashlib
import json
import os
import random
import select
import shutil
import signal
import socket
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "python", "src")


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(repr(p).encode())
        h.update(b"|")
    return h.hexdigest()


def derive(*parts):
    """A 63-bit seed derived from the parts."""
    return int(digest(*parts)[:15], 16)


def rng_for(*parts):
    return random.Random(derive(*parts))


class Log:
    """Event log of one run; only its hash and tail are kept."""

    def __init__(self, keep=400):
        self.h = hashlib.sha256()
        self.n = 0
        self.keep = keep
        Log.last = self
        self.tail = []

    def add(self, *ev):
        self.n += 1
        s = json.dumps(ev, default=str)
        self.h.update(s.encode())
        self.tail.append(s)
        if len(self.tail) > self.keep:
            del self.tail[: self.keep // 2]

    def hexdigest(self):
        return self.h.hexdigest()[:24]


class Result(dict):
    """What one run reports back (JSON)."""

    def __init__(self):
        super().__init__(viol=[], faults={}, probes={}, steps=0, sig="", nontrivial=False,
                         loghash="", record={}, note="")

    def violation(self, cls, msg, key=None):
        self["viol"].append({"cls": cls, "msg": msg[:2000], "key": key or cls})

    def fault(self, kind, n=1):
        self["faults"][kind] = self["faults"].get(kind, 0) + n

    def probe(self, name, n=1):
        self["probes"][name] = self["probes"].get(name, 0) + n


class Scenario:
    prop = "?"
    level = "exploration"
    quick_runs = 100
    thorough_runs = 1000
    run_timeout = 60.0
    hang_is_violation = False
    rule = ""
    components = {}
    assumptions = []
    needs_scratch = False

    def prepare(self):
        """Called once in the parent before any fork."""

    def gen(self, rng, i, tier):
        raise NotImplementedError

    def run(self, plan, scratch):
        raise NotImplementedError

    def explicit(self, plan, result):
        """Plan with every random decision of the run written out, for shrinking."""
        return plan

    def shrink(self, plan):
        """Yield simpler plans, most aggressive first."""
        return iter(())


# ---------------------------------------------------------------- child handling

def _child(scn, plan_file, scratch, wfd, quiet):
    try:
        os.setpgid(0, 0)
    except OSError:
        pass
    if quiet:
        dn = os.open(os.devnull, os.O_RDWR)
        os.dup2(dn, 0)
        os.dup2(dn, 1)
        os.dup2(dn, 2)
    try:
        with open(plan_file, "rb") as f:
            plan = json.loads(f.read())
        res = scn.run(plan, scratch)
        if os.environ.get("VERIF_LOGDIR"):
            with open(os.path.join(os.environ["VERIF_LOGDIR"], digest(plan)[:12]), "w") as f:
                f.write("\n".join(Log.last.tail))
        out = json.dumps(res, default=str)
    except BaseException:
        out = json.dumps({"harness_error": traceback.format_exc()})
    data = out.encode()
    try:
        view = memoryview(data)
        while view:
            n = os.write(wfd, view)
            view = view[n:]
    finally:
        os._exit(0)


class Spawner:
    """Forks every run from one process that does nothing else, so that all runs start from the same memory."""

    def __init__(self, scn):
        self.sock, srv = socket.socketpair(socket.AF_UNIX, socket.SOCK_SEQPACKET)
        sys.stdout.flush()
        sys.stderr.flush()
        gc.collect()
        if os.fork() == 0:
            self.sock.close()
            try:
                self.serve(scn, srv)
            finally:
                os._exit(0)
        srv.close()

    @staticmethod
    def serve(scn, srv):
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        while True:
            msg, fds, _, _ = socket.recv_fds(srv, 1024, 1)
            if not msg:
                return
            pid = os.fork()
            if pid == 0:
                srv.close()
                signal.signal(signal.SIGINT, signal.default_int_handler)
                plan_file, scratch, quiet = json.loads(msg)
                _child(scn, plan_file, scratch, fds[0], quiet)
                os._exit(3)
            os.close(fds[0])
            srv.send(b"%012d" % pid)
            try:
                while os.waitpid(-1, os.WNOHANG)[0]:
                    pass
            except ChildProcessError:
                pass

    def start(self, plan_file, scratch, wfd, quiet):
        socket.send_fds(self.sock, [json.dumps([plan_file, scratch, quiet]).ljust(600).encode()], [wfd])
        return int(self.sock.recv(12))


_spawner = None
LONGEST = {"s": 0.0}


class Job:
    __slots__ = ("pid", "fd", "buf", "t0", "tag", "plan", "scratch", "file")


def spawn(scn, plan, tag, base, quiet=True):
    global _spawner
    if _spawner is None:
        _spawner = Spawner(scn)
    scratch = None
    if scn.needs_scratch:
        scratch = tempfile.mkdtemp(prefix="run-", dir=base)
    fd, path = tempfile.mkstemp(prefix="plan-", dir=base)
    with os.fdopen(fd, "w") as f:
        json.dump(plan, f)
    rfd, wfd = os.pipe()
    pid = _spawner.start(path, scratch, wfd, quiet)
    os.close(wfd)
    j = Job()
    j.pid, j.fd, j.buf, j.t0, j.tag, j.plan, j.scratch, j.file = pid, rfd, [], time.monotonic(), tag, plan, scratch, path
    return j


def finish(j, killed=False):
    if killed:
        try:
            os.killpg(j.pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            os.kill(j.pid, signal.SIGKILL)
        except OSError:
            pass
    os.close(j.fd)
    if os.path.basename(j.file).startswith("plan-"):
        os.unlink(j.file)
    if j.scratch and os.path.isabs(j.scratch) and os.path.basename(j.scratch).startswith("run-"):
        shutil.rmtree(j.scratch, ignore_errors=True)
    if killed:
        return {"hang": True}
    raw = b"".join(j.buf)
    if not raw:
        return {"harness_error": "child %d died without an answer" % j.pid}
    try:
        return json.loads(raw)
    except ValueError:
        return {"harness_error": "unreadable child output: %r" % raw[-300:]}


def pool(scn, plans, workers, base, timeout, quiet=True):
    """Run the (tag, plan) pairs from an iterator; yield (tag, plan, result)."""
    it = iter(plans)
    jobs = {}
    exhausted = False
    while True:
        while not exhausted and len(jobs) < workers:
            try:
                tag, plan = next(it)
            except StopIteration:
                exhausted = True
                break
            j = spawn(scn, plan, tag, base, quiet)
            jobs[j.fd] = j
        if not jobs:
            return
        r, _, _ = select.select(list(jobs), [], [], 0.5)
        for fd in r:
            j = jobs[fd]
            data = os.read(fd, 1 << 20)
            if data:
                j.buf.append(data)
            else:
                del jobs[fd]
                res = finish(j)
                LONGEST["s"] = max(LONGEST["s"], time.monotonic() - j.t0)
                yield j.tag, j.plan, res
        now = time.monotonic()
        for fd, j in list(jobs.items()):
            if now - j.t0 > timeout:
                del jobs[fd]
                yield j.tag, j.plan, finish(j, killed=True)


def run_one(scn, plan, base, timeout=None, quiet=True):
    for _, _, res in pool(scn, [(0, plan)], 1, base, timeout or scn.run_timeout, quiet):
        return res


# ---------------------------------------------------------------- verdicts

def violations_of(scn, res):
    if res.get("hang"):
        if scn.hang_is_violation:
            return [{"cls": "no-progress", "key": "no-progress",
                     "msg": "the run did not finish within its time limit"}]
        return []
    return res.get("viol", [])


def load_known(prop):
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    try:
        lines = open(path, encoding="utf-8").read().splitlines()
    except FileNotFoundError:
        return out
    for ln in lines:
        if ln.startswith("known: property=%s key=" % prop):
            rest = ln.split(" key=", 1)[1]
            key, _, text = rest.partition(" ")
            out[key] = text
    return out


def minimise(scn, plan, res, cls, base, budget_s=60.0, log=print):
    """Greedy shrinking: keep any simpler plan that still shows the same class."""
    t_end = time.monotonic() + budget_s
    best, best_res = plan, res

    def shows(p):
        r = run_one(scn, p, base)
        if r is None or r.get("harness_error"):
            return None
        return r if any(v["cls"] == cls for v in violations_of(scn, r)) else None

    if not res.get("hang"):
        exp = scn.explicit(plan, res)
        if exp != plan:
            r = shows(exp)
            if r:
                best, best_res = exp, r
    tried = 0
    progress = True
    while progress and time.monotonic() < t_end:
        progress = False
        for cand in candidates(scn, best):
            if time.monotonic() > t_end:
                break
            tried += 1
            r = shows(cand)
            if r:
                best, best_res = cand, r
                progress = True
                break
    return best, best_res, tried


def candidates(scn, plan):
    """Smaller plans to try; a mistake in proposing them must not cost the violation already found."""
    try:
        yield from scn.shrink(plan)
    except Exception as e:
        print("note: minimisation stopped early: %r" % (e,))


def main_check(scn, tier, seed, workers=None, runs=None, wall_cap=780.0):
    t0 = time.monotonic()
    prop = scn.prop
    base = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    os.chmod(base, 0o755)
    try:
        return _main_check(scn, tier, seed, workers, runs, wall_cap, t0, base)
    finally:
        if os.path.isabs(base) and os.path.basename(base).startswith("verif-"):
            shutil.rmtree(base, ignore_errors=True)


def _main_check(scn, tier, seed, workers, runs, wall_cap, t0, base):
    prop = scn.prop
    scn.tier = tier
    scn.prepare()
    workers = workers or int(os.environ.get("VERIF_WORKERS", "0")) or max(1, min(8, os.cpu_count() or 1))
    n = runs or int(os.environ.get("VERIF_RUNS", "0")) or (scn.quick_runs if tier == "quick" else scn.thorough_runs)
    soft = float(os.environ.get("VERIF_SOFT_S", "0")) or (300.0 if tier == "quick" else 600.0)
    known = load_known(prop)
    known_seen = {}
    agg = dict(evaluations=0, steps=0, faults={}, probes={}, sigs=set(), nontrivial=set(), logs={}, samples=[],
               max_steps=0)
    harness_errors = []
    hangs = []
    bad = []
    stop = {"v": False}

    def plans():
        for i in range(n):
            if stop["v"]:
                return
            if time.monotonic() - t0 > soft and i >= min(n, 40):
                return
            rng = rng_for("verif", seed, prop, i)
            yield i, scn.gen(rng, i, tier)

    for i, plan, res in pool(scn, plans(), workers, base, scn.run_timeout):
        if res.get("harness_error"):
            harness_errors.append((i, plan, res["harness_error"]))
            if len(harness_errors) > 3:
                stop["v"] = True
            continue
        if res.get("hang"):
            hangs.append((i, plan))
            if len(hangs) >= 2:
                stop["v"] = True
            continue
        agg["evaluations"] += 1
        agg["steps"] += res["steps"]
        agg["max_steps"] = max(agg["max_steps"], res["steps"])
        for k, v in res["faults"].items():
            agg["faults"][k] = agg["faults"].get(k, 0) + v
        for k, v in res["probes"].items():
            agg["probes"][k] = agg["probes"].get(k, 0) + v
        agg["sigs"].add(res["sig"])
        if res["nontrivial"]:
            agg["nontrivial"].add(res["sig"])
        agg["logs"][i] = res["loghash"]
        if len(agg["samples"]) < 3 and res["nontrivial"]:
            agg["samples"].append({"run": i, "plan": plan, "sig": res["sig"], "steps": res["steps"],
                                   "faults": res["faults"], "note": res.get("note", "")})
        vs = res["viol"]
        fresh = []
        for v in vs:
            if v["key"] in known:
                known_seen[v["key"]] = known_seen.get(v["key"], 0) + 1
            else:
                fresh.append(v)
        if fresh:
            bad.append((i, plan, res, fresh))
            if len(bad) >= 4:
                stop["v"] = True

    status = 0
    replay_path = None
    determinism = {"rerun": 0, "mismatches": 0}

    for key, text in sorted(known.items()):
        print("KNOWN-FINDING: property=%s %s (seen %d times in this run)" % (prop, text, known_seen.get(key, 0)))

    if hangs and scn.hang_is_violation and not bad:
        for i, plan in hangs:
            res = run_one(scn, plan, base, timeout=scn.run_timeout * 1.5)
            if res.get("hang"):
                bad.append((i, plan, res, violations_of(scn, res)))
                break
    elif hangs and not bad:
        for i, plan in hangs:
            res = run_one(scn, plan, base, timeout=scn.run_timeout * 2)
            if res.get("hang") or res.get("harness_error"):
                harness_errors.append((i, plan, "run %d hung" % i))
            elif res["viol"]:
                bad.append((i, plan, res, res["viol"]))

    if bad:
        bad.sort(key=lambda b: b[0])
        for i, plan, res, fresh in bad:
            print("violating run %d: %s" % (i, "; ".join("%s: %s" % (v["cls"], v["msg"]) for v in fresh[:3])))
        i, plan, res, fresh = bad[0]
        cls = fresh[0]["cls"]
        confirmed = False
        for _ in range(3):
            r = run_one(scn, plan, base, timeout=scn.run_timeout * 1.5)
            if any(v["cls"] == cls for v in violations_of(scn, r)):
                confirmed = True
                break
        if confirmed or len(bad) > 1:
            small, small_res, tried = (plan, res, 0) if res.get("hang") else minimise(
                scn, plan, res, cls, base, budget_s=min(90.0, max(10.0, wall_cap - (time.monotonic() - t0) - 100)))
            msg = next((v["msg"] for v in violations_of(scn, small_res) if v["cls"] == cls), fresh[0]["msg"])
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            replay_path = os.path.join(VERIF, "replays", "%s-seed%d-run%d.json" % (prop, seed, i))
            with open(replay_path, "w", encoding="utf-8") as f:
                json.dump({"property": prop, "seed": seed, "run": i, "tier": tier, "class": cls, "message": msg,
                           "plan": small, "loghash": small_res.get("loghash"), "original_plan": plan,
                           "shrink_attempts": tried, "trace": small_res.get("trace", [])}, f, indent=1, default=str)
            print("minimised after %d attempts; class %s: %s" % (tried, cls, msg))
            print("VIOLATION property=%s replay=%s" % (prop, replay_path), flush=True)
            status = 1
        else:
            harness_errors.append((i, plan, "violation did not reproduce: %r" % fresh))

    if status == 0 and not harness_errors:
        idx = sorted(agg["logs"])[:: max(1, len(agg["logs"]) // (6 if tier == "quick" else 30))]
        for i, plan, res in pool(scn, ((i, scn.gen(rng_for("verif", seed, prop, i), i, tier)) for i in idx),
                                 workers, base, scn.run_timeout):
            if res.get("hang") or res.get("harness_error"):
                continue
            determinism["rerun"] += 1
            if res["loghash"] != agg["logs"][i]:
                determinism["mismatches"] += 1
                print("note: run %d gave a different event log when repeated" % i)

    wall = time.monotonic() - t0
    if harness_errors and status == 0:
        for i, plan, e in harness_errors[:3]:
            print("CHECK ERROR run %s: %s" % (i, e), file=sys.stderr)
        status = 2

    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": scn.level,
        "coverage": {
            "evaluations": agg["evaluations"],
            "distinct_nontrivial": len(agg["nontrivial"]),
            "rule": scn.rule,
            "samples": agg["samples"],
            "simulated_runs": agg["evaluations"],
            "runs_per_hour": round(agg["evaluations"] / max(wall, 1e-6) * 3600),
            "simulated_time": {"unit": "simulation steps (the code under test reads no clock)",
                               "total_steps": agg["steps"], "longest_run_steps": agg["max_steps"]},
            "faults_injected": dict(sorted(agg["faults"].items())),
            "reach_probes": dict(sorted(agg["probes"].items())),
            "distinct_states_or_interleavings": {"measure": getattr(scn, "sig_measure", "distinct run signatures"),
                                                 "count": len(agg["sigs"])},
            "determinism_reruns": determinism,
            "event_log_digest": digest(sorted(agg["logs"].items()))[:24],
            "components": scn.components,
            "known_findings_seen": known_seen,
            "workers": workers,
            "longest_run_s": round(LONGEST["s"], 1),
        },
        "assumptions": scn.assumptions,
        "wall_s": round(wall, 2),
        "violations": len(bad),
    }
    extra = getattr(scn, "extra_evidence", None)
    if extra:
        ev["coverage"].update(extra())
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", prop + ".json.tmp")
    with open(tmp, "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(VERIF, "evidence", prop + ".json"))
    if status == 0:
        print("OK property=%s tier=%s seed=%d runs=%d distinct=%d steps=%d wall=%.1fs" % (
            prop, tier, seed, agg["evaluations"], len(agg["nontrivial"]), agg["steps"], wall))
    return status


def main_replay(scn, doc):
    base = tempfile.mkdtemp(prefix="verif-%s-" % scn.prop)
    os.chmod(base, 0o755)
    try:
        scn.tier = doc.get("tier", "quick")
        scn.prepare()
        res = run_one(scn, doc["plan"], base, timeout=scn.run_timeout * 1.5)
        if res.get("harness_error"):
            print(res["harness_error"], file=sys.stderr)
            return 2
        vs = [v for v in violations_of(scn, res) if v["cls"] == doc["class"]]
        for t in res.get("trace", []):
            print(t)
        if vs:
            same = res.get("loghash") == doc.get("loghash")
            print("reproduced: %s: %s (event log %s)" % (vs[0]["cls"], vs[0]["msg"], "identical" if same else "differs"))
            return 1
        print("not reproduced")
        return 0
    finally:
        if os.path.isabs(base) and os.path.basename(base).startswith("verif-"):
            shutil.rmtree(base, ignore_errors=True)
