"""Actors that behave like separate command-line processes on one simulated disk."""
import io
import os
import sys
import threading

from . import fsim
from . import sched as S


class StdProxy:
    """sys.stdout/sys.stderr with one private stream per actor."""

    encoding = "utf-8"
    errors = "strict"

    def __init__(self, real):
        self.real = real
        self.streams = {}

    def _s(self):
        a = S.current_actor()
        if a is None:
            return self.real
        return self.streams.setdefault(a.idx, io.StringIO())

    def write(self, t):
        return self._s().write(t)

    def writelines(self, ls):
        for x in ls:
            self.write(x)

    def flush(self):
        pass

    def isatty(self):
        return False

    def fileno(self):
        raise io.UnsupportedOperation("fileno")

    def text(self, idx):
        s = self.streams.get(idx)
        return s.getvalue() if s else ""

    def __getattr__(self, n):
        return getattr(self.real, n)


def drop_privileges(scratch):
    """Run the rest of this (forked) process as nobody, owning only its scratch directory."""
    if os.geteuid() != 0:
        return False
    uid = gid = 65534
    for d, dn, fn in os.walk(scratch):
        os.lchown(d, uid, gid)
        for n in dn + fn:
            os.lchown(os.path.join(d, n), uid, gid)
    os.setgroups([])
    os.setgid(gid)
    os.setuid(uid)
    return True


def readable_by_nobody(path):
    """Can an unprivileged process read this tree?"""
    if os.geteuid() != 0:
        return True
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.setgroups([])
            os.setgid(65534)
            os.setuid(65534)
            for d, dn, fn in os.walk(path, onerror=lambda e: os._exit(1)):
                for n in fn:
                    with open(os.path.join(d, n), "rb") as f:
                        f.read(1)
            code = 0
        except BaseException:
            code = 1
        os._exit(code)
    _, st = os.waitpid(pid, 0)
    return st == 0


class Phase:
    """Run a set of actors to completion on the disk."""

    def __init__(self, disk, log, sched_plan):
        self.disk = disk
        self.sched = S.Sched(sched_plan, log)
        self.out = StdProxy(sys.__stdout__)
        self.err = StdProxy(sys.__stderr__)
        self.disk.sched = self.sched
        self.keep = []

    def add(self, name, fn, faults=()):
        a = self.sched.add(name, fn)
        self.disk.actor_faults(a.idx, list(faults))
        return a

    def run(self):
        so, se = sys.stdout, sys.stderr
        sys.stdout, sys.stderr = self.out, self.err
        fsim.activate(self.disk)
        try:
            ok = self.sched.run()
        finally:
            fsim.deactivate()
            sys.stdout, sys.stderr = so, se
        return ok

    def outcome(self, a):
        """('ok', value) | ('crash',) | ('exit', code) | ('exc', type name, text)"""
        if a.outcome is None:
            return ("none",)
        k, v = a.outcome
        if self.disk.is_dead(a.idx):
            return ("crash",)
        if k == "ok":
            return ("ok", v)
        if isinstance(v, SystemExit):
            return ("exit", v.code)
        return ("exc", type(v).__name__, str(v)[:300])
