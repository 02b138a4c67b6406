"""Processes for the shared-memory check.

The check's worker imports the pulsar classes but never touches shared memory itself.  `Arena` starts
processes on request - forked from the worker (each then starts its own resource tracker, like unrelated
processes), forked or spawned from another process of the schedule (sharing its tracker), or as new
interpreters - and sends them one operation at a time over a socket.  Everything lives in a scratch
directory, and segment names carry a prefix of this worker.
"""
import ctypes
import gc
import json
import os
import pickle
import select
import signal
import socket
import subprocess
import sys
import time

from .core import ENV, VERIF, digest

PREFIX = None


def install():
    global PREFIX
    from multiprocessing import shared_memory

    PREFIX = "v%06x" % os.getpid()
    shared_memory._SHM_NAME_PREFIX = "/" + PREFIX
    # orphans (processes and resource trackers whose parent died) become children of this process
    ctypes.CDLL(None).prctl(36, 1, 0, 0, 0)


def segments():
    return sorted(f for f in os.listdir("/dev/shm") if f.startswith(PREFIX))


def content(psr):
    """digest of everything that a user of the pulsar sees"""
    out = {}
    for a in ("toas", "residuals", "toaerrs", "freqs", "Mmat", "planetssb", "sunssb", "pos_t", "telescope", "backend_flags"):
        out[a] = getattr(psr, a)
    for k, v in psr.flags.items():
        out["flag " + k] = v
    return digest(out)


def killer(n):
    """kill this process when the n-th line (of any code) is about to run; count when n < 0"""
    cnt = [0]

    def tr(frame, event, arg):
        if event == "line":
            cnt[0] += 1
            if cnt[0] == n:
                os.kill(os.getpid(), signal.SIGKILL)
        return tr

    return tr, cnt


class Server(object):
    """Runs in every process of the schedule."""

    def __init__(self, path, ident):
        self.psr = {}
        self.objs = {}
        self.path = path
        self.connect(ident)

    def connect(self, ident):
        self.s = socket.socket(socket.AF_UNIX)
        self.s.connect(self.path)
        self.f = self.s.makefile("rw")
        self.ident = ident
        self.send({"id": ident, "pid": os.getpid()})

    def send(self, x):
        self.f.write(json.dumps(x) + "\n")
        self.f.flush()

    def loop(self):
        while True:
            line = self.f.readline()
            if not line:
                os._exit(0)
            m = json.loads(line)
            try:
                r = self.do(m)
            except BaseException as e:
                if isinstance(e, SystemExit):
                    raise
                r = {"exc": type(e).__name__, "msg": str(e)[:200]}
            self.send(r)

    def do(self, m):
        op, k = m["op"], m.get("k", 0)
        o = self.objs
        if op == "make":  # creator
            import numpy as np

            from . import fakes as F, psr as P

            rng = np.random.RandomState(m["seed"])
            rec = P.record(rng, name="J%04d+0000" % k, n=m["n"], npar=4)
            if m.get("noflags"):
                rec["flags"] = {}
            from enterprise.pulsar import Tempo2Pulsar

            o[k] = Tempo2Pulsar(F.tempopulsar(rec=rec), sort=m["sort"], planets=m["planets"])
            return {"digest": content(o[k])}
        if op == "deflate":
            o[k].deflate()
            return {}
        if op == "pickle":
            if m.get("method"):
                o[k].to_pickle(os.path.dirname(m["path"]))
                os.rename(os.path.join(os.path.dirname(m["path"]), o[k].name + ".pkl"), m["path"])
            else:
                with open(m["path"], "wb") as f:
                    pickle.dump(o[k], f)
            return {}
        if op == "load":
            with open(m["path"], "rb") as f:
                o[k] = pickle.load(f)
            return {}
        if op in ("inflate", "destroy", "deflate") and "kill" in m:
            pass
        if op in ("inflate", "destroy"):
            fn = getattr(o[k], op)
            if "kill" in m:
                tr, cnt = killer(m["kill"])
                sys.settrace(tr)
                try:
                    fn()
                finally:
                    sys.settrace(None)
                return {"lines": cnt[0]}
            fn()
            return {}
        if op == "digest":
            return {"digest": content(o[k])}
        if op == "poke":  # change one element of every array that is handed out as a view; -> what was there
            import numpy as np

            p, old = o[k], []
            for a in ("Mmat", "planetssb", "sunssb"):
                x, y = getattr(p, a), getattr(p, a)
                if x is None or not np.shares_memory(x, y):
                    old.append(None)
                    continue
                i = np.unravel_index(m["at"] % x.size, x.shape)
                old.append(float(x[i]))
                x[i] = m["values"][len(old) - 1]
            return {"old": old}
        if op == "hold":  # keep views beyond the life of the pulsar
            p = o[k]
            self.held = [p.Mmat, p.flags, p.sunssb, p.Mmat[1:].T] if p.planetssb is not None else [p.Mmat, p.flags, p.Mmat[1:].T]
            self.held_digest = digest(self.held[0])
            return {}
        if op == "held":
            return {"same": digest(self.held[0]) == self.held_digest}
        if op == "release":
            o.pop(k, None)
            if m.get("gc", True):
                gc.collect()
            return {}
        if op == "fds":
            return {"n": len(os.listdir("/proc/self/fd")), "maps": sum(PREFIX_IN(line) for line in open("/proc/self/maps"))}
        if op == "fork":
            if os.fork() == 0:
                self.connect(m["id"])
                return self.after_fork()
            return {}
        if op == "spawn":
            import multiprocessing

            multiprocessing.get_context("spawn").Process(target=_spawned, args=(self.path, m["id"])).start()
            return {}
        if op == "exit":
            self.send({})
            sys.exit(0)
        if op == "kill":
            os.kill(os.getpid(), signal.SIGKILL)
        raise ValueError(op)

    def after_fork(self):
        self.loop()


def PREFIX_IN(line):
    return "/dev/shm/v" in line


def _spawned(path, ident):
    Server(path, ident).loop()


def script(path, ident):
    from . import core

    core.quiet()
    Server(path, ident).loop()


class Arena(object):
    def __init__(self, root):
        self.path = os.path.join(root, "s")
        self.listen = socket.socket(socket.AF_UNIX)
        self.listen.bind(self.path)
        self.listen.listen(64)
        self.procs = {}
        self.pids = set()
        self.n = 0
        self.log = []

    def _accept(self, ident, timeout=60):
        r, _, _ = select.select([self.listen], [], [], timeout)
        if not r:
            raise RuntimeError("process {} did not start".format(ident))
        c, _ = self.listen.accept()
        f = c.makefile("rw")
        h = json.loads(f.readline())
        assert h["id"] == ident, (h, ident)
        self.procs[ident] = f
        self.pids.add(h["pid"])
        self.log.append(("start", ident))
        return ident

    def start(self, how="own", parent=None):
        self.n += 1
        ident = "p%d" % self.n
        if how == "own":
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    signal.signal(signal.SIGTERM, signal.SIG_DFL)
                    devnull = os.open(os.devnull, os.O_RDWR)
                    os.dup2(devnull, 2)
                    os.dup2(devnull, 1)
                    for f in self.procs.values():
                        f.close()
                    self.listen.close()
                    Server(self.path, ident).loop()
                    code = 0
                except SystemExit:
                    code = 0
                finally:
                    # leave like an interpreter does: exit handlers, finalisers of what is left
                    import atexit

                    atexit._run_exitfuncs()
                    os._exit(code)
        elif how == "new":
            p = subprocess.Popen([sys.executable, "-c", "import sys;sys.path.insert(0,%r);from mon import shm;shm.script(%r,%r)" % (VERIF, self.path, ident)],
                                 env=dict(os.environ, **ENV), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            p.returncode = 0  # reaped by us
        else:
            self.call(parent, how, id=ident)
        return self._accept(ident)

    def post(self, who, op, **kw):
        f = self.procs[who]
        f.write(json.dumps(dict(kw, op=op)) + "\n")
        f.flush()

    def get(self, who):
        f = self.procs[who]
        try:
            line = f.readline()
        except OSError:
            line = ""
        if not line:
            del self.procs[who]
            return {"dead": True}
        return json.loads(line)

    def call(self, who, op, **kw):
        self.post(who, op, **kw)
        r = self.get(who)
        self.log.append((who, op, kw.get("k"), {k: v for k, v in r.items() if k != "digest"}))
        return r

    def end(self, who, how):
        self.call(who, how)
        if who in self.procs:
            self.get(who)
        self.reap()

    def reap(self):
        """Collect what ended; returns the live children of this process."""
        while True:
            try:
                if os.waitpid(-1, os.WNOHANG)[0] == 0:
                    break
            except ChildProcessError:
                break
        return [int(x) for x in open("/proc/self/task/{}/children".format(os.getpid())).read().split()]

    def settle(self, timeout=10.0):
        """Wait until the resource trackers whose process ended are gone (those that other live
        processes share stay, so the wait is bounded)."""
        t0 = time.time()
        while time.time() - t0 < timeout:
            if not any(istracker(c) for c in self.reap()):
                return True
            time.sleep(0.003)
        return False

    def close(self):
        for pid in self.pids:
            try:
                os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        for f in self.procs.values():
            f.close()
        self.listen.close()
        t0 = time.time()
        while self.reap() and time.time() - t0 < 5:
            time.sleep(0.003)
        for f in segments():
            os.unlink(os.path.join("/dev/shm", f))


def istracker(pid):
    try:
        return "resource_tracker" in open("/proc/%d/cmdline" % pid).read()
    except OSError:
        return False
