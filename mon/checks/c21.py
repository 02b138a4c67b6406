"""C21: shared-memory pulsars across processes, schedules, crashes."""
import os
import shutil
import tempfile

from .. import fakes as F, model as M, shm
from ..core import size as tail

PROP = "C21"
RULE = ("schedule cases: a creator, users (unrelated processes, forked or spawned from the creator or from other users, new interpreters) and a destroyer execute a random interleaving of "
        "load/inflate/read/hold views/release/collect/exit/kill with concurrent batches, for one or two pulsars, followed by an online automaton (segments present until destroyed, every read equal to the creator's data, "
        "none afterwards); crash cases: a user is killed at a chosen line of inflate (any line, library code included), then the others must be unaffected; share cases: a value written into an inflated array by one process is read by all others, early and late, and restored; "
        "distinct = distinct event log")
ASSUMPTIONS = ["Linux, Python 3.12 multiprocessing.shared_memory", "the creator survives until it has pickled the pulsar; a destroyer is not killed half-way",
               "access after destroy is not claimed"]
REQUIRE = {"read": 300, "inflate": 200, "segments-present": 300, "segments-gone": 40, "killed": 40, "crash-point": 60, "concurrent": 40, "shared-write": 60}


def setup(ctx):
    F.install()
    shm.install()
    import enterprise.pulsar  # noqa: F401


class Case(object):
    def __init__(self, ctx, rng, npsr, noflags=None, sort=None):
        self.ctx, self.rng = ctx, rng
        self.root = tempfile.mkdtemp(prefix="mon-c21-")
        self.a = shm.Arena(self.root)
        try:
            self.build(npsr, noflags, sort)
        except BaseException:
            self.finish()
            raise

    def build(self, npsr, noflags, sort=None):
        ctx, rng = self.ctx, self.rng
        self.creator = self.a.start("own")
        self.want, self.path = {}, {}
        self.files, self.state = set(), "shared"
        for k in range(npsr):
            r = self.a.call(self.creator, "make", k=k, seed=int(rng.randint(1 << 30)), n=tail(rng, 5, 60, 3000), sort=bool(rng.rand() < 0.6) if sort is None else sort,
                            planets=bool(rng.rand() < 0.8), noflags=bool(rng.rand() < 0.1) if noflags is None else noflags)
            ctx.ok("digest" in r, "make", r)
            self.want[k] = r.get("digest")
            if rng.rand() < 0.3:  # nothing happens in the pristine state
                for op in ("inflate", "destroy"):
                    self.a.call(self.creator, op, k=k)
                ctx.ok(self.a.call(self.creator, "digest", k=k).get("digest") == self.want[k], "no-op-pristine", "")
                ctx.ok(shm.segments() == sorted(self.files), "no-op-pristine", "segments {}".format(shm.segments()))
            r = self.a.call(self.creator, "deflate", k=k)
            ctx.ok(r == {}, "deflate", r)
            self.path[k] = os.path.join(self.root, "p%d.pkl" % k)
            new = set(shm.segments()) - self.files
            ctx.ok(len(new) > 0, "deflate-creates", "no segment appeared")
            self.files |= new
            if rng.rand() < 0.4:  # deflating again does nothing
                ctx.ok(self.a.call(self.creator, "deflate", k=k) == {} and set(shm.segments()) == self.files, "no-op-deflated", "")
            ctx.ok(self.a.call(self.creator, "pickle", k=k, path=self.path[k], method=bool(rng.rand() < 0.5)) == {}, "pickle", "")
        self.stat = {}  # (process, pulsar) -> loaded / inflated

    def present(self, when):
        self.ctx.ok(set(shm.segments()) == self.files, "segments-present", "{}: {} of {} segments left".format(when, len(set(shm.segments()) & self.files), len(self.files)), log=self.a.log[-25:])

    def user(self, how=None):
        a, rng = self.a, self.rng
        alive = list(a.procs)
        how = how or M.pick(rng, ["own", "own", "fork", "fork"])
        if how in ("fork", "spawn") and not alive:
            how = "own"
        parent = M.pick(rng, alive) if how in ("fork", "spawn") else None
        u = a.start(how, parent)
        self.ctx.event("user:" + how)
        if how == "fork":
            for (p, k), s in list(self.stat.items()):
                if p == parent:
                    self.stat[(u, k)] = s
        return u

    def load(self, u, k):
        if (u, k) not in self.stat:
            r = self.a.call(u, "load", k=k, path=self.path[k])
            self.ctx.ok(r == {}, "load", r)
            self.stat[(u, k)] = "loaded"

    def inflated(self, u, k, r):
        self.ctx.ok(r == {} or list(r) == ["lines"], "inflate", "process {}: {}".format(u, r), log=self.a.log[-25:])
        self.ctx.event("inflate")
        self.stat[(u, k)] = "inflated"

    def read(self, u, k, r=None):
        r = self.a.call(u, "digest", k=k) if r is None else r
        self.ctx.ok(r.get("digest") == self.want[k], "read", "process {} sees other data: {}".format(u, {x: y for x, y in r.items() if x != "digest"}), log=self.a.log[-25:])

    def gone(self, u):
        for key in [x for x in self.stat if x[0] == u]:
            del self.stat[key]

    def end(self, u, how):
        self.a.end(u, how)
        self.gone(u)
        self.ctx.event("killed" if how == "kill" else "exited")

    def finish(self):
        self.a.close()
        shutil.rmtree(self.root)


def destroy_and_check(c, destroyer=None):
    """Destroy all, from the creator or from a fresh process; afterwards nothing is left and nobody can inflate."""
    ctx, rng, a = c.ctx, c.rng, c.a
    for k in c.want:
        if destroyer == "creator" and c.creator in a.procs and (c.creator, k) not in c.stat:
            d = c.creator
        else:
            d = a.start("own")
            a.call(d, "load", k=k, path=c.path[k])
        r = a.call(d, "destroy", k=k)
        ctx.ok(r == {}, "destroy", "{}".format(r), log=a.log[-25:])
        before = set(shm.segments())
        # repeated, and in the wrong state: nothing
        for op in ("destroy", "deflate", "inflate", "destroy"):
            if rng.rand() < 0.5:
                ctx.ok(a.call(d, op, k=k) == {}, "no-op-destroyed", op, log=a.log[-10:])
        ctx.ok(set(shm.segments()) == before, "no-op-destroyed", "segments changed")
        u = a.start("own")
        a.call(u, "load", k=k, path=c.path[k])
        r = a.call(u, "inflate", k=k)
        ctx.ok(r.get("exc") == "FileNotFoundError", "inflate-after-destroy", r)
    ctx.ok(not shm.segments(), "segments-gone", "left after destroy: {}".format(shm.segments()), log=a.log[-25:])
    for u in list(a.procs):
        c.end(u, M.pick(rng, ["exit", "kill"]))
    a.settle()
    ctx.ok(not shm.segments(), "segments-gone", "left at the end: {}".format(shm.segments()))


def schedule(ctx, rng):
    c = Case(ctx, rng, rng.randint(1, 3))
    a = c.a
    try:
        if rng.rand() < 0.5:
            c.end(c.creator, M.pick(rng, ["exit", "kill"]))
            ctx.event("creator-ended")
        c.present("after the creator's part")
        creator_used = False
        for step in range(rng.randint(6, 26)):
            users = [u for u in a.procs if u != c.creator]
            op = M.pick(rng, ["start", "start", "inflate", "inflate", "inflate", "read", "release", "end", "end", "batch", "creator", "hold"])
            if op == "start" or not users:
                if len(a.procs) < 7:
                    how = None
                    if rng.rand() < 0.012:
                        how = M.pick(rng, ["spawn", "new"])
                    c.user(how)
                continue
            u = M.pick(rng, users)
            k = int(M.pick(rng, list(c.want)))
            if op == "inflate":
                c.load(u, k)
                r = a.call(u, "inflate", k=k)  # repeated: nothing
                c.inflated(u, k, r)
                if rng.rand() < 0.2:
                    ctx.ok(a.call(u, M.pick(rng, ["destroy", "deflate", "inflate"]), k=k) == {}, "no-op-inflated", "")
                    c.present("after calls in the inflated state")
                c.read(u, k)
            elif op == "read":
                for (p, kk), s in c.stat.items():
                    if p == u and s == "inflated":
                        c.read(u, kk)
            elif op == "release":
                a.call(u, "release", k=k, gc=bool(rng.rand() < 0.7))
                c.stat.pop((u, k), None)
            elif op == "end":
                c.end(u, M.pick(rng, ["exit", "kill"]))
                if rng.rand() < 0.5:
                    # own trackers of ended processes go first; shared ones live on
                    a.settle(0.15)
            elif op == "hold" and c.stat.get((u, k)) == "inflated":
                a.call(u, "hold", k=k)
                a.call(u, "release", k=k)
                c.stat.pop((u, k), None)
                r = a.call(u, "held")
                ctx.ok(r.get("same") is True, "held-views", "views changed after release: {}".format(r), log=a.log[-10:])
            elif op == "batch":
                todo = []
                for p in users:
                    kk = int(M.pick(rng, list(c.want)))
                    if c.stat.get((p, kk)) == "inflated":
                        a.post(p, "digest", k=kk)
                        todo.append((p, kk, "digest"))
                    else:
                        c.load(p, kk)
                        a.post(p, "inflate", k=kk)
                        todo.append((p, kk, "inflate"))
                for p, kk, what in todo:
                    r = a.get(p)
                    a.log.append((p, what, kk, "concurrent"))
                    if what == "digest":
                        c.read(p, kk, r)
                    else:
                        c.inflated(p, kk, r)
                ctx.event("concurrent", len(todo))
            elif op == "creator" and c.creator in a.procs:
                what = rng.rand()
                if what < 0.4 and (c.creator, k) not in c.stat:
                    c.inflated(c.creator, k, a.call(c.creator, "inflate", k=k))
                    c.read(c.creator, k)
                elif what < 0.7 and (c.creator, k) not in c.stat:
                    ctx.ok(a.call(c.creator, "pickle", k=k, path=c.path[k]) == {}, "pickle", "again")
                else:
                    c.end(c.creator, M.pick(rng, ["exit", "kill"]))
                    ctx.event("creator-ended")
            c.present("after " + op)
            for p, kk in list(c.stat):
                if p not in a.procs:
                    del c.stat[(p, kk)]
        # everybody that is left reads once more; then all processes but the creator end and their trackers are given time
        for (p, kk), s in list(c.stat.items()):
            if s == "inflated":
                c.read(p, kk)
        if rng.rand() < 0.7:
            keep = c.creator if rng.rand() < 0.5 else None
            for u in list(a.procs):
                if u != keep:
                    c.end(u, M.pick(rng, ["exit", "kill"]))
            a.settle(5.0 if c.creator not in a.procs else 0.2)
            c.present("after all users ended")
            u = c.user("own")
            for k in c.want:
                c.load(u, k)
                c.inflated(u, k, a.call(u, "inflate", k=k))
                c.read(u, k)
        destroy_and_check(c, M.pick(rng, ["creator", "other"]))
        ctx.sig([x[:3] for x in a.log])
    finally:
        c.finish()


def crash(ctx, rng):
    """Users killed at arbitrary lines of inflate; the data stays for the others."""
    c = Case(ctx, rng, 1, noflags=False)
    a = c.a
    try:
        witness = c.user("own")
        c.load(witness, 0)
        c.inflated(witness, 0, a.call(witness, "inflate", k=0))
        probe = c.user("own")
        c.load(probe, 0)
        lines = a.call(probe, "inflate", k=0, kill=-1)["lines"]
        points = []
        for j in range(3):
            n = int(rng.randint(1, lines + 1))
            u = c.user(M.pick(rng, ["own", "own", "own", "fork"]))
            if (u, 0) in c.stat:  # forked with an inflated pulsar: take a new copy
                a.call(u, "release", k=0)
                c.stat.pop((u, 0))
            c.load(u, 0)
            r = a.call(u, "inflate", k=0, kill=n)
            ctx.event("crash-point")
            points.append(n)
            ctx.ok(r.get("dead") is True, "crash-happened", "{} {}".format(r, n))
            c.gone(u)
            ctx.event("killed")
        a.settle(5.0 if len(a.procs) == 2 else 0.3)
        c.present("after users were killed in inflate, at lines {} of {}".format(points, lines))
        c.read(witness, 0)
        u = c.user("own")
        c.load(u, 0)
        c.inflated(u, 0, a.call(u, "inflate", k=0))
        c.read(u, 0)
        destroy_and_check(c, M.pick(rng, ["creator", "other"]))
        ctx.sig(points, lines)
    finally:
        c.finish()


def handles(ctx, rng):
    """Inflating and releasing again and again does not accumulate descriptors or mappings."""
    c = Case(ctx, rng, 1, noflags=False)
    a = c.a
    try:
        u = c.user("own")
        counts = []
        for i in range(6):
            a.call(u, "load", k=0, path=c.path[0])
            c.inflated(u, 0, a.call(u, "inflate", k=0))
            c.read(u, 0)
            a.call(u, "release", k=0)
            r = a.call(u, "fds")
            counts.append((r["n"], r["maps"]))
        ctx.ok(counts[-1] == counts[1], "handles", "descriptors and mappings after each release: {}".format(counts))
        ctx.ok(counts[-1][1] == 0, "handles", "mappings left after release: {}".format(counts))
        c.stat.clear()
        destroy_and_check(c, M.pick(rng, ["creator", "other"]))
        ctx.sig(counts)
    finally:
        c.finish()


def share(ctx, rng):
    """There is one copy of the data: what one process writes into an inflated array, all others see."""
    c = Case(ctx, rng, 1, noflags=False, sort=False)
    a = c.a
    try:
        us = [c.user(h) for h in (["own"] + [M.pick(rng, ["own", "fork"]) for _ in range(rng.randint(1, 3))])]
        if rng.rand() < 0.4:
            us.append(c.creator)
        for u in us:
            if u != c.creator:
                c.load(u, 0)
            if c.stat.get((u, 0)) != "inflated":
                c.inflated(u, 0, a.call(u, "inflate", k=0))
            if rng.rand() < 0.3 and len(a.procs) < 7:
                v = c.user("fork")
                if c.stat.get((v, 0)) == "inflated":
                    us.append(v)
        seen = []
        for _ in range(4):
            w = M.pick(rng, us)
            at, vals = int(rng.randint(1 << 20)), [float(x) for x in rng.randn(3)]
            r = a.call(w, "poke", k=0, at=at, values=vals)
            ctx.ok("old" in r, "poke", r)
            old = r.get("old", [])
            ctx.ok(any(x is not None for x in old), "poke", "no array is handed out as a view: {}".format(old))
            if rng.rand() < 0.4:  # also a process that inflates only now
                v = c.user("own")
                c.load(v, 0)
                c.inflated(v, 0, a.call(v, "inflate", k=0))
                us.append(v)
            ds = [a.call(u, "digest", k=0).get("digest") for u in us]
            ctx.event("shared-write", len(us))
            ctx.ok(len(set(ds)) == 1 and ds[0] != c.want[0], "one-copy", "processes see different data after one of them wrote: {}".format(ds), log=a.log[-15:])
            x = M.pick(rng, us)
            a.call(x, "poke", k=0, at=at, values=[0.0 if v is None else v for v in old])
            for u in us:
                c.read(u, 0)
            seen.append((len(us), us.index(w)))
            if len(us) > 4:
                gone = M.pick(rng, [u for u in us if u != c.creator])
                us.remove(gone)
                c.end(gone, M.pick(rng, ["exit", "kill"]))
        c.present("after shared writes")
        destroy_and_check(c, "other")
        ctx.sig(seen)
    finally:
        c.finish()


SCENARIOS = {"schedule": (schedule, 100, 1500), "crash": (crash, 60, 600), "handles": (handles, 8, 60), "share": (share, 20, 200)}
