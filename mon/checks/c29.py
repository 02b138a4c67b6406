"""C29: the same model in every process; global state untouched."""
import json
import locale
import os
import random
import signal
import subprocess
import sys
import threading
import warnings

import numpy as np

from .. import library as L, model as M, twin
from ..core import ENV, VERIF

PROP = "C29"
RULE = ("process cases: batches of random models (1-4 pulsars, common processes, ephemeris, seeded phases) are built and evaluated in new interpreters with different hash seeds, and inventories, likelihoods, "
        "priors and seeded samples are compared across them; fork cases: a partly evaluated array is evaluated at shuffled points by parallel forked children and by the parent; thread cases: separate arrays (over the same pulsars half of the time) are evaluated in 2-4 threads at once with tiny switch intervals and compared with the sequential values; global cases: a random sequence "
        "of constructions and evaluations with a snapshot of random generators, error handling, warning filters, directory, environment, signals and locale around each; distinct = distinct model")
ASSUMPTIONS = ["Linux; BLAS restricted to one thread (across threads the order of additions may differ)", "threads evaluating one array concurrently are not claimed",
               "a phase shift without a seed draws from numpy's generator by definition"]
REQUIRE = {"process-models": 60, "hash-seeds": 20, "fork-evaluations": 400, "global-operations": 1500, "coefficient-draws": 100, "phase-seed": 40, "thread-evaluations": 400}


def setup(ctx):
    import enterprise.signals.signal_base  # noqa: F401


def near(ctx, a, b, key, scale, **d):
    a, b = [np.array([float.fromhex(v) for v in x]) for x in (a, b)]
    ctx.close(a, b, key, rtol=1e-9, atol=1e-6, scale=scale, **d)


def processes(ctx, rng):
    seeds = [int(x) for x in rng.randint(1, 2**31 - 2, 8)]
    procs = []
    for k in range(3):
        env = dict(os.environ)
        env.update(ENV)
        env["PYTHONHASHSEED"] = str(rng.randint(1, 1 << 30))
        env["PYTHONPATH"] = VERIF + os.pathsep + env.get("PYTHONPATH", "")
        env["PYTHONPATH"] = os.pathsep.join([VERIF, "/repo"])
        if k == 1:
            env["TZ"], env["LC_ALL"] = "Asia/Tokyo", "C"
        pr = subprocess.Popen([sys.executable, "-m", "mon.twin"], env=env, cwd="/" if k == 2 else VERIF, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        pr.stdin.write(json.dumps({"seeds": seeds}) + "\n")
        pr.stdin.close()
        procs.append(pr)
    res = []
    for pr in procs:
        out, err = pr.stdout.read(), pr.stderr.read()
        pr.wait()
        line = [x for x in out.splitlines() if x.startswith("RESULT ")]
        if not ctx.ok(len(line) == 1, "process-ended", err[-500:]):
            return
        r = json.loads(line[0][7:])
        ctx.ok(r["import-keeps-rng"], "import-keeps-rng", "importing the package changed numpy's generator")
        ctx.event("hash-seeds")
        res.append(r["results"])
    here = twin.work(seeds)  # this process, with its own history
    res.append(json.loads(json.dumps(here)))
    for i, s in enumerate(seeds):
        ctx.event("process-models")
        a = res[0][i]
        ctx.sig(a["inventory"]["signals"], a["inventory"]["param_names"])
        for r in res[1:]:
            b = r[i]
            for k in a["inventory"]:
                ctx.ok(a["inventory"][k] == b["inventory"][k], "inventory", "{} differs between processes: {} {}".format(k, str(a["inventory"][k])[:200], str(b["inventory"][k])[:200]), seed=s)
            for x, y in zip(a["points"], b["points"]):
                sc = 1.0 + abs(float.fromhex(x["lnl"][0]))
                for k in x:
                    near(ctx, x[k], y[k], "same-" + k, sc if np.isfinite(sc) else None, seed=s)
            for k in a["coefficients"]:
                x, y = a["coefficients"][k], b["coefficients"][k]
                if not isinstance(x, dict):
                    ctx.ok(x == y, "same-coefficients", "{}: {} {}".format(k, str(x)[:100], str(y)[:100]), seed=s)
                    continue
                ctx.event("coefficient-draws")
                if ctx.ok(isinstance(y, dict) and sorted(x) == sorted(y), "same-coefficients", "{}: {} {}".format(k, sorted(x), str(y)[:200]), seed=s):
                    for n in x:
                        u, v = [np.array([float.fromhex(t) for t in w[n]]) for w in (x, y)]
                        ctx.close(u, v, "same-coefficients", rtol=1e-5, atol=1e-8, scale=float(np.max(np.abs(u), initial=1e-300)), seed=s)
            ctx.ok(a["sample"] == b["sample"], "same-sample", "{} {}".format(str(a["sample"])[:200], str(b["sample"])[:200]), seed=s)


def fork(ctx, rng):
    m, pta, pts, extra = twin.world(int(rng.randint(1, 2**31 - 2)))
    ctx.sig(m.desc(), extra)
    pts = pts + [pts[0]]
    pre = rng.randint(3)
    for p in pts[:pre]:
        twin.evaluate(pta, p)
    kids = []
    for k in range(3):
        order = [int(x) for x in rng.permutation(len(pts))]
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                out = {i: twin.evaluate(pta, pts[i], [int(x) for x in np.random.RandomState(i + k).permutation(4)]) for i in order}
                with os.fdopen(w, "w") as f:
                    f.write(json.dumps([out, twin.draws(pta, 5)]))
            finally:
                os._exit(0)
        os.close(w)
        kids.append((pid, r))
    mine = {i: twin.evaluate(pta, p) for i, p in enumerate(pts)} if rng.rand() < 0.5 else None
    got = []
    for pid, r in kids:
        with os.fdopen(r) as f:
            text = f.read()
        os.waitpid(pid, 0)
        if not ctx.ok(bool(text), "child-ended", "no result"):
            return
        got.append(json.loads(text))
    mine = mine or {i: twin.evaluate(pta, p) for i, p in enumerate(pts)}
    st = np.random.get_state()
    sample = json.loads(json.dumps(twin.draws(pta, 5)))
    np.random.set_state(st)
    for out, smp in got:
        for i, p in enumerate(pts):
            ctx.event("fork-evaluations")
            sc = 1.0 + abs(float.fromhex(mine[i]["lnl"][0]))
            for k in mine[i]:
                near(ctx, out[str(i)][k], mine[i][k], "child-" + k, sc if np.isfinite(sc) else None, model=m.desc())
        ctx.ok(smp == sample, "child-sample", "")


def threads(ctx, rng):
    """models of different threads, over the same pulsars or not, do not influence each other"""
    k = rng.randint(2, 5)
    seeds = [int(x) for x in rng.randint(1, 2**31 - 2, k)]
    if rng.rand() < 0.4:
        seeds = [seeds[0]] * k  # the same description, built separately
    want, worlds = [], []
    for s in seeds:
        m, pta, pts, _ = twin.world(s)
        want.append([twin.evaluate(pta, p) for p in pts])
        worlds.append((m, pts))
    ctx.sig(seeds)
    arrays = []
    for s, w in zip(seeds, worlds):  # over the pulsars of the first evaluation, or over copies
        arrays.append(w[0].pta() if rng.rand() < 0.5 and twin.world(s)[3] == "none" else twin.world(s)[1])
    got, bad = [None] * k, []
    go = threading.Barrier(k)
    orders = [[int(x) for _ in range(3) for x in rng.permutation(len(w[1]))] for w in worlds]
    steps = [int(x) for x in rng.randint(1, 1 << 30, k)]

    def work(i):
        try:
            go.wait(60)
            out = [(n, twin.evaluate(arrays[i], worlds[i][1][n], [int(x) for x in np.random.RandomState(steps[i]).permutation(4)])) for n in orders[i]]
            got[i] = out
        except Exception as e:
            bad.append("{}: {}".format(type(e).__name__, e))

    ts = [threading.Thread(target=work, args=(i,)) for i in range(k)]
    sw = sys.getswitchinterval()
    sys.setswitchinterval(10.0 ** rng.uniform(-6, -4))
    try:
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(sw)
    if not ctx.ok(not bad, "thread-failed", str(bad[:2])):
        return
    for i in range(k):
        for n, out in got[i]:
            ctx.event("thread-evaluations")
            sc = 1.0 + abs(float.fromhex(want[i][n]["lnl"][0]))
            for key in out:
                near(ctx, out[key], want[i][n][key], "thread-" + key, sc if np.isfinite(sc) else None, model=worlds[i][0].desc())


def snapshot():
    st = np.random.get_state()
    po = np.get_printoptions()
    return {"numpy generator": (st[0], st[1].tobytes()) + tuple(st[2:]), "python generator": random.getstate(), "floating-point errors": tuple(sorted(np.geterr().items())), "error callback": np.geterrcall(),
            "print options": repr(po), "warning filters": list(warnings.filters), "directory": os.getcwd(), "environment": dict(os.environ), "locale": locale.setlocale(locale.LC_ALL),
            "recursion": sys.getrecursionlimit(), "signals": [signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM)], "path": list(sys.path), "umask": None,
            "hooks": (sys.excepthook, sys.displayhook, sys.gettrace(), sys.getprofile()), "streams": (sys.stdout, sys.stderr)}


def globals_(ctx, rng):
    from enterprise.signals import gp_bases as gb, parameter as pm, selections, signal_base as sb, utils

    hist = []

    def watched(name, fn):
        a = snapshot()
        out = fn()
        b = snapshot()
        ctx.event("global-operations")
        hist.append(name)
        for k in a:
            ctx.ok(a[k] == b[k], "global-state", "{} changed by {}".format(k, name), history=hist[-5:])
        return out

    errs = np.geterr()
    np.seterr(**{k: M.pick(rng, ["ignore", "warn"]) for k in errs})  # whatever the user chose
    try:
        m, pta, pts, extra = watched("build", lambda: twin.world(int(rng.randint(1, 2**31 - 2))))
        ctx.sig(m.desc(), extra)
        if extra == "shift":
            ctx.event("phase-seed")
        vec = lambda p: np.concatenate([np.ravel(p[q.name]) for q in pta.params]) if pta.params else np.array([])  # noqa: E731
        ops = {"lnlikelihood": lambda p: pta.get_lnlikelihood(p), "lnlikelihood-vector": lambda p: pta.get_lnlikelihood(vec(p)), "sparse": lambda p: pta.get_lnlikelihood(p, phiinv_method="sparse"),
               "lnprior": lambda p: pta.get_lnprior(p), "basis": lambda p: pta.get_basis(p), "phi": lambda p: pta.get_phi(p), "phiinv": lambda p: pta.get_phiinv(p, logdet=True), "delay": lambda p: pta.get_delay(p),
               "ndiag": lambda p: pta.get_ndiag(p), "TNT": lambda p: pta.get_TNT(p), "summary": lambda p: pta.summary(), "params": lambda p: pta.param_names, "map": lambda p: pta.map_params(vec(p)),
               "set-default": lambda p: pta.set_default_params({}), "repr": lambda p: repr(pta), "fail": lambda p: fails(pta)}
        for _ in range(12):
            k = M.pick(rng, sorted(ops))
            p = M.pick(rng, pts)
            watched(k, lambda: ops[k](p))
        t = np.sort(rng.uniform(0, 1e8, 12)) + 4.6e9
        fr = rng.uniform(400, 2000, 12)
        for name, fn in (("red", lambda s: gb.createfourierdesignmatrix_red(t, nmodes=3, pseed=s)), ("dm", lambda s: gb.createfourierdesignmatrix_dm(t, fr, nmodes=3)),
                         ("red-shift", lambda s: gb.createfourierdesignmatrix_red(t, nmodes=3, pshift=True, pseed=s)), ("quant", lambda s: utils.create_quantization_matrix(t)),
                         ("hd", lambda s: utils.hd_orf(np.array([1.0, 0, 0]), np.array([0, 1.0, 0])))):
            s = int(rng.randint(1000))
            a = watched("basis-" + name, lambda: fn(s))
            if name.startswith("red"):
                ctx.event("phase-seed")
                np.random.uniform(size=rng.randint(5))
                b = fn(s)
                ctx.same(a[0], b[0], "phase-reproducible", "seed {}".format(s))
    finally:
        np.seterr(**errs)
    # sampling draws from numpy's generator only, and from nowhere else
    if pta.params:
        a = snapshot()
        pm.sample(pta.params)
        b = snapshot()
        for k in a:
            ctx.ok(a[k] == b[k] or k == "numpy generator", "global-state", "{} changed by sample".format(k))


def fails(pta):
    try:
        return pta.get_lnprior({"nothing": 1.0})
    except Exception as e:
        return repr(e)


SCENARIOS = {"processes": (processes, 10, 120), "fork": (fork, 60, 1500), "globals": (globals_, 120, 2500), "threads": (threads, 40, 900)}
