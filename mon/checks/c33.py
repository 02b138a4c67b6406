"""C33: long runs and discarded models leave nothing behind."""
import gc
import os
import pickle
import shutil
import tempfile
import threading
import tracemalloc
import weakref

import numpy as np

from .. import fakes as F, library as L, model as M, twin
from . import c20

PROP = "C33"
RULE = ("run cases: a random array (any signals, marginalised and wideband timing models, common processes) is warmed up and then called at equal batches of new points (likelihoods of both methods, priors, bases, noise, conditional "
        "draws), the memory in use being read between batches with tracemalloc; discard cases: arrays are built, evaluated and dropped, and weak references to pulsars, signals, noise objects, bases and delays must die, and "
        "memory must not grow from round to round; file cases: pulsars are built from par/tim files, saved, loaded, pickled and dropped, with descriptors, threads, directory, temporary files and weak references watched; "
        "failures are part of each history; distinct = distinct model or record")
ASSUMPTIONS = ["bounded caches of any reasonable size are allowed while a model lives", "garbage is collected before memory is read", "growth below 400 bytes per call is not distinguished from allocator noise"]
REQUIRE = {"batches": 150, "calls": 6000, "discarded-models": 200, "references": 4000, "marginalised": 20, "files": 60, "failures": 200}


def setup(ctx):
    F.install()
    import enterprise.signals.signal_base  # noqa: F401


def attempt(fn):
    try:
        fn()
        return True
    except Exception:
        return False


def wideband(rng):
    from enterprise.signals import gp_signals as g, gp_priors as gp, parameter as pm, selections as sl, signal_base as sb, utils, white_signals as w

    qs = [L.wideband_psr(rng, "J%04d" % k) for k in range(rng.randint(1, 3))]
    s = w.MeasurementNoise(efac=pm.Uniform(0.8, 1.2)) + g.WidebandTimingModel(dmefac=pm.Uniform(0.8, 1.2), log10_dmequad=pm.Uniform(-5, -3), dmjump=pm.Normal(0, 0.01), selection=sl.Selection(sl.by_backend), dmjump_selection=sl.Selection(sl.by_backend))
    s += g.FourierBasisGP(gp.powerlaw(log10_A=pm.Uniform(-14, -13), gamma=pm.Uniform(1, 5)), components=3, name="rn")
    if len(qs) > 1:
        s += g.FourierBasisCommonGP(gp.powerlaw(log10_A=pm.Uniform(-14, -13), gamma=pm.Uniform(1, 5)), utils.hd_orf(), components=2, Tspan=1e9, name="gw")
    return qs, sb.PTA([s(q) for q in qs])


def build(seed):
    """(pulsars, array, kind) of a seed"""
    rng = np.random.RandomState(seed)
    if rng.rand() < 0.12:
        qs, pta = wideband(rng)
        return qs, pta, "wideband"
    m, pta, _, extra = twin.world(int(rng.randint(1, 2**31 - 2)))
    marg = any(c.kind == "TM" and c.marg for cs in m.comps for c in cs)
    return m.psrs, pta, "marg" if marg else extra


def operations(pta):
    from enterprise.signals import utils

    vec = lambda p: np.concatenate([np.ravel(p[q.name]) for q in pta.params]) if pta.params else np.zeros(0)
    return {"lnl": lambda p: pta.get_lnlikelihood(p), "sparse": lambda p: pta.get_lnlikelihood(p, phiinv_method="sparse"), "vector": lambda p: pta.get_lnlikelihood(vec(p)), "prior": lambda p: pta.get_lnprior(p),
            "parts": lambda p: (pta.get_basis(p), pta.get_phi(p), pta.get_ndiag(p), pta.get_delay(p), pta.get_residuals(p)), "phiinv": lambda p: pta.get_phiinv(p, logdet=True),
            "draw": lambda p: utils.ConditionalGP(pta).sample_coefficients(p), "coefficients": lambda p: utils.get_coefficients(pta, p), "default": lambda p: pta.set_default_params(dict(p)),
            "fail": lambda p: pta.get_lnlikelihood({k: v for k, v in list(p.items())[1:]}), "names": lambda p: (pta.param_names, pta.summary(), [sc.param_names for sc in pta.pulsarmodels])}


def run(ctx, rng):
    from enterprise.signals import parameter as pm

    seed = int(rng.randint(1, 2**31 - 2))
    qs, pta, kind = build(seed)
    ctx.sig(kind, sorted(pta.param_names), seed)
    if kind == "marg":
        ctx.event("marginalised")
    ops = operations(pta)
    use = ["lnl"] + [M.pick(rng, sorted(set(ops) - {"lnl"})) for _ in range(rng.randint(1, 4))]
    n = 36
    pts = L.sample(rng, pta, n)
    rounds = [[M.pick(rng, use) for _ in range(n)]]
    failed = [0]
    sizes = []

    def batch(k):
        for i, name in enumerate(rounds[0]):
            p = {a: v + 1e-7 * k for a, v in pts[i].items()}  # never the same point twice
            if not attempt(lambda: ops[name](p)):
                failed[0] += 1
            if i % 9 == 0:
                attempt(lambda: pm.sample(pta.params))

    tracemalloc.start()
    try:
        for k in range(6):
            batch(k)
            gc.collect()
            sizes.append(tracemalloc.get_traced_memory()[0])
    finally:
        tracemalloc.stop()
    ctx.event("batches", 6)
    ctx.event("calls", 6 * n)
    ctx.event("failures", failed[0])
    grow = np.diff(sizes)[-3:]
    if np.min(grow) >= 400 * n:  # caches that are not full yet: ask again, much later
        tracemalloc.start()
        try:
            sizes = []
            for k in range(7, 34):
                batch(k)
                if k > 28:
                    gc.collect()
                    sizes.append(tracemalloc.get_traced_memory()[0])
        finally:
            tracemalloc.stop()
        grow = np.diff(sizes)
        ctx.event("asked-again")
    ctx.ok(np.min(grow) < 400 * n, "memory-grows", "{} bytes in each of the last batches of {} calls".format(grow.tolist(), n), operations=use, kind=kind, params=pta.param_names)
    ctx.ok(threading.active_count() == 1, "threads", "")


def discard(ctx, rng):
    """build, evaluate, drop"""
    seeds = [int(rng.randint(1, 2**31 - 2)) for _ in range(2)]
    same = rng.rand() < 0.5  # one description again and again, or different ones
    sizes, late = [], []
    tracemalloc.start()
    try:
        for k in range(8):
            s = seeds[0] if same else seeds[k % 2]
            alive, kind, count = once(s, rng.randint(1 << 30))
            gc.collect()
            ctx.event("discarded-models")
            ctx.event("references", count)
            if k == 0:
                ctx.sig(kind, s, same)
                if kind == "marg":
                    ctx.event("marginalised")
            late = sorted({n for n, w in alive if w() is not None})
            if not ctx.ok(not late, "still-alive", "{} after the model was dropped".format(late), kind=kind):
                break
            sizes.append(tracemalloc.get_traced_memory()[0])
    finally:
        tracemalloc.stop()
    if len(sizes) == 8:
        step = 1 if same else 2
        grow = np.array(sizes[step:]) - np.array(sizes[:-step])
        ctx.ok(np.min(grow[-4:]) < 20000 * step, "discarded-memory", "{} bytes kept per model".format(grow[-4:].tolist()), same=bool(same))


def once(seed, rseed):
    rng = np.random.RandomState(rseed)
    qs, pta, kind = build(seed)
    pts = L.sample(rng, pta, 5)
    ops = operations(pta)
    refs = [("array", pta)] + [("pulsar", q) for q in qs] + [("signal", s) for s in pta.signals.values()] + [("model", m) for m in pta.pulsarmodels] + [("residuals", q.residuals) for q in qs] + [("design matrix", q.Mmat) for q in qs]
    weak = []

    def note(name, x):
        for v in x if isinstance(x, (list, tuple)) else [x]:
            if v is not None and not isinstance(v, (float, int)):
                try:
                    weak.append((name, weakref.ref(v)))
                except TypeError:
                    pass

    for name, x in refs:
        note(name, x)
    for p in pts:
        for name in [M.pick(rng, sorted(ops)) for _ in range(2)] + ["lnl"]:
            attempt(lambda: ops[name](p))
        for name, fn in (("basis", pta.get_basis), ("noise", pta.get_ndiag), ("delay", pta.get_delay), ("prior", pta.get_phi), ("products", pta.get_TNT)):
            try:
                note(name, fn(p))
            except Exception:
                pass
    return weak, kind, len(weak)


def files(ctx, rng):
    from enterprise.pulsar import FeatherPulsar, Pulsar

    make, args, steps = c20.source(ctx, rng)
    root = tempfile.mkdtemp(prefix="mon-c33-")
    rec = c20.c19.draw(rng)
    par, tim, key = F.files(rng, root, rec)
    tmp = tempfile.gettempdir()
    mine = os.path.join(root, "tmp")
    os.makedirs(mine)
    os.environ["TMPDIR"], old = mine, os.environ.get("TMPDIR")
    tempfile.tempdir = None
    ctx.sig(rec["name"], args)
    home = os.getcwd()

    def cycle():
        out = []
        q = make()
        f = os.path.join(root, "x.feather")
        q.to_feather(f, noisedict={q.name + "_efac": 1.0})
        r = FeatherPulsar.read_feather(f)
        out += [("pulsar", weakref.ref(q)), ("loaded pulsar", weakref.ref(r)), ("residuals", weakref.ref(r.residuals))]
        r.save_feather(os.path.join(root, "y.feather"))
        d = make()
        d.to_pickle(root)
        name = [n for n in os.listdir(root) if n.endswith(".pkl")]
        if name:
            with open(os.path.join(root, name[0]), "rb") as fh:
                u = pickle.load(fh)
            out.append(("unpickled pulsar", weakref.ref(u)))
        kind = args[0]
        w = Pulsar(par, tim, timing_package="pint" if kind == "pint" else "tempo2")
        out.append(("factory pulsar", weakref.ref(w)))
        attempt(lambda: Pulsar("nope.par", tim))
        attempt(lambda: Pulsar(par, os.path.join(root, "nope.tim")))
        attempt(lambda: FeatherPulsar.read_feather(os.path.join(root, "nope.feather")))
        return out

    try:
        F.LOG[:] = []
        cycle()
        gc.collect()
        before, seen = set(os.listdir("/proc/self/fd")), len(os.listdir(mine))
        for _ in range(3):
            out = cycle()
            F.LOG[:] = []
            gc.collect()
            ctx.event("files")
            ctx.event("failures", 3)
            late = sorted({n for n, x in out if x() is not None})
            ctx.ok(not late, "still-alive", "{} after use".format(late), args=args)
        after = set(os.listdir("/proc/self/fd"))
        ctx.ok(len(after) <= len(before), "descriptors", "{} open files left".format(len(after) - len(before)))
        ctx.ok(len(os.listdir(mine)) == seen == 0, "temporary-files", str(os.listdir(mine)))
        ctx.ok(os.getcwd() == home, "directory", os.getcwd())
        ctx.ok(threading.active_count() == 1, "threads", "")
    finally:
        os.chdir(home)
        if old is None:
            del os.environ["TMPDIR"]
        else:
            os.environ["TMPDIR"] = old
        tempfile.tempdir = tmp
        F.REGISTRY.pop(key, None)
        shutil.rmtree(root, ignore_errors=True)


SCENARIOS = {"run": (run, 40, 800), "discard": (discard, 50, 1000), "files": (files, 24, 400)}
