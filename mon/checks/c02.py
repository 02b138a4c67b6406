"""C02: correlated array likelihood against the joint dense density."""
import numpy as np

from .. import big, model as M, psr as P
from . import c24
from .c01 import draw, scale

PROP = "C02"
RULE = ("a case is an array of 2-5 synthetic pulsars with 1-3 common processes (Hellings-Downs, dipole, monopole or parametrised "
        "correlation; Fourier, chromatic with fixed or varying index, or dense-prior basis), random noise models per pulsar, some pulsars possibly without "
        "any basis, evaluated with sparse and dense Cholesky, every applicable inversion method and permuted pulsars; distinct = distinct model description")
ASSUMPTIONS = ["`partition` is required only for one common signal on one shared basis with diagonal priors, as documented",
               "coincident pulsars (singular correlation) are excluded"]
REQUIRE = {"joint-lnlikelihood": 300, "pulsar-without-basis": 10, "zero-correlation-point": 10, "dense-own-prior": 30, "array-span": 60, "big-array": 80}


def array(rng, k=None):
    k = rng.randint(2, 6) if k is None else k
    return [P.plain(rng, "J%04d" % rng.randint(1000) + "abcdefgh"[i], n=rng.randint(6, 22), npar=rng.randint(1, 4), cluster=rng.choice([0, 1.5, 3]),
                    nback=rng.randint(1, 3), sort=rng.rand() < 0.8) for i in range(k)]


def run(ctx, rng, m, partition=False, points=2):
    from enterprise.signals import signal_base

    pta = m.pta()
    dense = m.pta(lnlikelihood=signal_base.LogLikelihoodDenseCholesky)
    perm = rng.permutation(len(m.psrs))
    mp = M.Model([m.psrs[i] for i in perm], [m.comps[i] for i in perm])
    permuted = mp.pta()
    p = None
    for _ in range(points):
        p = draw(ctx, m, rng, 1e9, prev=p)
        for n in p:
            if n.endswith("_rho") and np.ndim(p[n]) == 0 and rng.rand() < 0.3:
                p[n] = 0.0
                ctx.event("zero-correlation-point")
        want = m.lnl(p)
        sc = sum(scale(m, p, i) for i in range(len(m.psrs)))
        near = any(getattr(c, "orf", "") in ("mono", "dipole") for cs in m.comps for c in cs)  # nearly singular correlations
        tol = dict(rtol=4e-7 if near else 2e-8, atol=1e-4 if near else 1e-5, scale=sc, model=m.desc(), params=p)
        ctx.close(float(pta.get_lnlikelihood(p)), want, "joint-lnlikelihood", msg="cliques, sparse Cholesky", **tol)
        ctx.close(float(dense.get_lnlikelihood(p)), want, "dense-cholesky", **tol)
        ctx.close(float(pta.get_lnlikelihood(p, phiinv_method="sparse")), want, "phiinv-sparse", **tol)
        ctx.close(float(dense.get_lnlikelihood(p, phiinv_method="sparse")), want, "phiinv-sparse-dense", **tol)
        if partition:
            ctx.close(float(pta.get_lnlikelihood(p, phiinv_method="partition")), want, "phiinv-partition", **tol)
            ctx.close(float(dense.get_lnlikelihood(p, phiinv_method="partition")), want, "phiinv-partition-dense", **tol)
        ctx.close(float(permuted.get_lnlikelihood(p)), want, "permuted-pulsars", **tol)


def general(ctx, rng):
    qs = array(rng)
    m = M.random_model(rng, qs, common=rng.randint(1, 4), per_psr=rng.rand() < 0.4, marg=True)
    ctx.sig(m.desc())
    run(ctx, rng, m)


def partition(ctx, rng):
    """One common signal, all three inversion methods."""
    qs = array(rng)
    T = 5 * M.YR
    comps = M.random_white(rng)
    if rng.rand() < 0.7:
        comps.append(M.RN(rng.randint(1, 7), M.pick(rng, ["pl", "fs"]), None, T, combine=rng.rand() < 0.7))
    if rng.rand() < 0.5:
        comps.append(M.TM(M.pick(rng, ["normed", "svd"]), marg=rng.rand() < 0.3))
    if rng.rand() < 0.3:
        comps.append(M.ECB("backend"))
    comps.append(M.CGP(rng.randint(1, 5), M.pick(rng, ["pl", "fs"]), M.pick(rng, ["hd", "dipole", "mono", "user"]), T=T, combine=rng.rand() < 0.7))
    rng.shuffle(comps)
    m = M.Model(qs, comps)
    ctx.sig(m.desc())
    run(ctx, rng, m, partition=True)


def partial(ctx, rng):
    """Common processes in some pulsars only; pulsars without any basis."""
    qs = array(rng, rng.randint(3, 7))
    T = 5 * M.YR
    dn = rng.rand() < 0.4
    gs = [M.CGP(1 if dn and rng.rand() < 0.6 else rng.randint(2, 4), M.pick(rng, ["pl", "fs"]), M.pick(rng, ["hd", "dipole", "mono"]), T=T, name="gw%d" % k) for k in range(rng.randint(1, 3))]
    lists = []
    bare = rng.randint(0, len(qs))
    for i in range(len(qs)):
        comps = M.random_white(rng)
        if i == bare:
            ctx.event("pulsar-without-basis")
            lists.append(comps)
            continue
        comps += [M.RN(rng.randint(1, 5), "pl", None, T, name="rn")] if rng.rand() < 0.6 else []
        comps += [g for j, g in enumerate(gs) if rng.rand() < 0.7 or i in ((bare + 1) % len(qs), (bare + 2) % len(qs))]
        if dn and rng.rand() < 0.8:
            comps.append(c24.FDENSE(rng.randint(2, 9), T, None, True, "fd", M.pick(rng, [0, 0, 1, 2])))
            ctx.event("dense-own-prior")
        comps += [M.TM()] if rng.rand() < 0.5 else []
        rng.shuffle(comps)
        lists.append(comps)
    m = M.Model(qs, lists)
    ctx.sig(m.desc())
    run(ctx, rng, m)


def large(ctx, rng):
    qs = [P.plain(rng, "J%04d" % i, n=rng.randint(25, 50), npar=rng.randint(2, 5), cluster=2) for i in range(rng.randint(5, 9))]
    m = M.random_model(rng, qs, common=rng.randint(1, 3), marg=True)
    ctx.sig(m.desc())
    run(ctx, rng, m, points=1)


def huge(ctx, rng):
    """Ten to twenty-five pulsars."""
    m = big.array(rng)
    ctx.event("big-array", len(m.psrs))
    ctx.sig(m.desc())
    run(ctx, rng, m, points=1)


def merge(ctx, rng):
    """Dense priors of single pulsars tied together by narrower common processes."""
    m = c24.merged(rng)
    ctx.sig(m.desc())
    run(ctx, rng, m, points=1)


def span(ctx, rng):
    """A common process without a given span: its frequencies are those of the span of the whole array."""
    qs = array(rng)
    for i, q in enumerate(qs):
        sh = rng.choice([0.0, 0.0, 1.0, -2.0, 4.0, rng.uniform(-3, 3)]) * M.YR
        fac = rng.choice([1.0, 1.0, 0.3, 1.7])
        t0 = q.toas.min()
        for a in ("toas", "stoas"):
            setattr(q, a, t0 + sh + fac * (getattr(q, a) - t0))
        t = q.toas
        q.Mmat, q.fitpars = P.design(rng, t, q.freqs, q.Mmat.shape[1])
    T = max(q.toas.max() for q in qs) - min(q.toas.min() for q in qs)
    m = M.random_model(rng, qs, common=1, per_psr=rng.rand() < 0.4, marg=True)
    for c in {c for cs in m.comps for c in cs if c.kind == "CGP"}:
        c.basis, c.vary, c.modes, c.bps = "red", False, None, []
        c.spec, c.nf, c.ps = "pl", 3, M.spectrum_ps("pl", 3)
        c.T, c.autospan = T, True
        own = [i for i, cs in enumerate(m.comps) if c in cs]
        c.T = max(qs[i].toas.max() for i in own) - min(qs[i].toas.min() for i in own)
    ctx.sig(m.desc())
    ctx.event("array-span")
    # (no partition, no permuted copies of the class: the class remembers the pulsars it is applied to, see known_findings)
    pta = m.pta()
    p = None
    for _ in range(2):
        p = draw(ctx, m, rng, 1e9, prev=p)
        want = m.lnl(p)
        sc = sum(scale(m, p, i) for i in range(len(m.psrs)))
        near = any(getattr(c, "orf", "") in ("mono", "dipole") for cs in m.comps for c in cs)
        ctx.close(float(pta.get_lnlikelihood(p)), want, "array-span-lnlikelihood", rtol=4e-7 if near else 2e-8, atol=1e-4 if near else 1e-5, scale=sc, model=m.desc(), params=p)


SCENARIOS = {"span": (span, 60, 1500), "merge": (merge, 60, 1500), "general": (general, 250, 5000), "partition": (partition, 150, 3000), "partial": (partial, 120, 3000), "large": (large, 16, 300), "huge": (huge, 10, 200)}
