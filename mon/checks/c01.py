"""C01: likelihood against the dense Gaussian density."""
import numpy as np

from .. import big, model as M, psr as P, ref
from ..core import Abort

PROP = "C01"
RULE = ("a case is a randomly assembled model (white noise, ECORR kernel or basis, Fourier/chromatic/dense GPs, timing model form, "
        "deterministic signals, selections, shared and constant parameters) on randomly generated pulsars, evaluated at several parameter "
        "points by dictionary and by vector; distinct = distinct model description")
ASSUMPTIONS = ["constant -n/2 log(2 pi) dropped, timing model prior 1e40 per (normalised) column as documented",
               "tolerance 2e-6 absolute plus 1e-8 of the size of the terms",
               "points whose signal-to-noise variance ratio exceeds 1e10, or whose scaled normal matrix has an eigenvalue below 3e-11, are redrawn (not decidable in double precision)"]
REQUIRE = {"lnlikelihood": 200, "oracle-mp": 1, "big-toas": 4000}


def scale(m, p, i):
    K = m.K(i, p)
    r = m.res(i, p)
    d = np.diag(m.N(i, p))
    return float(np.sum(r**2 / d) + np.sum(np.abs(np.log(d))) / 2)


def dynamic(m, p):
    """largest covariance-to-noise ratio: the conditioning of the problem."""
    return max(float(np.max(np.diag(m.K(i, p)) / np.diag(m.N(i, p)))) for i in range(len(m.psrs)))


def nudge(rng, m, prev=None):
    """a new point, or one that differs from the previous one in one or two parameters (or vector elements) only"""
    p = m.draw(rng)
    if prev is None or not p or rng.rand() < 0.5:
        return p
    out = {k: (np.array(v) if np.ndim(v) else v) for k, v in prev.items()}
    names = sorted(p)
    for k in rng.permutation(len(names))[: rng.randint(1, 3)]:
        n = names[k]
        if np.ndim(p[n]) and len(p[n]) > 1 and rng.rand() < 0.5:
            a, b = rng.permutation(len(p[n]))[:2]
            if rng.rand() < 0.5:
                out[n][a] = p[n][a]
            else:
                out[n][a], out[n][b] = out[n][b], out[n][a]
        else:
            out[n] = p[n]
    return out


def draw(ctx, m, rng, limit=1e10, prev=None):
    """parameters at which double precision can decide the value."""
    for _ in range(50):
        p = nudge(rng, m, prev)
        if dynamic(m, p) < limit and min(m.conditioning(i, p) for i in range(len(m.psrs))) > 3e-11:
            return p
        ctx.event("ill-conditioned-point-redrawn")
    raise Abort()


def compare(ctx, m, pta, rng, points=3, key="lnlikelihood"):
    names = pta.param_names
    p = None
    for _ in range(points):
        p = draw(ctx, m, rng, prev=p)
        want = m.lnl(p)
        sc = sum(scale(m, p, i) for i in range(len(m.psrs)))
        ctx.event("lnlikelihood")
        got = float(pta.get_lnlikelihood(dict(p)))
        ctx.close(got, want, key, rtol=1e-8, atol=2e-6, scale=sc, model=m.desc(), params=p)
        vec = []
        for par in pta.params:
            vec.extend(np.ravel(p[par.name]))
        ctx.close(float(pta.get_lnlikelihood(np.array(vec))), got, key + "-vector", rtol=0, atol=1e-9 * abs(got), model=m.desc())
        assert len(vec) == len(names)


def psr(rng, name="J0000+0000", lo=8, hi=45):
    n = rng.randint(lo, hi)
    return P.plain(rng, name, n=n, npar=rng.randint(1, min(7, n // 2 + 1)), cluster=rng.choice([0, 1.5, 3, 6]), nback=rng.randint(1, 4),
                   sort=rng.rand() < 0.7)


def single(ctx, rng):
    q = psr(rng)
    m = M.random_model(rng, [q], marg=True)
    ctx.sig(m.desc(), len(q.toas))
    compare(ctx, m, m.pta(), rng)


def several(ctx, rng):
    qs = [psr(rng, "J%04d" % k, 8, 25) for k in range(rng.randint(2, 5))]
    m = M.random_model(rng, qs, per_psr=rng.rand() < 0.5, marg=True)
    ctx.sig(m.desc(), [len(q.toas) for q in qs])
    compare(ctx, m, m.pta(), rng, 2)


def real(ctx, rng):
    """The repository's real data set (subset of TOAs and design-matrix columns)."""
    q = P.real(rng, n=rng.randint(30, 160), npar=rng.randint(1, 12))
    m = M.random_model(rng, [q], marg=True)
    ctx.sig(m.desc(), len(q.toas))
    compare(ctx, m, m.pta(), rng, 2)


def overlap(ctx, rng):
    """Signals that share Fourier columns, next to bases with varying parameters."""
    q = psr(rng, lo=12, hi=30)
    T = float(q.toas.max() - q.toas.min())
    comps = [M.MN("backend")]
    for k in range(rng.randint(2, 5)):
        nm = "s%d" % k
        if rng.rand() < 0.65:
            comps.append(M.RN(rng.randint(1, 6), M.pick(rng, M.SPECS), M.pick(rng, [None, None, "backend", "half"]), T,
                              combine=rng.rand() < 0.8, name=nm))
        else:
            comps.append(M.CHROM(rng.randint(1, 5), "pl", M.pick(rng, [None, "half"]), T, vary=M.varying(rng), dm=rng.rand() < 0.5,
                                 combine=rng.rand() < 0.8, name=nm))
    if rng.rand() < 0.6:
        comps.append(M.TM(M.pick(rng, ["normed", "svd"])))
    rng.shuffle(comps)
    m = M.Model([q], comps)
    ctx.sig(m.desc())
    compare(ctx, m, m.pta(), rng, 3)


def large(ctx, rng):
    q = P.plain(rng, n=rng.randint(150, 400), npar=rng.randint(3, 10), cluster=rng.choice([2, 8]), nback=rng.randint(2, 5), sort=rng.rand() < 0.5)
    m = M.random_model(rng, [q], marg=True)
    ctx.sig(m.desc(), len(q.toas))
    compare(ctx, m, m.pta(), rng, 1)


def huge(ctx, rng):
    """As large as real data: up to 1500 TOAs of two dozen systems, dozens of frequencies."""
    m = big.one(rng)
    ctx.event("big-toas", len(m.psrs[0].toas))
    ctx.sig(m.desc(), len(m.psrs[0].toas))
    compare(ctx, m, m.pta(), rng, 1)


def crowd(ctx, rng):
    """Many signals in one pulsar, or many pulsars in one array."""
    m = big.crowded(rng) if rng.rand() < 0.5 else big.array(rng, 12, 45, common=0)
    ctx.sig(m.desc())
    compare(ctx, m, m.pta(), rng, 2)


def oracle(ctx, rng):
    """The oracle itself against decimal arithmetic that assembles the 1e40 prior explicitly."""
    q = P.plain(rng, n=10, npar=3, cluster=2)
    m = M.random_model(rng, [q])
    p = draw(ctx, m, rng)
    K, T, r = m.K(0, p), m.tm(0), m.res(0, p)
    exact = ref.lnpdf_exact(K, T, r)
    ctx.event("oracle-mp")
    ctx.sig(m.desc())
    ctx.close(ref.lnpdf_tm(K, T, r), exact, "oracle-self-check", atol=1e-7, rtol=1e-9)
    ctx.close(float(m.pta().get_lnlikelihood(p)), exact, "lnlikelihood-exact", atol=2e-6, rtol=1e-8)


SCENARIOS = {"single": (single, 900, 12000), "several": (several, 350, 4000), "real": (real, 250, 3000), "overlap": (overlap, 500, 8000),
             "large": (large, 40, 600), "oracle": (oracle, 24, 200), "huge": (huge, 8, 100), "crowd": (crowd, 24, 300)}
