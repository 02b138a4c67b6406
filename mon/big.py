"""Models of the size of real data sets: thousands of TOAs, dozens of systems, pulsars, signals and components."""
import numpy as np

from . import model as M, psr as P

RECEIVERS = ["Rcvr1_2", "Rcvr_800", "L-wide", "S-wide", "430", "327", "lbw", "sbw"]
BACKENDS = ["ASP", "GASP", "PUPPI", "GUPPI", "YUPPI", "CHIME", "VEGAS"]


def systems(rng, n):
    """`n` different system names."""
    full = ["{}_{}".format(a, b) for a in RECEIVERS for b in BACKENDS]
    full += ["{}.{}".format(f, k) for k in range(1 + n // len(full)) for f in full]
    return [full[i] for i in rng.permutation(len(full))[:n]]


def pulsar(rng, name="J0000+0000", n=None, nsys=None, npar=None, cluster=None, sort=None):
    n = rng.randint(500, 1500) if n is None else n
    nsys = rng.randint(6, 25) if nsys is None else nsys
    return P.plain(rng, name, n=n, npar=npar or rng.randint(6, 30), cluster=rng.choice([2, 4, 12, 40]) if cluster is None else cluster,
                   backends=systems(rng, nsys), sort=bool(rng.rand() < 0.6) if sort is None else sort, span=rng.uniform(4, 12) * M.YR)


def comps(rng, T, scale=1.0):
    """A noise model as used in practice: white noise and ECORR by system, red noise and DM variations with dozens of frequencies."""
    nf = lambda a, b: max(1, int(scale * rng.randint(a, b)))
    out = [M.MN("backend", t2=rng.rand() < 0.7)]
    if rng.rand() < 0.4:
        out.append(M.TNEQ(M.pick(rng, [None, "backend"])))
    out.append(M.EC("backend", M.pick(rng, M.METHODS)) if rng.rand() < 0.75 else M.ECB("backend"))
    out.append(M.RN(nf(20, 60), M.pick(rng, M.SPECS), M.pick(rng, [None, None, "band"]), T, combine=bool(rng.rand() < 0.7), name="red_noise"))
    if rng.rand() < 0.7:
        out.append(M.CHROM(nf(15, 45), M.pick(rng, ["pl", "fs"]), None, T, dm=bool(rng.rand() < 0.6), combine=bool(rng.rand() < 0.7), name="chrom"))
    if rng.rand() < 0.3:
        out.append(M.BWM())
    out.append(M.TM(M.pick(rng, ["normed", "svd"]), marg=bool(rng.rand() < 0.3)))
    return [out[i] for i in rng.permutation(len(out))]


def one(rng, **kw):
    """One pulsar with a long data set."""
    q = pulsar(rng, **kw)
    return M.Model([q], comps(rng, float(q.toas.max() - q.toas.min())))


def crowded(rng, lo=12, hi=32):
    """One small pulsar with many signals."""
    q = P.plain(rng, n=rng.randint(30, 60), npar=3, cluster=2, nback=3)
    T = float(q.toas.max() - q.toas.min())
    out = M.random_white(rng) + [M.TM()]
    k = 0
    while len(out) < rng.randint(lo, hi):
        k += 1
        nm = "s%d" % k
        u = rng.rand()
        if u < 0.5:
            out.append(M.RN(rng.randint(1, 5), M.pick(rng, M.SPECS), M.pick(rng, M.SELS), T, combine=bool(rng.rand() < 0.7), name=nm))
        elif u < 0.7:
            out.append(M.SINE(M.pick(rng, [None, "half"]), name=nm))
        else:
            out.append(M.CHROM(rng.randint(1, 4), "pl", None, T, combine=bool(rng.rand() < 0.7), name=nm))
    return M.Model([q], [out[i] for i in rng.permutation(len(out))])


def names(rng, n):
    ra, dec = rng.randint(0, 2400, n), rng.randint(-80, 80, n)
    return sorted({"J%04d%+03d%02d" % (a, d, k % 60) for k, (a, d) in enumerate(zip(ra, dec))}, key=lambda x: x[5:])


def array(rng, lo=10, hi=25, common=None, toas=(8, 15)):
    """Many pulsars with short data sets."""
    k = rng.randint(lo, hi)
    qs = [P.plain(rng, nm, n=rng.randint(*toas), npar=rng.randint(1, 4), cluster=rng.choice([0, 2]), nback=rng.randint(1, 3), sort=bool(rng.rand() < 0.8)) for nm in names(rng, k)]
    return M.random_model(rng, qs, common=rng.randint(1, 3) if common is None else common, per_psr=bool(rng.rand() < 0.4), marg=True)
