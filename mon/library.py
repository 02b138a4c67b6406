"""Builders for library signals that have no entry in `model` (used by history, fault, constant
and naming checks, whose oracle is another execution)."""
import numpy as np

from . import model as M
from .model import YR


def ephem(rng, use_epoch=None):
    from enterprise.signals import deterministic_signals as d, parameter as pm

    kw = dict(model=M.pick(rng, ["setIII", "orbel", "orbel-v2"]), use_epoch_toas=bool(rng.rand() < 0.5) if use_epoch is None else use_epoch)
    if rng.rand() < 0.4:
        kw["sat_orb_elements"] = True
    for k in ("frame_drift_rate", "d_jupiter_mass", "d_uranus_mass", "jup_orb_elements"):
        if rng.rand() < 0.15:
            kw[k] = False
    if rng.rand() < 0.3:
        kw["d_saturn_mass"] = pm.Constant(3e-12)
    return d.PhysicalEphemerisSignal(**kw)


def physgp(rng):
    from enterprise.signals import gp_signals as g

    return g.FourierBasisCommonGP_physicalephem(model=M.pick(rng, ["setIII", "orbel"]))


def ephemgp(rng):
    from enterprise.signals import gp_signals as g

    return g.FourierBasisCommonGP_ephem(M.spectrum_obj("pl", M.spectrum_ps("pl", 3)), 3, Tspan=5 * YR)


def coeff(rng, nf=None):
    """explicit coefficients, fixed or varying basis."""
    nf = rng.randint(2, 5) if nf is None else nf
    if rng.rand() < 0.5:
        return M.RN(nf, "pl", M.pick(rng, [None, "half"]), 5 * YR, name="cgp", coefficients=True)
    return M.CHROM(nf, "pl", M.pick(rng, [None, "half"]), 5 * YR, vary=M.varying(rng, 1), name="cgp", coefficients=True)


def sample(rng, pta, n):
    """n parameter points from the priors (plain python, fixed stream)."""
    from enterprise.signals import parameter

    state = np.random.get_state()
    np.random.seed(rng.randint(2**31 - 1))
    out = []
    for _ in range(n):
        p = parameter.sample([q for q in pta.params if "_coefficients" not in q.name])
        for q in pta.params:
            if "_coefficients" in q.name:
                p[q.name] = 1e-7 * np.random.randn(q.size)
        out.append({k: (np.array(v, float) if np.ndim(v) else float(v)) for k, v in p.items()})
    np.random.set_state(state)
    return out


def wideband_psr(rng, name="J0000+0000", n=None, ndmx=None, npar=3, nback=2):
    """Pulsar with DM measurements and DMX bins (half-open intervals in stoas)."""
    from . import psr as P

    n = rng.randint(10, 22) if n is None else n
    ndmx = rng.randint(2, 5 if n < 40 else 30) if ndmx is None else ndmx
    q = P.plain(rng, name, n=n, npar=npar, cluster=rng.choice([0, 2]), nback=nback, sort=rng.rand() < 0.7)
    st = q.stoas / 86400.0
    o = np.sort(st)
    # every bin gets at least one TOA; edges lie between TOAs
    while True:
        cut = np.sort(rng.permutation(np.arange(1, n))[: ndmx - 1])
        edges = [o[0] - 1.0] + [0.5 * (o[c - 1] + o[c]) for c in cut] + [o[-1] + 1.0]
        if np.all(np.diff(edges) > 0):
            break
    q.dmx, cols, names = {}, [], []
    for i in range(ndmx):
        k = "DMX_{:04d}".format(i + 1)
        q.dmx[k] = {"DMX": 1e-3 * rng.randn(), "DMXR1": edges[i], "DMXR2": edges[i + 1], "fit": True}
        cols.append(((st >= edges[i]) & (st < edges[i + 1])) / (2.41e-4 * q.freqs**2))
        names.append(k)
    M = np.concatenate([q.Mmat, np.array(cols).T], axis=1)
    fit = list(q.fitpars) + names
    o = rng.permutation(M.shape[1])
    q.Mmat, q.fitpars = np.ascontiguousarray(M[:, o]), [fit[i] for i in o]
    q.dm = 20.0
    dm = np.array([q.dm + sum(d["DMX"] for d in q.dmx.values() if d["DMXR1"] <= s < d["DMXR2"]) for s in st])
    q.flags["pp_dme"] = 10.0 ** rng.uniform(-4.5, -3, n)
    q.flags["pp_dm"] = dm + q.flags["pp_dme"] * rng.randn(n)
    if rng.rand() < 0.5:  # as text, like real flags
        q.flags["pp_dm"] = np.array([repr(float(x)) for x in q.flags["pp_dm"]])
        q.flags["pp_dme"] = np.array([repr(float(x)) for x in q.flags["pp_dme"]])
    return q
