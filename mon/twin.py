"""Builds and evaluates models from seeds alone, so that several processes can do the same work and be compared.

`python -m mon.twin` reads one JSON request from standard input and writes the results: a new interpreter with
its own hash seed, environment and history.
"""
import json
import sys

import numpy as np

from . import library as L, model as M, psr as P


class _Quiet(object):
    def event(self, *a, **k):
        pass


def world(seed):
    """(array, parameter points) of a seed."""
    from enterprise.signals import signal_base as sb

    from .checks.c01 import draw

    rng = np.random.RandomState(seed)
    n = rng.randint(1, 5)
    qs = [P.plain(rng, "J%04d" % (rng.randint(1000) * 10 + k), n=rng.randint(8, 16), npar=3, cluster=rng.choice([0, 2.5])) for k in range(n)]
    m = M.random_model(rng, qs, common=rng.randint(0, 3) if n > 1 else 0, per_psr=rng.rand() < 0.5, marg=True)
    pts = [draw(_Quiet(), m, rng, 1e9) for _ in range(3)]
    cl = [m.cls(c) for c in m.comps]
    extra = "none"
    if rng.rand() < 0.3:
        extra = "ephem"
        s = L.ephem(rng)
        cl = [c + s for c in cl]
    elif rng.rand() < 0.3:
        extra = "shift"
        s = shifted(rng, max(max(q.toas) for q in qs) - min(min(q.toas) for q in qs))
        cl = [c + s for c in cl]
    pta = sb.PTA([c(q) for c, q in zip(cl, qs)])
    if extra != "none":
        more = L.sample(rng, pta, len(pts))
        pts = [dict(x, **p) for p, x in zip(pts, more)]
        pts = [{k: v for k, v in p.items() if k in {q.name for q in pta.params}} for p in pts]
    return m, pta, pts, extra


def shifted(rng, T):
    """A process whose basis has seeded random phases; half the time the basis is rebuilt at every evaluation."""
    from enterprise.signals import gp_bases as gb, gp_signals as g, parameter as pm, utils

    pl = utils.powerlaw(log10_A=pm.Uniform(-14, -13), gamma=pm.Uniform(2, 4))
    seed = int(rng.randint(1000))
    if rng.rand() < 0.5:
        return g.FourierBasisGP(pl, components=3, Tspan=T, pseed=seed, name="shift")

    from enterprise.signals.parameter import function

    @function
    def basis(toas, freqs, idx=2.0):
        F, f = gb.createfourierdesignmatrix_red(nmodes=3, Tspan=T, pseed=seed)("basis")(toas)
        return F * ((1400.0 / freqs) ** idx)[:, None], f

    return g.BasisGP(pl, basis(idx=pm.Uniform(0, 4)), name="shift")


def hexes(x):
    return [float(v).hex() for v in np.ravel(np.asarray(x, float))]


def evaluate(pta, p, order=(0, 1, 2, 3)):
    out = {}
    for k in order:
        if k == 0:
            out["lnl"] = hexes(pta.get_lnlikelihood(p))
        elif k == 1:
            out["prior"] = hexes(pta.get_lnprior(p))
        elif k == 2:
            out["lnl-vector"] = hexes(pta.get_lnlikelihood(np.concatenate([np.ravel(p[q.name]) for q in pta.params]) if pta.params else np.array([])))
        else:
            out["lnl-sparse"] = hexes(pta.get_lnlikelihood(p, phiinv_method="sparse"))
    return out


def describe(pta):
    """Everything about the inventory that could depend on iteration order."""
    out = {"param_names": pta.param_names, "params": [repr(q) for q in pta.params], "pulsars": pta.pulsars, "signals": list(pta.signals), "summary": pta.summary(),
           "keys": [sc.keys() for sc in pta.pulsarmodels], "model-params": [sc.param_names for sc in pta.pulsarmodels]}
    return json.loads(json.dumps(out))


def draws(pta, k):
    """Samples of every parameter from a numpy seed."""
    from enterprise.signals import parameter

    np.random.seed(k)
    s = parameter.sample(pta.params)
    s.update(parameter.sample(zoo()))
    return {n: hexes(s[n]) for n in s}, list(s)


def zoo():
    """One parameter of every kind."""
    from enterprise.signals import gp_priors, parameter as pm

    mu = pm.Uniform(0, 1)("z_mu")
    user = pm.UserParameter(prior=pm.Function(pm.UniformPrior, pmin=0, pmax=2), sampler=lambda pmin, pmax, size=None: np.random.uniform(pmin, pmax, size))
    return [pm.Normal(mu=mu, sigma=2)("z_h"), pm.Uniform(-1, 2, size=3)("z_u"), pm.Normal(mu=np.zeros(2), sigma=np.array([[2.0, 1], [1, 2]]), size=2)("z_c"), pm.TruncNormal(0, 1, -1, 0.5)("z_t"),
            pm.TruncNormal(0, 1, -1, 0.5, size=4)("z_tv"), pm.LinearExp(-2, 1)("z_l"), pm.LinearExp(-2, 1, size=2)("z_lv"), gp_priors.InvGamma(2, 1)("z_i"), gp_priors.InvGamma(2, 1, size=3)("z_iv"), user("z_s"), mu]


def coefficients(pta, p, k):
    """Seeded draws of the coefficients; which of them are supported is decided elsewhere (C13)."""
    from enterprise.signals import utils

    out = {}
    for name, fn in (("dict", lambda: utils.get_coefficients(pta, p)), ("sparse", lambda: utils.get_coefficients(pta, p, common_sparse=True)), ("conditional", lambda: utils.ConditionalGP(pta).sample_coefficients(p)[0])):
        np.random.seed(k)
        try:
            r = fn()
            out[name] = {n: hexes(r[n]) for n in sorted(r) if n.endswith("_coefficients")}
        except Exception as e:
            out[name] = type(e).__name__
    return out


def work(seeds):
    out = []
    for s in seeds:
        _, pta, pts, _ = world(s)
        out.append({"inventory": describe(pta), "points": [evaluate(pta, p) for p in pts], "sample": draws(pta, s % 1000), "coefficients": coefficients(pta, pts[0], s % 1000)})
    return out


def main():
    req = json.loads(sys.stdin.readline())
    np.random.seed(4)
    before = np.random.get_state()[1].tobytes(), np.random.get_state()[2]
    import enterprise.signals.signal_base  # noqa: F401
    from enterprise.signals import deterministic_signals, gp_signals, utils, white_signals  # noqa: F401

    after = np.random.get_state()[1].tobytes(), np.random.get_state()[2]
    from .core import quiet

    quiet()
    print("RESULT " + json.dumps({"import-keeps-rng": before == after, "results": work(req["seeds"])}))


if __name__ == "__main__":
    main()
