"""C05: parameter inventory, ordering and vector mapping."""
import re

import numpy as np

from .. import library as L, model as M, psr as P
from . import c01
from ..core import size as tail

PROP = "C05"
RULE = ("a case is a random array (1-4 pulsars, any signals, shared instances, constants, vector parameters, hierarchical priors up to depth 3); "
        "its inventory is compared with the names the model specification implies, and the vector and dictionary forms of several points are "
        "evaluated and mapped back; distinct = distinct (model, inventory)")
ASSUMPTIONS = ["a parameter object passed to several signals is the same instance (two different instances must not carry one name)"]
REQUIRE = {"inventory": 300, "vector-dict": 600, "hyper": 60, "vectorpar": 60, "container-form": 800, "whole-numbers": 20}


def expand(names):
    out = []
    for n, size in names:
        out += ["{}_{}".format(n, i) for i in range(size)] if size else [n]
    return out


def summary_counts(text):
    return {k: int(re.search(k + r" params: (\d+)", text).group(1)) for k in ("Total", "Varying", "Common", "Fixed")}, int(
        re.search(r"Number of pulsars: (\d+)", text).group(1))


def inventory(ctx, pta, want, consts, per_psr, psrs, **d):
    """want: {name: size}; consts: names of signal-level constants; per_psr: [{name: size}]"""
    ctx.event("inventory")
    names = [q.name for q in pta.params]
    exp = sorted(want)
    ctx.ok(names == exp, "params-inventory", "params {}, expected {}".format(sorted(set(names) ^ set(exp)) or names, exp), **d)
    ctx.ok(pta.param_names == expand([(n, want[n]) for n in exp]), "param_names", "param_names {}".format(pta.param_names), **d)
    ctx.ok(len(set(pta.param_names)) == len(pta.param_names), "param_names-distinct", "", **d)
    ctx.ok(all((q.size or None) == (want.get(q.name) or None) for q in pta.params), "param-size", "", **d)
    ctx.ok(pta.pulsars == [q.name for q in psrs] and pta.keys() == pta.pulsars and len(pta) == len(psrs), "pulsar-listing", "", **d)
    for i, sc in enumerate(pta.pulsarmodels):
        ctx.ok([q.name for q in sc.params] == sorted(per_psr[i]), "pulsar-model-params",
               "{} expected {}".format([q.name for q in sc.params], sorted(per_psr[i])), **d)
        ctx.ok(sc.param_names == expand([(n, per_psr[i][n]) for n in sorted(per_psr[i])]), "pulsar-model-param_names", "", **d)
        ctx.ok(pta[psrs[i].name] is sc and pta[i] is sc, "array-indexing", "", **d)
        got = {}
        for s in sc.signals:
            ctx.ok(sorted(s.param_names) == sorted(expand([(q.name, q.size) for q in s.params])), "signal-param_names", "", **d)
            got.update({q.name: q.size for q in s.params})
            ctx.ok(sc[s.signal_id] is [x for x in sc.signals if x.signal_id == s.signal_id][0], "signal-indexing", "", **d)
            first = [x for c in pta.pulsarmodels for x in c.signals if x.name == s.name][0]
            ctx.ok(pta.signals[s.name] is first and pta.get_signal(s.name) is first, "signal-dictionary", "", **d)
        ctx.ok(set(got) == set(per_psr[i]), "signals-cover-params", "", **d)
    common = len({n for i, q in enumerate(psrs) for n in expand(sorted(per_psr[i].items())) if q.name not in n})
    nv = len(expand(sorted(want.items())))
    for flag in (True, False):
        c, npsr = summary_counts(pta.summary(include_params=flag))
        ctx.ok(c["Varying"] == nv and npsr == len(psrs), "summary-varying", "{} of {}".format(c, nv), **d)
        ctx.ok(c["Fixed"] == len(consts) and c["Total"] == nv + len(consts), "summary-fixed", "{} expected {} fixed {}".format(c, len(consts), consts), **d)
        ctx.ok(c["Common"] == common, "summary-common", "{} expected {}".format(c, common), **d)


def vectors(ctx, pta, p, rng, **d):
    """dictionary and vector forms."""
    ctx.event("vector-dict")
    xs = np.array([v for q in pta.params for v in np.ravel(p[q.name])])
    ctx.ok(len(xs) == len(pta.param_names), "vector-length", "", **d)
    back = pta.map_params(xs)
    ctx.ok(sorted(back) == sorted(q.name for q in pta.params), "map-params-names", "", **d)
    for q in pta.params:
        ctx.ok(np.array_equal(np.ravel(back[q.name]), np.ravel(p[q.name])), "map-params-inverse", "{}: {} for {}".format(q.name, back[q.name], p[q.name]), **d)
    # flat names address single elements
    flat = dict(zip(pta.param_names, xs))
    k = rng.randint(len(xs)) if len(xs) else None
    if k is not None:
        n = pta.param_names[k]
        owner = [q for q in pta.params if n in (expand([(q.name, q.size)]))][0]
        el = np.ravel(p[owner.name])[expand([(owner.name, owner.size)]).index(n)]
        ctx.ok(flat[n] == el, "flat-name-element", n, **d)
    a, b = float(pta.get_lnlikelihood(xs)), float(pta.get_lnlikelihood(dict(p)))
    ctx.ok(a == b or (np.isnan(a) and np.isnan(b)) or abs(a - b) <= 1e-9 * abs(b), "vector-dict-likelihood", "{} {}".format(a, b), **d)
    a, b = float(pta.get_lnprior(xs)), float(pta.get_lnprior(dict(p)))
    ctx.ok(a == b or abs(a - b) <= 1e-12 * abs(b), "vector-dict-prior", "{} {}".format(a, b), **d)
    # a list works as well as an array
    ctx.ok(float(pta.get_lnprior(list(xs))) == a, "vector-as-list", "", **d)


def namer(rng):
    """Pulsar names, now and then names that contain one another."""
    if rng.rand() < 0.4:
        o = rng.permutation(64)
        return lambda k: "J1%s" % ("0" * o[k])
    f = M.pick(rng, ["J%04d", "B%04d+10", "PSR%d"])
    return lambda k: f % (k + 3)


def models(ctx, rng):
    name = namer(rng)
    qs = [P.plain(rng, name(k), n=rng.randint(8, 16), npar=2, cluster=2) for k in range(tail(rng, 1, 5, 40, 0.015))]
    m = M.random_model(rng, qs, common=rng.randint(0, 3) if len(qs) > 1 else 0, per_psr=len(qs) == 1 or rng.rand() < 0.4, marg=True)
    pta = m.pta()
    want = {n: s.size for n, s in m.params().items()}
    per = [dict((n, s.size) for c in m.comps[i] for n, s in c.params(q)) for i, q in enumerate(qs)]
    d = dict(model=m.desc())
    if any(want.values()):
        ctx.event("vectorpar")
    inventory(ctx, pta, want, set(m.consts()), per, qs, **d)
    ctx.sig(m.desc(), sorted(want))
    # the list depends neither on the order of pulsars, nor on having been evaluated or read before
    from enterprise.signals import signal_base

    for _ in range(2):
        p = m.draw(rng)
        vectors(ctx, pta, p, rng, **d)
    o = rng.permutation(len(qs))
    other = M.Model([qs[i] for i in o], [m.comps[i] for i in o]).pta()
    ctx.ok(other.param_names == pta.param_names, "order-independent", "", **d)
    both = signal_base.PTA(pta.pulsarmodels[:1])
    for sc in pta.pulsarmodels[1:]:
        both = both + sc
    ctx.ok(both.param_names == pta.param_names, "sum-of-models", "", **d)
    inventory(ctx, pta, want, set(m.consts()), per, qs, after="evaluations", **d)


def hyperpar(rng, depth, want, name, size=None):
    """(parameter class, names it adds). Values near -14."""
    from enterprise.signals import parameter as pm

    u, lo = rng.rand(), -60 - 20 * depth  # below anything the levels underneath can draw
    if depth == 0 or u < 0.25:
        want[name] = size
        return pm.Uniform(-15, -13, size=size)
    if u < 0.45 and not size:  # shared instance as hyperparameter
        n = "hyp{}".format(rng.randint(3))
        want[name], want[n] = size, None
        return pm.Normal(mu=HYP.setdefault(n, pm.Uniform(-15, -13)(n)), sigma=0.3, size=size)
    want[name] = size
    if 0.5 < u < 0.6:  # a hyperparameter that is a function of further parameters
        a = hyperpar(rng, depth - 1, want, name + "_mu_a")
        return pm.Normal(mu=pm.Function(moved, a=a, b=pm.Constant(0.1)), sigma=0.3, size=size)
    if u < 0.7:
        return pm.Normal(mu=hyperpar(rng, depth - 1, want, name + "_mu"), sigma=pm.Constant(0.4) if rng.rand() < 0.5 else pm.Uniform(0.2, 0.3) if not want.update({name + "_sigma": None}) else 0, size=size)
    if u < 0.85:
        return pm.Uniform(lo, pmax=hyperpar(rng, depth - 1, want, name + "_pmax"), size=size)
    return pm.LinearExp(lo, hyperpar(rng, depth - 1, want, name + "_pmax"), size=size)


def moved(a=0.0, b=0.0):
    return a + b


HYP = {}


def hierarchical(ctx, rng):
    from enterprise.signals import gp_priors, gp_signals as g, parameter as pm, signal_base, utils, white_signals as w

    HYP.clear()
    name = namer(rng)
    qs = [P.plain(rng, name(k), n=rng.randint(8, 14), npar=2, cluster=2, nback=2) for k in range(tail(rng, 1, 4, 60, 0.015))]
    T = 5.5 * M.YR
    seed = rng.randint(1 << 30)
    nf = rng.randint(2, 4) if rng.rand() < 0.7 else tail(rng, 8, 15, 60)
    fs = rng.rand() < 0.4
    per, scs, consts = [], [], set()
    common = len(qs) > 1 and rng.rand() < 0.7
    want_all = {}
    com = None
    if common:
        wc = {}
        r = np.random.RandomState(seed + 1)
        A = hyperpar(r, 2, wc, "gw_log10_A")
        wc["gw_gamma"] = None
        com = g.FourierBasisCommonGP(utils.powerlaw(log10_A=A, gamma=pm.Uniform(1, 6)), utils.hd_orf(), components=3, Tspan=T, name="gw")
        direct_c = {"gw_log10_A": None, "gw_gamma": None}
    for q in qs:
        r = np.random.RandomState(seed)
        wp = {}
        wp[q.name + "_efac"] = None
        direct = [q.name + "_efac"]
        s = w.MeasurementNoise(pm.Uniform(0.5, 2))
        kw = "log10_rho" if fs else "log10_A"
        pre = q.name + "_red_noise_"
        A = hyperpar(r, 3, wp, pre + kw, size=nf if fs else None)
        direct.append(pre + kw)
        if fs:
            spec = gp_priors.free_spectrum(log10_rho=A)
        elif r.rand() < 0.5:
            spec = utils.powerlaw(log10_A=A, gamma=pm.Constant(4.33))
            consts.add(pre + "gamma")
        else:
            spec = utils.powerlaw(log10_A=A, gamma=hyperpar(r, 1, wp, pre + "gamma"))
            direct.append(pre + "gamma")
        s = s + g.FourierBasisGP(spec, components=nf, Tspan=T) + g.TimingModel()
        if common:
            s = s + com
        scs.append(s(q))
        want_all.update(wp)
        per.append({n: wp[n] for n in direct})
        if common:
            per[-1].update(direct_c)
    if common:
        want_all.update(wc)
    pta = signal_base.PTA(scs)
    ctx.event("hyper", len(want_all) - len({n for x in per for n in x}))
    ctx.sig(sorted(want_all), fs, common)
    inventory(ctx, pta, want_all, consts, per, qs, names=sorted(want_all))
    a = [repr(q) for q in pta.params]  # looking at parameters changes nothing
    ctx.ok(a == [repr(q) for q in pta.params], "repr-twice", "")
    inventory(ctx, pta, want_all, consts, per, qs, names=sorted(want_all), after="repr")
    for p in L.sample(rng, pta, 2):
        p = {n: (np.clip(v, -16, -12) if "_A" in n or "rho" in n else v) for n, v in p.items()}
        for n in p:  # keep the power law sane
            if n.endswith("_gamma"):
                p[n] = 3.0 + 0.1 * (p[n] % 1)
        vectors(ctx, pta, p, rng, names=sorted(want_all))


def strided(x):
    y = np.empty(3 * len(x) + 1)
    y[:] = np.nan
    y[1::3] = x
    return y[1::3]


def frozen(x):
    y = np.array(x, float)
    y.flags.writeable = False
    return y


def containers(ctx, rng):
    """The numbers of a point matter, not what holds them."""
    qs = [P.plain(rng, "J%04d" % k, n=rng.randint(8, 16), npar=2, cluster=2) for k in range(rng.randint(1, 4))]
    m = M.random_model(rng, qs, common=rng.randint(0, 2) if len(qs) > 1 else 0, per_psr=True, marg=True)
    sizes = {n: s.size for n, s in m.params().items()}
    if any(sizes.values()):
        ctx.event("containers-vectorpar")
    p = m.draw(rng)
    whole = rng.rand() < 0.4
    p = {n: (np.where(np.round(v) == 0, 1.0, np.round(v)) if whole else np.asarray(v, float)) for n, v in p.items()}
    base, other = m.pta(), m.pta()
    xs = np.array([v for q in base.params for v in np.ravel(p[q.name])], float)
    ctx.sig(m.desc(), whole, xs.tobytes())
    try:
        with np.errstate(all="ignore"):
            want, prior = float(base.get_lnlikelihood(xs)), float(base.get_lnprior(xs))
    except (ValueError, ArithmeticError, np.linalg.LinAlgError):
        return  # rounding has left the range of the functions
    if not np.isfinite(want):
        return
    ctx.event("containers-finite")
    forms = {"list": list(xs), "tuple": tuple(float(x) for x in xs), "strided": strided(xs), "read-only": frozen(xs), "reversed": xs[::-1].copy()[::-1],
             "column": np.stack([xs, xs], axis=1)[:, 0], "big-endian": xs.astype(">f8"), "longdouble": xs.astype(np.longdouble)}
    dv = {"float": float, "float64": np.float64}
    vec = {"strided": strided, "read-only": frozen, "array": lambda v: np.array(v)}
    if whole:
        ctx.event("whole-numbers")
        forms.update({"int-array": xs.astype(int), "int-list": [int(x) for x in xs], "int-tuple": tuple(int(x) for x in xs), "int32": xs.astype(np.int32)})
        dv["int"] = int
        vec["int-array"] = lambda v: np.array(v, int)
    for k in range(2):
        for n in dv:
            for w in vec:
                if rng.rand() < 0.4:
                    forms["dict:{}:{}".format(n, w)] = {a: (vec[w](v) if np.ndim(v) else dv[n](v)) for a, v in p.items()}
    names = sorted(forms)
    for i in rng.permutation(len(names)):
        n, x = names[i], forms[names[i]]
        ctx.event("container-form")
        if rng.rand() < 0.3:  # a cached quantity of other values must not come back
            other.get_lnlikelihood(xs * (1 - 1e-4 * rng.rand()))
        with np.errstate(all="ignore"):
            a, b = float(other.get_lnlikelihood(x)), float(other.get_lnprior(x))
        d = dict(form=n, model=m.desc())
        ctx.ok(a == want or (np.isnan(a) and np.isnan(want)) or abs(a - want) <= 1e-9 * max(1.0, abs(want)), "container-likelihood:" + n.split(":")[0], "{} {} for {}".format(a, want, n), **d)
        ctx.ok(b == prior or abs(b - prior) <= 1e-12 * max(1.0, abs(prior)), "container-prior:" + n.split(":")[0], "{} {} for {}".format(b, prior, n), **d)
    u = rng.rand(len(xs))
    try:
        h = base.get_hypercube_transform(u)
    except NotImplementedError:
        return  # a prior without a percentage point function
    ctx.event("container-hypercube")
    for n, x in (("list", list(u)), ("tuple", tuple(u)), ("strided", strided(u)), ("read-only", frozen(u)), ("dict", base.map_params(u))):
        ctx.ok(np.array_equal(np.asarray(other.get_hypercube_transform(x), float), h), "container-hypercube", n, model=m.desc())


SCENARIOS = {"containers": (containers, 150, 3000), "models": (models, 1000, 8000), "hierarchical": (hierarchical, 700, 5000)}
