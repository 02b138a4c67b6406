"""C11: the likelihood does not depend on how a model is composed."""
import numpy as np

from .. import big, model as M, psr as P
from .c01 import draw, scale

PROP = "C11"
RULE = ("a case is a random model built several ways - component order and '+' grouping, pulsar order, column reuse on or off per signal, processes split into parts "
        "whose variances add, one selection versus none with equal values, '+' of arrays - all evaluated at the same points and compared with each other and with the dense reference; "
        "distinct = distinct (model, rewriting)")
ASSUMPTIONS = ["at most one marginalising timing model per pulsar", "well conditioned points, as in C01/C02"]
REQUIRE = {"composition": 1500, "split": 500, "disjoint-sum": 150}


def psr(rng, name, lo=8, hi=26):
    return P.plain(rng, name, n=rng.randint(lo, hi), npar=rng.randint(1, 4), cluster=rng.choice([0, 2, 4]), nback=rng.randint(1, 4), sort=rng.rand() < 0.7)


def tree(rng, parts):
    """random binary grouping of '+' over the parts in their order."""
    from enterprise.signals import signal_base

    if len(parts) == 1:
        return parts[0]
    k = rng.randint(1, len(parts))
    a, b = tree(rng, parts[:k]), tree(rng, parts[k:])
    if rng.rand() < 0.15:
        a = signal_base.SignalCollection([a]) if not hasattr(a, "_metasignals") else a
    return a + b


def build(rng, m, comps=None, order=True, psr_order=None, dense=False, kw=None):
    """PTA of model m, freely regrouped."""
    from enterprise.signals import signal_base

    comps = m.comps if comps is None else comps
    fresh = M.Model(m.psrs, comps)
    for c in {c for cs in comps for c in cs}:
        for s in list(getattr(c, "ps", ())) + list(getattr(c, "bps", ())) + list(getattr(c, "ops", ())):
            s._i = None
    idx = range(len(m.psrs)) if psr_order is None else psr_order
    scs = []
    for i in idx:
        cs = [fresh.sig(c) for c in comps[i]]
        if order:
            cs = [cs[k] for k in rng.permutation(len(cs))]
        t = tree(rng, cs)
        if not hasattr(t, "_metasignals"):
            t = signal_base.SignalCollection([t])
        scs.append(t(m.psrs[i]))
    L = signal_base.LogLikelihoodDenseCholesky if dense else signal_base.LogLikelihood
    if rng.rand() < 0.5 and len(scs) > 1:
        k = rng.randint(1, len(scs))
        return signal_base.PTA(scs[:k], lnlikelihood=L) + (signal_base.PTA(scs[k:]) if k < len(scs) - 1 or rng.rand() < 0.5 else scs[k])
    if len(scs) == 1 and rng.rand() < 0.5:
        return signal_base.PTA(scs[0], lnlikelihood=L)
    return signal_base.PTA(scs, lnlikelihood=L)


def tol(m, p):
    near = any(getattr(c, "orf", "") in ("mono", "dipole") for cs in m.comps for c in cs)
    sc = sum(scale(m, p, i) for i in range(len(m.psrs)))
    return dict(rtol=4e-7 if near else 2e-8, atol=1e-4 if near else 1e-5, scale=sc)


def model(rng, lo=1, hi=4, **kw):
    qs = [psr(rng, "J%04d" % i) for i in range(rng.randint(lo, hi))]
    common = rng.randint(0, 3) if len(qs) > 1 else 0
    return M.random_model(rng, qs, common=common, per_psr=rng.rand() < 0.4, marg=True, **kw)


def order(ctx, rng):
    m = model(rng)
    ctx.sig(m.desc())
    ptas = [build(rng, m, psr_order=list(rng.permutation(len(m.psrs))), dense=rng.rand() < 0.3) for _ in range(4)]
    for x in ptas:
        ctx.ok(set(q.name for q in x.params) == set(m.params()), "composition-params", "{} expected {}".format(sorted(q.name for q in x.params), sorted(m.params())))
    for _ in range(2):
        p = draw(ctx, m, rng, 1e9)
        want = m.lnl(p)
        for x in ptas:
            ctx.close(float(x.get_lnlikelihood(p)), want, "composition", model=m.desc(), params=p, **tol(m, p))


def many(ctx, rng):
    """Many pulsars, many signals or long data sets."""
    m = [lambda: big.crowded(rng), lambda: big.array(rng, 8, 18), lambda: big.one(rng, n=rng.randint(300, 700))][rng.randint(3)]()
    ctx.sig(m.desc())
    ctx.event("big")
    ptas = [build(rng, m, psr_order=list(rng.permutation(len(m.psrs))), dense=rng.rand() < 0.3) for _ in range(2)]
    p = draw(ctx, m, rng, 1e9)
    want = m.lnl(p)
    for x in ptas:
        ctx.close(float(x.get_lnlikelihood(p)), want, "composition", model=m.desc(), params=p, **tol(m, p))


def combine(ctx, rng):
    """Column reuse on and off for every signal, on models whose bases overlap (equal spans) and with varying bases."""
    qs = [psr(rng, "J%04d" % i, 10, 24) for i in range(rng.randint(1, 4))]
    T = 5 * M.YR
    comps = M.random_white(rng)
    for k in range(rng.randint(2, 5)):
        nm = "s%d" % k
        u = rng.rand()
        sel = M.pick(rng, [None, None, "half", "backend"])
        if u < 0.6:
            comps.append(M.RN(rng.randint(1, 6), M.pick(rng, M.SPECS), sel, T, name=nm))
        elif u < 0.8:
            comps.append(M.CHROM(rng.randint(1, 5), "pl", sel, T, vary=M.varying(rng), dm=rng.rand() < 0.5, name=nm))
        elif u < 0.9:
            comps.append(M.DENSE(400 * 86400.0, None, name=nm))
        else:
            comps.append(M.ECB(sel, name=nm))
    if len(qs) > 1:
        for k in range(rng.randint(0, 3)):
            comps.append(M.CGP(rng.randint(2, 5), "pl", M.pick(rng, ["hd", "user"]), T=T, basis=M.pick(rng, ["red", "red", "chrom"]),
                               vary=rng.rand() < 0.5, name="gw%d" % k))
    if rng.rand() < 0.5:
        comps.append(M.TM())
    rng.shuffle(comps)
    M.fix_spans(qs, comps, T)
    m = M.Model(qs, comps)
    ctx.sig(m.desc())
    ptas = []
    for k in range(4):
        for c in comps:
            if hasattr(c, "combine"):
                c.combine = bool(k == 0 or (k > 1 and rng.rand() < 0.5))
        x = build(rng, m, order=k > 0)
        ptas.append(x)
        F = x.get_basis(m.draw(rng))
        ctx.event("columns", sum(f.shape[1] for f in F if f is not None))
    for _ in range(2):
        p = draw(ctx, m, rng, 1e9)
        want = m.lnl(p)
        for x in ptas:
            ctx.close(float(x.get_lnlikelihood(p)), want, "column-reuse", model=m.desc(), params=p, **tol(m, p))



def halved(c, name, w):
    """copy of component c carrying the fraction w of its variance, under another name."""
    import copy

    d = copy.copy(c)
    d.ps = [copy.copy(s) for s in c.ps]
    if hasattr(c, "bps"):
        d.bps, d.ops = [copy.copy(s) for s in c.bps], [copy.copy(s) for s in c.ops]
    d.name = name
    d.w = w
    return d


AMP = ("log10_A", "log10_rho", "log10_sigma", "log10_ecorr")


def split(ctx, rng):
    """A process with variance V equals the sum of parts with variances w V and (1-w) V."""
    qs = [psr(rng, "J%04d" % i) for i in range(rng.randint(1, 4))]
    T = 5 * M.YR
    base = M.random_white(rng) + M.random_gps(rng, T, n=rng.randint(0, 2)) + ([M.TM()] if rng.rand() < 0.6 else [])
    if len(qs) > 1 and rng.rand() < 0.4:
        base.append(M.CGP(3, "pl", "hd", T=T, name="bg", combine=bool(rng.rand() < 0.5)))
    k = rng.randint(0, 6 if len(qs) > 1 else 4)
    sel = M.pick(rng, [None, "half", "backend"])
    comb = bool(rng.rand() < 0.6)
    spec = M.pick(rng, ["pl", "to", "fs", "tk", "bp", "tp"])
    if k == 0:
        c = M.RN(rng.randint(1, 6), spec, sel, T, combine=comb, name="x")
    elif k == 1:
        c = M.CHROM(rng.randint(1, 5), M.pick(rng, ["pl", "fs"]), sel, T, vary=M.varying(rng), combine=comb, name="x")
    elif k == 2:
        c = M.DENSE(300 * 86400.0, None, combine=comb, name="x")
    elif k == 3:
        c = M.ECB(sel, name="x")
    else:
        c = M.CGP(rng.randint(1, 5), M.pick(rng, ["pl", "fs"]), M.pick(rng, ["hd", "user", "dipole"]), T=T, combine=comb, basis=M.pick(rng, ["red", "chrom"]),
                  vary=rng.rand() < 0.5, name="x")
    M.fix_spans(qs, base + [c], T)
    w = rng.uniform(0.1, 0.9)
    if rng.rand() < 0.3:
        w = 0.5
    parts = [halved(c, "x1", w), halved(c, "x2", 1 - w)]
    if rng.rand() < 0.3:
        parts = [halved(c, "x1", w / 2), halved(c, "x2", 1 - w), halved(c, "x3", w / 2)]
    m, m2 = M.Model(qs, base + [c]), M.Model(qs, base + parts)
    ctx.sig(m2.desc(), w)
    a, b = build(rng, m, order=False), build(rng, m2)
    for _ in range(3):
        p = draw(ctx, m, rng, 1e9)
        p2 = {n: v for n, v in p.items() if n in m2.params()}
        for q in qs:
            for d in parts:
                old = dict((k_, pre) for k_, pre in c.prefixes(q))
                for key, pre in d.prefixes(q):
                    for s in [s for s in d.ps if s.free()]:
                        v = p[s.name(old[key])]
                        p2[s.name(pre)] = v + 0.5 * np.log10(d.w) if s.kw in AMP else v
                for s in [s for s in getattr(d, "bps", []) if s.free()]:
                    p2[s.name(M.join(q.name, d.name))] = p[s.name(M.join(q.name, c.name))]
                for s in getattr(d, "ops", []):
                    p2[s.name(d.name)] = p[s.name(c.name)]
        want = m.lnl(p)
        ctx.close(float(a.get_lnlikelihood(p)), want, "split-whole", **tol(m, p))
        ctx.close(float(b.get_lnlikelihood(p2)), want, "split", msg="parts", model=m2.desc(), params=p2, **tol(m, p))


def white(ctx, rng):
    """Noise with a selection and equal values equals noise without; efac/equad variance splits; ecorr over a partition of the data by whole epochs."""
    q = psr(rng, "J0")
    sel = M.pick(rng, ["backend", "half", "band", "telescope", ("frontend",), ("user", 1200.0)])
    rest = M.random_gps(rng, 5 * M.YR, n=rng.randint(0, 3)) + ([M.TM()] if rng.rand() < 0.5 else [])
    M.fix_spans([q], rest, 5 * M.YR)
    t2 = bool(rng.rand() < 0.5)
    a = M.Model([q], [M.MN(None, t2=t2), M.TNEQ(None)] + rest)
    b = M.Model([q], [M.MN(sel, t2=t2), M.TNEQ(sel)] + rest)
    c = M.Model([q], [M.MN(None, t2=t2), M.TNEQ(sel, name="one"), M.TNEQ(None, name="two")] + rest)
    xa, xb, xc = [build(rng, m) for m in (a, b, c)]
    ctx.sig(b.desc())
    for _ in range(3):
        p = draw(ctx, a, rng)
        pb, pc = dict(p), dict(p)
        for pt, m in ((pb, b), (pc, c)):
            for n, s in m.params().items():
                if n not in p:
                    v = p["J0_" + s.kw]
                    pt[n] = v + (0.5 * np.log10(0.5) if m is c and s.kw == "log10_tnequad" else 0.0)
        want = a.lnl(p)
        ctx.close(float(xa.get_lnlikelihood(p)), want, "composition", **tol(a, p))
        ctx.close(float(xb.get_lnlikelihood(pb)), want, "selection-with-equal-values", **tol(a, p))
        ctx.close(float(xc.get_lnlikelihood(pc)), want, "split-white", **tol(a, p))


def twice(ctx, rng):
    """The same process added twice under two names with shared parameters, i.e. twice the variance."""
    q = psr(rng, "J0")
    T = 5 * M.YR
    from enterprise.signals import parameter as pm, gp_signals as g, gp_priors, signal_base, white_signals as w

    A, gam = pm.Uniform(-15, -13)("A"), pm.Uniform(1, 6)("g")
    nf = rng.randint(1, 6)
    k = rng.randint(2, 4)
    comb = bool(rng.rand() < 0.7)
    s = w.MeasurementNoise(efac=pm.Uniform(0.5, 2))
    for i in range(k):
        s = s + g.FourierBasisGP(gp_priors.powerlaw(log10_A=A, gamma=gam), components=nf, Tspan=T, combine=comb, name="n%d" % i)
    pta = signal_base.PTA([s(q)])
    m = M.Model([q], [M.MN(), M.RN(nf, "pl", None, T, name="x")])
    ctx.ok(pta.param_names == ["A", "J0_efac", "g"], "shared-names", str(pta.param_names))
    ctx.sig(nf, k, comb)
    for _ in range(3):
        p = draw(ctx, m, rng)
        pp = {"A": p["J0_x_log10_A"] - 0.5 * np.log10(k), "g": p["J0_x_gamma"], "J0_efac": p["J0_efac"]}
        ctx.close(float(pta.get_lnlikelihood(pp)), m.lnl(p), "split", **tol(m, p))


def disjoint(ctx, rng):
    """'+' of arrays without common signals adds the log likelihoods; pulsar order and grouping are irrelevant."""
    from enterprise.signals import signal_base

    ms = []
    for g in range(rng.randint(2, 4)):
        qs = [psr(rng, "J%d%d" % (g, i)) for i in range(rng.randint(1, 3))]
        # a process common to the pulsars of one group only
        ms.append(M.random_model(rng, qs, common=rng.randint(0, 2) if len(qs) > 1 else 0, per_psr=rng.rand() < 0.5, marg=True, mix=False))
        for c in {c for cs in ms[-1].comps for c in cs}:
            if c.common:
                c.name = c.name + "g%d" % g
    ctx.sig([m.desc() for m in ms])
    ptas = [build(rng, m) for m in ms]
    tot = ptas[0]
    for x in ptas[1:]:
        tot = tot + x
    rev = signal_base.PTA([sc for x in ptas[::-1] for sc in x.pulsarmodels])
    for _ in range(2):
        ps = [draw(ctx, m, rng, 1e9) for m in ms]
        p = {}
        for d in ps:
            p.update(d)
        parts = [float(x.get_lnlikelihood(d)) for x, d in zip(ptas, ps)]
        t = dict(rtol=1e-7, atol=1e-4, scale=sum(tol(m, d)["scale"] for m, d in zip(ms, ps)))
        ctx.close(sum(parts), sum(m.lnl(d) for m, d in zip(ms, ps)), "parts", **t)
        for x, what in ((tot, "sum"), (rev, "rebuilt")):
            ctx.close(float(x.get_lnlikelihood(p)), sum(parts), "disjoint-sum", msg=what, **t)


SCENARIOS = {"order": (order, 220, 5000), "combine": (combine, 200, 5000), "split": (split, 260, 6000), "white": (white, 120, 2000), "twice": (twice, 40, 600),
             "disjoint": (disjoint, 100, 2500), "many": (many, 12, 200)}
