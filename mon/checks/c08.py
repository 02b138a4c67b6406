"""C08: sampling and hypercube transform."""
import numpy as np
import scipy.stats as st

from .. import model as M, priors, psr as P

PROP = "C08"
RULE = ("a case draws 400-1500 samples of a randomly declared set of priors (all kinds, scalar and vector, hierarchical, shared) and tests support, "
        "shape, consistency of every draw and the distribution of the probability-integral transform (KS, 1e-9), or maps random unit vectors "
        "through the hypercube transform of an array; distinct = distinct declarations")
ASSUMPTIONS = ["distribution tests reject at p < 1e-9 per case, so a wrong sampler that differs less than about 10% in distribution may pass"]
REQUIRE = {"corners": 300, "draws": 30000, "ks": 300, "shared-hyper": 300, "ppf": 2000, "hyper-draws": 3000}


def ks(ctx, u, key, **d):
    u = np.asarray(u, float)
    if len(u) < 100:
        return
    ctx.event("ks")
    r = st.kstest(u, "uniform")
    ctx.ok(r.pvalue > 1e-9, key, "KS p={:.2e} D={:.3f} n={}".format(r.pvalue, r.statistic, len(u)), **d)


def sampling(ctx, rng):
    from enterprise.signals import parameter as pm

    decls = [priors.Decl(rng, "p%d" % k) for k in range(rng.randint(1, 4))]
    pars = [d.build() for d in decls]
    names = sorted([d.name for d in decls] + [n for d in decls for n in d.hypernames()])
    ctx.sig([d.desc() for d in decls], [sorted(d.args) for d in decls])
    n = 400
    us = {d.name: [] for d in decls}
    hs = {}
    order = rng.permutation(len(pars))
    for k in range(n):
        lst = [pars[i] for i in order]
        if k % 7 == 0:
            lst = lst + [pars[0]] + [h for h in pars[0].params[1:]]  # listing one again changes nothing
        if k % 11 == 0:
            lst = [h for h in pars[-1].params[1:]] + lst
        s = pm.sample(lst)
        if not ctx.ok(sorted(s) == names, "sampled-names", "{} expected {}".format(sorted(s), names)):
            return
        ctx.event("draws", len(names))
        for d in decls:
            p = {}
            for h, (lo, hi) in d.hypernames().items():
                p[h] = s[h]
                hs.setdefault(h, []).append((s[h] - lo) / (hi - lo))
                ctx.event("hyper-draws")
                if not ctx.ok(lo <= s[h] <= hi, "hyper-support", desc=d.desc()):
                    return
            x = s[d.name]
            if not ctx.ok(np.shape(x) == (() if not d.size else (d.size,)), "draw-size", "shape {} for size {}".format(np.shape(x), d.size), desc=d.desc()):
                return
            lp = float(pars[decls.index(d)].get_logpdf(x, params=s))
            if not ctx.ok(np.isfinite(lp) and np.isfinite(d.logpdf(x, p)), "draw-in-support", "logpdf {} at {}".format(lp, x), desc=d.desc(), args=d.args, p=p):
                return
            if d.kind == "NormalCov":
                z = np.linalg.solve(np.linalg.cholesky(d.args["sigma"]), x - d.args["mu"])
                us[d.name].append(st.norm.cdf(z))
            else:
                us[d.name].append([d.cdf(np.ravel(x)[i], p, i) for i in range(d.size or 1)])
    for d in decls:
        u = np.array(us[d.name])
        ks(ctx, u.ravel(), "distribution", desc=d.desc(), args=d.args)
        for i in range(u.shape[1]):
            ks(ctx, u[:, i], "element-distribution", desc=d.desc(), args=d.args)
            for j in range(i):
                c = np.corrcoef(u[:, i], u[:, j])[0, 1]
                ctx.ok(abs(c) < 6.5 / np.sqrt(n), "element-independence", "correlation {:.3f}".format(c), desc=d.desc(), args=d.args)
        c = np.corrcoef(u[1:, 0], u[:-1, 0])[0, 1]
        ctx.ok(abs(c) < 6.5 / np.sqrt(n), "draw-independence", "correlation {:.3f}".format(c), desc=d.desc())
    for h, v in hs.items():
        ks(ctx, v, "hyper-distribution", name=h)


def single(ctx, rng):
    """Many draws of one parameter, by its own method, also one by one and reproducibly."""
    from enterprise.signals import parameter as pm

    d = priors.Decl(rng, "q", hyper=False)
    q = d.build()
    n = 1500
    xs = np.array([q.sample() for _ in range(n)])
    ctx.event("draws", n)
    if d.kind == "NormalCov":
        z = np.linalg.solve(np.linalg.cholesky(d.args["sigma"]), (xs - d.args["mu"]).T)
        u = st.norm.cdf(z).T
    else:
        xs = xs.reshape(n, -1)
        u = np.array([[d.cdf(x[i], {}, i) for i in range(d.size or 1)] for x in xs])
    ctx.ok(np.all((u >= 0) & (u <= 1)), "draw-in-support", desc=d.desc(), args=d.args)
    for i in range(u.shape[1]):
        ks(ctx, u[:, i], "distribution", desc=d.desc(), args=d.args)
    a = rng.randint(1 << 30)
    np.random.seed(a)
    s1 = pm.sample(q)
    np.random.seed(a)
    s2 = pm.sample([q])
    ctx.ok(list(s1) == ["q"] and np.array_equal(s1["q"], s2["q"]), "single-parameter-list", desc=d.desc())
    ctx.sig(d.desc(), d.args)


def chain(ctx, rng):
    """Shared hyperparameters: dependents pin the hyperparameter value down, so any second value is visible."""
    from enterprise.signals import parameter as pm

    top = pm.Uniform(-10, 10)("top")
    mids = [pm.Normal(mu=top, sigma=1e-7, size=M.pick(rng, [None, None, 3]))("mid%d" % k) for k in range(rng.randint(1, 3))]
    seen = []

    def recorder(a=0.0, b=0.0, size=None):
        seen.append((a, b))
        return a + b if size is None else np.full(size, a + b)

    def flat(value, a=0.0, b=0.0):
        return np.ones_like(np.asarray(value, dtype=float))

    leaves = []
    for k in range(rng.randint(2, 6)):
        m = mids[rng.randint(len(mids))]
        size = 3 if m.size else M.pick(rng, [None, 3])
        u = rng.rand()
        if u < 0.35:
            leaves.append((pm.Normal(mu=m, sigma=1e-7, size=size)("leaf%d" % k), m, None))
        elif u < 0.6:
            leaves.append((pm.Uniform(pmin=m, pmax=1e3, size=size)("leaf%d" % k), None, m))
        else:
            leaves.append((pm.UserParameter(prior=pm.Function(flat, a=m, b=top), sampler=recorder, size=size)("leaf%d" % k), (m, top), None))
    lst = [x[0] for x in leaves] + [m for m in mids if rng.rand() < 0.5]
    o = rng.permutation(len(lst) + 1)
    lst = [(lst + [top])[i] for i in o]
    ctx.sig([x[0].__class__.__name__ for x in leaves], list(o))
    for _ in range(30):
        del seen[:]
        s = pm.sample(lst)
        ctx.event("shared-hyper", len(leaves))
        ctx.event("draws", len(s))
        want = {x.name for x in lst} | {x[0].name for x in leaves} | {y.name for x in leaves for y in x[0].params[1:]}
        ctx.ok(set(s) == want, "sampled-names", "{} {}".format(sorted(s), sorted(want)))
        for m in mids:
            if m.name in s:
                ctx.ok(np.all(np.abs(np.asarray(s[m.name]) - s["top"]) < 1e-6) and np.size(s[m.name]) == (m.size or 1), "consistent-hyperparameter", "{} {}".format(s[m.name], s["top"]))
        for leaf, mu, low in leaves:
            v = s[leaf.name]
            if isinstance(mu, tuple):
                ctx.ok(np.all(np.asarray(v) == s[mu[0].name] + s[mu[1].name]), "consistent-hyperparameter", "recorded {}".format(seen))
            elif mu is not None:
                ctx.ok(np.all(np.abs(np.asarray(v) - s[mu.name]) < 1e-6), "consistent-hyperparameter", "{} {}".format(v, s[mu.name]))
            else:
                ctx.ok(np.all(np.asarray(v) >= s[low.name]), "consistent-hyperparameter", "{} {}".format(v, s[low.name]))


def hypercube(ctx, rng):
    from enterprise.signals import deterministic_signals as det, parameter as pm, signal_base, white_signals as w

    qs = [P.plain(rng, "J%04d" % k, n=5, npar=1) for k in range(rng.randint(1, 4) if rng.rand() < 0.96 else rng.randint(20, 120))]
    kinds = ["Uniform", "Normal", "LinearExp", "User", "UserLog"]
    decls, scs = {}, []

    def decl(name):
        d = priors.Decl(rng, name, kind=M.pick(rng, kinds))
        decls[name] = d
        return d.build()

    sobj = decl("shared")

    def wave(toas, a=0.0, b=0.0, c=0.0):
        return np.zeros(len(toas))

    for q in qs:
        kw = dict(c=sobj, a=decl(q.name + "_w_a"), b=decl(q.name + "_w_b"))
        scs.append(signal_base.SignalCollection([det.Deterministic(pm.Function(wave, **kw), name="w"), w.MeasurementNoise(pm.Constant(1.0))])(q))
    pta = signal_base.PTA(scs)
    ctx.sig([d.desc() for d in decls.values()])
    hyp = {n: b for d in decls.values() for n, b in d.hypernames().items()}
    us = []
    for k in range(8):
        u = rng.uniform(0, 1, len(pta.param_names))
        if k == 1:
            u[rng.randint(len(u))] = 0.999999
        if k in (2, 3):  # the closed ends of bounded priors belong to the support
            ct = 0
            for x in pta.params:
                n = x.size or 1
                if x.name not in decls or decls[x.name].kind in ("Uniform", "LinearExp"):
                    e = rng.rand(n) < 0.4
                    u[ct:ct + n][e] = rng.randint(0, 2, n)[e]
                    ctx.event("corners", int(e.sum()))
                ct += n
        form = u if rng.rand() < 0.5 else pta.map_params(u)
        got = np.asarray(pta.get_hypercube_transform(form), float)
        if not ctx.ok(got.shape == u.shape, "hypercube-shape", "{} {}".format(got.shape, u.shape)):
            return
        um = {}
        ct = 0
        want = np.zeros_like(u)
        res = {}
        slots = {}
        for x in pta.params:
            n = x.size or 1
            slots[x.name] = slice(ct, ct + n)
            ct += n
        for n, (lo, hi) in hyp.items():
            um[n] = u[slots[n]][0]
            res[n] = lo + um[n] * (hi - lo)
            want[slots[n]] = res[n]
        for n, d in decls.items():
            want[slots[n]] = [float(d.ppf(u[slots[n]][i], res, i)) for i in range(d.size or 1)]
        ctx.event("ppf", len(u))
        for n, sl_ in slots.items():
            ctx.close(got[sl_], want[sl_], "hypercube-inverse-cdf", rtol=1e-9, atol=1e-11 * (abs(want[sl_]).max() + 1e-30), desc=decls[n].desc() if n in decls else n, args=decls[n].args if n in decls else None,
                      u=u[sl_])
        lp = float(pta.get_lnprior(got))
        ctx.ok(np.isfinite(lp), "hypercube-in-support", "log prior {} at {}".format(lp, got), u=u, names=pta.param_names)
        us.append((u, got, slots))
    # monotonic along every coordinate whose dependents are not involved
    u0 = rng.uniform(0.05, 0.95, len(pta.param_names))
    elems = [(n, i) for n, d in decls.items() for i in range(d.size or 1)]
    for n, i in [elems[k] for k in rng.permutation(len(elems))[:24]]:
        d = decls[n]
        last = None
        for v in np.sort(rng.uniform(0, 1, 5)):
            u = u0.copy()
            u[us[0][2][n].start + i] = v
            g = np.asarray(pta.get_hypercube_transform(u), float)
            x = g[us[0][2][n].start + i]
            ctx.ok(last is None or x >= last, "hypercube-monotonic", "{} after {}".format(x, last), desc=d.desc())
            last = x
            rest = np.delete(g, us[0][2][n].start + i)
            if v == 0:
                pass
            base = np.delete(np.asarray(pta.get_hypercube_transform(u0), float), us[0][2][n].start + i)
            ctx.ok(np.array_equal(rest, base), "hypercube-separable", "moving {} moved another parameter".format(n))


def noppf(ctx, rng):
    """Kinds without an inverse CDF refuse instead of returning something."""
    from enterprise.signals import signal_base, white_signals as w

    d = priors.Decl(rng, "J_efac", kind=M.pick(rng, ["TruncNormal", "InvGamma", "NormalCov"]), size=None if rng.rand() < 0.7 else 2)
    q = d.build()
    ctx.sig(d.desc(), "noppf")
    ctx.raises(NotImplementedError, lambda: q.get_ppf(np.full(d.size, 0.3) if d.size else 0.3, params={n: lo for n, (lo, hi) in d.hypernames().items()}),
               "no-ppf-refused", desc=d.desc())
    ctx.event("refused")


SCENARIOS = {"sampling": (sampling, 160, 2500), "single": (single, 160, 2500), "chain": (chain, 60, 1000), "hypercube": (hypercube, 200, 3000),
             "noppf": (noppf, 40, 400)}
