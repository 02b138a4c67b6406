"""C07: prior densities."""
import numpy as np

from .. import model as M, priors, psr as P

PROP = "C07"
RULE = ("a case is one randomly declared prior (every kind, scalar or vector, numeric or hierarchical arguments) evaluated inside, outside and "
        "around its support and integrated numerically, or an array of parameters whose log prior is compared with the sum of the reference "
        "log densities; distinct = distinct declaration")
ASSUMPTIONS = ["arguments satisfy the documented constraints (pmin < pmax, sigma > 0, positive definite covariance)"]
REQUIRE = {"pdf": 3000, "outside": 1000, "integral": 150, "lnprior": 300, "hyper": 150, "refused": 200}


def hypers(d, rng):
    return {n: float(rng.uniform(lo, hi)) for n, (lo, hi) in d.hypernames().items()}


def density(ctx, rng):
    d = priors.Decl(rng, "x%d" % rng.randint(100))
    q = d.build()
    ctx.sig(d.desc(), {k: np.ravel(v)[:1] for k, v in d.args.items()})
    ctx.ok((q.size or None) == (d.size or None) and q.name == d.name, "declared-size", desc=d.desc())
    ctx.ok(sorted(x.name for x in q.params) == sorted([d.name] + list(d.hypernames())), "hyperparameters", str([x.name for x in q.params]), desc=d.desc())
    for _ in range(3):
        p = hypers(d, rng)
        if p:
            ctx.event("hyper")
        x = d.typical(rng, p)
        pts = [(x, "inside")]
        for _ in range(4):
            pts.append((d.typical(rng, p), "inside"))
        if d.kind != "NormalCov":
            for side in (0, 1):  # one element outside
                b = d.support(p, 0)[side]
                if np.isfinite(b):
                    y = np.array(x, float)
                    w = abs(d.ppf(0.9, p, 0) - d.ppf(0.1, p, 0))
                    k = rng.randint(d.size or 1)
                    b = d.support(p, k)[side]
                    o = b + (1 if side else -1) * w * 10.0 ** rng.uniform(-6, 1)
                    if d.size:
                        y[k] = o
                    else:
                        y = float(o)
                    pts.append((y, "outside"))
        for v, where in pts:
            want = d.logpdf(v, p)
            ctx.event("pdf")
            ctx.event(where)
            if where == "outside" and d.kind != "InvGamma":
                assert want == -np.inf
            pv = dict(p)
            pv[d.name] = v
            # the three calling forms
            got = [q.get_logpdf(v, params=p), q.get_logpdf(params=pv), q.get_logpdf(value=v, params=dict(pv, other=3.0)),
                   q.get_logpdf(v, params=dict(p, **{d.name: x}))]
            for g in got:
                ctx.close(g, want, "logpdf", rtol=1e-9, atol=1e-9, desc=d.desc(), args=d.args, at=v)
            if (d.size or 0) > 5 and not abs(d.logpdf(x, p)) < 250:
                continue  # the density of a long vector may not be representable
            g = q.get_pdf(params=pv)
            ctx.close(g, np.exp(want), "pdf", rtol=1e-8, desc=d.desc(), at=v)
            ctx.close(q.get_pdf(v, params=dict(p, **{d.name: x})), np.exp(want), "pdf", rtol=1e-8, desc=d.desc(), at=v)
            ctx.close(q.get_pdf(v, params=p), np.exp(want), "pdf", rtol=1e-8, desc=d.desc(), at=v)
            if not p:
                ctx.close(q.get_logpdf(v), want, "logpdf-no-params", rtol=1e-9, atol=1e-9, desc=d.desc(), at=v)
                ctx.close(q.get_pdf(v), np.exp(want), "pdf-no-params", rtol=1e-8, desc=d.desc(), at=v)
    # closed supports include their ends
    if d.kind in ("Uniform", "LinearExp") and not d.size:
        p = hypers(d, rng)
        for b in d.support(p):
            ctx.close(q.get_logpdf(b, params=p), d.logpdf(b, p), "support-end", rtol=1e-9, atol=1e-9, desc=d.desc())


def integral(ctx, rng):
    """Integral over the support, by the substitution x = ppf(u) of the reference and directly, and beyond it."""
    d = priors.Decl(rng, "y", size=None)
    if d.kind == "NormalCov":
        d = priors.Decl(rng, "y", kind="NormalCov", size=2)
        q = d.build()
        g = np.linspace(-1, 1, 161) * 8
        c = np.linalg.cholesky(d.args["sigma"])
        tot = sum(q.get_pdf(d.args["mu"] + c @ np.array([a, b])) for a in g for b in g) * (g[1] - g[0]) ** 2 * c[0, 0] * c[1, 1]
        ctx.event("integral")
        ctx.close(tot, 1.0, "integral", atol=2e-3, desc=d.desc())
        ctx.sig(d.desc(), d.args)
        return
    q = d.build()
    p = hypers(d, rng)
    lo, hi = d.support(p)
    edge = [d.ppf(u, p) for u in (1e-9, 1 - 1e-9)]
    lo, hi = (edge[0] if not np.isfinite(lo) else lo), (edge[1] if not np.isfinite(hi) else hi)
    w = hi - lo
    if d.kind == "InvGamma":
        t = np.linspace(np.log(d.ppf(1e-9, p)), np.log(d.ppf(1 - 1e-7, p)), 20001)
        f = np.array([q.get_pdf(np.exp(x), params=p) * np.exp(x) for x in t[::4]])
        tot, tol = np.trapezoid(f, t[::4]), 1e-3
        out = q.get_pdf(-1.0, params=p)
    else:
        # midpoint rule on cells aligned with the support
        x = lo + (np.arange(4000) + 0.5) * w / 4000
        f = np.array([float(q.get_pdf(v, params=p)) for v in x])
        tot, tol = f.sum() * w / 4000, 1e-4
        out = 0.0
        if d.kind != "Normal":
            for v in np.concatenate([lo - w * rng.rand(20) * 3 - 1e-9 * w, hi + w * rng.rand(20) * 3 + 1e-9 * w]):
                out = max(out, float(q.get_pdf(v, params=p)))
    ctx.event("integral")
    ctx.close(tot, 1.0, "integral", atol=tol, desc=d.desc(), args=d.args)
    ctx.ok(out == 0, "zero-outside", "{}".format(out), desc=d.desc(), args=d.args)
    ctx.sig(d.desc(), d.args)


def refused(ctx, rng):
    """Bounds in the wrong order are refused, also when only one element of a vector or a hyperparameter is wrong."""
    from enterprise.signals import parameter as pm

    n = rng.randint(2, 5)
    lo = rng.uniform(-18, -15, n)
    hi = lo + rng.uniform(0.1, 3, n)
    k = rng.randint(n)
    ctx.sig("refused", n, k)
    v = (lo + hi) / 2
    good = pm.LinearExp(lo, hi, size=n)("g")
    want = np.sum(np.log(np.log(10) * 10**v / (10**hi - 10**lo)))
    ctx.close(float(good.get_logpdf(v)), want, "vector-bounds", rtol=1e-9)
    bad = hi.copy()
    bad[k] = lo[k] - M.pick(rng, [0.0, 0.5])
    q = pm.LinearExp(lo, bad, size=n)("b")
    h = pm.LinearExp(float(lo[0]), pm.Uniform(-30, 0)("h"))("c")
    for key, fn in (("logpdf", lambda: q.get_logpdf(v)), ("pdf", lambda: q.get_pdf(v)), ("sample", lambda: q.sample()),
                    ("scalar", lambda: pm.LinearExp(float(lo[0]), float(lo[0]) - 0.3)("s").get_logpdf(v[0])),
                    ("hyper", lambda: h.get_logpdf(v[0], params={"h": float(lo[0]) - 1.0}))):
        ctx.event("refused")
        ctx.raises(ValueError, fn, "bounds-refused-" + key, pmin=lo, pmax=bad)


def array_prior(ctx, rng):
    """Log prior of an array whose signals use the parameters."""
    from enterprise.signals import parameter as pm, signal_base, deterministic_signals as det

    qs = [P.plain(rng, "J%04d" % k, n=5, npar=1) for k in range(rng.randint(1, 4) if rng.rand() < 0.96 else rng.randint(20, 120))]
    decls, scs = {}, []
    shared = priors.Decl(rng, "shared")
    sobj = shared.build()
    decls["shared"] = shared

    def wave(toas, a=0.0, b=0.0, c=0.0):
        return np.zeros(len(toas))

    for q in qs:
        kw = {"c": sobj}
        for a in ("a", "b"):
            d = priors.Decl(rng, "{}_w_{}".format(q.name, a))
            decls[d.name] = d
            kw[a] = d.build()
        scs.append(signal_base.SignalCollection([det.Deterministic(pm.Function(wave, **kw), name="w"),
                                                 __import__("enterprise.signals.white_signals", fromlist=["x"]).MeasurementNoise(pm.Constant(1.0))])(q))
    pta = signal_base.PTA(scs)
    ctx.sig([d.desc() for d in decls.values()])
    names = sorted(list(decls) + [n for d in decls.values() for n in d.hypernames()])
    ctx.ok([x.name for x in pta.params] == names, "array-parameters", "{} {}".format([x.name for x in pta.params], names))
    for _ in range(3):
        p = {}
        for d in decls.values():
            p.update({n: float(rng.uniform(lo, hi)) for n, (lo, hi) in d.hypernames().items()})
        want = 0.0
        for d in decls.values():
            for n, (lo, hi) in d.hypernames().items():
                want += -np.log(hi - lo)
            p[d.name] = d.typical(rng, p)
        if rng.rand() < 0.25:  # a hyperparameter or parameter out of bounds
            n = M.pick(rng, sorted(decls))
            d = decls[n]
            lo, hi = d.support(p, 0) if d.kind != "NormalCov" else (-np.inf, np.inf)
            if np.isfinite(hi):
                v = np.array(p[n], float) + 0.0
                if d.size:
                    v[0] = hi + 1
                    p[n] = v
                else:
                    p[n] = float(hi + 1)
                ctx.event("lnprior-outside")
        want += sum(d.logpdf(p[d.name], p) for d in decls.values())
        ctx.event("lnprior")
        ctx.close(float(pta.get_lnprior(dict(p))), want, "lnprior-sum", rtol=1e-9, atol=1e-8, params=p)
        xs = np.concatenate([np.ravel(p[x.name]) for x in pta.params])
        ctx.close(float(pta.get_lnprior(xs)), want, "lnprior-vector", rtol=1e-9, atol=1e-8)


SCENARIOS = {"density": (density, 1500, 20000), "integral": (integral, 300, 3000), "refused": (refused, 60, 600), "array": (array_prior, 300, 4000)}
