"""C09: deferred functions against the plain function."""
import numpy as np

from .. import library as L, model as M, psr as P, ref

PROP = "C09"
RULE = ("a case is a random function signature bound to a random mix of plain values, defaults, constants, named and unnamed parameters and nested "
        "Functions (depth up to 3, keywords reused across levels), named or not, called with random explicit arguments, with and without a pulsar and "
        "a mask; every actual call received by the plain functions is recorded and compared with an independent resolution of its arguments")
ASSUMPTIONS = ["explicit keyword arguments of the call are passed on to nested Functions that bind the same keyword (documented by the code comment)"]
REQUIRE = {"calls": 2000, "nested": 400, "nested-instance": 60, "masked": 300, "library": 300}

KW = ["a", "b", "c", "d"]


class Node(object):
    """One function: required args, bound keywords, defaults."""

    def __init__(self, rng, depth, calls):
        self.calls = calls
        self.posn = M.pick(rng, [["toas"], ["x"], ["toas", "freqs"], ["x", "pos"], ["x"], ["toas", "name"]])
        self.kws = [k for k in KW if rng.rand() < 0.7] or ["a"]
        self.defaults = {k: float(rng.randint(100)) for k in self.kws}
        self.fname = M.pick(rng, ["", "", "fn%d" % rng.randint(9)])
        self.bind = {}
        for k in self.kws:
            u = rng.rand()
            if u < 0.2:
                continue  # default of the function
            if u < 0.35:
                self.bind[k] = ("value", float(rng.randint(100, 200)))
            elif u < 0.5:
                self.bind[k] = ("par", float(rng.randint(200, 300)))
            elif u < 0.62:
                self.bind[k] = ("inst", "named_%s%d" % (k, rng.randint(3)))
            elif u < 0.72:
                self.bind[k] = ("const", float(rng.randint(300, 400)))
            elif u < 0.8:
                self.bind[k] = ("cinst", float(rng.randint(400, 500)), "cn_%s%d" % (k, rng.randint(1000)))
            elif depth > 0:
                child = Node(rng, depth - 1, calls)
                child.posn = [p for p in child.posn if p in ("toas", "freqs", "pos", "name")] if rng.rand() < 0.7 else []
                child.plain = child.make()
                # a class, named by its place, or an instance that keeps its own name and pulsar
                self.bind[k] = ("func", child, None if rng.rand() < 0.7 else "fi%d" % rng.randint(1000))
        self.plain = self.make()

    def make(self):
        args = self.posn + ["{}={!r}".format(k, self.defaults[k]) for k in self.kws]
        env = {"calls": self.calls, "np": np, "node": self}
        body = "def f({}):\n    loc = dict(locals())\n    return node.record(loc)\n".format(", ".join(args))
        exec(body, env)
        return env["f"]

    def record(self, loc):
        self.calls.append((id(self), {k: v for k, v in loc.items()}))
        return self.value(loc)

    def value(self, loc):
        tot = 0.0
        for i, k in enumerate(self.kws):
            tot = tot + (i + 1.5) * np.asarray(loc[k], float)
        for k in self.posn:
            v = loc[k]
            if isinstance(v, np.ndarray) and v.ndim == 1 and v.dtype.kind == "f" and len(v) != 3:
                tot = tot + 1e-3 * v
            elif isinstance(v, np.ndarray) and len(v) == 3:
                tot = tot + v[0]
            elif isinstance(v, float):
                tot = tot + v
        return tot

    def build(self, insts, psr=None):
        from enterprise.signals import parameter as pm

        kw = {}
        for k, b in self.bind.items():
            if b[0] == "value":
                kw[k] = b[1]
            elif b[0] == "par":
                kw[k] = pm.Uniform(0, 1e4)
            elif b[0] == "inst":
                kw[k] = insts.setdefault(b[1], pm.Uniform(0, 1e4)(b[1]))
            elif b[0] == "const":
                kw[k] = pm.Constant(b[1])
            elif b[0] == "cinst":
                kw[k] = pm.Constant(b[1])(b[2])
            elif b[2]:
                kw[k] = b[1].build(insts, psr)(b[2], psr=psr)
            else:
                kw[k] = b[1].build(insts, psr)
        return pm.Function(self.plain, name=self.fname, **kw)

    def names(self, prefix):
        """{own (kw) -> parameter name}; recursive list of (name, varying)."""
        pre = "_".join([x for x in (prefix, self.fname) if x])
        out = []
        for k, b in self.bind.items():
            if b[0] in ("par", "const"):
                out.append(("_".join([x for x in (pre, k) if x]), b[0] == "par"))
            elif b[0] in ("inst",):
                out.append((b[1], True))
            elif b[0] == "cinst":
                out.append((b[2], False))
            elif b[0] == "func":
                out += b[1].names(b[2] or "_".join([x for x in (pre, k) if x]))
        return out

    def resolve(self, prefix, explicit, positional, params, psr, mask, log):
        """expected value; appends expected calls in any order."""
        pre = "_".join([x for x in (prefix, self.fname) if x])
        loc = dict(self.defaults)
        for k, b in self.bind.items():
            if k in explicit:
                continue
            n = "_".join([x for x in (pre, k) if x])
            if b[0] == "value":
                loc[k] = b[1]
            elif b[0] == "par":
                if n in params:
                    loc[k] = params[n]
            elif b[0] == "inst":
                if b[1] in params:
                    loc[k] = params[b[1]]
            elif b[0] == "const":
                loc[k] = params.get(n, b[1])
            elif b[0] == "cinst":
                loc[k] = params.get(b[2], b[1])
            else:
                child = b[1]
                loc[k] = child.resolve(b[2] or n, {e: v for e, v in explicit.items() if e in child.bind}, [], params, psr, mask, log)
        for k, v in explicit.items():
            if k in self.kws or k in self.posn:
                loc[k] = v
        for k, v in zip(self.posn, positional):
            loc[k] = v
        for k in self.posn[len(positional):]:
            if k in explicit:
                continue
            v = getattr(psr, k)
            loc[k] = v[mask] if mask is not None and isinstance(v, np.ndarray) and len(v) == len(mask) else v
        log.append((id(self), loc))
        return self.value(loc)

    def instances(self):
        return any(b[0] == "func" and (b[2] or b[1].instances()) for b in self.bind.values())

    def depth(self):
        return 1 + max([b[1].depth() for b in self.bind.values() if b[0] == "func"] or [0])


def short(cs):
    return [{k: (v if isinstance(v, (float, str)) else "array%s" % (np.shape(v),)) for k, v in c[1].items()} for c in cs]


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.shape(a) == np.shape(b) and np.array_equal(np.asarray(a), np.asarray(b))
    return a == b


def resolution(ctx, rng):
    calls = []
    root = Node(rng, M.pick(rng, [0, 1, 2, 3]), calls)
    psr = P.plain(rng, "J0001", n=rng.randint(5, 12), npar=1)
    insts = {}
    prefix = M.pick(rng, ["", "J0001_sig", "pre"])
    cls = root.build(insts, psr)
    usepsr = rng.rand() < 0.75 or any(root.posn) and root.depth() > 1
    f = cls(prefix, psr=psr) if usepsr else cls(prefix)
    names = root.names(prefix)
    d = dict(binds={k: b[0] for k, b in root.bind.items()}, posn=root.posn, depth=root.depth(), fname=root.fname, prefix=prefix)
    ctx.sig(d, [n for n, _ in names])
    if root.depth() > 1:
        ctx.event("nested")
    if root.instances():
        ctx.event("nested-instance")
    ctx.ok(sorted({q.name for q in f.params}) == sorted({n for n, v in names if v}), "parameter-names",
           "{} expected {}".format(sorted({q.name for q in f.params}), sorted({n for n, v in names if v})), **d)
    ctx.ok(f.name == "_".join([x for x in (prefix, root.fname) if x]), "function-name", f.name, **d)
    for k in range(4):
        params = {n: float(rng.randint(1000, 2000)) for n, v in names if v or rng.rand() < 0.1}
        if rng.rand() < 0.3:
            params["unrelated"] = 1.0
        explicit = {k: float(rng.randint(3000, 4000)) for k in KW if rng.rand() < 0.2 and k in root.kws}
        positional = []
        mask = None
        if usepsr:
            if rng.rand() < 0.5:
                mask = rng.rand(len(psr.toas)) < 0.5
                ctx.event("masked")
        for q in root.posn:
            v = {"toas": psr.toas[::2].copy(), "freqs": psr.freqs[::2].copy(), "x": float(rng.randint(50)), "pos": psr.pos * 2, "name": "other"}[q]
            if q == "x":
                positional.append(v)
            elif not usepsr or rng.rand() < 0.3:
                if q != "name" and not (mask is not None):
                    if len(positional) == root.posn.index(q):
                        positional.append(v)
                    elif not usepsr:
                        explicit[q] = v
                    continue
                if not usepsr:
                    explicit[q] = v
        ok = all(q in explicit or i < len(positional) or usepsr for i, q in enumerate(root.posn))
        if not ok or any(q in explicit for q in root.posn):
            continue
        kw = dict(explicit)
        if mask is not None:
            kw["mask"] = mask
        before = dict(params)
        log = []
        try:
            want = root.resolve(prefix, explicit, positional, params, psr if usepsr else None, mask, log)
        except (AttributeError, ValueError):
            continue  # shapes that do not go together: not a meaningful call
        del calls[:]
        got = f(*positional, params=params, **kw)
        ctx.event("calls")
        ctx.ok(params == before, "params-untouched", **d)
        key = lambda c: (c[0], sorted((k, str(v)) for k, v in c[1].items()))  # noqa: E731
        a, b = sorted(calls, key=key), sorted(log, key=key)
        match = lambda x, y: x[0] == y[0] and set(x[1]) == set(y[1]) and all(same(x[1][k], y[1][k]) for k in x[1])  # noqa: E731
        good = all(any(match(x, y) for y in b) for x in a) and all(any(match(x, y) for x in a) for y in b)
        ctx.ok(good, "received-arguments", "calls {} expected {}".format(short(a), short(b))[:500], explicit=sorted(explicit), masked=mask is not None, **d)
        ctx.ok(same(np.asarray(got), np.asarray(want)), "returned-value", "", explicit=sorted(explicit), **d)


def library(ctx, rng):
    """Library functions used in deferred form against their plain form on explicit arguments."""
    from enterprise.signals import gp_bases, gp_priors, parameter as pm, utils

    psr = P.plain(rng, "J0002", n=rng.randint(8, 20), npar=3)
    f = np.repeat(np.arange(1, 6) / (5 * M.YR), 2)
    choices = [
        (gp_priors.powerlaw, dict(log10_A=(-15, -12), gamma=(1, 6)), [f], []),
        (gp_priors.turnover, dict(log10_A=(-15, -12), gamma=(1, 6), lf0=(-9, -8), kappa=(1, 4), beta=(0.2, 1)), [f], []),
        (gp_priors.broken_powerlaw, dict(log10_A=(-15, -12), gamma=(1, 6), delta=(0, 2), log10_fb=(-9, -8), kappa=(0.1, 0.5)), [f], []),
        (gp_priors.turnover_knee, dict(log10_A=(-15, -12), gamma=(1, 6), lfb=(-9, -8), lfk=(-8, -7.5), kappa=(1, 4), delta=(0, 2)), [f], []),
        (utils.createfourierdesignmatrix_chromatic, dict(idx=(1, 5)), [], ["toas", "freqs"]),
        (utils.createfourierdesignmatrix_dm, dict(fref=(1000, 2000)), [], ["toas", "freqs"]),
        (utils.createfourierdesignmatrix_eph, dict(phi_unused=(0, 1)), [], ["toas"]),
        (utils.bwm_delay, dict(log10_h=(-14, -12), cos_gwtheta=(-0.9, 0.9), gwphi=(0, 6), gwpol=(0, 3), t0=(53200, 54500)), [], ["toas", "pos"]),
        (utils.create_quantization_matrix, dict(dt=(0.5, 3)), [], ["toas"]),
        (utils.ecorr_basis_prior if hasattr(utils, "ecorr_basis_prior") else gp_priors.powerlaw, dict(log10_A=(-15, -12)), [f], []),
    ]
    fn, kws, pos, attrs = choices[rng.randint(len(choices))]
    if fn is utils.createfourierdesignmatrix_eph:
        fn, kws, attrs = utils.linear_interp_basis, dict(dt=(20 * 86400, 100 * 86400)), ["toas"]
        if not hasattr(fn, "__wrapped__"):  # a plain function: made deferred by hand
            plain = fn
            fn = lambda *a, **k: plain(*a, **k) if a else pm.Function(plain, **k)  # noqa: E731
            fn.__name__ = "linear_interp_basis"
    ctx.event("library")
    vals, bound, params = {}, {}, {}
    for k, (lo, hi) in kws.items():
        v = float(rng.uniform(lo, hi))
        u = rng.rand()
        if u < 0.15:
            continue
        vals[k] = v
        if u < 0.4:
            bound[k] = v
        elif u < 0.7:
            bound[k] = pm.Uniform(lo, hi)
            params["pre_" + k] = v
        elif u < 0.85:
            bound[k] = pm.Uniform(lo, hi)("inst_" + k)
            params["inst_" + k] = v
        else:
            bound[k] = pm.Constant(v)
    need = {"log10_A", "gamma", "delta", "log10_fb", "lfb", "lfk", "kappa"} if fn in (gp_priors.broken_powerlaw, gp_priors.turnover_knee) else (
        {"log10_h", "cos_gwtheta", "gwphi", "gwpol", "t0"} if fn is utils.bwm_delay else set())
    if not need & set(kws) <= set(vals):
        return
    d = dict(fn=fn.__name__, bound={k: type(v).__name__ if not isinstance(v, type) else "class" for k, v in bound.items()})
    ctx.sig(d, vals)
    extra = {"nmodes": 3} if "fourier" in fn.__name__ else {}
    F = fn(**bound, **extra)
    if isinstance(F, np.ndarray) or isinstance(F, tuple):
        return
    inst = F("pre", psr=psr)
    mask = rng.rand(len(psr.toas)) < 0.6 if attrs else None
    if mask is not None and mask.sum() < 3:
        mask = np.ones(len(psr.toas), bool)
    sel = [getattr(psr, a)[mask] if a in ("toas", "freqs") else getattr(psr, a) for a in attrs]
    got = inst(*pos, params=params, **({"mask": mask} if mask is not None else {}))
    want = fn(*(pos + sel), **vals, **extra)
    ctx.event("calls")
    if mask is not None:
        ctx.event("masked")
    got, want = (got, want) if isinstance(got, tuple) else ((got,), (want,))
    for g, w in zip(got, want):
        ctx.close(np.asarray(g), np.asarray(w), "library-function", rtol=1e-13, **d)
    over = {k: float(rng.uniform(*kws[k])) for k in list(vals)[:1]}
    got = inst(*pos, params=params, **over, **({"mask": mask} if mask is not None else {}))
    want = fn(*(pos + sel), **dict(vals, **over), **extra)
    got, want = (got, want) if isinstance(got, tuple) else ((got,), (want,))
    for g, w in zip(got, want):
        ctx.close(np.asarray(g), np.asarray(w), "library-function-explicit", rtol=1e-13, **d)


def decorator(ctx, rng):
    """@function: a plain call when all arguments are given as values, a deferred Function otherwise."""
    from enterprise.signals import parameter as pm
    from enterprise.signals.parameter import function

    k = float(rng.randint(100))

    @function
    def fun(x, y, a=k, b=2.0):
        return (x, y, a, b)

    x, y, a, b = [float(v) for v in rng.randint(0, 100, 4)]
    ctx.sig("decorator", x, y, a, b)
    ctx.event("decorator")
    ctx.ok(fun(x, y) == (x, y, k, 2.0), "plain-call")
    ctx.ok(fun(x, y, a=a) == (x, y, a, 2.0) and fun(x, y=y, b=b) == (x, y, k, b) and fun(x=x, y=y) == (x, y, k, 2.0), "plain-call")
    F = fun(a=pm.Uniform(0, 100), b=b)
    f = F("nm")
    ctx.ok([q.name for q in f.params] == ["nm_a"], "decorated-names")
    ctx.ok(f(x, y, params={"nm_a": a}) == (x, y, a, b), "decorated-deferred")
    ctx.ok(f(x, y, a=7.0, params={"nm_a": a}) == (x, y, 7.0, b), "decorated-explicit")
    G = fun(a=pm.Uniform(0, 100)("own"))("nm")
    ctx.ok([q.name for q in G.params] == ["own"] and G(x, y, params={"own": a}) == (x, y, a, 2.0), "decorated-instance")
    H = fun(x, y, a=pm.Constant(a))  # positional values given, but a keyword is deferred: a Function
    ctx.ok(isinstance(H, type), "decorated-constant-defers")
    f.add_kwarg(b=b + 1)
    ctx.ok(f(x, y, params={"nm_a": a}) == (x, y, a, b + 1), "add-kwarg")
    ctx.ok(f(x, y, a=None, params={"nm_a": a}) == (x, y, None, b + 1), "explicit-none")
    two = fun(a=a, b=b)("nm")
    two.add_kwarg(a=a + 2)
    ctx.ok(two(x, y) == (x, y, a + 2, b), "add-kwarg-keeps-others", str(two(x, y)))
    hy = fun(a=pm.Normal(mu=pm.Uniform(0, 1), sigma=pm.Uniform(1, pmax=pm.Normal(5, 0.1))), b=pm.Constant(3.0))("nm")
    ctx.ok([q.name for q in hy.params] == ["nm_a", "nm_a_mu", "nm_a_sigma", "nm_a_sigma_pmax"], "hyperparameter-names", str([q.name for q in hy.params]))
    out = fun(a=fun(a=pm.Normal(mu=pm.Uniform(0, 1), sigma=pm.Uniform(1, 2)), x=x, y=y))("nm")
    ctx.ok({q.name for q in out.params} == {"nm_a_a", "nm_a_a_mu", "nm_a_a_sigma"}, "nested-hyperparameter-names", str([q.name for q in out.params]))

    @function
    def att(toas, psr, scale=1.0):
        return (psr.name, toas[0] * scale)

    one, other = P.plain(rng, "J0001", n=4, npar=1), P.plain(rng, "J0002", n=4, npar=1)
    g = att(scale=pm.Uniform(0, 9))("nm", psr=one)
    s = float(rng.randint(9))
    ctx.ok(g(params={"nm_scale": s}) == ("J0001", one.toas[0] * s), "own-pulsar")
    ctx.ok(g(psr=other, params={"nm_scale": s}) == ("J0002", other.toas[0] * s), "explicit-pulsar", str(g(psr=other, params={"nm_scale": s})))
    ctx.ok(g(params={"nm_scale": s}) == ("J0001", one.toas[0] * s), "own-pulsar-again")


def attributes(ctx, rng):
    """Pulsar attributes reach the arguments of their name wherever these stand in the signature, masked per TOA (also inside flags)."""
    from enterprise.signals import parameter as pm

    n = rng.randint(4, 14)
    psr = P.plain(rng, "J0007", n=n, npar=1)
    if rng.rand() < 0.3:
        psr.flags = {k: v.astype(object) for k, v in psr.flags.items()}
    call = rng.rand() < 0.3
    if call:  # attributes may be methods
        r = psr.residuals
        psr.residuals = lambda: r
    ATTR = ["toas", "freqs", "flags", "pos", "name", "residuals", "Mmat", "theta", "backend_flags", "pdist"]
    args = [a for a in ATTR if rng.rand() < 0.4] + [k for k in ("u", "v", "w") if rng.rand() < 0.5]
    args = [args[i] for i in rng.permutation(len(args))] or ["toas"]
    nreq = rng.randint(1, len(args) + 1)
    req, opt = args[:nreq], args[nreq:]
    got = []
    env = {"got": got}
    exec("def f({}):\n    got.append(dict(locals()))\n    return 1.0\n".format(", ".join(req + ["{}={!r}".format(a, "default_" + a) for a in opt])), env)
    bind, expl = {}, {}
    for a in args:
        u = rng.rand()
        if a in ("u", "v", "w") and a in req:
            (bind if u < 0.5 else expl)[a] = float(rng.randint(100))
        elif a in ("u", "v", "w"):
            if u < 0.6:
                (bind if u < 0.3 else expl)[a] = float(rng.randint(100))
        elif u < 0.1 and a != "name":  # `name` is the Function's own name
            bind[a] = "bound"
        elif u < 0.2:
            expl[a] = "explicit"
    f = pm.Function(env["f"], **bind)("pre", psr=psr)
    mask = (rng.rand(n) < 0.5) if rng.rand() < 0.6 else None
    kw = dict(expl)
    if mask is not None:
        kw["mask"] = mask
        ctx.event("masked")

    def m(v):
        if isinstance(v, dict):
            return {k: m(x) for k, x in v.items()}
        return v[mask] if mask is not None and isinstance(v, np.ndarray) and len(v) == n else v

    want = {}
    for a in args:
        if a in expl:
            want[a] = expl[a]
        elif a in bind:
            want[a] = bind[a]
        elif a in ATTR:
            v = getattr(psr, a)
            want[a] = m(v() if callable(v) else v)
        else:
            want[a] = "default_" + a
    ctx.sig(args, nreq, sorted(bind), sorted(expl), mask is not None)
    f(**kw)
    ctx.event("calls")
    g = got[0]

    def eq(x, y):
        if isinstance(x, dict) or isinstance(y, dict):
            return isinstance(x, dict) and isinstance(y, dict) and set(x) == set(y) and all(eq(x[k], y[k]) for k in x)
        return same(x, y)

    bad = [a for a in args if a not in g or not eq(g[a], want[a])]
    ctx.ok(not bad, "attribute-arguments", "{} received other values".format(bad), args=args, nreq=nreq, bind=bind, explicit=expl, masked=mask is not None)


SCENARIOS = {"resolution": (resolution, 1500, 20000), "library": (library, 700, 6000), "decorator": (decorator, 40, 200), "attributes": (attributes, 800, 8000)}
