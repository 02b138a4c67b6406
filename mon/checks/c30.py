"""C30: what cannot be computed is refused, never answered with something else."""
import os
import shutil
import tempfile

import numpy as np

from .. import model as M, psr as P, ref
from . import c01, c04

PROP = "C30"
RULE = ("a case asks for something the library does or may not support, next to the same request in its supported form: several ECORR kernels of random methods in random order with other noise and marginalised "
        "timing models, solves with one- and two-dimensional operands, the partition inversion of random correlated arrays, explicit coefficients of common processes without a span or without a joint prior, samples and "
        "hypercube transforms without sampler or inverse, functions without a required argument, selections of attributes the pulsar lacks, sums with things that are no signals, unknown methods and removed functions, pulsars "
        "from files without a timing package; the answer must be an exception (of the documented type where one is documented) or the exact value, and the supported form must be exact; distinct = description of the request")
ASSUMPTIONS = ["neither libstempo nor PINT is installed (as in this environment; where a stand-in is present its absence is simulated)",
               "any exception counts as a refusal where no type is documented"]
REQUIRE = {"kernels-refused": 40, "kernels-exact": 40, "shape-refused": 10, "shape-exact": 300, "partition-refused": 10, "partition-exact": 10, "coefficients": 40, "prior-refused": 60,
           "function-refused": 60, "compose-refused": 40, "near-method": 30, "loader-refused": 60, "common-refused": 20, "selection-refused": 30}


def attempt(fn):
    try:
        return fn(), None
    except Exception as e:
        return None, e


def kernels(ctx, rng):
    q = c04.epochpsr(rng, rng.randint(8, 30))
    q.toas = np.sort(q.toas)
    k = rng.randint(1, 4)
    same = rng.rand() < 0.5
    m0 = M.pick(rng, M.METHODS)
    ecs = [M.EC(M.pick(rng, [None, "backend", "half"]), m0 if same else M.pick(rng, M.METHODS), name="e%d" % i) for i in range(k)]
    comps = [M.MN(M.pick(rng, [None, "backend"]))] + ecs
    if rng.rand() < 0.3:
        comps.append(M.TNEQ(None))
    comps += [M.RN(2, "pl", None, 5 * M.YR)] if rng.rand() < 0.6 else []
    marg = rng.rand()
    if marg < 0.25:
        comps.append(M.TM("normed", marg=True))
    elif marg < 0.6:
        comps.append(M.TM("normed"))
    if not any(c.kind in ("RN", "TM") for c in comps):
        comps.append(M.RN(2, "pl", None, 5 * M.YR))
    comps = [comps[i] for i in rng.permutation(len(comps))]
    m = M.Model([q], comps)
    ctx.sig(m.desc())
    p = c01.draw(ctx, m, rng)
    want = m.lnl(p)
    v, e = attempt(lambda: m.pta().get_lnlikelihood(dict(p)))
    if e is not None:
        ctx.event("kernels-refused")
        ctx.ok(k > 1, "single-kernel-accepted", repr(e), model=m.desc())
        return
    ctx.event("kernels-exact")
    ctx.ok(np.ndim(v) == 0, "kernels-scalar", repr(v)[:200], model=m.desc())
    if np.ndim(v) == 0:
        ctx.close(float(v), want, "kernels-exact-or-refused", rtol=1e-8, atol=1e-5, scale=c01.scale(m, p, 0), model=m.desc())


def shapes(ctx, rng):
    """Noise solves with operands of any dimension."""
    q = c04.epochpsr(rng, rng.randint(5, 25))
    n = len(q.toas)
    comps = [M.MN()] + ([M.EC(None, M.pick(rng, M.METHODS))] if rng.rand() < 0.8 else [])
    m = M.Model([q], comps)
    p = c01.draw(ctx, m, rng)
    pta = m.pta()
    Ki = np.linalg.inv(m.N(0, p))
    nd = pta.get_ndiag(p)[0]
    for _ in range(8):
        def operand():
            return rng.randn(*M.pick(rng, [(n,), (n, 1), (n, rng.randint(2, 5))]))

        r = operand()
        left = None if rng.rand() < 0.25 else operand()
        logdet = rng.rand() < 0.3
        ctx.sig(comps[-1].desc(), r.shape, None if left is None else left.shape)
        got, e = attempt(lambda: nd.solve(r, left_array=left, logdet=logdet))
        if e is not None:
            ctx.event("shape-refused")
            ctx.ok(left is None and r.ndim == 2 and len(comps) > 1, "supported-solve-accepted", repr(e), shapes=(r.shape, None if left is None else left.shape), model=m.desc())
            continue
        if logdet:
            got, ld = got
            ctx.close(ld, -np.linalg.slogdet(Ki)[1], "logdet", rtol=1e-10, atol=1e-8)
        ctx.event("shape-exact")
        want = Ki @ r
        if left is not None:
            want = left.T @ want if not (left.ndim == 1 and r.ndim == 2) else r.T @ (Ki @ left)
        sc = np.max(np.abs(Ki)) * np.max(np.abs(r)) * (1 if left is None else n * np.max(np.abs(left)))
        ctx.close(np.reshape(got, np.shape(want)), want, "shape-exact-or-refused", rtol=1e-10, scale=sc, model=m.desc(), shapes=(r.shape, None if left is None else left.shape))


def partition(ctx, rng):
    """Likelihoods with the partition method: refused, or those of the dense covariance."""
    qs = [P.plain(rng, "J%d" % i, n=rng.randint(6, 14), npar=2) for i in range(rng.randint(2, 4))]
    m = M.random_model(rng, qs, common=rng.randint(1, 3), det=False)
    p = c01.draw(ctx, m, rng)
    ctx.sig(m.desc())
    pta = m.pta()
    try:
        a = float(pta.get_lnlikelihood(dict(p), phiinv_method="partition"))
    except NotImplementedError:
        ctx.event("partition-refused")
        simple = len({id(c) for cs in m.comps for c in cs if c.common}) == 1 and all(c.kind in ("MN", "TNEQ", "EC", "TM", "CGP") for cs in m.comps for c in cs) and not any(c.kind == "CGP" and c.basis == "dense" for cs in m.comps for c in cs)
        ctx.ok(not simple, "partition-supported", "one common signal refused", model=m.desc())
    else:
        ctx.event("partition-exact")
        b = float(pta.get_lnlikelihood(dict(p)))
        sc = sum(c01.scale(m, p, i) for i in range(len(qs)))
        if np.isfinite(b):
            ctx.close(a, b, "partition-exact-or-refused", rtol=1e-7, atol=1e-4, scale=sc, model=m.desc())
        else:
            ctx.ok(not np.isfinite(a) and not np.isnan(a), "partition-exact-or-refused", "{} against {}".format(a, b), model=m.desc())
    for bad in ("", "dense", "Cliques", None):
        ctx.raises(NotImplementedError, lambda: pta.get_phiinv(p, method=bad), "unknown-method", repr(bad))
        ctx.raises(NotImplementedError, lambda: pta.get_lnlikelihood(dict(p), phiinv_method=bad), "unknown-method", repr(bad))
    sig = [s for s in pta.pulsarmodels[0].signals if s.signal_type == "common basis"][0]
    ctx.event("common-refused")
    ctx.raises(RuntimeError, lambda: sig.get_phiinv(p), "common-phiinv-refused")


def coefficients(ctx, rng):
    """Explicit coefficients of common processes."""
    from enterprise.signals import gp_signals as g, parameter as pm, signal_base, utils, white_signals as w

    qs = [P.plain(rng, "J%d" % i, n=rng.randint(6, 14), npar=2) for i in range(rng.randint(1, 4))]
    nf, T = rng.randint(1, 5), 5 * M.YR
    orf = M.pick(rng, [utils.hd_orf, utils.dipole_orf, utils.monopole_orf])()
    spec = lambda: utils.powerlaw(log10_A=pm.Uniform(-15, -13)("gw_log10_A"), gamma=pm.Constant(4.0)("gw_gamma"))
    kw = {}
    if rng.rand() < 0.4:
        kw["logf"] = True
    if rng.rand() < 0.3:
        kw["name"] = "gw"
    if rng.rand() < 0.4:
        kw["fmin"] = 10.0 ** rng.uniform(-9, -8.5)
    if rng.rand() < 0.4:
        kw["fmax"] = 10.0 ** rng.uniform(-8, -7)
    if rng.rand() < 0.3:
        kw = dict({k: v for k, v in kw.items() if k == "name"}, modes=np.sort(rng.uniform(1e-9, 1e-7, nf)))
    if rng.rand() < 0.3:
        kw["combine"] = bool(rng.rand() < 0.5)
    ctx.sig(nf, len(qs), sorted(kw))
    ctx.event("coefficients")
    ctx.raises(ValueError, lambda: g.FourierBasisCommonGP(spec(), orf, coefficients=True, components=nf, **kw), "coefficients-need-span")
    s = w.MeasurementNoise(efac=pm.Constant(1.0)) + g.FourierBasisCommonGP(spec(), orf, coefficients=True, components=nf, Tspan=T, **kw)
    pta = signal_base.PTA([s(q) for q in qs])
    names = [x.name for x in pta.params if x.name.endswith("coefficients")]
    ctx.ok(len(names) == len(qs), "coefficient-parameters", str(names))
    p = {"gw_log10_A": -14.0}
    for n in names:
        p[n] = 1e-7 * rng.randn(2 * nf)
    # the joint prior of correlated coefficients is not implemented: it must not be replaced by something else
    ctx.raises(NotImplementedError, lambda: pta.get_lnprior(p), "common-coefficient-prior-refused")
    for par in pta.params:
        if par.name in names:
            ctx.raises(NotImplementedError, lambda: par.get_logpdf(params=p), "common-coefficient-prior-refused")
            ctx.raises(AttributeError, lambda: par.sample(params={}), "coefficient-sample-refused")
    f = ref.freqs(nf, T, kw.get("logf", False), kw.get("fmin"), kw.get("fmax"), kw.get("modes"))
    want = 0.0
    for q, n in zip(qs, [next(x for x in names if x.startswith(q.name)) for q in qs]):
        d = ref.fourier(q.toas, f) @ p[n]
        r = q.residuals - d
        want += -0.5 * np.sum((r / q.toaerrs) ** 2) - np.sum(np.log(q.toaerrs))
    ctx.close(float(pta.get_lnlikelihood(p)), want, "coefficient-likelihood", rtol=1e-9, atol=1e-6)


def timing(ctx, rng):
    from enterprise.signals import gp_signals as g, signal_base, white_signals as w, parameter as pm, utils

    q = P.plain(rng, "J0", n=rng.randint(8, 20), npar=rng.randint(1, 4))
    ctx.sig(len(q.toas))
    norm = M.pick(rng, [False, None, 0, np.ones(q.Mmat.shape[1])])
    for fn in (g.TimingModel, g.MarginalizingTimingModel):
        ctx.raises(ValueError, lambda: fn(use_svd=True, normed=norm), "svd-unnormed-refused", repr(norm))
    forms = [dict(use_svd=bool(rng.rand() < 0.5)) for _ in range(rng.randint(2, 4))]
    sigs = [w.MeasurementNoise(efac=pm.Constant(1.0))] + [g.MarginalizingTimingModel(name="m%d" % i, **f) for i, f in enumerate(forms)]
    sigs = [sigs[i] for i in rng.permutation(len(sigs))]
    s = sigs[0]
    for x in sigs[1:]:
        s = s + x
    ctx.raises(ValueError, lambda: signal_base.PTA([s(q)]).get_lnlikelihood({}), "several-marginalised-models-refused")


def priors(ctx, rng):
    """Samples, densities and transforms that were not provided."""
    from enterprise.signals import gp_signals as gs, parameter as pm, signal_base, white_signals as w

    @pm.function
    def tri(value, width=1.0):
        return np.where(np.abs(value) < width, (1 - np.abs(value) / width) / width, 0.0)

    def draw(width, size=None):
        return width * (np.random.uniform(size=size) - np.random.uniform(size=size))

    @pm.function
    def inv(value, width=1.0):
        return np.where(np.asarray(value) < 0.5, width * (np.sqrt(2 * np.asarray(value)) - 1), width * (1 - np.sqrt(2 - 2 * np.asarray(value))))

    sampler, ppf = rng.rand() < 0.5, rng.rand() < 0.5
    size = None if rng.rand() < 0.5 else rng.randint(1, 4)
    wd = rng.uniform(0.5, 3)
    make = lambda: pm.UserParameter(prior=tri(width=wd), sampler=(lambda width, size=None: draw(wd, size)) if sampler else None, ppf=inv(width=wd) if ppf else None, size=size)
    par = make()("J0_efac")
    ctx.sig(sampler, ppf, size)
    q = P.plain(rng, "J0", n=8, npar=2)
    other = pm.Uniform(0, 1)("aaa"), pm.Uniform(0, 1)("zzz")
    ctx.event("prior-refused")
    if not sampler:
        ctx.raises(AttributeError, lambda: par.sample(), "no-sampler")
        ctx.raises(AttributeError, lambda: pm.sample([other[0], par, other[1]]), "no-sampler")
        ctx.raises(AttributeError, lambda: pm.sample(par), "no-sampler")
    s = w.MeasurementNoise(efac=make()) + gs.TimingModel() if size is None else None
    if not ppf:
        ctx.raises(NotImplementedError, lambda: par.get_ppf(0.3), "no-ppf")
        if s is not None:
            pta = signal_base.PTA([s(q)])
            ctx.raises(NotImplementedError, lambda: pta.get_hypercube_transform([0.3]), "no-ppf")
            ctx.raises(NotImplementedError, lambda: pta.get_hypercube_transform({"J0_efac": 0.3}), "no-ppf")
    elif s is not None:
        pta = signal_base.PTA([s(q)])
        u = rng.rand()
        ctx.close(pta.get_hypercube_transform([u]), [float(inv(width=wd)("x")(u))], "ppf-used", rtol=1e-12)
    # a parameter class without any density
    class Bare(pm.Parameter):
        _size, _sampler, _typename = None, None, "Bare"

    ctx.raises(AttributeError, lambda: Bare("x"), "no-density")
    # correlated normal: the transform of a vector is not implemented, its density and samples are
    k = rng.randint(2, 4)
    A = rng.randn(k, k)
    n = pm.Normal(mu=np.zeros(k), sigma=A @ A.T + np.eye(k), size=k)("vec")
    ctx.raises(NotImplementedError, lambda: n.get_ppf(np.full(k, 0.4)), "covariance-ppf")
    ctx.ok(np.shape(n.sample()) == (k,), "covariance-sample", "")


def functions(ctx, rng):
    from enterprise.signals import parameter as pm, signal_base, white_signals as w, deterministic_signals as ds, gp_signals as g, utils
    from enterprise.signals import selections as se

    q = P.plain(rng, "J0", n=rng.randint(6, 12), npar=2)
    a, b = rng.uniform(1, 2, 2)

    @pm.function
    def wave(toas, amp, phase, off=0.25):
        return amp * np.sin(toas / 1e7 + phase) + off

    kw = {"amp": a, "phase": b}
    drop = M.pick(rng, ["amp", "phase", "both", "none"])
    given = {k: v for k, v in kw.items() if drop == "none" or (drop != "both" and k != drop)}
    obj = {k: (pm.Constant(v) if rng.rand() < 0.5 else pm.Uniform(0, 3)) for k, v in given.items()}
    ctx.sig(drop, {k: v.__name__ for k, v in obj.items()})
    ctx.event("function-refused")
    f = wave(**obj)("w", psr=q)
    params = {"w_" + k: v for k, v in given.items()}
    if drop == "none":
        ctx.close(f(params=params), a * np.sin(q.toas / 1e7 + b) + 0.25, "function-complete", rtol=1e-12)
    else:
        ctx.raises(TypeError, lambda: f(params=params), "missing-argument")
        sig = ds.Deterministic(wave(**obj), name="sig")
        pta = signal_base.PTA([(w.MeasurementNoise(efac=pm.Constant(1.0)) + sig)(q)])
        full = {n: given[n.rsplit("_", 1)[1]] for n in pta.param_names}
        ctx.raises(TypeError, lambda: pta.get_lnlikelihood(full), "missing-argument")
    # an attribute that the pulsar does not have
    @pm.function
    def needs(toas, no_such_column):
        return toas * no_such_column

    ctx.raises(Exception, lambda: needs()("n", psr=q)(params={}), "missing-attribute")

    def by_missing(no_such_column):
        return {"x": no_such_column > 0}

    ctx.event("selection-refused")
    sel = se.Selection(by_missing)
    ctx.raises(Exception, lambda: w.MeasurementNoise(efac=pm.Constant(1.0), selection=sel)(q), "selection-missing-attribute")
    fl = "flag%d" % rng.randint(5)

    def by_flag(flags):
        return {v: flags[fl] == v for v in np.unique(flags[fl])}

    ctx.raises(KeyError, lambda: w.MeasurementNoise(efac=pm.Constant(1.0), selection=se.Selection(by_flag))(q), "selection-missing-flag")


class Junk(object):
    pass


def compose(ctx, rng):
    """Sums with things that are no signals, unknown methods, removed functions."""
    from enterprise.signals import gp_signals as g, parameter as pm, signal_base, utils, white_signals as w, gp_bases

    q = P.plain(rng, "J0", n=8, npar=2)
    s1, s2 = w.MeasurementNoise(efac=pm.Constant(1.0)), g.TimingModel()
    col = s1 + s2
    junk = M.pick(rng, [0, 1, 3.5, "s", None, [s1], (s2,), Junk(), q, s1(q), pm.Uniform(0, 1), col(q), np.ones(3)])
    ctx.sig(type(junk).__name__)
    ctx.event("compose-refused")
    for left in (s1, col):
        ctx.raises(TypeError, lambda: left + junk, "sum-with-no-signal", repr(type(junk)))
    v = "".join(M.pick(rng, list("abcdefs-")) for _ in range(rng.randint(0, 9)))
    if v not in M.METHODS:
        ctx.raises(TypeError, lambda: w.EcorrKernelNoise(method=v), "unknown-ecorr-method", v)
        ctx.raises(TypeError, lambda: w.EcorrKernelNoise(log10_ecorr=pm.Constant(-7), method=v.upper()), "unknown-ecorr-method", v)
    # almost a method: refused, or that method
    real = M.pick(rng, M.METHODS)
    near = M.pick(rng, [real.upper(), real.title(), real + " ", " " + real, real.replace("-", "_") + ("s" if "-" not in real else ""), real[:-1], real.replace("-", ""), real + "-" + real])
    if near not in M.METHODS:
        z = c04.epochpsr(rng, 14)
        lnl = lambda m: float(signal_base.PTA([(w.MeasurementNoise(efac=pm.Constant(1.0)) + w.EcorrKernelNoise(log10_ecorr=pm.Constant(-6.0), method=m))(z)]).get_lnlikelihood({}))
        got, e = attempt(lambda: lnl(near))
        ctx.event("near-method")
        if e is None:
            ctx.close(got, lnl(real), "near-method-exact-or-refused", rtol=1e-8, atol=1e-5, method=near)
    ctx.raises(NotImplementedError, lambda: w.EquadNoise(), "removed")
    ctx.raises(NotImplementedError, lambda: w.EquadNoise(log10_equad=pm.Uniform(-8, -5)), "removed")
    ctx.raises(NotImplementedError, lambda: gp_bases.createfourierdesignmatrix_eph(q.toas, 3, 0.1, 0.2), "removed")
    nd = signal_base.PTA([(s1 + g.MarginalizingTimingModel())(q)]).get_ndiag({})[0]
    for r, left in ((np.ones(8), None), (np.ones((8, 2)), None), (np.ones((8, 2)), np.ones(8)), (np.ones((8, 2, 2)), np.ones((8, 2, 2)))):
        ctx.raises(Exception, lambda: nd.solve(r, left_array=left), "marginalised-solve-refused")


def loader(ctx, rng):
    """Pulsars from files when no timing package is there."""
    from enterprise import pulsar as pl

    root = tempfile.mkdtemp(prefix="mon-c30-")
    cwd = os.getcwd()
    keep = pl.t2, pl.pint
    pl.t2 = pl.pint = None
    try:
        sub = os.path.join(root, "d%d" % rng.randint(9)) if rng.rand() < 0.7 else root
        os.makedirs(sub, exist_ok=True)
        par, tim = os.path.join(sub, "a.par"), os.path.join(root if rng.rand() < 0.5 else sub, "a." + M.pick(rng, ["tim", "toa"]))
        for f in (par, tim):
            with open(f, "w") as h:
                h.write("FORMAT 1\nx 1400 54000 1 gbt\n")
        if rng.rand() < 0.4:
            os.chdir(root)
            par, tim = os.path.relpath(par), os.path.relpath(tim)
        here = os.getcwd()
        args = [par, tim] if rng.rand() < 0.5 else [tim, par]
        pk = M.pick(rng, [None, "tempo2", "pint", "Tempo2", "PINT", "pulsar", ""])
        ctx.sig(pk, os.path.isabs(par), os.path.dirname(tim) == os.path.dirname(par))
        ctx.event("loader-refused")
        ctx.raises(ValueError, lambda: pl.Pulsar(*args, **({} if pk is None and rng.rand() < 0.5 else {"timing_package": pk})), "no-timing-package", repr(pk))
        ctx.ok(os.getcwd() == here, "directory-restored", os.getcwd())
        for bad in (["x" + par[1:], tim], [par, tim[:-1] + "x.tim"]):
            ctx.raises(OSError, lambda: pl.Pulsar(*bad), "missing-file", str(bad))
        for bad in ([], [par], [tim], [par, par], [par + "x", tim], [par, tim + "x"], [3, None]):
            ctx.raises(ValueError, lambda: pl.Pulsar(*bad), "incomplete-arguments", str(bad))
        ctx.raises(Exception, lambda: pl.Pulsar(os.path.join(root, "none.feather")), "missing-file")
        ctx.ok(os.getcwd() == here, "directory-restored", os.getcwd())
    finally:
        pl.t2, pl.pint = keep
        os.chdir(cwd)
        shutil.rmtree(root)


def setup(ctx):
    import enterprise.pulsar  # noqa: F401


SCENARIOS = {"kernels": (kernels, 200, 3000), "shapes": (shapes, 100, 1500), "partition": (partition, 60, 800), "coefficients": (coefficients, 40, 500), "timing": (timing, 30, 300), "priors": (priors, 80, 800),
             "functions": (functions, 80, 800), "compose": (compose, 60, 500), "loader": (loader, 80, 800)}
