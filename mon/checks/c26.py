"""C26: failures are reported cleanly and leave no trace (fault injection into the real code)."""
import copy
import itertools
import os
import sys

import numpy as np

from .. import library as L, model as M, psr as P
from ..core import VERIF, digest
from . import c01, c03, c24

PROP = "C26"
RULE = ("a case is a history of public calls on 1-3 arrays in which a share of the calls is made to fail: an exception is raised on entry to the k-th "
        "function or builtin called by the package (or to the k-th user function: delay, basis, prior, correlation), or a parameter is missing, None "
        "or a string; every call that does not fail is compared with a model built from scratch; or a signal class whose application to a pulsar "
        "fails at the k-th call and is applied again; or a parametrised correlation or prior matrix that is positive definite at some "
        "points and not at others; distinct = distinct failing site and call sequence")
ASSUMPTIONS = ["positive definiteness is required to be recognised when the smallest eigenvalue of the scaled matrix is beyond 1e-6 in size; singular matrices within rounding are left out, "
               "except exactly singular ones",
               "a missing parameter may take the default of the function it is bound to (C09); only the prior must reject it",
               "exceptions are injected on entry to functions of the package, user functions and numpy/scipy/sksparse builtins, not between bookkeeping statements nor in operator methods, where numpy discards them",
               "parameters of a wrong array shape are left out: the third-party fast Sherman-Morrison extension reads out of bounds for them"]
REQUIRE = {"fault-fired": 300, "user-fault-fired": 60, "fault-sites": 40, "fresh-compare": 1500, "not-pd-point": 200, "pd-point": 100, "pd-value-compared": 60, "bad-params": 150,
           "not-pd-sigma-pd": 20, "construct-fault-fired": 60, "singular-sigma": 20}

ENT = os.path.join("/repo", "enterprise") + os.sep
MON = os.path.join(VERIF, "mon") + os.sep


class Boom(Exception):
    pass


class Ctrl(BaseException):
    """like KeyboardInterrupt"""


class Injector(object):
    """Counts calls made inside the package, raises at the k-th."""

    def __init__(self, k=None, user=False, exc=Boom):
        self.k, self.user, self.exc, self.n, self.site, self.inst = k, user, exc, 0, None, None

    def __call__(self, frame, event, arg):
        if event == "call":
            f = frame.f_code.co_filename
            if f.startswith(ENT):
                kind = "call"
            elif f.startswith(MON) and not f.endswith("c26.py") and frame.f_back is not None and frame.f_back.f_code.co_filename.startswith(ENT):
                kind = "user"
            else:
                return
            name = frame.f_code.co_name
            if name.startswith("__") and name != "__call__":  # numpy's operator protocol discards exceptions there
                return
        elif event == "c_call":
            mod = getattr(arg, "__module__", None) or type(getattr(arg, "__self__", None)).__module__
            if not frame.f_code.co_filename.startswith(ENT) or mod.split(".")[0] not in ("numpy", "scipy", "sksparse", "fastshermanmorrison"):
                return
            kind, name = "builtin", frame.f_code.co_name + ">" + getattr(arg, "__name__", "?")
        else:
            return
        if self.user and kind != "user":
            return
        self.n += 1
        if self.n == self.k:
            self.site = (kind, os.path.basename(frame.f_code.co_filename), name)
            self.inst = self.exc("injected")
            raise self.inst

    def __enter__(self):
        sys.setprofile(self)
        return self

    def __exit__(self, *a):
        sys.setprofile(None)


def clone(p):
    return {n: (v.copy() if np.ndim(v) else v) for n, v in p.items()}


def fail(ctx, rng, fn, count, key, **d):
    """Runs fn with an injected failure at a random call; returns the site, None if it did not fire."""
    user = rng.rand() < 0.4
    exc = Ctrl if rng.rand() < 0.3 else Boom
    k = int(np.ceil(np.exp(rng.uniform(0, np.log(max(2, 12 if user else count))))))
    if rng.rand() < 0.5 and not user:
        k = rng.randint(1, max(2, count))
    inj = Injector(k, user, exc)
    raised = None
    try:
        with inj:
            fn()
    except (Boom, Ctrl) as e:
        raised = e
    except Exception as e:
        ctx.ok(False, "exception-reaches-caller", "{!r} instead of the exception raised in {}".format(e, inj.site), site=inj.site, **d)
        return inj.site
    if inj.site is None:
        return None
    ctx.ok(raised is inj.inst, "exception-reaches-caller", "the exception raised in {} was swallowed".format(inj.site), site=inj.site, **d)
    ctx.event("fault-fired" if key == "eval" else key + "-fault-fired")
    if inj.site[0] == "user":
        ctx.event("user-fault-fired")
    ctx.fsites.add(inj.site)
    return inj.site


def bad_params(ctx, rng, pta, p, op, **d):
    q = clone(p)
    names = sorted(x.name for x in pta.params)
    if not names:
        return None
    n = names[rng.randint(len(names))]
    how = M.pick(rng, ["missing", "missing", "none", "string"])
    if how == "missing":
        q.pop(n)
    elif how == "none":
        q[n] = None
    else:
        q[n] = "abc"
    ctx.event("bad-params")
    ctx.raises(Exception, lambda: pta.get_lnprior(q), "prior-rejects", "parameter {} {}".format(n, how), **d)
    try:
        c03.call(pta, op, q)
    except Exception:
        ctx.event("bad-params-raised")
    return (n, how)


def history(ctx, rng):
    ctx.fsites = set()
    w = c03.World(rng)
    m0 = w.spec[0][0]
    if rng.rand() < 0.6:  # make user functions frequent
        extra = [M.SINE(M.pick(rng, [None, "half"]), name="us"), M.DENSE(combine=bool(rng.rand() < 0.5), name="usd")][: rng.randint(1, 3)]
        if len(m0.psrs) > 1 and rng.rand() < 0.6:
            extra.append(M.CGP(3, "pl", "user", name="usg"))
        w.spec[0] = (M.Model(m0.psrs, [cs + extra for cs in m0.comps]), w.spec[0][1])
    psr_digest = [digest(vars(q)) for q in w.psrs]
    live = w.build(w.psrs)
    labels = sorted(live)
    pts = {}
    for lab in labels:
        base = lab.rstrip("ds")
        if base not in pts:
            pts[base] = c03.points(ctx, rng, live[base], w)
    inj = Injector()
    scratch = w.build([copy.deepcopy(q) for q in w.psrs])
    counts = {}
    for lab in labels:
        try:
            with Injector() as inj:
                scratch[lab].get_lnlikelihood(clone(pts[lab.rstrip("ds")][0]))
        except Exception:
            pass
        counts[lab] = max(20, inj.n)
    memo, trace, after = {}, [], 0
    for _ in range(rng.randint(16, 34)):
        lab = labels[rng.randint(len(labels))]
        pta, base = live[lab], lab.rstrip("ds")
        k = rng.randint(len(pts[base]))
        p = clone(pts[base][k])
        ops = c03.vec_ops(pta)
        d = dict(array=lab, model=w.spec[int(lab[1])][0].desc(), extra=w.spec[int(lab[1])][1], trace=trace[-8:])
        u = rng.rand()
        op = "lnl" if rng.rand() < 0.6 else ops[rng.randint(len(ops))]
        if u < 0.4:
            site = fail(ctx, rng, lambda: c03.call(pta, op, p), counts[lab], "eval", op=op, **d)
            trace.append((lab, k, op, "fault", site))
            after = 3
            continue
        if u < 0.5:
            trace.append((lab, k, op, "bad", bad_params(ctx, rng, pta, p, op, **d)))
            after = 3
            continue
        if op not in ("lnl", "lnl-vector") and after and rng.rand() < 0.4:
            op = "lnl"
        after = max(0, after - 1)
        try:
            got = c03.call(pta, op, p)[0]
        except Exception as e:
            got = [("raised", type(e).__name__)]
        trace.append((lab, k, op))
        if (lab, k, op) not in memo:
            fresh = w.build([copy.deepcopy(q) for q in w.psrs], only=lab)[lab]
            try:
                memo[lab, k, op] = c03.call(fresh, op, clone(p))[0]
            except Exception as e:
                memo[lab, k, op] = [("raised", type(e).__name__)]
        want = memo[lab, k, op]
        ctx.event("fresh-compare")
        if isinstance(want[0], tuple) or isinstance(got[0], tuple):
            ctx.ok(got == want, "fresh-model", "{} where a fresh model gives {}".format(str(got)[:200], str(want)[:200]), op=op, **d)
            continue
        c03.compare(ctx, got, want, "fresh-model", op=op, point=k, step=len(trace), **d)
    ctx.ok([digest(vars(q)) for q in w.psrs] == psr_digest, "pulsars-unchanged", "a failed evaluation changed a pulsar")
    ctx.event("fault-sites", len(ctx.fsites))
    ctx.sig(trace)


def construct(ctx, rng):
    """Applying a signal class to a pulsar fails, then is done again."""
    from enterprise.signals import signal_base

    ctx.fsites = set()
    psrs = [P.plain(rng, "J%04d" % k, n=rng.randint(8, 16), npar=3, cluster=rng.choice([0, 2.5])) for k in range(rng.randint(1, 4))]
    m = M.random_model(rng, psrs, common=rng.randint(0, 3) if len(psrs) > 1 else 0, marg=True)
    extra = [("ephem", rng.randint(1 << 30))] if rng.rand() < 0.3 else []

    def classes(mm):
        mm._built = {}
        for c in {c for cs in mm.comps for c in cs}:
            for s in getattr(c, "ps", ()):
                s._i = None
        cl = [mm.cls(c) for c in mm.comps]
        for name, seed in extra:
            a = getattr(L, name)(np.random.RandomState(seed))
            cl = [a + c for c in cl]
        return cl

    before = [digest(vars(q)) for q in psrs]
    fresh = signal_base.PTA([c(q) for c, q in zip(classes(m), [copy.deepcopy(q) for q in psrs])])
    cl = classes(m)
    with Injector() as inj:
        cl[0](copy.deepcopy(psrs[0]))
    count, scs, trace = max(inj.n, 10), [], []
    for c, q in zip(cl, psrs):
        for _ in range(rng.randint(1, 4)):
            trace.append(fail(ctx, rng, lambda: c(q), count, "construct", model=m.desc()))
        scs.append(c(q))
    for _ in range(2):
        trace.append(fail(ctx, rng, lambda: signal_base.PTA(scs), 200, "construct", model=m.desc()))
    pta = signal_base.PTA(scs)
    ctx.ok([q.name for q in pta.params] == [q.name for q in fresh.params], "names-after-failed-construction", model=m.desc(), trace=trace)
    for p in L.sample(rng, fresh, 3):
        c03.compare(ctx, c03.call(pta, "lnl", p)[0], c03.call(fresh, "lnl", p)[0], "after-failed-construction", model=m.desc(), trace=trace, extra=extra)
        ctx.event("fresh-compare")
    ctx.ok([digest(vars(q)) for q in psrs] == before, "pulsars-unchanged", "a failed construction changed a pulsar")
    ctx.event("fault-sites", len(ctx.fsites))
    ctx.sig(trace, m.desc())


# ------------------------------------------------------------------ matrices that are not positive definite
class WILD(M.CGP):
    """Common process whose parametrised correlation need not be positive definite."""

    kind = "CGP"

    def __init__(self, how, *a, **kw):
        M.CGP.__init__(self, *a, **kw)
        self.how, self.orf = how, "user"
        self.ops = [M.PS("rho", -1.6, 1.6)]

    def build(self):
        from enterprise.signals import gp_signals as g

        o = self.ops[0].obj()
        orf = _wild(self.how)(rho=o)
        if self.basis == "red":
            return g.FourierBasisCommonGP(M.spectrum_obj(self.spec, self.ps), orf, components=self.nf, Tspan=self.T, combine=self.combine, name=self.name)
        b, k = M._fixed_nodes_basis(self.nodes()), M._enterprise_fns()[1]
        return g.BasisCommonGP(k(**{s.kw: s.obj() for s in self.ps}), b(), orf, combine=self.combine, name=self.name)

    def corr(self, p1, p2, p):
        if p1 is p2 or np.array_equal(p1.pos, p2.pos):
            return 1.0
        v = self.ops[0].get(p, self.name)
        c = float(np.dot(p1.pos, p2.pos))
        return float(v * {"flat": 1.0, "cos": c, "step": np.sign(c)}[self.how])


def _wild(how):
    from enterprise.signals.parameter import function

    @function
    def wild_orf(pos1, pos2, rho=0.0):
        if np.all(pos1 == pos2):
            return 1.0
        c = float(np.dot(pos1, pos2))
        return rho * {"flat": 1.0, "cos": c, "step": np.sign(c)}[how]

    return wild_orf


def mineig(a):
    d = np.sqrt(np.abs(np.diag(a)))
    return float(np.linalg.eigvalsh(a / np.outer(d, d))[0])


def judge(ctx, rng, m, ptas, p, eig, expect_methods, **d):
    """-inf if eig < 0, the exact density otherwise."""
    if abs(eig) < 1e-6:
        ctx.event("borderline-skipped")
        return
    want, sc = None, None
    if eig > 1e-3 and c01.dynamic(m, p) < 1e9 and min(m.conditioning(i, p) for i in range(len(m.psrs))) > 3e-11:
        want, sc = m.lnl(p), sum(c01.scale(m, p, i) for i in range(len(m.psrs)))
        ctx.event("pd-value-compared")
    for lab, pta in ptas:
        for meth in expect_methods:
            try:
                got = float(np.asarray(pta.get_lnlikelihood(clone(p), phiinv_method=meth)))
            except Exception as e:
                ctx.ok(False, "no-exception", "{} {} raised {!r}, smallest eigenvalue {:.3g}".format(lab, meth, e, eig), params=p, **d)
                continue
            if eig < 0:
                ctx.ok(got == -np.inf, "not-pd-reported", "{} {} returned {} with smallest eigenvalue {:.3g}".format(lab, meth, got, eig), params=p, **d)
            elif want is not None:
                ctx.close(got, want, "pd-value", rtol=1e-7, atol=1e-4, scale=sc, msg=lab + " " + meth, params=p, **d)
            else:  # beyond double precision: a value or -inf
                ctx.ok(not np.isnan(got) and got != np.inf, "never-nan", "{} {} returned {}".format(lab, meth, got), params=p, **d)
    ctx.event("not-pd-point" if eig < 0 else "pd-point")


def notpd(ctx, rng):
    from enterprise.signals import signal_base

    k = rng.randint(2, 5)
    psrs = [P.plain(rng, "J%04d" % i, n=rng.randint(8, 18), npar=3) for i in range(k)]
    T = 5 * M.YR
    comps = M.random_white(rng)
    nf = rng.randint(2, 5)
    dense = rng.rand() < 0.2
    g = WILD(M.pick(rng, ["flat", "cos", "step"]), nf, "pl", T=T, basis="dense" if dense else "red", combine=bool(rng.rand() < 0.6))
    rn = None
    if rng.rand() < 0.5:
        rn = M.RN(nf, "pl", None, T, combine=g.combine, name="red_noise")
        rn.ps[0].lo, rn.ps[0].hi = -16, -12
        comps.append(rn)
    if rng.rand() < 0.6:
        comps.append(M.TM(M.pick(rng, ["normed", "svd"])))
    m = M.Model(psrs, comps + [g])
    ptas = [("sparse-cholesky", m.pta(fresh=True)), ("dense-cholesky", m.pta(fresh=False, lnlikelihood=signal_base.LogLikelihoodDenseCholesky))]
    ctx.sig(m.desc(), g.how, k)
    amp = not dense
    for _ in range(5):
        p = m.draw(rng)
        if amp:
            p[g.ps[0].name("gw")] = rng.uniform(-15.5, -6.5) if rng.rand() < 0.7 else rng.uniform(-9, -6)
        G = np.array([[g.corr(a, b, p) for b in psrs] for a in psrs])
        if rn is not None and g.combine and not dense:
            _, phi = g.cblock(psrs[0], p)
            own = [rn.prior_ref(np.repeat(np.arange(1, nf + 1) / T, 2), p, M.join(q.name, "red_noise")) for q in psrs]
            eig = min(mineig(G * phi[j] + np.diag([o[j] for o in own])) for j in range(len(phi)))
        else:
            eig = mineig(G)
        if eig < -1e-6 and sigma_pd(m, g, p):
            ctx.event("not-pd-sigma-pd")
        methods = ["cliques", "sparse"] + ([] if dense else ["partition"])
        judge(ctx, rng, m, ptas, p, eig, methods, model=m.desc(), corr=G)


def sigma_pd(m, g, p):
    """Is T^T N^-1 T large against the prior? (then only the prior matrix reveals the problem)"""
    return p.get("gw_log10_A", -20) > -9


def denseprior(ctx, rng):
    """Correlated coefficients of one pulsar's process, |rho| > 1 is not a covariance."""
    from enterprise.signals import signal_base

    k = rng.randint(1, 4)
    psrs = [P.plain(rng, "J%04d" % i, n=rng.randint(8, 18), npar=3) for i in range(k)]
    T = 5 * M.YR
    d = c24.FDENSE(rng.randint(1, 4), T, sel=M.pick(rng, [None, None, "half", "backend"]), combine=bool(rng.rand() < 0.5))
    d.ps[1] = M.PS("rho", -1.5, 1.5)
    comps = M.random_white(rng) + [d]
    if rng.rand() < 0.5:
        comps.append(M.RN(3, "pl", None, T * 1.01, combine=False))
    if rng.rand() < 0.5:
        comps.append(M.TM(M.pick(rng, ["normed", "svd"])))
    if k > 1 and rng.rand() < 0.5:
        comps.append(M.CGP(2, "pl", M.pick(rng, ["hd", "user"]), T * 1.03, combine=False))
    m = M.Model(psrs, comps)
    ptas = [("sparse-cholesky", m.pta(fresh=True)), ("dense-cholesky", m.pta(fresh=False, lnlikelihood=signal_base.LogLikelihoodDenseCholesky))]
    ctx.sig(m.desc())
    for _ in range(5):
        p = m.draw(rng)
        if rng.rand() < 0.5:
            for n in p:
                if n.endswith("fd_rho"):
                    p[n] = rng.uniform(-0.95, 0.95)
        eig = np.inf
        for q in psrs:
            for pre_mask in d.blocks(q, p):
                phi = pre_mask[2]
                if len(phi):
                    eig = min(eig, mineig(phi))
        if abs(eig) < 1e-3:
            continue
        judge(ctx, rng, m, ptas, p, eig, ["cliques", "sparse"], model=m.desc())


def singular(ctx, rng):
    """Exactly repeated timing-model columns in exact arithmetic: Sigma is singular."""
    from enterprise.signals import gp_signals as g, parameter, signal_base, white_signals
    from enterprise.signals.parameter import function

    common = rng.rand() < 0.6
    k = rng.randint(2, 4) if common else rng.randint(1, 3)
    n = 16
    had = np.array([[(-1.0) ** bin(i & j).count("1") for j in range(n)] for i in range(n)])
    cols = rng.permutation(n)
    a, f = cols[:2], cols[2:2 + rng.randint(1, 4)]
    bad = rng.randint(k)
    psrs = []
    for i in range(k):
        q = P.plain(rng, "J%04d" % i, n=n, npar=3)
        q.toaerrs = np.full(n, 2.0 ** -rng.randint(18, 22))
        c = [had[:, a[0]] * 2.0 ** rng.randint(-3, 4), had[:, a[1]]]
        if i == bad:
            c.append(c[0] * (1 if rng.rand() < 0.5 else 2.0 ** rng.randint(-3, 4)))
        q.Mmat = np.array([c[j] for j in rng.permutation(len(c))]).T
        q.fitpars = ["p%d" % j for j in range(len(c))]
        psrs.append(q)

    @function
    def basis(toas):
        return had[:, f].copy(), np.arange(1.0, len(f) + 1)

    @function
    def prior(f, log10_s=-6):
        return np.full(len(f), 10.0 ** (2 * log10_s))

    @function
    def orf(pos1, pos2):
        return 1.0 if np.all(pos1 == pos2) else 0.25

    pr = prior(log10_s=parameter.Uniform(-8, -5))
    s = white_signals.MeasurementNoise(efac=parameter.Constant(1.0)) + g.TimingModel(use_svd=False, normed=False)
    s = s + (g.BasisCommonGP(pr, basis(), orf(), name="gw") if common else g.BasisGP(pr, basis(), name="gw"))
    for like in (signal_base.LogLikelihood, signal_base.LogLikelihoodDenseCholesky):
        pta = signal_base.PTA([s(q) for q in psrs], lnlikelihood=like)
        for p in L.sample(rng, pta, 2):
            got = float(np.asarray(pta.get_lnlikelihood(p)))
            ctx.event("singular-sigma")
            ctx.ok(got == -np.inf, "singular-sigma", "returned {} with two proportional timing-model columns".format(got), common=common, k=k)
    # the healthy pulsars alone
    rest = [q for i, q in enumerate(psrs) if i != bad]
    if rest:
        pta = signal_base.PTA([s(q) for q in rest])
        p = L.sample(rng, pta, 1)[0]
        ctx.ok(np.isfinite(float(np.asarray(pta.get_lnlikelihood(p)))), "healthy-array-finite")
    ctx.sig(common, k, list(a), list(f), bad)


SCENARIOS = {"history": (history, 260, 3500), "construct": (construct, 80, 1200), "notpd": (notpd, 160, 3000), "denseprior": (denseprior, 40, 700),
             "singular": (singular, 16, 160)}
