"""C12: marginalised timing model - invariance along the design matrix, equivalence of its forms, exclusions."""
import copy

import numpy as np
import scipy.linalg as sl

from .. import model as M, psr as P, ref
from .c01 import draw, scale
from ..core import size as tail

PROP = "C12"
RULE = ("a case is a random model (noise, ECORR kernel, GPs, deterministic signals) on a pulsar with a random or real design matrix, with every timing-model form; residuals are shifted "
        "along included and excluded columns, forms are compared across parameter points with each other and with their closed-form offset, "
        "and the marginalising kernel's solves with the dense projected inverse; distinct = distinct (model, design matrix shape, exclusions)")
ASSUMPTIONS = ["design matrices have full column rank apart from exactly zero columns (which only the normalised and unnormalised forms accept)",
               "shifts up to 100 times the residual scale; tolerances follow from cancellation in double precision"]
REQUIRE = {"shift-invariance": 700, "form-offset": 700, "kernel-solve": 400, "excluded-column-matters": 100, "zero-column": 20, "basis-functions": 100}
FORMS = ["normed", "unnormed", "svd", "marg-normed", "marg-unnormed", "marg-svd", "normed-array"]


class TMX(M.TM):
    """timing model with explicit normalisation vector."""

    def build(self):
        from enterprise.signals import gp_signals as g

        return g.TimingModel(use_svd=False, normed=self.norm, idx_exclude=self.idx)

    def tm(self, psr):
        A = psr.Mmat
        if self.idx:
            A = A[:, [i for i in range(A.shape[1]) if i not in self.idx]]
        return A / self.norm


def tmc(form, rng, idx=None, n=None):
    if form == "normed-array":
        c = TMX("normed", idx)
        c.norm = 10.0 ** rng.uniform(-1, 1, n)
        return c
    if form.startswith("marg-"):
        return M.TM(form[5:], marg=True)
    return M.TM(form, idx)


def data(ctx, rng, lo=10, hi=40):
    if rng.rand() < 0.25:
        return P.real(rng, n=rng.randint(30, 90), npar=rng.randint(2, 10))
    n = tail(rng, lo, hi, 300, 0.02)
    return P.plain(rng, "J0", n=n, npar=rng.randint(1, min(8 if n < 60 else 40, n // 2)), cluster=rng.choice([0, 2, 4]), nback=rng.randint(1, 4), sort=rng.rand() < 0.7)


def rest(rng, q):
    T = float(q.toas.max() - q.toas.min())
    comps = M.random_white(rng) + M.random_gps(rng, T, n=rng.randint(0, 3))
    if rng.rand() < 0.3:
        comps.append(M.SINE(M.pick(rng, [None, "half"])))
    return M.fix_spans([q], comps, T)


def shifted(q, d):
    s = copy.copy(q)
    s.residuals = q.residuals + d
    return s


def point(ctx, m, rng):
    return draw(ctx, m, rng, 1e8)


def invariance(ctx, rng):
    q = data(ctx, rng)
    comps = rest(rng, q)
    form = M.pick(rng, FORMS)
    k = q.Mmat.shape[1]
    idx = None
    if k > 1 and not form.startswith("marg") and rng.rand() < 0.6:
        idx = sorted(int(i) for i in rng.permutation(k)[: rng.randint(1, k)])
    t = tmc(form, rng, idx, k - len(idx or []))
    m = M.Model([q], comps + [t])
    ctx.sig(m.desc(), q.Mmat.shape, idx)
    inc = [i for i in range(k) if i not in (idx or [])]
    if form == "normed" and rng.rand() < 0.3:  # columns in any units
        q.Mmat = q.Mmat * 10.0 ** rng.uniform(-40, 40, k)
        ctx.event("columns-in-any-units")
    nrm = np.sqrt(np.sum(q.Mmat**2, axis=0))
    pta = m.pta()
    s = np.sqrt(np.mean(q.residuals**2))
    for _ in range(2):
        p = point(ctx, m, rng)
        want = m.lnl(p)
        base = float(pta.get_lnlikelihood(p))
        sc = scale(m, p, 0)
        ctx.close(base, want, "value", rtol=2e-8, atol=1e-5, scale=sc, model=m.desc())
        for size in (0.3, 10.0, 100.0):
            c = rng.randn(len(inc)) * size * s * np.sqrt(len(q.toas))
            mm = M.Model([shifted(q, (q.Mmat[:, inc] / nrm[inc]) @ c)], m.comps)
            # the likelihood's terms grow with the shifted residuals; cancellation limits the comparison
            sc2 = scale(mm, p, 0)
            got = float(mm.pta().get_lnlikelihood(p))
            ctx.close(got, base, "shift-invariance", rtol=2e-9, atol=1e-5 + 2e-8 * sc, scale=sc2, form=form, size=size, model=m.desc())
        if idx:
            j = idx[rng.randint(len(idx))]
            mm = M.Model([shifted(q, q.Mmat[:, j] / nrm[j] * s * np.sqrt(len(q.toas)))], m.comps)
            want2 = mm.lnl(p)
            got2 = float(mm.pta().get_lnlikelihood(p))
            ctx.close(got2, want2, "value", rtol=2e-8, atol=1e-5, scale=scale(mm, p, 0), model=m.desc())
            if abs(want2 - want) > 1e-3:
                ctx.event("excluded-column-matters")
                ctx.ok(abs(got2 - base) > 1e-4, "excluded-column", "adding an excluded column left the likelihood unchanged")


def forms(ctx, rng):
    """All forms at several points: the differences are the constants fixed by the column scaling."""
    q = data(ctx, rng)
    comps = rest(rng, q)
    nrm = np.sqrt(np.sum(q.Mmat**2, axis=0))
    A = q.Mmat / nrm
    off = {"normed": 0.0, "unnormed": -np.sum(np.log(nrm)), "svd": 0.5 * np.linalg.slogdet(A.T @ A)[1]}
    off.update({"marg-" + k: v for k, v in list(off.items())})
    ref_m = M.Model([q], comps + [M.TM("normed")])
    ptas = {}
    for f in FORMS:
        t = tmc(f, rng, None, q.Mmat.shape[1])
        if f == "normed-array":
            off[f] = -np.sum(np.log(nrm / t.norm))
        cs = comps + [t]
        ptas[f] = M.Model([q], [cs[i] for i in rng.permutation(len(cs))])
        ptas[f] = ptas[f].pta()
    ctx.sig(ref_m.desc(), q.Mmat.shape)
    for _ in range(3):
        p = point(ctx, ref_m, rng)
        want = ref_m.lnl(p)
        for f in FORMS:
            ctx.close(float(ptas[f].get_lnlikelihood(p)) - want, off[f], "form-offset", rtol=0, atol=2e-5 + 2e-8 * scale(ref_m, p, 0), form=f, model=ref_m.desc())


def excluded(ctx, rng):
    """idx_exclude equals a pulsar without these columns; excluding them all but one, one at a time, in any list order."""
    q = P.plain(rng, "J0", n=rng.randint(12, 30), npar=rng.randint(2, 8), cluster=2, nback=2)
    k = q.Mmat.shape[1]
    comps = rest(rng, q)
    if k < 2:
        return
    idx = [int(i) for i in rng.permutation(k)[: rng.randint(1, k)]]
    f = M.pick(rng, ["normed", "unnormed", "svd"])
    m = M.Model([q], comps + [M.TM(f, idx)])
    s = copy.copy(q)
    s.Mmat = np.ascontiguousarray(np.delete(q.Mmat, idx, axis=1))
    small = M.Model([s], comps + [M.TM(f)])
    ctx.sig(m.desc(), k)
    before = q.Mmat.copy()
    a, b = m.pta(), small.pta()
    for _ in range(2):
        p = point(ctx, m, rng)
        va, vb = float(a.get_lnlikelihood(p)), float(b.get_lnlikelihood(p))
        ctx.close(va, vb, "exclude-equals-drop", rtol=1e-8, atol=1e-5, scale=scale(m, p, 0))
        ctx.close(va, m.lnl(p), "value", rtol=2e-8, atol=1e-5, scale=scale(m, p, 0))
    ctx.same(q.Mmat, before, "design-matrix-untouched")


def zero(ctx, rng):
    """An exactly zero column (a parameter the data do not constrain) changes nothing."""
    q = P.plain(rng, "J0", n=rng.randint(12, 30), npar=rng.randint(1, 6), cluster=2, nback=2)
    comps = rest(rng, q)
    z = copy.copy(q)
    j = rng.randint(0, q.Mmat.shape[1] + 1)
    z.Mmat = np.insert(q.Mmat, j, 0.0, axis=1)
    f = M.pick(rng, ["normed", "unnormed"])
    m = M.Model([q], comps + [M.TM(f)])
    mz = M.Model([z], comps + [M.TM(f)])
    ctx.sig(m.desc(), j)
    a = mz.pta()
    for _ in range(2):
        p = point(ctx, m, rng)
        ctx.event("zero-column")
        ctx.close(float(a.get_lnlikelihood(p)), m.lnl(p), "zero-column-ignored", rtol=2e-8, atol=1e-5, scale=scale(m, p, 0), model=m.desc())


def kernel(ctx, rng):
    """MarginalizingNmat.solve of a pulsar's noise against the dense projected inverse, with the log determinant."""
    q = data(ctx, rng)
    f = M.pick(rng, ["normed", "unnormed", "svd"])
    white = M.random_white(rng)
    m = M.Model([q], white + [M.TM(f, marg=True)])
    p = point(ctx, m, rng)
    pta = m.pta()
    nd = pta.get_ndiag(p)[0]
    ctx.sig(m.desc(), q.Mmat.shape)
    N = m.N(0, p)
    n = len(q.toas)
    c = sl.cholesky(N, lower=True)
    A = m.tm(0)
    Z = sl.solve_triangular(c, A, lower=True)
    Q, R = np.linalg.qr(Z / np.linalg.norm(Z, axis=0))

    def D(x, y):
        a, b = sl.solve_triangular(c, x, lower=True), sl.solve_triangular(c, y, lower=True)
        a, b = a - Q @ (Q.T @ a), b - Q @ (Q.T @ b)
        return a.T @ b

    def full(x, y):
        a, b = sl.solve_triangular(c, x, lower=True), sl.solve_triangular(c, y, lower=True)
        return np.sqrt(np.sum(a * a, axis=0)), np.sqrt(np.sum(b * b, axis=0))

    ld = 2 * np.sum(np.log(np.diag(c))) + 2 * np.sum(np.log(np.abs(np.diag(R)))) + 2 * np.sum(np.log(np.linalg.norm(Z, axis=0))) + A.shape[1] * np.log(1e40)
    for _ in range(3):
        r = 1e-6 * rng.randn(n)
        x = 1e-6 * rng.randn(n)
        T = rng.randn(n, rng.randint(1, 5))
        L = rng.randn(n, rng.randint(1, 4))
        got, gld = nd.solve(r, left_array=r, logdet=True)
        a, b = full(r, r)
        ctx.close(got, D(r, r), "kernel-solve", rtol=1e-7, scale=a * b, msg="rNr")
        ctx.close(nd.solve(r, left_array=r), D(r, r), "kernel-solve", rtol=1e-7, scale=a * b, msg="rNr")
        ctx.close(gld, ld, "kernel-logdet", rtol=1e-9, atol=1e-6)
        sT, sr = full(T, r)
        ctx.close(nd.solve(r, left_array=T), D(T, r), "kernel-solve", rtol=1e-7, scale=np.max(sT) * sr, msg="TNr")
        ctx.close(nd.solve(T, left_array=T), D(T, T), "kernel-solve", rtol=1e-7, scale=np.max(sT) ** 2, msg="TNT")
        sL, _ = full(L, r)
        ctx.close(nd.solve(T, left_array=L), D(L, T), "kernel-solve", rtol=1e-7, scale=np.max(sT) * np.max(sL), msg="LNT")
        # the same objects again, and memoised operands in other roles
        ctx.close(nd.solve(r, left_array=T), D(T, r), "kernel-solve", rtol=1e-7, scale=np.max(sT) * sr, msg="TNr again")
        ctx.close(nd.solve(x, left_array=T), D(T, x), "kernel-solve", rtol=1e-7, scale=np.max(sT) * full(x, x)[0], msg="TNx")
        # orthogonal to the design matrix
        ctx.close(nd.solve(A / np.linalg.norm(A, axis=0), left_array=T), np.zeros((T.shape[1], A.shape[1])), "kernel-annihilates", rtol=1e-7,
                  scale=np.max(sT) * np.max(full(A / np.linalg.norm(A, axis=0), r)[0]))


def array(ctx, rng):
    """Several pulsars with a common process: shifts of each pulsar along its own columns."""
    qs = [P.plain(rng, "J%d" % i, n=rng.randint(8, 18), npar=rng.randint(1, 4), cluster=2) for i in range(rng.randint(2, 4))]
    T = 5 * M.YR
    comps = M.random_white(rng) + [M.CGP(rng.randint(2, 4), "pl", M.pick(rng, ["hd", "user"]), T=T)]
    lists = [comps + [tmc(M.pick(rng, FORMS[:-1]), rng)] for _ in qs]
    m = M.Model(qs, lists)
    ctx.sig(m.desc())
    p = point(ctx, m, rng)
    sh = [shifted(q, (q.Mmat / np.linalg.norm(q.Mmat, axis=0)) @ rng.randn(q.Mmat.shape[1]) * 3e-5) for q in qs]
    mm = M.Model(sh, lists)
    sc = sum(scale(mm, p, i) for i in range(len(qs)))
    base = float(m.pta().get_lnlikelihood(p))
    ctx.close(float(mm.pta().get_lnlikelihood(p)), base, "shift-invariance", rtol=2e-9, atol=1e-4, scale=sc, model=m.desc())
    ctx.close(base, m.lnl(p), "value", rtol=2e-8, atol=1e-4, scale=sc)


def reject(ctx, rng):
    from enterprise.signals import gp_signals as g, signal_base, white_signals as w, parameter as pm

    ctx.sig("reject")
    for fn in (g.TimingModel, g.MarginalizingTimingModel):
        ctx.raises(ValueError, lambda: fn(use_svd=True, normed=False), "svd-unnormed-rejected")
    q = P.plain(rng, "J0", n=12, npar=3)
    s = w.MeasurementNoise(efac=pm.Uniform(0.5, 2)) + g.MarginalizingTimingModel() + g.MarginalizingTimingModel(name="second")
    ctx.raises(ValueError, lambda: signal_base.PTA([s(q)]).get_lnlikelihood({"J0_efac": 1.0}), "two-kernels-rejected")


def bases(ctx, rng):
    """The design-matrix transformations: same column space, columns of the documented scale; the input is not modified."""
    from enterprise.signals import utils

    n = tail(rng, 4, 60, 600)
    k = rng.randint(1, 25 if n < 60 else 80)
    k = min(k, n - 1)
    A = rng.randn(n, k) * 10.0 ** rng.uniform(-12, 3, k)
    ctx.sig(n, k)
    ctx.event("basis-functions")
    B = A.copy()
    nrm = np.sqrt(np.sum(A**2, axis=0))
    ctx.close(utils.create_stabletimingdesignmatrix(A), A / nrm, "stabilised-columns", rtol=1e-13)
    idx = [[], None, sorted(int(i) for i in rng.permutation(k)[: rng.randint(0, k)])][rng.randint(3)]
    inc = [i for i in range(k) if i not in (idx or [])]
    F, w = utils.normed_tm_basis(A, idx_exclude=idx)
    ctx.close(F, (A / nrm)[:, inc], "normed-columns", rtol=1e-13, idx=idx)
    ctx.ok(np.all(np.asarray(w) == 1), "unit-weights")
    given = 10.0 ** rng.uniform(-3, 3, len(inc))
    ctx.close(utils.normed_tm_basis(A, norm=given, idx_exclude=idx)[0] * given, A[:, inc], "given-norm", rtol=1e-13, idx=idx)
    F, w = utils.unnormed_tm_basis(A, idx_exclude=idx)
    ctx.close(F, A[:, inc], "unnormed-columns", rtol=0, idx=idx)
    ctx.ok(np.all(np.asarray(w) == 1), "unit-weights")
    if k < 8:
        A = A / nrm * 10.0 ** rng.uniform(-2, 2)
        B = A.copy()
        for key, F in (("svd", utils.svd_tm_basis(A, idx_exclude=idx)[0]), ("stabilised-svd", utils.create_stabletimingdesignmatrix(A, fastDesign=False))):
            S = A[:, inc] if key == "svd" else A
            ctx.ok(F.shape == S.shape, key + "-shape", "{} {}".format(F.shape, S.shape))
            if F.shape == S.shape and np.linalg.cond(S) < 1e8:
                ctx.close(F.T @ F, np.eye(F.shape[1]), key + "-orthonormal", rtol=0, atol=1e-12, idx=idx)
                ctx.close(F @ (F.T @ S), S, key + "-column-space", rtol=1e-7, idx=idx)
    ctx.same(A, B, "design-matrix-untouched")


SCENARIOS = {"bases": (bases, 150, 3000), "invariance": (invariance, 240, 6000), "forms": (forms, 150, 4000), "excluded": (excluded, 100, 2000), "zero": (zero, 50, 1000), "kernel": (kernel, 100, 2500),
             "array": (array, 60, 1200), "reject": (reject, 2, 3)}
