"""C13: conditional means and draws of GP coefficients against the dense Gaussian conditional."""
import itertools

import numpy as np
import scipy.linalg as sl

from .. import model as M, psr as P, ref
from .c01 import draw
from ..core import size as tail

PROP = "C13"
RULE = ("a case is a random model without column sharing (GPs with selections, varying bases, dense priors, basis ECORR, timing model, common processes, kernels with ECORR, deterministic "
        "delays, pulsars without basis) and hyperparameters; means, processes and whitened samples of ConditionalGP and get_coefficients are compared with the dense conditional "
        "distribution under every algebra option, and the SVD fallback is exercised by an injected failure; distinct = distinct (model, options)")
ASSUMPTIONS = ["no columns shared between signals (documented requirement; sharing must be rejected) and no marginalising timing model",
               "sample covariances are judged at 7 standard errors on at least 1500 draws"]
REQUIRE = {"mean-coefficients": 500, "sample-covariance": 120, "mean-processes": 300, "svd-fallback": 10, "explicit-coefficients": 40, "generator": 100, "no-basis": 40}


class Post(object):
    """Dense conditional: per pulsar and component slices into the coefficient vector."""

    def __init__(self, m, p, pta=None, ctx=None):
        self.m = m
        n = [len(q.toas) for q in m.psrs]
        off = np.concatenate([[0], np.cumsum(n)]).astype(int)
        cols, self.slc, self.names = [], {}, {}
        tot = 0
        phis = []
        com = {}
        for i, (q, comps) in enumerate(zip(m.psrs, m.comps)):
            for c in comps:
                F = None
                if c.common:
                    F, phi = c.cblock(q, p)
                    com.setdefault(id(c), (c, []))[1].append((i, tot, phi))
                    phi = None
                elif c.kind == "TM":
                    F = c.tm(q)
                    if c.form == "svd" and pta is not None:  # orientation within the column space is free
                        G = [np.array(s.get_basis(p)) for s in pta.pulsarmodels[i].signals if "timing_model" in s.name][0]
                        ctx.close(G.T @ G, np.eye(F.shape[1]), "svd-basis-orthonormal", rtol=1e-9)
                        ctx.close(F @ (F.T @ G), G, "svd-basis-spans-design-matrix", rtol=1e-6)
                        F = G
                    phi = np.full(F.shape[1], 1e40)
                else:
                    bl = c.blocks(q, p)
                    if c.kind in ("RN", "CHROM", "ECB", "DENSE") and not getattr(c, "coefficients", False):
                        F = np.concatenate([b[1] for b in bl], axis=1) if bl else np.zeros((n[i], 0))
                        phi = sl.block_diag(*[np.diag(b[2]) if np.ndim(b[2]) == 1 else b[2] for b in bl]) if F.shape[1] else np.zeros((0, 0))
                if F is None:
                    continue
                G = np.zeros((off[-1], F.shape[1]))
                G[off[i]:off[i + 1]] = F
                cols.append(G)
                self.slc[i, id(c)] = slice(tot, tot + F.shape[1])
                self.names[i, id(c)] = q.name + "_" + (c.name if c.kind != "TM" else ("linear_timing_model" + ("_svd" if c.form == "svd" else "")))
                phis.append((tot, phi))
                tot += F.shape[1]
        self.T = np.concatenate(cols, axis=1)
        inv = np.zeros((tot, tot))
        for a, phi in phis:
            if phi is None:
                continue
            k = len(phi)
            if k:
                inv[a:a + k, a:a + k] = np.diag(1.0 / phi) if np.ndim(phi) == 1 else np.linalg.inv(phi)
        for c, members in com.values():
            G = np.array([[c.corr(m.psrs[i], m.psrs[j], p) for j, _, _ in members] for i, _, _ in members])
            Gi = np.linalg.inv(G)
            phi = members[0][2]
            pi = np.diag(1.0 / phi) if np.ndim(phi) == 1 else np.linalg.inv(phi)
            for (x, (i, a, _)), (y, (j, b, _)) in itertools.product(enumerate(members), enumerate(members)):
                inv[a:a + len(pi), b:b + len(pi)] += Gi[x, y] * pi
        N = sl.block_diag(*[m.N(i, p) for i in range(len(n))])
        r = np.concatenate([m.res(i, p) for i in range(len(n))])
        c = sl.cho_factor(N)
        self.S = self.T.T @ sl.cho_solve(c, self.T) + inv
        self.b = self.T.T @ sl.cho_solve(c, r)
        self.d = np.sqrt(np.diag(self.S))
        self.Sn = self.S / np.outer(self.d, self.d)
        e = np.linalg.eigvalsh(self.S) if tot else np.ones(1)
        self.raw = float(e[-1] / e[0]) if e[0] > 0 else np.inf  # conditioning without column scaling, which the SVD paths see
        self.eig = float(np.linalg.eigvalsh(self.Sn)[0]) if tot else 1.0
        self.L = np.linalg.cholesky(self.Sn) if self.eig > 1e-13 else None
        if self.L is not None:
            self.mean = sl.cho_solve((self.L, True), self.b / self.d) / self.d

    def white(self, v):
        """deviation from the mean in units of the posterior: standard normal for exact draws."""
        return self.L.T @ (self.d * (v - self.mean))

    def vector(self, ctx, out, suffix="_coefficients"):
        v = np.full(self.T.shape[1], np.nan)
        for k, s in self.slc.items():
            name = self.names[k] + suffix
            if not ctx.ok(name in out, "own-coefficients", "{} missing from {}".format(name, sorted(out))):
                return None
            if not ctx.ok(np.shape(out[name]) == (s.stop - s.start,), "own-coefficients", "{} has shape {}, expected {}".format(name, np.shape(out[name]), s.stop - s.start)):
                return None
            v[s] = out[name]
        return v


class EX(M.Comp):
    """A process with explicit coefficients: not conditioned on the data, its delay is subtracted."""

    kind = "EX"

    def __init__(self, c):
        self.c, self.name, self.sel, self.ps = c, c.name, c.sel, c.ps
        c.coefficients = True

    def build(self):
        return self.c.build()

    def prefixes(self, psr):
        return self.c.prefixes(psr)

    def consts(self, psr):
        return self.c.consts(psr)

    def params(self, psr):
        ps = self.c.params(psr)
        p = {n: s.value if s.value is not None else s.draw(np.random.RandomState(0)) for n, s in ps}
        return ps + [(pre + "_coefficients", M.PS("coefficients", -3e-7, 3e-7, size=F.shape[1])) for (_, pre), (_, F, _) in zip(self.prefixes(psr), self.c.blocks(psr, p))]

    def delay(self, psr, p):
        return sum(F @ p[pre + "_coefficients"] for (_, pre), (_, F, _) in zip(self.prefixes(psr), self.c.blocks(psr, p)))

    def desc(self):
        return "EX" + self.c.desc()


def psr(rng, name, lo=8, hi=22):
    return P.plain(rng, name, n=tail(rng, lo, hi, 100, 0.02), npar=rng.randint(1, 4), cluster=rng.choice([0, 2, 3]), nback=rng.randint(1, 3), sort=rng.rand() < 0.7)


def model(rng, kind):
    """model without shared columns; kind: 'single', 'several', 'common'."""
    qs = [psr(rng, "J%04d" % i) for i in range(1 if kind == "single" else rng.randint(2, 5))]
    T = 5 * M.YR

    def one():
        comps = M.random_white(rng) + M.random_gps(rng, T, n=rng.randint(0 if kind == "common" else 1, 4))
        seen = 0
        out = []
        for c in comps:
            if hasattr(c, "combine"):
                c.combine = False
            if c.kind == "ECB":
                seen += 1
                if seen > 1:
                    continue
            out.append(c)
        if rng.rand() < 0.6:
            out.append(M.TM(M.pick(rng, ["normed", "unnormed", "svd"])))
        if rng.rand() < 0.3:
            out.append(M.SINE(M.pick(rng, [None, "half"])))
        out = M.fix_spans(qs, M.vary_params(rng, out), T)
        if rng.rand() < 0.3:  # one process with explicit coefficients
            k = [j for j, c in enumerate(out) if c.kind in ("RN", "CHROM") and all(mk.any() for q in qs for mk in ref.masks(c.sel, q).values())]
            if k and len([c for c in out if isinstance(c, M.GP)]) > 1:
                k = k[rng.randint(len(k))]
                out[k] = EX(out[k])
        return out

    per = rng.rand() < 0.4
    lists = [one() for _ in qs] if per else [one()] * len(qs)
    com = []
    if kind == "common":
        for k in range(rng.randint(1, 3)):
            com.append(M.CGP(rng.randint(1, 4), M.pick(rng, ["pl", "fs"]), M.pick(rng, ["hd", "hd", "user", "dipole"]), T=T, combine=False,
                             basis=M.pick(rng, ["red", "red", "chrom", "dense"]), vary=rng.rand() < 0.5, name="gw%d" % k))
            if com[-1].basis == "dense":
                com[-1].orf = M.pick(rng, ["hd"])
                com[-1].ops = []
    out = []
    bare = rng.randint(0, len(qs)) if kind != "single" and rng.rand() < 0.3 else -1
    for i in range(len(qs)):
        comps = list(lists[i]) + com
        if i == bare and len(qs) > 2:
            comps = [c for c in comps if c.kind in ("MN", "TNEQ", "EC")]
        comps = [comps[j] for j in rng.permutation(len(comps))] if per else comps
        out.append(comps)
    if not any(c.kind in ("RN", "CHROM", "ECB", "DENSE", "TM", "CGP") for cs in out for c in cs):
        out[0] = out[0] + [M.RN(3, name="fallback", combine=False)]
    return M.Model(qs, out)


def point(ctx, m, rng, pta):
    for _ in range(30):
        p = draw(ctx, m, rng, 1e8)
        post = Post(m, p, pta, ctx)
        if post.eig > 1e-9:
            return p, post
        ctx.event("ill-conditioned-point-redrawn")
    from ..core import Abort

    raise Abort()


def means(ctx, rng, m, pta, p, post, methods):
    from enterprise.signals import utils

    common = any(c.common for cs in m.comps for c in cs)
    tol = dict(rtol=0, atol=1e-5 * (1 + np.max(np.abs(post.L.T @ (post.d * post.mean)), initial=0)) + 1e-10 / post.eig)

    size = np.max(np.abs(post.L.T @ (post.d * post.mean)), initial=0)

    def cmp(out, key, extra=0.0, **kw):
        v = post.vector(ctx, out)
        if v is not None:
            ctx.close(post.white(v), np.zeros(len(v)), key, model=m.desc(), rtol=0, atol=tol["atol"] + extra * (1 + size), **kw)

    for meth in methods:
        cg = utils.ConditionalGP(pta, phiinv_method=meth)
        out = cg.get_mean_coefficients(p)
        ctx.event("mean-coefficients")
        cmp(out, "mean", via="ConditionalGP " + meth)
        ctx.ok(set(out) == {x + "_coefficients" for x in post.names.values()}, "own-coefficients", "{}".format(sorted(out)))
        proc = cg.get_mean_processes(p)
        ctx.event("mean-processes")
        off = np.concatenate([[0], np.cumsum([len(q.toas) for q in m.psrs])]).astype(int)
        for (i, cid), s in post.slc.items():
            name = post.names[i, cid]
            if ctx.ok(name in proc, "own-process", "{} missing from {}".format(name, sorted(proc))):
                F = post.T[off[i]:off[i + 1], s]
                ctx.close(proc[name], F @ out[name + "_coefficients"], "process-is-basis-times-coefficients", rtol=1e-7,
                          scale=np.sum(np.abs(F) @ np.abs(out[name + "_coefficients"])) + 1e-30, name=name)
        for sparse in ([False, True] if common else [False]):
            before = dict(p)
            if not sparse and post.raw > 1e11:
                ctx.event("badly-scaled-basis-skipped-for-svd")
                continue
            g = utils.get_coefficients(pta, p, phiinv_method=meth, variance=False, common_sparse=sparse)
            cmp({k: v for k, v in g.items() if k not in p}, "mean-get_coefficients", extra=0 if sparse else 1e-14 * post.raw, via="{} sparse={}".format(meth, sparse))
            ctx.ok(all(k in g and np.array_equal(g[k], p[k]) for k in p) and p == before if not any(np.ndim(x) for x in p.values()) else all(k in g for k in p),
                   "parameters-passed-through", "")


def samples(ctx, rng, m, pta, p, post, fn, key, n=1500):
    outs = fn(n)
    ctx.ok(len(outs) == n, "number-of-draws", "{} draws, asked for {}".format(len(outs), n))
    vs = []
    for o in outs:
        v = post.vector(ctx, o)
        if v is None:
            return
        vs.append(post.white(v))
    z = np.array(vs)
    d = z.shape[1]
    if d == 0:
        return
    ctx.event("sample-covariance")
    se = 7.0 / np.sqrt(n)
    slack = 1e-10 / post.eig + 1e-4
    mean = z.mean(axis=0)
    ctx.ok(np.max(np.abs(mean)) < se + slack, key + "-mean", "largest whitened mean {:.3f}, allowed {:.3f}".format(np.max(np.abs(mean)), se), model=m.desc())
    C = z.T @ z / n
    lim = se * np.where(np.eye(d) > 0, np.sqrt(2.0), 1.0) + 30.0 / n
    worst = np.max(np.abs(C - np.eye(d)) / (lim + slack))
    ctx.ok(worst < 1, key + "-covariance", "whitened covariance off by {:.2f} of the allowance".format(worst), model=m.desc())
    # Gaussian, not just the right covariance
    k4 = np.mean(z**4)
    ctx.ok(abs(k4 - 3.0) < 8 * np.sqrt(96.0 / (n * d)) + 0.05, key + "-gaussian", "fourth moment {:.3f}".format(k4))


def run(ctx, rng, kind, draws=True):
    from enterprise.signals import utils

    m = model(rng, kind)
    pta = m.pta()
    common = kind == "common"
    ctx.sig(kind, m.desc())
    methods = ["cliques", "sparse"] if common else ["cliques"]
    ncom = len({c.name for cs in m.comps for c in cs if c.common})
    for k in range(2):
        p, post = point(ctx, m, rng, pta)
        if any(c.kind == "EX" for cs in m.comps for c in cs):
            ctx.event("explicit-coefficients")
        means(ctx, rng, m, pta, p, post, methods)
    if not draws:
        return
    meth = M.pick(rng, methods)
    cg = utils.ConditionalGP(pta, phiinv_method=meth)
    samples(ctx, rng, m, pta, p, post, lambda n: cg.sample_coefficients(p, n=n), "draws")
    sparse = bool(common and rng.rand() < 0.5)
    if sparse or post.raw < 1e10:
        samples(ctx, rng, m, pta, p, post, lambda n: utils.get_coefficients(pta, p, n=n, phiinv_method=meth, common_sparse=sparse), "draws-get_coefficients")
    # draws follow from the state of the generator, advance it, and depend on it
    n, seeds = rng.randint(1, 9), rng.choice(10**6, 2, replace=False)
    flat = lambda xs: np.concatenate([np.ravel(x[k]) for x in xs for k in sorted(x)])  # noqa: E731
    np.random.seed(seeds[0])
    a1, st1 = flat(cg.sample_coefficients(p, n=n)), np.random.rand(4)
    a2 = flat(cg.sample_coefficients(p, n=n))
    np.random.seed(seeds[1])
    b1, st2 = flat(cg.sample_coefficients(p, n=n)), np.random.rand(4)
    np.random.seed(seeds[0])
    a3 = flat(cg.sample_coefficients(p, n=n))
    ctx.event("generator", 1)
    ctx.ok(np.array_equal(a1, a3), "draws-reproducible", "same generator state, different draws", model=m.desc())
    ctx.ok(not np.any(a1 == b1) and not np.any(a1 == a2) and not np.any(st1 == st2), "draws-follow-generator", "draws do not depend on the state of the generator", model=m.desc(), n=n)
    k = M.pick(rng, [1, 2, 2, 2, 3, 150])
    np.random.seed(5)
    a = cg.sample_coefficients(p, n=k)
    np.random.seed(5)
    b = cg.sample_processes(p, n=k)
    ctx.ok(len(a) == len(b) == k, "number-of-draws", "{} and {} instead of {}".format(len(a), len(b), k), model=m.desc())
    a, b = a[:2] + a[2:][-1:], b[:2] + b[2:][-1:]
    off = np.concatenate([[0], np.cumsum([len(q.toas) for q in m.psrs])]).astype(int)
    for x, y in zip(a, b):
        for (i, cid), s in post.slc.items():
            nm = post.names[i, cid]
            F = post.T[off[i]:off[i + 1], s]
            ctx.close(y[nm], F @ x[nm + "_coefficients"], "process-is-basis-times-coefficients", rtol=1e-7, scale=np.sum(np.abs(F) @ np.abs(x[nm + "_coefficients"])) + 1e-30)


def single(ctx, rng):
    run(ctx, rng, "single")


def several(ctx, rng):
    run(ctx, rng, "several")


def common(ctx, rng):
    run(ctx, rng, "common")


def fallback(ctx, rng):
    """The decomposition fails (injected) and the fallback algebra is used: same distribution."""
    from enterprise.signals import utils

    m = model(rng, "single")
    pta = m.pta()
    p, post = point(ctx, m, rng, pta)
    if post.raw > 1e10:
        return
    ctx.sig(m.desc())
    real = utils.sl.svd
    calls = [0]

    def svd(*a, **k):
        calls[0] += 1
        if calls[0] % 2 == 1:
            raise np.linalg.LinAlgError("injected: SVD did not converge")
        return real(*a, **k)

    utils.sl.svd = svd
    try:
        def fn(n):
            calls[0] = 0
            return utils.get_coefficients(pta, p, n=n)

        def mean():
            calls[0] = 0
            return utils.get_coefficients(pta, p, variance=False)

        try:
            g = mean()
        except np.linalg.LinAlgError:
            ctx.event("failure-reported")  # reporting the failure is fine as well
            return
        if calls[0] == 0:
            ctx.event("no-svd-used")
        ctx.event("svd-fallback")
        v = post.vector(ctx, g)
        if v is not None:
            ctx.close(post.white(v), np.zeros(len(v)), "mean-fallback", rtol=0, atol=1e-4 * (1 + np.max(np.abs(post.L.T @ (post.d * post.mean)), initial=0)) + 1e-9 / post.eig)
        samples(ctx, rng, m, pta, p, post, fn, "draws-fallback")
    finally:
        utils.sl.svd = real


def tm_params(ctx, rng):
    """Individual timing-model parameters by name."""
    from enterprise.signals import utils

    q = psr(rng, "J1", 12, 24)
    q.Mmat, q.fitpars = P.design(rng, q.toas, q.freqs, rng.randint(2, 6))
    out = None
    if rng.rand() < 0.5:
        out = sorted(int(i) for i in rng.permutation(len(q.fitpars))[: rng.randint(1, len(q.fitpars))])
    comps = [M.MN("backend"), M.RN(3, combine=False), M.TM(M.pick(rng, ["normed", "unnormed"]), out)]
    m = M.Model([q], [comps[i] for i in rng.permutation(3)])
    pta = m.pta()
    p, post = point(ctx, m, rng, pta)
    has = [x for i, x in enumerate(q.fitpars) if i not in (out or [])]
    ask = [has[i] for i in rng.permutation(len(has))[: rng.randint(1, len(has) + 1)]]
    ctx.sig(ask, out)
    cg = utils.ConditionalGP(pta, tm_params=ask, psr=q)
    F = m.tm(0)
    for a in [cg.get_mean_coefficients(p)] + cg.sample_coefficients(p, n=2):
        full = a["J1_linear_timing_model_coefficients"]
        for x in ask:
            ctx.ok(a.get("J1_%s_coefficients" % x) == full[has.index(x)], "named-timing-parameter", x)
    full = cg.get_mean_coefficients(p)["J1_linear_timing_model_coefficients"]
    b = cg.get_mean_processes(p)
    for x in ask:
        k = has.index(x)
        ctx.close(b.get("J1_" + x, np.nan), F[:, k] * full[k], "named-timing-process", rtol=1e-9)
    if out:
        gone = q.fitpars[out[0]]
        ctx.raises(ValueError, lambda: utils.ConditionalGP(pta, tm_params=ask + [gone], psr=q).get_mean_coefficients(p), "excluded-timing-parameter")
    if rng.rand() < 0.3:
        svd = M.Model([q], [M.MN("backend"), M.TM("svd")]).pta()
        ctx.raises(ValueError, lambda: utils.ConditionalGP(svd, tm_params=ask, psr=q).get_mean_coefficients(p), "svd-timing-parameter")
    ctx.raises(ValueError, lambda: utils.ConditionalGP(pta, tm_params=ask).get_mean_coefficients(p), "tm_params-needs-psr")


def explicit(ctx, rng):
    """A GP with explicit coefficients next to marginalised ones: the delay is removed, the others are conditioned."""
    from enterprise.signals import utils

    q = psr(rng, "J1", 10, 20)
    T = 5 * M.YR
    e = M.RN(3, "pl", None, 1.3 * T, name="exp", coefficients=True)
    g = M.RN(4, "pl", M.pick(rng, [None, "half"]), T, name="rn", combine=False)
    rest = [M.MN(), M.TM()]
    order = [e, g] if rng.rand() < 0.5 else [g, e]
    m = M.Model([q], rest[:1] + order + rest[1:])
    pta = m.pta()
    p = m.draw(rng)
    c = 1e-7 * rng.randn(6)
    p["J1_exp_coefficients"] = c
    import copy

    s = copy.copy(q)
    f = [k / (1.3 * T) for k in (1, 2, 3)]
    from .. import ref

    s.residuals = q.residuals - ref.fourier(q.toas, f) @ c
    mm = M.Model([s], [rest[0], g, rest[1]])
    post = Post(mm, p)
    if post.eig < 1e-9:
        return
    ctx.sig(m.desc())
    tol = dict(rtol=0, atol=1e-5 * (1 + np.max(np.abs(post.L.T @ (post.d * post.mean)), initial=0)) + 1e-10 / post.eig)
    for out in (utils.ConditionalGP(pta).get_mean_coefficients(p), utils.get_coefficients(pta, p, variance=False)):
        v = post.vector(ctx, out)
        if v is not None:
            ctx.close(post.white(v), np.zeros(len(v)), "mean-next-to-explicit", **tol)


def nothing(ctx, rng):
    """pulsars without any basis: there is nothing to draw"""
    from enterprise.signals import utils

    qs = [psr(rng, "J%04d" % i) for i in range(rng.randint(1, 4))]
    m = M.Model(qs, [M.random_white(rng) for _ in qs])
    if any(c.kind not in ("MN", "TNEQ", "EC") for cs in m.comps for c in cs):
        return
    pta = m.pta()
    p = draw(ctx, m, rng, 1e9)
    ctx.sig("nothing", m.desc())
    for n in (1, rng.randint(2, 5)):
        q = dict(p)
        out = utils.get_coefficients(pta, q, n=n)
        out = [out] if n == 1 else out
        ctx.event("no-basis")
        ctx.ok(len(out) == n and all(o == p for o in out) and q == p, "draws-without-basis", "{} for {}".format(out, n), model=m.desc())
        ctx.ok(len({id(o) for o in out} | {id(q)}) == n + 1, "draws-are-copies", "")


def shared_columns(ctx, rng):
    """Signals that share columns cannot be told apart: rejected, not silently mixed."""
    from enterprise.signals import utils

    qs = [psr(rng, "J%d" % i) for i in range(rng.randint(1, 3))]
    T = 5 * M.YR
    comps = [M.MN(), M.RN(3, "pl", None, T, name="a"), M.RN(rng.randint(3, 6), "pl", None, T, name="b")]
    if len(qs) > 1 and rng.rand() < 0.6:
        comps[2] = M.CGP(4, "pl", "hd", T=T)
    m = M.Model(qs, comps)
    pta = m.pta()
    p = m.draw(rng)
    ctx.sig(m.desc())
    ctx.raises(IndexError, lambda: utils.ConditionalGP(pta).get_mean_coefficients(p), "shared-columns-rejected")
    ctx.raises(IndexError, lambda: utils.get_coefficients(pta, p), "shared-columns-rejected")


SCENARIOS = {"single": (single, 90, 1500), "several": (several, 50, 800), "common": (common, 90, 1500), "fallback": (fallback, 24, 400), "tm_params": (tm_params, 30, 300),
             "explicit": (explicit, 30, 300), "shared_columns": (shared_columns, 16, 200),
             "nothing": (nothing, 40, 400)}
