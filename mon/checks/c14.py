"""C14: models with explicit GP coefficients against the marginalised likelihood."""
import copy

import numpy as np

from .. import model as M, psr as P, ref
from .c01 import draw, scale
from .c13 import Post
from ..core import size as tail

PROP = "C14"
RULE = ("a case is a random model in which a random subset of the GPs (Fourier with any spectrum, chromatic with fixed or varying index, dense prior, basis ECORR, timing model; with selections, "
        "shared and constant hyperparameters) has explicit coefficients; at random coefficients and hyper/basis parameters the delay, the coefficient prior and the identity "
        "lnlikelihood + lnprior(coefficients) - lnposterior(coefficients) = marginal lnlikelihood are checked; distinct = distinct model and explicit subset")
ASSUMPTIONS = ["free hyperparameters have uniform priors, whose density is known", "correlated common processes have no coefficient prior (documented as not implemented): only their delay is checked"]
REQUIRE = {"marginal-identity": 600, "coefficient-prior": 600, "varying-basis": 60, "common-coefficient-delay": 40}
HAS = ("RN", "CHROM", "ECB", "DENSE")


class CTM(M.TM):
    """timing model with explicit coefficients (flat prior)."""

    kind = "CTM"

    def build(self):
        from enterprise.signals import gp_signals as g

        kw = {"normed": dict(use_svd=False, normed=True), "unnormed": dict(use_svd=False, normed=False)}[self.form]
        return g.TimingModel(coefficients=True, idx_exclude=self.idx, **kw)

    def Fc(self, psr):
        return M.TM.tm(self, psr)

    def tm(self, psr):
        return None


def model(ctx, rng):
    qs = [P.plain(rng, "J%04d" % i, n=tail(rng, 8, 22, 150, 0.03), npar=rng.randint(1, 4), cluster=rng.choice([0, 2, 3]), nback=rng.randint(1, 3), sort=rng.rand() < 0.7)
          for i in range(rng.randint(1, 3))]
    T = 5 * M.YR
    gps = M.random_gps(rng, T, n=rng.randint(1, 4))
    if rng.rand() < 0.3:
        gps.append(M.CHROM(rng.randint(2, 4), "pl", M.pick(rng, [None, "half", "backend"]), T, vary=M.varying(rng, 1), name="vb"))
    comps = M.random_white(rng) + gps
    if rng.rand() < 0.3:
        comps.append(M.SINE(None))
    M.vary_params(rng, M.fix_spans(qs, comps, T))
    u = rng.rand()
    tm = None
    if u < 0.35:
        tm = CTM(M.pick(rng, ["normed", "unnormed"]))
    elif u < 0.7:
        tm = M.TM(M.pick(rng, ["normed", "svd"]), marg=rng.rand() < 0.3)
    # basis ECORR without multi-TOA epochs has no columns: leave it marginalised
    for c in gps:
        ok = True
        for q in qs:
            for k, mask in ref.masks(c.sel, q).items():
                if c.kind == "ECB" and not ref.epochs(q.toas[mask]):
                    ok = False
                if not mask.any():
                    ok = False
        c.coefficients = bool(ok and rng.rand() < 0.6)
    comps = comps + ([tm] if tm is not None else [])
    rng.shuffle(comps)
    return M.Model(qs, comps)


def marginalised(m):
    """the same model with all coefficients integrated out."""
    repl = {}
    for c in {c for cs in m.comps for c in cs}:
        d = copy.copy(c)
        if c.kind in HAS:
            d.coefficients = False
        if c.kind == "CTM":
            d = M.TM(c.form, c.idx)
        repl[id(c)] = d
    return M.Model(m.psrs, [[repl[id(c)] for c in cs] for cs in m.comps]), repl


def explicit(m, i, p):
    """[(coefficient name, F on all TOAs, Phi or None)] of the explicit processes of pulsar i."""
    out = []
    q = m.psrs[i]
    for c in m.comps[i]:
        if c.kind in HAS and c.coefficients:
            for (k, pre), (_, F, phi) in zip(c.prefixes(q), c.blocks(q, p)):
                out.append((pre + "_coefficients", F, phi, c))
        elif c.kind == "CTM":
            out.append((q.name + "_linear_timing_model_coefficients", c.Fc(q), None, c))
    return out


def gauss(c, phi):
    if np.ndim(phi) == 1:
        return float(-0.5 * np.sum(c**2 / phi) - 0.5 * np.sum(np.log(phi)) - 0.5 * len(phi) * np.log(2 * np.pi))
    L = np.linalg.cholesky(phi)
    z = np.linalg.solve(L, c)
    return float(-0.5 * z @ z - np.sum(np.log(np.diag(L))) - 0.5 * len(c) * np.log(2 * np.pi))


def identity(ctx, rng):
    m = model(ctx, rng)
    mm, repl = marginalised(m)
    if not any(explicit(m, i, m.draw(rng)) for i in range(len(m.psrs))):
        ctx.event("nothing-explicit")
        return
    pta, marg = m.pta(), mm.pta()
    ctx.sig(m.desc(), [[getattr(c, "coefficients", False) for c in cs] for cs in m.comps])
    if any(c.kind == "CHROM" and c.coefficients and c.vary and (c.idx.free() or (c.span is not None and c.span.free())) for cs in m.comps for c in cs):
        ctx.event("varying-basis")
    hyper = m.params()
    for _ in range(3):
        p = draw(ctx, mm, rng, 1e8)
        post = None
        names = {}
        total_prior = 0.0
        # coefficients: the conditional mean plus a draw of its width (so that all terms are of order one), or zero, or from the prior
        how = rng.randint(0, 3)
        vals = {}
        post = Post(mm, p)
        if post.eig < 1e-8:
            ctx.event("ill-conditioned-point-redrawn")
            continue
        x = post.mean + (np.linalg.solve(post.L.T, rng.randn(len(post.mean))) / post.d if how < 2 else 0)
        condL = []
        for i, q in enumerate(m.psrs):
            for c in m.comps[i]:
                if (i, id(repl[id(c)])) not in post.slc:
                    continue
                s = post.slc[i, id(repl[id(c)])]
                k = s.start
                for n, F, phi, cc in explicit(m, i, p):
                    if cc is c:
                        vals[n] = (k, F.shape[1], F, phi, i)
                        k += F.shape[1]
                if (c.kind in HAS and c.coefficients) or c.kind == "CTM":
                    condL += list(range(s.start, s.stop))
        for n, (k, w, F, phi, i) in vals.items():
            p[n] = x[k:k + w].copy()
        got_names = {q.name for q in pta.params}
        ctx.ok(got_names == set(hyper) | set(vals), "parameter-names", "{} expected {}".format(sorted(got_names), sorted(set(hyper) | set(vals))))
        # the prior may be the first thing evaluated at a point
        early = float(pta.get_lnprior(p)) if rng.rand() < 0.6 else None
        # delays
        for i, q in enumerate(m.psrs):
            want = np.zeros(len(q.toas))
            for n, (k, w, F, phi, j) in vals.items():
                if j == i:
                    want += F @ p[n]
            for c in m.comps[i]:
                want = want + c.delay(q, p)
            ctx.close(np.asarray(pta.get_delay(p)[i], float) + np.zeros(len(q.toas)), want, "delay", rtol=1e-9, scale=np.max(np.abs(want)) + 1e-9)
        # priors
        flat = 0.0
        for n, s in hyper.items():
            flat -= (s.size or 1) * np.log(s.hi - s.lo)
        cprior = sum(gauss(p[n], phi) for n, (k, w, F, phi, i) in vals.items() if phi is not None)
        psize = sum(abs(gauss(p[n], phi)) for n, (k, w, F, phi, i) in vals.items() if phi is not None)
        lp = float(pta.get_lnprior(p))
        ctx.close(lp, flat + cprior, "coefficient-prior", rtol=1e-9, atol=1e-6, scale=psize + abs(flat), model=m.desc(), params=p)
        if early is not None:
            ctx.event("prior-first")
            ctx.close(early, flat + cprior, "coefficient-prior", rtol=1e-9, atol=1e-6, scale=psize + abs(flat), model=m.desc(), params=p)
        vec = np.concatenate([np.ravel(p[q.name]) for q in pta.params])
        ctx.close(float(pta.get_lnprior(vec)), lp, "coefficient-prior-vector", rtol=1e-12, scale=psize + abs(flat))
        # the identity: all processes not explicit are marginalised in the likelihood of the explicit model
        lnl = float(pta.get_lnlikelihood(p))
        base = mm.lnl(p)
        # posterior of the explicit coefficients given hyperparameters: marginal of the joint conditional
        rest = [k for k in range(len(x)) if k not in set(condL)]
        Pm = post.Sn[np.ix_(condL, condL)]
        if rest:
            X = post.Sn[np.ix_(rest, condL)]
            Pm = Pm - X.T @ np.linalg.solve(post.Sn[np.ix_(rest, rest)], X)
        dd = post.d[condL]
        dx = (x[condL] - post.mean[condL]) * dd
        lpost = -0.5 * dx @ Pm @ dx + 0.5 * np.linalg.slogdet(Pm)[1] + np.sum(np.log(dd)) - 0.5 * len(dx) * np.log(2 * np.pi)
        ntm = sum(w for n, (k, w, F, phi, i) in vals.items() if phi is None)
        const = ntm * (0.5 * np.log(1e40) + 0.5 * np.log(2 * np.pi))
        sc = sum(scale(m, p, i) for i in range(len(m.psrs))) + psize
        ctx.close(lnl + cprior - lpost - const, base, "marginal-identity", rtol=3e-8, atol=1e-5 + 1e-13 / post.eig, scale=sc, model=m.desc(), params=p)
        # the marginalised array itself
        ctx.close(float(marg.get_lnlikelihood({k: v for k, v in p.items() if k in hyper})), base, "marginal", rtol=2e-8, atol=1e-5, scale=sc)
        # far from the mean, and after changing only basis/hyper parameters, against the reference likelihood
        n = sorted(vals)[rng.randint(len(vals))]
        p2 = dict(p)
        p2[n] = p[n] + (rng.randn(len(p[n])) * (np.sqrt(vals[n][3]) if np.ndim(vals[n][3]) == 1 else 1e-7) if vals[n][3] is not None else 0)
        h = [k for k in hyper if hyper[k].size is None]
        for k in h:
            if rng.rand() < 0.3:
                p2[k] = hyper[k].draw(rng)
        value(ctx, m, pta, p2)



def value(ctx, m, pta, p):
    """likelihood of the explicit model against the dense density with the delays removed."""
    tot, sc = 0.0, 0.0
    for i, q in enumerate(m.psrs):
        r = np.array(q.residuals, float)
        K = m.N(i, p)
        for c in m.comps[i]:
            r = r - c.delay(q, p)
            if c.kind in HAS and not c.coefficients:
                for _, F, phi in c.blocks(q, p):
                    K = K + (np.dot(F * phi, F.T) if np.ndim(phi) == 1 else F @ phi @ F.T)
        for n, F, phi, c in explicit(m, i, p):
            r = r - F @ p[n]
        tot += ref.lnpdf_tm(K, m.tm(i), r)
        d = np.diag(m.N(i, p))
        sc += float(np.sum(r**2 / d) + np.sum(np.abs(np.log(d))) / 2)
        if np.max(np.diag(K) / d) > 1e8:
            ctx.event("ill-conditioned-point-skipped")
            return
    ctx.close(float(pta.get_lnlikelihood(p)), tot, "likelihood-given-coefficients", rtol=3e-8, atol=1e-4, scale=sc, model=m.desc(), params=p)


def common(ctx, rng):
    """Coefficients of a common process: own basis times own coefficients in every pulsar (free or a shared given vector)."""
    from enterprise.signals import gp_signals as g, gp_priors, parameter as pm, signal_base, utils, white_signals as w

    qs = [P.plain(rng, "J%d" % i, n=rng.randint(8, 16), npar=2, cluster=2, sort=rng.rand() < 0.7) for i in range(rng.randint(1, 4))]
    nf = rng.randint(1, 5)
    T = 5 * M.YR
    vary = bool(rng.rand() < 0.5)
    shared = bool(rng.rand() < 0.4)
    coef = pm.Normal(0, 1e-7, size=2 * nf)("gwc") if shared else True
    fourier = not vary and rng.rand() < 0.5
    spec = gp_priors.powerlaw(log10_A=pm.Uniform(-16, -13), gamma=pm.Uniform(1, 6))
    if fourier:
        s = g.FourierBasisCommonGP(spec, utils.hd_orf(), coefficients=coef, components=nf, Tspan=T, name="gw")
    else:
        b = utils.createfourierdesignmatrix_chromatic(nmodes=nf, Tspan=T, idx=pm.Uniform(1, 5) if vary else 2)
        s = g.BasisCommonGP(spec, b, utils.hd_orf(), coefficients=coef, name="gw")
    s = w.MeasurementNoise(efac=pm.Constant(1.0)) + s + g.TimingModel()
    pta = signal_base.PTA([s(q) for q in qs])
    ctx.sig(len(qs), nf, vary, shared, fourier)
    for _ in range(2):
        p = {"gw_log10_A": -14.0, "gw_gamma": 4.0}
        for q in qs:
            p[q.name + "_gw_idx"] = rng.uniform(1, 5)
            p["gwc" if shared else q.name + "_gw_coefficients"] = 1e-7 * rng.randn(2 * nf)
        want = {"gw_log10_A", "gw_gamma"} | {q.name + "_gw_idx" for q in qs if vary} | {"gwc" if shared else q.name + "_gw_coefficients" for q in qs}
        ctx.ok({x.name for x in pta.params} == want, "parameter-names", str(pta.param_names))
        total, sc = 0.0, 0.0
        for i, q in enumerate(qs):
            F = ref.fourier(q.toas, ref.freqs(nf, T))
            if not fourier:
                F = F * ((1400.0 / q.freqs) ** (p[q.name + "_gw_idx"] if vary else 2))[:, None]
            d = F @ p["gwc" if shared else q.name + "_gw_coefficients"]
            ctx.event("common-coefficient-delay")
            ctx.close(pta.get_delay(p)[i], d, "common-coefficient-delay", rtol=1e-9)
            N = np.diag(q.toaerrs**2)
            total += ref.lnpdf_tm(N, q.Mmat / np.linalg.norm(q.Mmat, axis=0), q.residuals - d)
            sc += float(np.sum((q.residuals - d) ** 2 / q.toaerrs**2) + len(d) * 15)
        ctx.close(float(pta.get_lnlikelihood(p)), total, "likelihood-given-coefficients", rtol=2e-8, atol=1e-5, scale=sc)


SCENARIOS = {"identity": (identity, 320, 8000), "common": (common, 40, 800)}
