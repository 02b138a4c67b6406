"""C03: evaluations are pure; histories against fresh models."""
import copy

import numpy as np
import scipy.sparse as sps

from .. import library as L, model as M, psr as P
from ..core import digest
from ..core import size as tail

PROP = "C03"
RULE = ("a case is a random history of 30-60 public calls (likelihood with all Cholesky/inversion variants, priors, basis, Phi, noise solves, "
        "per-signal quantities) over 2-4 arrays that share pulsars, signal classes or pulsar-model instances, at revisited and partially changed "
        "parameter points; each result is compared with a model built from scratch on copied pulsars; distinct = distinct call sequence")
ASSUMPTIONS = ["Signal.get_phi returns the signal's working array by design; earlier results of that one call are not required to persist",
               "common processes are given an explicit time span except in the dedicated scenario (known finding)"]
REQUIRE = {"fresh-compare": 3000, "revisit": 500, "digest-later": 3000}


def flat(x):
    """numeric content of a result as a list of arrays."""
    if x is None:
        return ["none"]
    if sps.issparse(x):
        return [np.asarray(x.todense())]
    if isinstance(x, (list, tuple)):
        return [a for e in x for a in flat(e)]
    return [np.array(x, dtype=float)]


class World(object):
    """Templates of arrays: a template builds a list of PTAs from pulsars (shared objects among them)."""

    def __init__(self, rng):
        self.psrs = [P.plain(rng, "J%04d" % k, n=rng.randint(8, 18), npar=3, cluster=rng.choice([0, 2.5])) for k in range(3)]
        self.spec = []
        for k in range(2):
            sub = [self.psrs[i] for i in sorted(rng.permutation(3)[: rng.randint(1, 4)])]
            common = rng.randint(0, 3) if len(sub) > 1 else 0
            m = M.random_model(rng, sub, common=common, marg=True)
            extra = []
            if rng.rand() < 0.35:
                extra.append(("ephem", rng.randint(1 << 30)))
            elif rng.rand() < 0.25:
                extra.append(("physgp", rng.randint(1 << 30)))
            c = L.coeff(rng) if rng.rand() < 0.3 else None
            if c is not None:
                for i in range(len(m.comps)):
                    m.comps[i] = m.comps[i] + [c]
            self.spec.append((m, extra))
        self.use_dense = bool(rng.rand() < 0.5)

    def build(self, psrs, only=None):
        """{label: PTA} on the given pulsars (same order as self.psrs)."""
        from enterprise.signals import signal_base

        out = {}
        for k, (m, extra) in enumerate(self.spec):
            if only is not None and only[1] != str(k):
                continue
            sub = [psrs[self.psrs.index(q)] for q in m.psrs]
            mm = M.Model(sub, m.comps)
            mm._built = {}
            for c in {c for cs in m.comps for c in cs}:
                for s in getattr(c, "ps", ()):
                    s._i = None
            cl = [mm.cls(c) for c in mm.comps]
            add = [getattr(L, name)(np.random.RandomState(seed)) for name, seed in extra]
            for a in add:
                cl = [a + c for c in cl] if len(add) else cl
            scs = [c(q) for c, q in zip(cl, sub)] if only is None or not only.endswith("d") else []
            if only is None or not only.endswith("d"):
                out["m%d" % k] = signal_base.PTA(scs)
            if only is None or only.endswith("d"):
                out["m%dd" % k] = signal_base.PTA([c(q) for c, q in zip(cl, sub)], lnlikelihood=signal_base.LogLikelihoodDenseCholesky)
            if len(scs) > 1 and not any(c.common for cs in m.comps for c in cs) and not extra:
                out["m%ds" % k] = signal_base.PTA(scs[:-1])  # shares pulsar-model instances
        return out


def vec_ops(pta):
    ops = ["lnl", "lnl", "lnl", "lnl-vector", "lnl-sparse", "lnprior", "TNr", "TNT", "rNr", "ndiag", "delay", "basis", "phi", "phi-cliques", "phiinv",
           "phiinv-sparse", "logsignalprior", "residuals"]
    for i, sc in enumerate(pta.pulsarmodels):
        for j, s in enumerate(sc.signals):
            for o in ("s-delay", "s-ndiag", "s-basis", "s-phi", "s-prior"):
                ops.append((o, i, j))
    return ops


def solve(nd, n):
    x = np.cos(np.arange(n) * 1.7) * 1e-6
    X = np.array([np.sin(np.arange(n) * 0.3), np.ones(n)]).T
    a, ld = nd.solve(x, left_array=x, logdet=True)
    return [a, ld, nd.solve(x, left_array=X), nd.solve(X, left_array=X)]


def call(pta, op, p):
    """(numeric result, raw returned object)"""
    from enterprise.signals import signal_base

    if op == "lnl":
        r = pta.get_lnlikelihood(p)
    elif op == "lnl-vector":
        r = pta.get_lnlikelihood(np.concatenate([np.ravel(p[q.name]) for q in pta.params]) if pta.params else np.array([]))
    elif op == "lnl-sparse":
        r = pta.get_lnlikelihood(p, phiinv_method="sparse")
    elif op == "lnprior":
        r = pta.get_lnprior(p)
    elif op == "TNr":
        r = pta.get_TNr(p)
    elif op == "TNT":
        r = pta.get_TNT(p)
    elif op == "rNr":
        r = pta.get_rNr_logdet(p)
    elif op == "ndiag":
        nd = pta.get_ndiag(p)
        return flat([solve(x, len(q._residuals)) for x, q in zip(nd, pta.pulsarmodels)]), None
    elif op == "delay":
        r = pta.get_delay(p)
    elif op == "basis":
        r = pta.get_basis(p)
    elif op == "phi":
        r = pta.get_phi(p)
    elif op == "phi-cliques":
        r = pta.get_phi(p, cliques=True)
    elif op == "phiinv":
        r = pta.get_phiinv(p, logdet=True)
    elif op == "phiinv-sparse":
        r = pta.get_phiinv(p, logdet=True, method="sparse")
    elif op == "logsignalprior":
        r = pta.get_logsignalprior(p)
    elif op == "residuals":
        r = pta.get_residuals()
    else:
        o, i, j = op
        s = pta.pulsarmodels[i].signals[j]
        if o == "s-delay":
            r = s.get_delay(p)
        elif o == "s-ndiag":
            nd = s.get_ndiag(p)
            if nd is None:
                return ["none"], None
            if type(nd).__name__ in ("MarginalizingNmat",) or not isinstance(nd, np.ndarray):
                nd = nd + signal_base.ndarray_alt(1e-12 * np.ones(len(pta.get_residuals()[i])))
            return flat(solve(nd, len(pta.get_residuals()[i]))), None
        elif o == "s-basis":
            r = s.get_basis(p)
        elif o == "s-phi":
            s.get_basis(p)
            return flat(s.get_phi(p)), None  # working array
        elif o == "s-prior":
            r = s.get_logsignalprior(p)
    return flat(r), r


def compare(ctx, got, want, key, **d):
    if len(got) != len(want):
        return ctx.ok(False, key, "result structure differs", **d)
    for a, b in zip(got, want):
        if isinstance(a, str) or isinstance(b, str):
            ctx.ok(isinstance(a, str) and isinstance(b, str), key, "None against value", **d)
            continue
        if a.shape != b.shape:
            ctx.ok(False, key, "shape {} {}".format(a.shape, b.shape), **d)
            continue
        if np.array_equal(a, b, equal_nan=True):
            ctx.checks[key] += 1
            ctx.event("bitwise-equal")
            continue
        m = np.isfinite(a) & np.isfinite(b)
        # element by element, relative; tiny elements against the largest
        tol = 1e-7 * np.abs(b) + 1e-13 * (np.max(np.abs(b[m])) if m.any() else 0)
        bad = ~((np.abs(a - b) <= tol) | ((a == b) | (np.isnan(a) & np.isnan(b))))
        ctx.ok(not bad.any(), key, "differs from a fresh model: {} instead of {}".format(a[bad][:3], b[bad][:3]), **d)


def points(ctx, rng, pta, w):
    pts = L.sample(rng, pta, 3)
    out = list(pts)
    names = sorted(pts[0])
    for _ in range(3):  # differ from a point in one or two parameters only
        q = dict(pts[rng.randint(3)])
        o = pts[rng.randint(3)]
        for n in rng.permutation(names)[: rng.randint(1, 3)] if names else []:
            q[n] = o[n]
        out.append(q)
    vec = [n for n in names if np.ndim(pts[0][n]) and len(pts[0][n]) > 1]
    for _ in range(2 if vec else 0):  # ... or in some elements of a vector
        q = dict(pts[rng.randint(3)])
        n = vec[rng.randint(len(vec))]
        v = np.array(q[n])
        a, b = rng.permutation(len(v))[:2]
        if rng.rand() < 0.5:
            v[a] = pts[rng.randint(3)][n][a]
        else:
            v[a], v[b] = v[b], v[a]
        q[n] = v
        out.append(q)
    z = dict(pts[0])
    for n in names:
        if n.endswith("_rho") and np.ndim(z[n]) == 0:
            z[n] = 0.0
    out.append(z)
    return out


def history(ctx, rng):
    w = World(rng)
    psr_digest = [digest(vars(q)) for q in w.psrs]
    live = w.build(w.psrs)
    labels = sorted(live)
    pts = {}
    for lab in labels:
        base = lab.rstrip("ds")
        if base not in pts:
            pts[base] = points(ctx, rng, live[base], w)
    seen, trace, kept = set(), [], []
    memo = {}
    nops = tail(rng, 25, 50, 400, 0.04)
    for _ in range(nops):
        lab = labels[rng.randint(len(labels))]
        k = rng.randint(len(pts[lab.rstrip("ds")]))
        p = {n: (v.copy() if np.ndim(v) else v) for n, v in pts[lab.rstrip("ds")][k].items()}
        ops = vec_ops(live[lab])
        op = ops[rng.randint(len(ops))] if rng.rand() < 0.6 else ops[rng.randint(18)]
        before = digest(p)
        got, raw = call(live[lab], op, p)
        ctx.ok(digest(p) == before, "caller-params-unchanged", "call {} changed the parameters passed".format(op))
        if raw is not None and op != "lnl":
            kept.append((lab, op, k, raw, digest(flat(raw))))
        if (lab, k) in seen:
            ctx.event("revisit")
        seen.add((lab, k))
        trace.append((lab, k, op))
        if (lab, k, op) not in memo:
            fresh = w.build([copy.deepcopy(q) for q in w.psrs], only=lab)[lab]
            memo[lab, k, op] = call(fresh, op, {n: (v.copy() if np.ndim(v) else v) for n, v in p.items()})[0]
        ctx.event("fresh-compare")
        ctx.event("op:" + (op if isinstance(op, str) else op[0]))
        compare(ctx, got, memo[lab, k, op], "fresh-model", op=op, array=lab, point=k, step=len(trace), model=w.spec[int(lab[1])][0].desc(),
                extra=w.spec[int(lab[1])][1], trace=trace[-8:])
    for lab, op, k, raw, d in kept:
        ctx.event("digest-later")
        ctx.ok(digest(flat(raw)) == d, "earlier-result-unchanged", "result of {} on {} was changed by later calls".format(op, lab), op=op,
               model=w.spec[int(lab[1])][0].desc(), extra=w.spec[int(lab[1])][1])
    ctx.ok([digest(vars(q)) for q in w.psrs] == psr_digest, "pulsars-unchanged", "an evaluation changed a pulsar")
    ctx.sig(trace)


def long(ctx, rng):
    """Hundreds of evaluations at ever new points, as a sampler makes them."""
    w = World(rng)
    lab = M.pick(rng, ["m0", "m1", "m0d", "m1d"])
    pta = w.build(w.psrs)[lab.rstrip("ds")] if not lab.endswith("d") else w.build(w.psrs, only=lab)[lab]
    pts = points(ctx, rng, pta, w)
    names = sorted(pts[0])
    n = tail(rng, 150, 500, 1500, 0.2)
    ops = vec_ops(pta)[:18]
    check = set(rng.randint(n // 2, n, 4)) | {n - 1}
    ctx.sig("long", n, names)
    for k in range(n):
        p = {a: (v.copy() if np.ndim(v) else v) for a, v in pts[rng.randint(len(pts))].items()}
        for a in names:
            p[a] = p[a] * (1 + 1e-6 * rng.uniform(-1, 1))
        op = "lnl" if k in check or rng.rand() < 0.8 else ops[rng.randint(len(ops))]
        got = call(pta, op, p)[0]
        ctx.event("long-run")
        if k in check:
            fresh = w.build([copy.deepcopy(q) for q in w.psrs], only=lab)[lab]
            compare(ctx, got, call(fresh, op, p)[0], "fresh-model", op=op, evaluations=k, model=w.spec[int(lab[1])][0].desc(), extra=w.spec[int(lab[1])][1])


def tspan(ctx, rng):
    """Common Fourier process without explicit span: depends on what else the class was applied to."""
    from enterprise.signals import gp_signals as g, signal_base, utils

    span = rng.uniform(4, 8) * M.YR
    a = [P.plain(rng, "A%d" % k, n=15, npar=2, span=3 * M.YR) for k in range(2)]
    far = P.plain(rng, "B", n=15, npar=2, span=span, start=54000 * 86400.0)
    comps = [M.MN()]

    def cls():
        return M.MN().build() + g.FourierBasisCommonGP(utils.powerlaw(log10_A=M.PS("log10_A", -13, -12.9).obj(), gamma=M.PS("g", 3, 4).obj()),
                                                       utils.hd_orf(), components=3, name="gw")

    for other in (False, True):
        s = cls()
        pta = signal_base.PTA([s(q) for q in a])
        p = L.sample(rng, pta, 1)[0]
        if other:
            s(far)  # the same class applied to another pulsar, which is not in the array
        got = float(pta.get_lnlikelihood(p))
        want = float(signal_base.PTA(list(map(cls(), a))).get_lnlikelihood(p))
        ctx.sig("tspan", other, comps[0].desc(), span)
        ctx.close(got, want, "tspan-none-depends-on-other-arrays" if other else "tspan-none", rtol=1e-9,
                  msg="FourierBasisCommonGP(Tspan=None) uses every pulsar its class was ever applied to")


SCENARIOS = {"history": (history, 220, 3500), "long": (long, 16, 200), "tspan": (tspan, 12, 60)}
