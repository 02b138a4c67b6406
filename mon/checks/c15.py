"""C15: wideband timing model against the dense joint density of residuals and DM measurements."""
import numpy as np

from .. import library as L, model as M, ref
from .c01 import dynamic
from ..core import Abort
from ..core import size as tail

PROP = "C15"
RULE = ("a case is one or several pulsars with random DMX bins and DM measurements and a random model (DMEFAC / DMEQUAD / DMJUMP selections, constants, shared parameters, "
        "white noise, GPs, correlated common GPs); the likelihood at several points is compared with the dense Gaussian density of the stacked residuals and DMs, "
        "relative to a base point; helper quantities are recomputed per TOA; malformed data must be rejected; distinct = distinct (model, binning)")
ASSUMPTIONS = ["every DMX bin holds at least one TOA, and its design-matrix column is proportional to 1/(2.41e-4 f^2) inside the bin up to sign",
               "the DM evidence is a difference of terms of size sum DM^2/DMerr^2, which bounds the attainable precision",
               "at least two DMJUMP selection keys when jumps are used (documented)"]
REQUIRE = {"joint": 300, "helper": 300, "rejected": 30, "accepted": 5}
DMK = 2.41e-4


class WB(M.Comp):
    kind = "WB"

    def __init__(self, rng, sel, jsel, jref=None, equad=True, name="wideband_timing_model"):
        self.sel, self.jsel, self.jref, self.name = sel, jsel, jref, name
        self.dm = [M.PS("dmefac", 0.5, 2.0)] + ([M.PS("log10_dmequad", -5.0, -2.5)] if equad else [])
        self.jump = M.PS("dmjump", -3e-3, 3e-3) if jsel is not None else None
        self.ps = self.dm + ([self.jump] if self.jump else [])

    def build(self):
        from enterprise.signals import gp_signals as g

        kw = {"dmefac": self.dm[0].obj(), "log10_dmequad": self.dm[1].obj() if len(self.dm) > 1 else None}
        if self.name != "wideband_timing_model":
            kw["name"] = self.name
        if self.sel is not None:
            kw["selection"] = M.sel_obj(self.sel)
        if self.jsel is not None:
            kw["dmjump_selection"] = M.sel_obj(self.jsel)
        return g.WidebandTimingModel(dmjump=self.jump.obj() if self.jump else None, dmjump_ref=self.jref, **kw)

    def noise_prefix(self, psr):
        return [(k, M.join(psr.name, k)) for k in ref.masks(self.sel, psr)]

    def jump_prefix(self, psr):
        return [(k, M.join(psr.name, k)) for k in ref.masks(self.jsel, psr) if k != self.jref] if self.jump else []

    def params(self, psr):
        out = [(s.name(pre), s) for _, pre in self.noise_prefix(psr) for s in self.dm if s.free()]
        return out + [(self.jump.name(pre), self.jump) for _, pre in self.jump_prefix(psr) if self.jump.free()]

    def consts(self, psr):
        out = [(s.name(pre), s) for _, pre in self.noise_prefix(psr) for s in self.dm if s.mode in ("const", "cinst")]
        return out + [(self.jump.name(pre), self.jump) for _, pre in self.jump_prefix(psr) if self.jump.mode in ("const", "cinst")]

    # reference
    def dmvals(self, psr, p):
        d = np.array([float(x) for x in psr.flags["pp_dm"]])
        if self.jump:
            m = ref.masks(self.jsel, psr)
            for k, pre in self.jump_prefix(psr):
                d = d + self.jump.get(p, pre) * m[k]
        return d

    def dmvar(self, psr, p):
        e = np.array([float(x) for x in psr.flags["pp_dme"]])
        m, out = ref.masks(self.sel, psr), np.zeros(len(e))
        for k, pre in self.noise_prefix(psr):
            v = e**2 + (10.0 ** (2 * self.dm[1].get(p, pre)) if len(self.dm) > 1 else 0.0)
            out = out + np.where(m[k], self.dm[0].get(p, pre) ** 2 * v, 0.0)
        return out


def bins(psr):
    st = psr.stoas / 86400.0
    ks = sorted(psr.dmx)
    which = np.array([[psr.dmx[k]["DMXR1"] <= s < psr.dmx[k]["DMXR2"] for s in st] for k in ks])
    return ks, which, np.array([psr.dmx[k]["DMX"] for k in ks])


def offset(psr):
    _, which, x = bins(psr)
    return psr.dm + which.T @ x


class Joint(object):
    """m holds everything except the timing model."""

    def __init__(self, m, wb):
        self.m, self.wb = m, wb
        self.tbl = []
        for q in m.psrs:
            ks, which, _ = bins(q)
            non = [i for i, f in enumerate(q.fitpars) if f not in ks]
            self.tbl.append((q, which, q.Mmat[:, non] / np.sqrt(np.sum(q.Mmat[:, non] ** 2, axis=0))))

    def lnl(self, p):
        K, r, off = self.m.dense(p)
        n = off[-1]
        A = np.zeros((2 * n, 2 * n))
        A[:n, :n] = K
        y, cols, sc = [r], [], 0.0
        nd = 0
        for i, (q, which, non) in enumerate(self.tbl):
            s = slice(off[i], off[i + 1])
            v = self.wb.dmvar(q, p)
            d = self.wb.dmvals(q, p)
            A[n + off[i]: n + off[i + 1], n + off[i]: n + off[i + 1]] = np.diag(v)
            y.append(d - offset(q))
            sc += np.sum(d**2 / v)
            for c in non.T:
                z = np.zeros(2 * n)
                z[s] = c
                cols.append(z)
            for w in which:
                z = np.zeros(2 * n)
                z[s] = w / (DMK * q.freqs**2)
                z[n + off[i]: n + off[i + 1]] = w
                cols.append(z)
                nd += 1
        sc2 = np.sum(r**2 / np.diag(K)) + np.sum(np.concatenate(y[1:]) ** 2 / np.diag(A)[n:])
        # the tiny 1/prior of unit DM columns against dm precisions: use a far larger prior, remove its constant
        big = 1e60
        out = ref.lnpdf_tm(A, np.array(cols).T, np.concatenate(y), prior=big) + 0.5 * len(cols) * np.log(big)
        return out, sc, sc2

    def draw(self, rng):
        p = self.m.draw(rng)
        for q in self.m.psrs:
            for nme, s in self.wb.params(q):
                if nme not in p:
                    p[nme] = s.draw(rng)
        return p

    def pta(self):
        wb = self.wb
        mm = M.Model(self.m.psrs, [list(c) + [wb] for c in self.m.comps])
        return mm.pta()


def good(ctx, j, rng):
    for _ in range(60):
        p = j.draw(rng)
        if dynamic(j.m, p) < 1e6 and min(j.m.conditioning(i, p) for i in range(len(j.m.psrs))) > 1e-9:
            return p
        ctx.event("ill-conditioned-point-redrawn")
    raise Abort()


def component(rng, qs):
    sel = M.pick(rng, [None, "backend", "half", "band", "telescope"])
    js = [k for k in ("backend", "half", "band", "telescope", "fe") if k != "fe" and all(len(ref.masks(k, q)) > 1 for q in qs)]
    jsel = M.pick(rng, js) if js and rng.rand() < 0.75 else None
    jref = None
    if jsel and rng.rand() < 0.5:
        jref = M.pick(rng, sorted(ref.masks(jsel, qs[0])))
    wb = WB(rng, sel, jsel, jref, equad=rng.rand() < 0.8, name=M.pick(rng, ["wideband_timing_model", "wtm"]))
    for s in wb.ps:
        u = rng.rand()
        if u < 0.15:
            s.mode, s.inst = "shared", "sh_" + s.kw
        elif u < 0.3:
            s.mode, s.value = "const", s.draw(rng)
    return wb


def setup_case(ctx, rng, npsr, common=False):
    qs = [L.wideband_psr(rng, "J%04d" % k, n=tail(rng, 10, 20 if npsr > 1 else 26, 150), nback=rng.randint(1, 4)) for k in range(npsr)]
    for q in qs:
        if rng.rand() < 0.3:  # sign of the derivative is a convention
            for i, f in enumerate(q.fitpars):
                if f in q.dmx:
                    q.Mmat[:, i] *= -1
    wb = component(rng, qs)
    T = max(q.toas.max() for q in qs) - min(q.toas.min() for q in qs)
    comps = M.random_white(rng) + [c for c in M.random_gps(rng, T, n=rng.randint(0, 3), dense=rng.rand() < 0.5)]
    if rng.rand() < 0.2:
        comps.append(M.SINE(None))
    M.fix_spans(qs, comps, T)
    M.vary_params(rng, comps)
    if common:
        comps.append(M.CGP(rng.randint(2, 4), "pl", M.pick(rng, ["hd", "user"]), T=T, combine=rng.rand() < 0.5))
    j = Joint(M.Model(qs, comps), wb)
    ctx.sig(j.m.desc(), wb.desc(), wb.jsel, wb.jref, [sorted(q.dmx) for q in qs], [len(q.toas) for q in qs])
    return j


def run(ctx, rng, npsr, common=False):
    j = setup_case(ctx, rng, npsr, common)
    pta = j.pta()
    want_names = sorted(set(j.m.params()) | {n for q in j.m.psrs for n, _ in j.wb.params(q)})
    ctx.ok(sorted(q.name for q in pta.params) == want_names, "param-names", "parameters {} expected {}".format(sorted(q.name for q in pta.params), want_names))
    base = None
    npt = 4
    for k in range(npt):
        p = good(ctx, j, rng)
        if base is not None and rng.rand() < 0.6:  # move a few parameters only
            mv = [n for n in sorted(p) if rng.rand() < 0.5]
            q = dict(prev)
            q.update({n: p[n] for n in mv})
            if dynamic(j.m, q) < 1e6 and min(j.m.conditioning(i, q) for i in range(len(j.m.psrs))) > 1e-9:
                p = q
        prev = p
        want, sc, sc2 = j.lnl(p)
        got = float(pta.get_lnlikelihood(p))
        ctx.event("joint")
        off = got - want
        tol = 4e-15 * sc + 1e-9 * sc2 + 1e-5
        if base is None:
            base, btol = off, tol
            continue
        ctx.close(off, base, "joint", rtol=0, atol=tol + btol, params=p, model=j.m.desc() + [wbdesc(j.wb)])
        vec = [x for q in pta.params for x in np.ravel(p[q.name])]
        ctx.close(float(pta.get_lnlikelihood(np.array(vec))), got, "joint-vector", rtol=1e-12)


def wbdesc(w):
    return "{} sel={} jsel={} jref={}".format(w.desc(), w.sel, w.jsel, w.jref)


def joint(ctx, rng):
    run(ctx, rng, 1)


def several(ctx, rng):
    run(ctx, rng, rng.randint(2, 4))


def correlated(ctx, rng):
    run(ctx, rng, rng.randint(2, 4), True)


def absolute(ctx, rng):
    """The constant does not depend on data: it is the timing model's prior normalisation."""
    j = setup_case(ctx, rng, 1)
    p = good(ctx, j, rng)
    want, sc, sc2 = j.lnl(p)
    q = j.m.psrs[0]
    ks = bins(q)[0]
    non = [i for i, f in enumerate(q.fitpars) if f not in ks]
    # design columns enter unnormalised with prior 1e40 each
    c = -0.5 * len(non) * np.log(1e40) - np.sum(np.log(np.sqrt(np.sum(q.Mmat[:, non] ** 2, axis=0))))
    got = float(j.pta().get_lnlikelihood(p))
    ctx.event("joint")
    ctx.close(got, want + c, "absolute", rtol=0, atol=4e-15 * sc + 1e-9 * sc2 + 1e-5, model=j.m.desc(), wb=wbdesc(j.wb))


def helpers(ctx, rng):
    j = setup_case(ctx, rng, 1)
    wb, q = j.wb, j.m.psrs[0]
    s = wb.build()(q)
    _, which, x = bins(q)
    for _ in range(3):
        p = {n: y.draw(rng) for n, y in wb.params(q)}
        d, v = wb.dmvals(q, p), wb.dmvar(q, p)
        mean, err = np.zeros(len(d)), np.zeros(len(d))
        for w in which:
            mean[w] = np.sum((d / v)[w]) / np.sum((1 / v)[w])
            err[w] = np.sum((1 / v)[w]) ** -0.5
        o = offset(q)
        ctx.event("helper", 8)
        ctx.close(s.get_dm(p), d, "get_dm", rtol=1e-13)
        ctx.close(s.get_dme(p), np.sqrt(v), "get_dme", rtol=1e-12)
        ctx.close(s.get_mean_dm(p), mean, "get_mean_dm", rtol=1e-12)
        ctx.close(s.get_mean_dme(p), err, "get_mean_dme", rtol=1e-12)
        ctx.close(s.get_delta_dm(p), d - o, "get_delta_dm", rtol=0, atol=1e-12)
        ctx.close(s.get_delta_dm(p, use_mean_dm=True), mean - o, "get_delta_dm", rtol=0, atol=1e-12)
        ctx.close(s.get_dm_chi2(p), np.sum((d - o) ** 2 / v), "get_dm_chi2", rtol=1e-7)
        i = [np.flatnonzero(w)[0] for w in which]
        ctx.close(s.get_dm_chi2(p, use_mean_dm=True), np.sum(((mean - o) / err)[i] ** 2), "get_dm_chi2", rtol=1e-7)
        ctx.close(s.get_delay(p), (mean - o) / (DMK * q.freqs**2), "get_delay", rtol=1e-9, atol=1e-12 / (DMK * q.freqs.min() ** 2))
        phi = s.get_phi(p)
        want = np.full(len(q.fitpars), 1e40)
        for k, w in zip(bins(q)[0], which):
            want[q.fitpars.index(k)] = 1 / np.sum(1 / v[w])
        ctx.close(np.asarray(phi) / want, np.ones(len(want)), "get_phi", rtol=1e-12)
        pi = s.get_phiinv(p)
        ctx.close(np.asarray(pi) * want, np.ones(len(want)), "get_phiinv", rtol=1e-12)


def reject(ctx, rng):
    """Every data set the model cannot handle is rejected; its nearest acceptable neighbour is not."""
    q = L.wideband_psr(rng, "J0", n=rng.randint(10, 22), ndmx=rng.randint(2, 5))
    js = [k for k in ("backend", "half") if len(ref.masks(k, q)) > 1]
    make = lambda: WB(rng, None, M.pick(rng, js), None).build()
    ks = sorted(q.dmx)
    k = M.pick(rng, ks)
    i = ks.index(k)
    kind = M.pick(rng, ["unfit", "dm", "gap", "end", "start", "overlap", "swap", "empty-edge", "edge", "jump"])
    st = q.stoas / 86400.0
    inbin = lambda kk: np.sort(st[(q.dmx[kk]["DMXR1"] <= st) & (st < q.dmx[kk]["DMXR2"])])
    bad = True
    if kind == "unfit":
        q.dmx[k]["fit"] = False
    elif kind == "dm":
        j = M.pick(rng, [f for f in range(len(q.fitpars)) if q.fitpars[f] not in ks])
        q.fitpars[j] = "DM"
    elif kind == "gap":
        s = inbin(k)
        q.dmx[k]["DMXR2"] = s[-1]  # half-open: the bin's last TOA falls out
    elif kind == "end":
        q.dmx[ks[-1]]["DMXR2"] = st.max()
    elif kind == "start":
        q.dmx[ks[0]]["DMXR1"] = np.nextafter(st.min(), np.inf)
    elif kind == "overlap":
        j = (i + 1) % len(ks)
        s = inbin(ks[j])
        if j > i:
            q.dmx[k]["DMXR2"] = 0.5 * (s[0] + s[-1]) if len(s) > 1 else s[0] + 1e-3
        else:
            q.dmx[k]["DMXR1"] = s[0]
    elif kind == "swap":
        # as many TOAs twice as there are TOAs in no bin
        a, b = ks[0], ks[1]
        sa, sb = inbin(a), inbin(b)
        q.dmx[a]["DMXR2"] = np.nextafter(sb[0], np.inf)  # first TOA of b twice
        q.dmx[a]["DMXR1"] = np.nextafter(sa[0], np.inf)  # first TOA of a nowhere
    elif kind == "edge":
        # exactly adjacent half-open bins at a TOA are fine
        bad = False
        if len(ks) > 1:
            s = inbin(ks[1])
            q.dmx[ks[0]]["DMXR2"] = s[0]
            q.dmx[ks[1]]["DMXR1"] = s[0]
    elif kind == "empty-edge":
        bad = False
        q.dmx[ks[-1]]["DMXR2"] = np.nextafter(st.max(), np.inf)
        q.dmx[ks[0]]["DMXR1"] = st.min()
    elif kind == "jump":
        from enterprise.signals import gp_signals as g

        ctx.event("rejected")
        ctx.sig(kind)
        ctx.raises(ValueError, lambda: g.WidebandTimingModel()(q), "reject-jump", "jumps without a selection accepted")
        return
    ctx.sig(kind, len(ks), len(st), i)
    if bad:
        ctx.event("rejected")
        ctx.raises(ValueError, lambda: make()(q), "reject-" + kind, "accepted data with " + kind)
    else:
        ctx.event("accepted")
        try:
            make()(q)
        except Exception as e:
            ctx.violation("accept-" + kind, "rejected valid bins: {!r}".format(e))


SCENARIOS = {"joint": (joint, 200, 4000), "several": (several, 50, 800), "correlated": (correlated, 40, 600), "absolute": (absolute, 60, 1000),
             "helpers": (helpers, 60, 800), "reject": (reject, 100, 1500)}
