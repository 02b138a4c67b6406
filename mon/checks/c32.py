"""C32: the likelihood does not depend on how the data are presented."""
import copy

import numpy as np

from .. import library as L, model as M, psr as P
from .c01 import draw
from .c11 import tol

PROP = "C32"
RULE = ("a case is a random model on random pulsars, and the same model on the same data presented differently: TOAs in another order, another time origin (with burst epochs and phases shifted along), the sky rotated as a whole, "
        "another unit of time for residuals, uncertainties and amplitudes, columns in other memory layouts, other names of backends and pulsars (with parameter values carried over by meaning); both sides are evaluated by the code under test: likelihoods must agree (up to the "
        "known constant), and after reordering also delays, basis rows, priors, noise solves and conditional processes; distinct = distinct (model, presentation)")
ASSUMPTIONS = ["well conditioned points, as in C01/C02", "bases with absolute time nodes are not shifted; SVD basis columns are compared through the likelihood only",
               "names are changed only to names for which all parameter names of the model stay distinct"]
REQUIRE = {"permuted": 250, "permuted-structure": 150, "shifted": 150, "rotated": 100, "rescaled": 150, "renamed": 200, "library-permuted": 150, "correlated": 150, "processes": 40, "layout": 150}

DAY, YR = 86400.0, 365.25 * 86400.0
AMP = ("log10_t2equad", "log10_equad", "log10_tnequad", "log10_ecorr", "log10_A", "log10_rho", "log10_sigma", "log10_amp", "log10_h")
NASTY = ["A", "AA", "A_B", "B", "x.y+z", "L-wide (2)", "1", "10", "backend", "ecorr", "t2", "Rcvr", "Rcvr_8", "é", "S-wide_ASP_", "NANOGrav", "a" * 60]
PNAMES = ["J0", "J00", "J000", "B1855+09", "B1855", "gp", "wn", "J1-2", "psr", "X_1", "X", "J0030+0451", "J0030+0451A", "1", "A", "R", "8", "log10", "S", "G"]


def pulsars(rng, lo=1, hi=4, n=(8, 24), **kw):
    return [P.plain(rng, "J%04d" % i, n=rng.randint(*n), npar=rng.randint(1, 5), cluster=M.pick(rng, [0, 2, 4]), nback=rng.randint(1, 5), sort=bool(rng.rand() < 0.5), **kw)
            for i in range(rng.randint(lo, hi))]


def build(qs, m):
    """the description of m on pulsars qs, nothing shared with earlier builds"""
    m2 = M.Model(qs, m.comps)
    return m2, m2.pta()


def spec(rng, qs, **kw):
    common = M.pick(rng, [0, 1, 1, 2]) if len(qs) > 1 else 0
    return M.random_model(rng, qs, common=common, per_psr=bool(rng.rand() < 0.4), marg=True, **kw)


def lnl(pta, p, rng):
    return float(pta.get_lnlikelihood(p, phiinv_method=M.pick(rng, ["cliques", "sparse"])))


def agree(ctx, key, m, got, want, p, extra=None):
    t = tol(m, p)  # both sides carry rounding errors, of different phases
    ctx.close(got, want, key, msg="likelihoods of the two presentations", model=m.desc(), params=p, note=extra, rtol=10 * t["rtol"], atol=10 * t["atol"], scale=t["scale"])
    if any(c.common for cs in m.comps for c in cs) and len(m.psrs) > 1:
        ctx.event("correlated")


# ------------------------------------------------------------------ order of the TOAs
def permuted(q, perm):
    w = copy.deepcopy(q)
    for a in ("toas", "stoas", "toaerrs", "residuals", "freqs", "backend_flags", "telescope", "Mmat", "pos_t", "planetssb", "sunssb"):
        if getattr(q, a, None) is not None:
            setattr(w, a, np.ascontiguousarray(getattr(q, a)[perm]))
    w.flags = {k: v[perm] for k, v in q.flags.items()}
    return w


def structure(ctx, rng, qs, perms, a, b, p, desc, svd=False, conditional=False):
    """per-TOA quantities follow the TOAs; everything else stays."""
    Ta, Tb = a.get_basis(p), b.get_basis(p)
    da, db = a.get_delay(p), b.get_delay(p)
    Na, Nb = a.get_ndiag(p), b.get_ndiag(p)
    fa, fb = a.get_phi(p), b.get_phi(p)
    for i, (q, k) in enumerate(zip(qs, perms)):
        ctx.event("permuted-structure")
        d1, d2 = np.broadcast_to(da[i], len(k)), np.broadcast_to(db[i], len(k))
        ctx.close(d2, d1[k], "permuted-delay", rtol=1e-8, scale=float(np.max(np.abs(d1))) + 1e-12, atol=1e-11, model=desc, params=p)
        if not ctx.ok((Ta[i] is None) == (Tb[i] is None), "permuted-basis-none"):
            continue
        if Ta[i] is not None:
            if ctx.ok(Ta[i].shape == Tb[i].shape, "permuted-basis-shape", "{} {}".format(Ta[i].shape, Tb[i].shape), model=desc) and not svd:
                s = np.max(np.abs(Ta[i]), axis=0)
                s[s == 0] = 1.0
                ctx.close(Tb[i] / s, Ta[i][k] / s, "permuted-basis", rtol=0, atol=1e-9, model=desc, params=p)
        if not hasattr(Na[i], "Mmat"):
            x = rng.randn(len(k)) * q.toaerrs
            w = np.sqrt(np.asarray(q.toaerrs, float))
            y1, y2 = Na[i].solve(x, left_array=x, logdet=True), Nb[i].solve(x[k], left_array=x[k], logdet=True)
            ctx.close(float(y2[0]), float(y1[0]), "permuted-solve", rtol=1e-6, scale=float(np.sum(x**2 / w**4)), model=desc, params=p)
            ctx.close(float(y2[1]), float(y1[1]), "permuted-logdet", rtol=1e-9, scale=30.0 * len(k), model=desc, params=p)
    if not svd:
        A = [np.asarray(f) for f in fa if f is not None] if isinstance(fa, list) else [np.asarray(fa)]
        B = [np.asarray(f) for f in fb if f is not None] if isinstance(fb, list) else [np.asarray(fb)]
        for x, y in zip(A, B):
            if ctx.ok(x.shape == y.shape, "permuted-phi-shape"):
                s = np.sqrt(np.abs(x) if x.ndim == 1 else np.abs(np.outer(np.diag(x), np.diag(x))))
                s[s == 0] = 1.0
                ctx.close(y / s / (s if x.ndim == 1 else 1), x / s / (s if x.ndim == 1 else 1), "permuted-phi", rtol=0, atol=1e-9, model=desc, params=p)


def processes(ctx, rng, m, qs, perms, a, b, p):
    from enterprise.signals import utils

    method = M.pick(rng, ["cliques", "sparse"])
    try:
        x = utils.ConditionalGP(a, phiinv_method=method).get_mean_processes(p)
    except IndexError:  # signals that share columns are refused
        ctx.raises(IndexError, lambda: utils.ConditionalGP(b, phiinv_method=method).get_mean_processes(p), "permuted-refusal")
        return
    y = utils.ConditionalGP(b, phiinv_method=method).get_mean_processes(p)
    if not ctx.ok(list(x) == list(y), "permuted-process-names", "{} {}".format(list(x), list(y))):
        return
    for n in x:
        i = [k for k, q in enumerate(qs) if len(perms[k]) == len(x[n]) and n.startswith(q.name)]
        if len(i) == 1:
            ctx.event("processes")
            ctx.close(np.asarray(y[n]), np.asarray(x[n])[perms[i[0]]], "permuted-processes", rtol=1e-4, scale=float(np.max(np.abs(m.res(i[0], p)))) + float(np.max(np.abs(x[n]))), model=m.desc(), params=p, name=n)


def order(ctx, rng):
    qs = pulsars(rng)
    m = spec(rng, qs)
    perms = [rng.permutation(len(q.toas)) if rng.rand() < 0.8 else np.argsort(q.toas)[:: M.pick(rng, [1, -1])] for q in qs]
    ws = [permuted(q, k) for q, k in zip(qs, perms)]
    _, a = build(qs, m)
    _, b = build(ws, m)
    ctx.sig(m.desc(), [k.tolist() for k in perms])
    svd = any(c.kind == "TM" and c.form == "svd" for cs in m.comps for c in cs)
    ctx.ok(a.param_names == b.param_names, "permuted-names", "{} {}".format(a.param_names, b.param_names), model=m.desc())
    for _ in range(2):
        p = draw(ctx, m, rng, 1e9)
        ctx.event("permuted")
        agree(ctx, "permuted", m, lnl(b, p, rng), lnl(a, p, rng), p)
        structure(ctx, rng, qs, perms, a, b, p, m.desc(), svd)
        marg = any(c.kind == "TM" and c.marg for cs in m.comps for c in cs)
        if not svd and not marg and all(t is not None for t in a.get_basis(p)):
            processes(ctx, rng, m, qs, perms, a, b, p)


# ------------------------------------------------------------------ memory layout
def laidout(rng, a, kinds):
    """The same numbers held differently."""
    k = M.pick(rng, kinds)
    if k == "fortran":
        return np.asfortranarray(a)
    if k == "strided":
        y = np.zeros(tuple(2 * n for n in a.shape), a.dtype)
        v = y[tuple(slice(1, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if k == "reversed":
        return a[::-1].copy()[::-1]
    if k == "read-only":
        b = a.copy()
        b.flags.writeable = False
        return b
    if k == "swapped":
        return a.astype(a.dtype.newbyteorder(">"))
    if k == "object":
        return a.astype(object)
    return a.copy()


def layout(ctx, rng):
    """Memory layout, byte order and writability of a pulsar's columns do not matter."""
    qs = pulsars(rng)
    m = spec(rng, qs)
    ws = []
    for q in qs:
        w = copy.copy(q)
        for n in ("toas", "stoas", "toaerrs", "residuals", "freqs", "Mmat", "pos_t", "planetssb", "sunssb"):
            setattr(w, n, laidout(rng, getattr(q, n), ["fortran", "strided", "reversed", "read-only", "copy"]))
        text = lambda a: laidout(rng, a, ["strided", "reversed", "read-only", "copy", "object"])
        w.backend_flags, w.telescope = text(q.backend_flags), text(q.telescope)
        w.flags = {k: text(v) for k, v in q.flags.items()}
        ws.append(w)
    _, a = build(qs, m)
    _, b = build(ws, m)
    ctx.sig(m.desc(), [len(q.toas) for q in qs])
    ctx.ok(a.param_names == b.param_names, "layout-names", "{} {}".format(a.param_names, b.param_names), model=m.desc())
    for _ in range(2):
        p = draw(ctx, m, rng, 1e9)
        ctx.event("layout")
        agree(ctx, "layout", m, lnl(b, p, rng), lnl(a, p, rng), p)


# ------------------------------------------------------------------ time origin
def shifted(q, dt):
    w = copy.deepcopy(q)
    w.toas, w.stoas = q.toas + dt, q.stoas + dt
    return w


def carry(m, p, fn):
    """new point with fn(value, component, spec, point, prefix) for each parameter, every name once"""
    out = {}
    for q, cs in zip(m.psrs, m.comps):
        for c in cs:
            for _, pre in c.prefixes(q):
                for s in c.ps:
                    if s.free() and s.name(pre) not in out:
                        out[s.name(pre)] = fn(p[s.name(pre)], c, s, p, pre)
    for n in p:
        out.setdefault(n, p[n])
    return out


def time(ctx, rng):
    qs = pulsars(rng)
    m = spec(rng, qs, dense=len(qs) == 1, mix=False)
    dt = float(rng.randint(-8000, 8000)) * DAY
    ws = [shifted(q, dt) for q in qs]
    _, a = build(qs, m)
    _, b = build(ws, m)
    ctx.sig(m.desc(), dt)

    def fn(v, c, s, p, pre):
        if c.kind == "BWM" and s.kw == "t0":
            return v + dt / DAY
        if c.kind == "SINE" and s.kw == "phase":
            return float((v - 2 * np.pi * np.longdouble(10.0 ** p[M.join(pre, "log10_f")]) * np.longdouble(dt)) % (2 * np.pi))
        return v

    for _ in range(2):
        p = draw(ctx, m, rng, 1e9)
        ctx.event("shifted")
        agree(ctx, "shifted", m, lnl(b, carry(m, p, fn), rng), lnl(a, p, rng), p, dt)


# ------------------------------------------------------------------ orientation of the sky
def rotation(rng, zonly):
    a = rng.uniform(0, 2 * np.pi)
    Z = np.array([[np.cos(a), -np.sin(a), 0], [np.sin(a), np.cos(a), 0], [0, 0, 1.0]])
    if zonly:
        return Z, a
    Q, _ = np.linalg.qr(rng.randn(3, 3))
    return Q * np.sign(np.linalg.det(Q)), None


def rotated(q, R):
    w = copy.deepcopy(q)
    w.pos, w.pos_t, w.sunssb, w.planetssb = R @ q.pos, q.pos_t @ R.T, q.sunssb.copy(), q.planetssb.copy()
    for s in (slice(0, 3), slice(3, 6)):
        w.sunssb[:, s] = q.sunssb[:, s] @ R.T
        w.planetssb[:, :, s] = q.planetssb[:, :, s] @ R.T
    w.theta, w.phi = float(np.arccos(np.clip(w.pos[2], -1, 1))), float(np.arctan2(w.pos[1], w.pos[0]) % (2 * np.pi))
    return w


def sky(ctx, rng):
    qs = pulsars(rng, 2, 6)
    if rng.rand() < 0.7:  # neighbours
        v = qs[0].pos + 10.0 ** rng.uniform(-8, -0.7) * rng.randn(3)
        qs[1] = P.plain(rng, qs[1].name, n=rng.randint(8, 24), npar=2, cluster=2, nback=2, pos=v / np.linalg.norm(v))
    m = M.random_model(rng, qs, common=rng.randint(0, 3), per_psr=bool(rng.rand() < 0.3), marg=True, mix=False)
    if rng.rand() < 0.5:
        m.comps = [list(cs) for cs in m.comps]
        b = M.BWM(name="mem")
        for cs in m.comps:
            cs.append(b)
    z = any(c.kind == "BWM" for cs in m.comps for c in cs)
    R, ang = rotation(rng, z)
    ws = [rotated(q, R) for q in qs]
    _, a = build(qs, m)
    _, b = build(ws, m)
    ctx.sig(m.desc(), R.round(6).tolist())

    def fn(v, c, s, p, pre):
        return v + ang if c.kind == "BWM" and s.kw == "gwphi" else v

    for _ in range(2):
        p = draw(ctx, m, rng, 1e9)
        ctx.event("rotated")
        agree(ctx, "rotated", m, lnl(b, carry(m, p, fn), rng), lnl(a, p, rng), p)


# ------------------------------------------------------------------ units
def units(ctx, rng):
    qs = pulsars(rng)
    m = spec(rng, qs, mix=False)
    if any(c.kind == "RN" and c.spec == "tp" for cs in m.comps for c in cs):
        ctx.event("tprocess")
    f = 10.0 ** rng.uniform(-2, 2)
    ws = []
    for q in qs:
        w = copy.deepcopy(q)
        w.residuals, w.toaerrs = q.residuals * f, q.toaerrs * f
        ws.append(w)
    _, a = build(qs, m)
    m2, b = build(ws, m)
    ctx.sig(m.desc(), round(f, 9))
    free = 0
    for i, q in enumerate(qs):
        t = m.tm(i)
        free += len(q.toas) - (0 if t is None else t.shape[1])

    def fn(v, c, s, p, pre):
        return v + np.log10(f) if s.kw in AMP else v

    for _ in range(2):
        p = draw(ctx, m, rng, 1e9)
        ctx.event("rescaled")
        p2 = carry(m, p, fn)
        agree(ctx, "rescaled", m, lnl(b, p2, rng) + free * np.log(f), lnl(a, p, rng), p, f)


# ------------------------------------------------------------------ names
def renamed(q, name, back):
    w = copy.deepcopy(q)
    w.name = name
    w.backend_flags = np.array([back[str(v)] for v in q.backend_flags])
    w.flags["f"] = w.backend_flags.copy()
    w.flags["group"] = w.backend_flags.copy()
    w.flags["B"] = np.array([back.get("B:" + str(v), str(v)) for v in q.flags["B"]])
    w.telescope = np.array([back["T:" + str(v)] for v in q.telescope])
    return w


def names(ctx, rng):
    qs = pulsars(rng)
    m = spec(rng, qs)
    new = [PNAMES[k] for k in rng.permutation(len(PNAMES))][: len(qs)] if rng.rand() < 0.6 else [PNAMES[-7:][k] for k in rng.permutation(7)[: len(qs)]]  # often contained in other names
    old = sorted({str(v) for q in qs for v in q.backend_flags})
    back = dict(zip(old, [NASTY[k] for k in rng.permutation(len(NASTY))]))
    tel = sorted({str(v) for q in qs for v in q.telescope})
    back.update(zip(["T:" + t for t in tel], [NASTY[k] for k in rng.permutation(len(NASTY))]))
    band = sorted({str(v) for q in qs for v in q.flags["B"]})
    back.update(zip(["B:" + t for t in band], [NASTY[k] for k in rng.permutation(len(NASTY))]))
    ws = [renamed(q, n, back) for q, n in zip(qs, new)]
    m2 = M.Model(ws, m.comps)
    if len(m2.params()) != len(m.params()) or len(m2.consts()) != len(m.consts()):
        ctx.event("names-collide")
        return
    names_of = {}
    for q, w, cs in zip(qs, ws, m.comps):
        for c in cs:
            pre = {"backend": "", "telescope": "T:", "band": "B:"}.get(c.sel)
            to = dict(c.prefixes(w))
            for key, pf in c.prefixes(q):
                k2 = back[pre + key] if pre is not None and key else key
                if not ctx.ok(k2 in to, "renamed-key", "{} for {}".format(k2, key), names=list(to)):
                    return
                for s in c.ps:
                    if s.free():
                        names_of[s.name(pf)] = s.name(to[k2])
            for s in getattr(c, "bps", []):
                if s.free():
                    names_of[s.name(M.join(q.name, c.name))] = s.name(M.join(w.name, c.name))
            for s in getattr(c, "ops", []):
                if s.free():
                    names_of[s.name(c.name)] = s.name(c.name)
    _, a = build(qs, m)
    _, b = build(ws, m)
    ctx.sig(m.desc(), new, sorted(back.items()))
    if not ctx.ok(sorted(x.name for x in b.params) == sorted(names_of[x.name] for x in a.params), "renamed-params",
                  "{} for {}".format(sorted(x.name for x in b.params), sorted(names_of[x.name] for x in a.params)), model=m.desc()):
        return
    for _ in range(2):
        p = draw(ctx, m, rng, 1e9)
        ctx.event("renamed")
        p2 = {names_of[n]: v for n, v in p.items()}
        agree(ctx, "renamed", m, lnl(b, p2, rng), lnl(a, p, rng), p, [new, back])
        # the same as a flat vector in each model's own order
        x = np.hstack([p2[q.name] for q in b.params]) if b.params else np.zeros(0)
        agree(ctx, "renamed-vector", m, lnl(b, x, rng), lnl(a, p, rng), p, [new, back])


# ------------------------------------------------------------------ the rest of the library
def library(ctx, rng):
    from enterprise.signals import deterministic_signals as d, gp_bases as gb, gp_priors as gp, gp_signals as g, parameter as pm, selections as sl, signal_base, utils, white_signals as w

    kind = M.pick(rng, ["ephem", "physgp", "ephemgp", "wideband", "env", "general", "interp", "ecorrgp", "dmtn", "pshift", "coeff", "custom"])
    n = rng.randint(1, 4)
    qs = [L.wideband_psr(rng, "J%04d" % i) if kind == "wideband" else P.plain(rng, "J%04d" % i, n=rng.randint(12, 26), npar=rng.randint(1, 4), cluster=M.pick(rng, [0, 2, 4]), nback=rng.randint(1, 4), sort=bool(rng.rand() < 0.5)) for i in range(n)]
    perms = [rng.permutation(len(q.toas)) for q in qs]
    ws = [permuted(q, k) for q, k in zip(qs, perms)]
    seed = rng.randint(2**31 - 1)
    pl = lambda: gp.powerlaw(log10_A=pm.Uniform(-15, -13), gamma=pm.Uniform(1, 6))
    sel = lambda: sl.Selection(M.pick(r, [sl.no_selection, sl.by_backend, sl.cut_half]))
    made = []
    for group in (qs, ws):
        r = np.random.RandomState(seed)
        s = w.MeasurementNoise(efac=pm.Uniform(0.8, 1.2), log10_t2equad=pm.Uniform(-7, -6.5), selection=sel())
        tm = g.TimingModel()
        if kind == "ephem":
            s += L.ephem(r)
        elif kind == "physgp":
            s += L.physgp(r)
        elif kind == "ephemgp":
            s += g.FourierBasisCommonGP_ephem(gp.powerlaw(log10_A=pm.Uniform(-15, -13), gamma=pm.Uniform(1, 6), components=6), 3, Tspan=5 * YR)
        elif kind == "wideband":
            tm = g.WidebandTimingModel(dmefac=pm.Uniform(0.8, 1.2), log10_dmequad=pm.Uniform(-5, -3), dmjump=None, selection=sel())
        elif kind == "env":
            s += g.BasisGP(pl(), gb.createfourierdesignmatrix_env(log10_Amp=pm.Uniform(-1, 1), log10_Q=pm.Uniform(2, 3), t0=pm.Uniform(53100 * DAY, 54500 * DAY), nmodes=3, Tspan=5 * YR), selection=sel(), name="env")
        elif kind == "general":
            fl = M.pick(r, ["group", "B"])
            common = sorted(set.intersection(*[set(q.flags[fl]) for q in qs]))
            val = str(common[r.randint(len(common))]) if common else str(qs[0].flags[fl][0])
            ok = all(np.ptp(np.append(q.toas[q.flags[fl] == val], q.toas[q.flags[fl] == val])) > 100 * DAY if np.any(q.flags[fl] == val) else False for q in qs)
            s += g.BasisGP(pl(), gb.createfourierdesignmatrix_general(flagname=fl, flagval=val, idx=pm.Uniform(1, 4), nmodes=3, psrTspan=not (ok and r.rand() < 0.7), logf=bool(r.rand() < 0.3)), name="gen")
        elif kind == "interp":
            s += g.BasisGP(M._enterprise_fns()[1](log10_sigma=pm.Uniform(-7, -6), log10_lam=pm.Uniform(2, 2.8)), pm.function(utils.linear_interp_basis)(dt=r.uniform(200, 400) * DAY), selection=sl.Selection(sl.no_selection), name="lin")
        elif kind == "ecorrgp":
            s += g.EcorrBasisModel(log10_ecorr=pm.Uniform(-7, -6), selection=sel())
        elif kind == "dmtn":
            s += g.BasisGP(pl(), gb.createfourierdesignmatrix_dm_tn(nmodes=3, idx=pm.Uniform(1, 4)), name="dmtn")
        elif kind == "pshift":
            s += g.FourierBasisGP(pl(), components=4, pshift=True, pseed=int(r.randint(1000)), name="ps")
        elif kind == "custom":
            s += w.EcorrKernelNoise(log10_ecorr=pm.Uniform(-7, -6), selection=sl.Selection(sl.custom_backends(["Rcvr", "S"])), method=M.pick(r, ["sparse", "sherman-morrison", "block", "fast-sherman-morrison"]))
            s += w.TNEquadNoise(log10_tnequad=pm.Uniform(-8, -6.5), selection=sl.Selection(sl.by_freq_band()))
        coef = kind == "coeff"
        s += g.FourierBasisGP(pl(), components=3, coefficients=coef, name="rn", **(dict(Tspan=5 * YR, selection=sel()) if coef or r.rand() < 0.5 else {}))
        if r.rand() < 0.8 or kind == "wideband":
            s += tm
        if r.rand() < 0.4 and n > 1 and kind != "coeff":
            s += g.FourierBasisCommonGP(pl(), utils.hd_orf(), components=3, Tspan=5 * YR, name="gw")
        made.append(signal_base.PTA([s(q) for q in group]))
    a, b = made
    ctx.sig(kind, seed)
    ctx.ok(a.param_names == b.param_names, "library-names", "{} {}".format(a.param_names, b.param_names), kind=kind)
    for p in L.sample(rng, a, 2):
        ctx.event("library-permuted")
        ctx.event("library:" + kind)
        va, vb = lnl(a, p, rng), lnl(b, p, rng)
        scale = sum(float(np.sum((q.residuals - np.broadcast_to(dl, len(q.toas))) ** 2 / q.toaerrs**2)) for q, dl in zip(qs, a.get_delay(p)))
        ctx.close(vb, va, "library-permuted", rtol=1e-5 if kind == "wideband" else 1e-7, atol=2e-5, scale=scale + 100.0, kind=kind, params=p)
        structure(ctx, rng, qs, perms, a, b, p, kind, svd=kind == "pshift")  # seeded phases depend on the first TOA; the pair of columns spans the same space


SCENARIOS = {"order": (order, 160, 4000), "time": (time, 110, 3000), "sky": (sky, 130, 2500), "units": (units, 110, 3000), "names": (names, 220, 4000), "library": (library, 130, 4000), "layout": (layout, 120, 3000)}
