"""C16: Fourier and interpolation bases against their definitions (extended-precision oracle)."""
import numpy as np

from .. import model as M, psr as P
from ..core import size as tail

PROP = "C16"
RULE = ("a case is a basis function with random options (span, linear/log spacing, limits, explicit modes as list or array, phase shift and seed, chromatic index, reference frequency, "
        "envelope, flags) on random or real TOAs in any order, called on arrays and through signals with selections; columns are compared with an extended-precision evaluation, "
        "random phases are recovered from the columns; distinct = distinct (function, options, shape)")
ASSUMPTIONS = ["spans are positive (more than one distinct TOA, or an explicit span)", "modes are in Hz and positive",
               "tolerance 1e-11 of the column factor: rounding of 2 pi f t at t of about 5e9 s"]
REQUIRE = {"columns": 600, "seeded": 100, "phase": 100, "interp": 150, "factory": 100, "via-signal": 150, "prefix": 40}
LD = np.longdouble
PI = LD("3.14159265358979323846264338327950288")
KDM = np.sqrt(LD(12)) * PI / LD(1400) / LD(1400) / LD("2.41e-4")


def toas(rng, n=None):
    n = tail(rng, 1, 30, 600) if n is None else n
    t = 53000 * 86400.0 + rng.uniform(0, 10.0 ** rng.uniform(6, 8.5), n)
    if n > 3 and rng.rand() < 0.2:
        t[1] = t[0]
    return t if rng.rand() < 0.6 else np.sort(t)


def options(rng, t, span=True):
    """random frequency options; returns kwargs and the expected frequencies (long double)."""
    kw = {}
    T = LD(t.max() - t.min())
    if len(set(t)) < 2 or rng.rand() < 0.5:
        kw["Tspan"] = 10.0 ** rng.uniform(6.5, 8.8)
        T = LD(kw["Tspan"])
    n = tail(rng, 1, 13, 80)
    if rng.rand() < 0.9:
        kw["nmodes"] = int(n)
    else:
        n = 30
    u = rng.rand()
    if u < 0.3:
        k = rng.randint(1, 8)
        f = 10.0 ** rng.uniform(-9.2, -6, k)
        if rng.rand() < 0.7:
            f = np.sort(f)
        kw["modes"] = [list(f), np.array(f), tuple(f)][rng.randint(3)]
        if rng.rand() < 0.3:  # explicit modes win over all other options
            kw["fmin"], kw["logf"] = 1e-9, True
        return kw, f.astype(LD)
    lo, hi = 1 / T, n / T
    gen = False
    if u > 0.55:
        gen = True
        v = rng.rand()
        if v < 0.66:
            kw["fmin"] = 10.0 ** (rng.uniform(-9.5, -8.5) if rng.rand() < 0.7 else rng.uniform(-13, -9.5))
            lo = LD(kw["fmin"])
        if v > 0.33:
            kw["fmax"] = 10.0 ** rng.uniform(-8, -6)
            hi = LD(kw["fmax"])
    i = np.arange(n).astype(LD)
    if rng.rand() < 0.4:
        kw["logf"] = True
        f = lo * (hi / lo) ** (i / max(n - 1, 1))
    elif gen:
        f = lo + (hi - lo) * i / max(n - 1, 1)
    else:
        f = (i + 1) / T
    return kw, f


def base(t, f, phase=None):
    a = 2 * PI * t.astype(LD)[:, None] * f[None, :] + (0 if phase is None else np.asarray(phase, LD)[None, :])
    F = np.empty((len(t), 2 * len(f)), LD)
    F[:, ::2], F[:, 1::2] = np.sin(a), np.cos(a)
    return F, np.repeat(f, 2)


def tol(t, f):
    # frequencies carry a few (logarithmic spacing: tens of) roundings
    return 3e-16 * 2 * np.pi * float(np.max(np.abs(t)) * np.max(f)) * 40 + 1e-13


def check(ctx, got, F, fl, t, f, fac, key, **kw):
    """got = (matrix, labels)."""
    ctx.event("columns")
    G, g = np.asarray(got[0], LD), np.asarray(got[1], LD)
    ctx.ok(g.shape == (F.shape[1],), key + "-labels", "{} labels for {} columns".format(g.shape, F.shape), **kw)
    if g.shape == (F.shape[1],):
        ctx.close(np.asarray(g / fl, float), np.ones(len(fl)), key + "-labels", rtol=1e-12, **kw)
    if not ctx.ok(G.shape == F.shape, key, "shape {} expected {}".format(G.shape, F.shape), **kw):
        return
    s = np.asarray(fac, LD)[:, None] if np.ndim(fac) == 1 else LD(fac)
    w = s * F
    m = np.max(np.abs(np.asarray(s, float))) if np.size(s) else 1.0
    # per row: a wrong small factor must not hide behind a large one
    row = np.broadcast_to(np.abs(np.asarray(s, float)), (len(t), 1)) if np.ndim(fac) == 1 else np.full((len(t), 1), abs(float(fac)))
    z = row[:, 0] > 1e-280
    e = np.asarray((G[z] - w[z]) / row[z], float) if z.any() else np.zeros((1, 1))
    # powers and exponentials magnify the rounding of their argument
    steep = np.max(np.abs(np.log(row[z]))) if z.any() else 0.0
    ctx.close(e, np.zeros(e.shape), key, rtol=0, atol=tol(t, f) + 3e-15 * steep, **kw)
    if (~z).any():
        ctx.close(np.asarray(G[~z], float), np.zeros(G[~z].shape), key, rtol=0, atol=1e-270 + 1e-30 * m, **kw)


def data(rng, n=None):
    t = toas(rng, n)
    nu = rng.uniform(300, 4000, len(t)) if rng.rand() < 0.8 else 10.0 ** rng.uniform(0.8, 6, len(t))
    fl = {"group": np.array(["A", "B", "AB"])[rng.randint(0, 3, len(t))], "f": np.array(["x_1", "x_2"])[rng.randint(0, 2, len(t))]}
    if rng.rand() < 0.3:
        fl = {k: v.astype(object) for k, v in fl.items()}
    return t, nu, fl


FNS = ["red", "dm", "dm_tn", "env", "ephem", "chromatic", "general"]


def build(rng, fn, t, nu, fl, pos):
    """kwargs (beyond the data), expected matrix factor, F, labels, f"""
    kw, f = options(rng, t)
    F, lab = base(t, f)
    fac = np.ones(len(t), LD)
    if fn == "ephem":
        n = kw.get("nmodes", 30)
        kw = {k: v for k, v in kw.items() if k in ("nmodes", "Tspan")}
        T = LD(kw.get("Tspan", t.max() - t.min()))
        f = (np.arange(n).astype(LD) + 1) / T
        F0, _ = base(t, f)
        F = np.empty((len(t), 6 * n), LD)
        for k in range(n):
            for sc in range(2):
                for a in range(3):
                    F[:, 6 * k + 3 * sc + a] = F0[:, 2 * k + sc] * LD(pos[a])
        lab = np.repeat(f, 6)
    elif fn in ("dm", "dm_tn"):
        ref = 1400.0
        if rng.rand() < 0.5:
            kw["fref"] = ref = M.pick(rng, [1000, 1400, 800.0, 1.0])
        idx = 2
        if fn == "dm_tn":
            if rng.rand() < 0.5:
                kw["idx"] = idx = M.pick(rng, [2, 4, 1, 3.3])
            fac = (LD(ref) / nu.astype(LD)) ** LD(idx) * KDM
        else:
            fac = (LD(ref) / nu.astype(LD)) ** 2
    elif fn == "chromatic":
        idx = 4
        if rng.rand() < 0.6:
            kw["idx"] = idx = M.pick(rng, [0, 1, 2, 2.5, 4, 6.4, -1])
        fac = (LD(1400) / nu.astype(LD)) ** LD(idx)
    elif fn == "env":
        A, Q, t0 = -7, np.log10(300), 53000 * 86400.0
        if rng.rand() < 0.8:
            kw["log10_Amp"] = A = rng.uniform(-9, -3)
        if rng.rand() < 0.8:
            kw["log10_Q"] = Q = rng.uniform(0.5, 3.5) if rng.rand() < 0.7 else rng.uniform(-1, 6)
        if rng.rand() < 0.8:
            kw["t0"] = t0 = rng.uniform(t.min() - 1e7, t.max() + 1e7)
        q = LD(10) ** LD(Q) * 86400
        fac = LD(10) ** LD(A) * np.exp(-((t.astype(LD) - LD(t0)) ** 2) / 2 / q**2)
    elif fn == "general":
        if rng.rand() < 0.7:
            idx = M.pick(rng, [0, 1, 2, 4, 2.5])
            kw["idx"] = idx
            fac = (LD(1400) / nu.astype(LD)) ** LD(idx)
            if rng.rand() < 0.5:
                kw["tndm"] = True
                if idx:
                    fac = fac * KDM
        elif rng.rand() < 0.3:
            kw["idx"] = None
        if rng.rand() < 0.7:
            name = M.pick(rng, ["group", "f"])
            if name != "group" or rng.rand() < 0.5:
                kw["flagname"] = name
            val = M.pick(rng, list(fl[name]))
            kw["flagval"] = str(val)
            m = np.array([x == val for x in fl[name]])
            fac = np.where(m, fac, LD(0))
            if rng.rand() < 0.5 and len(set(t[m])) > 1 and "modes" not in kw:
                # the sub-group's own span takes the place of any span
                kw["psrTspan"] = False
                Ts = LD(t[m].max() - t[m].min())
                n = kw.get("nmodes", 30)
                if "fmin" in kw or "fmax" in kw or kw.get("logf"):
                    lo = LD(kw["fmin"]) if "fmin" in kw else 1 / Ts
                    hi = LD(kw["fmax"]) if "fmax" in kw else n / Ts
                    i = np.arange(n).astype(LD) / max(n - 1, 1)
                    f = lo * (hi / lo) ** i if kw.get("logf") else lo + (hi - lo) * i
                else:
                    f = (np.arange(n).astype(LD) + 1) / Ts
                F, lab = base(t, f)
    return kw, fac, F, lab, f


def call(fn, t, nu, fl, pos, kw):
    from enterprise.signals import gp_bases as b

    g = getattr(b, "createfourierdesignmatrix_" + fn)
    if fn in ("red", "env"):
        return g(t, **kw)
    if fn == "ephem":
        return g(t, pos, **kw)
    if fn == "general":
        return g(t, nu, fl, **kw)
    return g(t, nu, **kw)


def direct(ctx, rng):
    fn = M.pick(rng, FNS)
    t, nu, fl = data(rng)
    pos = rng.randn(3)
    pos /= np.linalg.norm(pos)
    kw, fac, F, lab, f = build(rng, fn, t, nu, fl, pos)
    before = (t.copy(), nu.copy())
    got = call(fn, t, nu, fl, pos, kw)
    ctx.sig(fn, sorted(kw), len(t), F.shape[1], type(kw.get("modes")).__name__)
    check(ctx, got, F, lab, t, f, fac, fn, opts={k: v for k, v in kw.items()}, n=len(t))
    ctx.ok(np.array_equal(before[0], t) and np.array_equal(before[1], nu), "input-untouched", "basis modified its input")
    again = call(fn, t, nu, fl, pos, kw)
    ctx.same(again[0], got[0], "deterministic")
    if rng.rand() < 0.3:
        # every row depends on its own TOA only (given the span)
        kw2 = dict(kw)
        if fn == "ephem" or ("modes" not in kw):
            kw2["Tspan"] = kw.get("Tspan", t.max() - t.min())
        if not (fn == "general" and kw.get("psrTspan") is False):
            i = rng.permutation(len(t))[: max(1, len(t) // 2)]
            r = call(fn, t[i], nu[i], {k: v[i] for k, v in fl.items()}, pos, kw2)
            ctx.close(r[0], got[0][i], "row-local", rtol=0, atol=1e-13 * max(1e-300, float(np.max(np.abs(got[0])))))


def prefix(ctx, rng):
    """k/T: partially overlapping sets of modes have identical frequencies and columns."""
    t, nu, fl = data(rng, rng.randint(2, 20))
    fn = M.pick(rng, ["red", "dm", "chromatic", "env", "dm_tn", "general", "ephem"])
    T = 10.0 ** rng.uniform(7, 8.6)
    a, b = sorted(rng.randint(1, 25, 2))
    pos = np.array([0.6, 0.0, -0.8])
    A = call(fn, t, nu, fl, pos, dict(nmodes=int(a), Tspan=T))
    B = call(fn, t, nu, fl, pos, dict(nmodes=int(b), Tspan=T))
    ctx.event("prefix")
    ctx.sig(fn, a, b, len(t))
    ctx.same(A[1], B[1][: len(A[1])], "prefix-labels")
    ctx.same(A[0], B[0][:, : A[0].shape[1]], "prefix-columns")


def phases(ctx, F, f, t, fac, key):
    """recover the phase of every mode; all TOAs must agree; returns phases."""
    G = np.asarray(F, LD) / np.asarray(fac, LD)[:, None]
    a = 2 * PI * t.astype(LD)[:, None] * f[None, :]
    ph = np.arctan2(G[:, ::2], G[:, 1::2]) - a
    z = np.exp(1j * np.asarray(ph % (2 * PI), float))
    ctx.event("phase")
    m = np.mean(z, axis=0)
    ctx.close(np.abs(m), np.ones(len(f)), key + "-common-phase", rtol=0, atol=1e-9)
    ctx.close(np.asarray(G[:, ::2] ** 2 + G[:, 1::2] ** 2, float), np.ones((len(t), len(f))), key + "-amplitude", rtol=0, atol=1e-12)
    return np.angle(m) % (2 * np.pi)


def shift(ctx, rng):
    """random phases: seeded ones are reproducible, pulsar- and seed-dependent; unseeded follow the global stream."""
    fn = M.pick(rng, ["red", "red", "general", "dm", "dm_tn"])
    t, nu, fl = data(rng, rng.randint(3, 20))
    pos = None
    kw, f = options(rng, t)
    if rng.rand() < 0.7:
        kw["nmodes"] = int(rng.randint(4, 12))
        T = LD(kw.get("Tspan", t.max() - t.min()))
        kw = {k: v for k, v in kw.items() if k in ("nmodes", "Tspan")}
        f = (np.arange(kw["nmodes"]).astype(LD) + 1) / T
    fac = np.ones(len(t), LD)
    if fn == "dm":
        fac = (LD(1400) / nu.astype(LD)) ** 2
    if fn == "dm_tn":
        fac = (LD(1400) / nu.astype(LD)) ** 2 * KDM
    seeded = fn in ("red", "general") and rng.rand() < 0.7
    ctx.sig(fn, seeded, sorted(kw), len(t), len(f))

    def go(tt=t, **more):
        n = dict(kw)
        n.update(more)
        return call(fn, tt, nu, fl, pos, n)

    if seeded:
        s = int(M.pick(rng, [0, 1, 17, rng.randint(0, 2**20)]))
        extra = M.pick(rng, [{}, {"pshift": True}, {"pshift": False}])
        A = go(pseed=s, **extra)
        np.random.seed(rng.randint(2**31))
        np.random.rand(rng.randint(5))
        B = go(pseed=s, **M.pick(rng, [{}, {"pshift": True}]))
        ctx.event("seeded")
        ctx.same(A[0], B[0], "seed-reproducible", "phases for the same seed differ")
        ctx.close(A[1], np.asarray(np.repeat(f, 2), float), "seeded-labels", rtol=1e-12)
        pa = phases(ctx, A[0], f, t, fac, fn)
        if len(f) >= 4:
            pb = phases(ctx, go(pseed=s + M.pick(rng, [1 + rng.randint(50), 10 ** rng.randint(2, 7), 2 ** rng.randint(6, 24), 1000 * (1 + rng.randint(50))]))[0], f, t, fac, fn)
            ctx.ok(np.max(np.abs(np.exp(1j * pa) - np.exp(1j * pb))) > 1e-3, "seed-dependence", "different seeds give the same phases")
            t2 = t + rng.uniform(1e4, 1e7)
            n = dict(kw)
            n.setdefault("Tspan", t.max() - t.min())
            C = call(fn, t2, nu, fl, pos, dict(n, pseed=s))
            pc = phases(ctx, C[0], f, t2, fac, fn)
            ctx.ok(np.max(np.abs(np.exp(1j * pa) - np.exp(1j * pc))) > 1e-3, "pulsar-dependence", "pulsars with different first TOA share phases")
            ctx.ok(np.ptp(pa) > 1e-3, "phases-differ", "all modes share one phase")
    else:
        s = int(rng.randint(2**31))
        np.random.seed(s)
        A = go(pshift=True)
        B = go(pshift=True)
        np.random.seed(s)
        C = go(pshift=True)
        ctx.same(A[0], C[0], "stream-reproducible", "phases do not follow the random state")
        pa, pb = phases(ctx, A[0], f, t, fac, fn), phases(ctx, B[0], f, t, fac, fn)
        if len(f) >= 3:
            ctx.ok(np.max(np.abs(np.exp(1j * pa) - np.exp(1j * pb))) > 1e-4, "stream-advances", "two draws of the phases are equal")
        np.random.seed(s)
        before = np.random.get_state()[2]
        Z = go(pshift=False)
        F, lab = base(t, f)
        check(ctx, Z, F, lab, t, f, fac, fn + "-noshift")
        ctx.ok(np.random.get_state()[2] == before, "no-shift-no-draw", "unshifted basis consumed random numbers")


def uniformity(ctx, rng):
    """phases are spread over the whole circle."""
    from enterprise.signals import gp_bases as b

    t = toas(rng, 4)
    s = int(rng.randint(2**20))
    n = 400
    F, _ = b.createfourierdesignmatrix_red(t, nmodes=n, Tspan=3e8, pseed=s)
    ph = phases(ctx, F, (np.arange(n).astype(LD) + 1) / LD(3e8), t, np.ones(4), "uniform")
    h, _ = np.histogram(ph, bins=8, range=(0, 2 * np.pi))
    ctx.sig(s)
    ctx.ok(h.min() > 15 and h.max() < 100, "phase-uniform", "histogram of {} phases {}".format(n, h.tolist()))


def signal(ctx, rng):
    """Bases reached through signals: own TOAs, frequencies, flags, positions, whatever the selection."""
    from enterprise.signals import gp_bases as b, gp_signals as g, utils as u

    q = P.real(rng, n=rng.randint(20, 60), npar=2) if rng.rand() < 0.2 else P.plain(rng, "J0", n=rng.randint(6, 30), nback=rng.randint(1, 4), sort=rng.rand() < 0.5)
    q.flags = dict(q.flags)
    fn = M.pick(rng, FNS + ["FourierBasisGP", "FourierBasisGP", "common"])
    sel = M.pick(rng, [None, "backend", "half", "band", "overlap"])
    masks = M.ref.masks(sel, q)
    T = float(q.toas.max() - q.toas.min())
    t, nu = q.toas, q.freqs
    fl = {k: np.array(v) for k, v in q.flags.items()}
    fl = {k: fl[k] for k in ("group", "f") if k in fl}
    if "group" not in fl:
        fl["group"] = fl["f"] = q.backend_flags
        q.flags["group"] = q.flags["f"] = q.backend_flags
    kind = "red" if fn in ("FourierBasisGP", "common") else fn
    kw, fac, F, lab, f = build(rng, kind, t, nu, fl, q.pos)
    if "modes" not in kw and "Tspan" not in kw and kw.get("psrTspan", True):
        kw["Tspan"] = T
    if kw.get("psrTspan") is False:
        sel = None
        masks = M.ref.masks(None, q)
    F = F * fac[:, None]
    spec = u.powerlaw(log10_A=-14, gamma=3.0, components=6 if fn == "ephem" else 2)
    ctx.event("via-signal")
    if fn == "common":
        kw2 = {k: v for k, v in kw.items() if k in ("nmodes", "Tspan", "modes", "logf", "fmin", "fmax")}
        n = kw2.pop("nmodes", 20)
        if "nmodes" not in kw and "modes" not in kw:
            return
        s = g.FourierBasisCommonGP(spec, u.hd_orf(), components=n, **kw2)(q)
        masks = {"": np.ones(len(t), bool)}
    elif fn == "FourierBasisGP":
        if "nmodes" not in kw and "modes" not in kw:
            return
        kw2 = dict(kw)
        n = kw2.pop("nmodes", 20)
        s = g.FourierBasisGP(spec, components=n, selection=M.sel_obj(sel), **kw2)(q)
    else:
        s = g.BasisGP(spec, getattr(b, "createfourierdesignmatrix_" + fn)(**kw), selection=M.sel_obj(sel))(q)
    G = s.get_basis({})
    ctx.sig(fn, sel, sorted(kw), len(t))
    keys = sorted(masks)
    k = F.shape[1]
    want = np.zeros((len(t), k * len(keys)))
    for i, key in enumerate(keys):
        want[np.ix_(masks[key], range(i * k, (i + 1) * k))] = np.asarray(F[masks[key]], float)
    if not ctx.ok(G.shape == want.shape, "signal-shape", "{} expected {} for {}".format(G.shape, want.shape, fn)):
        return
    ctx.close(G, want, "signal-basis", rtol=0, atol=tol(t, f) * max(1e-300, float(np.max(np.abs(fac)))), fn=fn, sel=sel, opts=kw)


def factory(ctx, rng):
    """The ready-made ephemeris processes: basis and prior of the documented ingredients, pulsar by pulsar."""
    from enterprise.signals import gp_signals as g, parameter as pm, utils as u

    q = P.plain(rng, "J0", n=rng.randint(6, 30), nback=2, sort=rng.rand() < 0.5)
    q2 = P.plain(rng, "J1", n=rng.randint(6, 30), nback=2, sort=rng.rand() < 0.5)
    if rng.rand() < 0.5:
        n, T = rng.randint(1, 6), rng.uniform(2, 12) * M.YR
        A, gam = rng.uniform(-15, -12), rng.uniform(1, 6)
        cls = g.FourierBasisCommonGP_ephem(u.powerlaw(log10_A=pm.Uniform(-16, -11), gamma=pm.Uniform(0, 7), components=6), n, T)
        p = {"ephem_gp_log10_A": A, "ephem_gp_gamma": gam}
        ctx.sig("ephem", n)
        fs = np.arange(1, n + 1) / T
        ph = np.repeat(10.0 ** (2 * A) / 12 / np.pi**2 * M.ref.FYR ** (gam - 3) * fs**-gam / T, 6)
        Fs = []
        for z in (q, q2):
            arg = 2 * np.pi * z.toas[:, None] * fs[None, :]
            F = np.zeros((len(z.toas), n, 2, 3))
            F[:, :, 0, :] = np.sin(arg)[:, :, None] * z.pos
            F[:, :, 1, :] = np.cos(arg)[:, :, None] * z.pos
            Fs.append(F.reshape(len(z.toas), 6 * n))
        tolF = 1e-16 * 2 * np.pi * np.max(fs) * np.max(q.toas) * 8
    else:
        kw = {}
        for k, v in (("frame_drift_rate", 1e-9), ("d_jupiter_mass", 1.5e-11), ("d_saturn_mass", 8e-12), ("d_uranus_mass", 5e-11), ("d_neptune_mass", 7e-11),
                     ("jup_orb_elements", 0.05), ("sat_orb_elements", 0.5)):
            r = rng.rand()
            if r < 0.6:
                kw[k] = v * rng.uniform(0.2, 5)
            elif r < 0.85:
                kw[k] = None
        defaults = dict(frame_drift_rate=1e-9, d_jupiter_mass=1.54976690e-11, d_saturn_mass=8.17306184e-12, d_uranus_mass=5.71923361e-11,
                        d_neptune_mass=7.96103855e-11, jup_orb_elements=0.05, sat_orb_elements=0.5)
        full = dict(defaults, **kw)
        if not any(v for v in full.values()):
            return
        mo = M.pick(rng, [None, "setIII", "orbel", "orbel-v2"])
        cls = g.FourierBasisCommonGP_physicalephem(**dict(kw, **({"model": mo} if mo else {})))
        t, jo, so = u.get_planet_orbital_elements(mo or "setIII")
        p = {}
        ctx.sig("physical", sorted(k for k in full if full[k]), mo)
        ph, Fs = [], []
        for z in (q, q2):
            F, ph = [], []
            # the delay is linear in the parameters (to first order in the drift rate)
            for k, pos in (("frame_drift_rate", None), ("d_jupiter_mass", 4), ("d_saturn_mass", 5), ("d_uranus_mass", 6), ("d_neptune_mass", 7)):
                if not full[k]:
                    continue
                if pos is None:
                    E = M.ref.M_ECL if hasattr(M.ref, "M_ECL") else u.ecl2eq_vec(np.eye(3)).T
                    e = z.planetssb[:, 2, :3] @ E  # ecliptic components
                    x = 1e-5 * (z.toas / 86400.0 - 55197.0) / 365.25
                    d = np.array([np.cos(x) * e[:, 0] - np.sin(x) * e[:, 1], np.sin(x) * e[:, 0] + np.cos(x) * e[:, 1], e[:, 2]]).T - e
                    F.append(-np.sum((d @ E.T) * z.pos_t, axis=1) / 1e-5)
                else:
                    F.append(-np.sum(z.planetssb[:, pos, :3] * z.pos_t, axis=1))
                ph.append(full[k] ** 2)
            for k, orb, mass in (("jup_orb_elements", jo, 0.0009547918983127075), ("sat_orb_elements", so, 0.00028588567008942334)):
                if full[k]:
                    for i in range(6):
                        d = np.array([np.interp(z.toas / 86400.0, t, orb[i, :, a]) for a in range(3)]).T
                        F.append(-mass * np.sum(d * z.pos_t, axis=1))
                        ph.append(full[k] ** 2)
            Fs.append(np.array(F).T)
        tolF = None
    s1, s2 = cls(q), cls(q2)
    ctx.event("factory")
    for z, s, F in ((q, s1, Fs[0]), (q2, s2, Fs[1])):
        G = np.asarray(s.get_basis(p), float)
        if ctx.ok(G.shape == F.shape, "factory-shape", "{} expected {}".format(G.shape, F.shape)):
            sc = np.max(np.abs(F), axis=0)
            # the columns are finite differences (step 1e-5) of vectors of hundreds of light seconds
            tt = tolF if tolF is not None else 1e-9 + 32 * 2.2e-16 * np.max(np.abs(z.planetssb[:, 2, :3])) / 1e-5 / sc
            ctx.close(G / sc / tt, F / sc / tt, "factory-basis", rtol=0, atol=1)
        ctx.close(np.asarray(s.get_phi(p), float), np.array(ph) * (1 + 1e-5), "factory-prior", rtol=1e-9)
    ctx.close(np.asarray(type(s1).get_phicross(s1, s2, p), float), ph, "factory-cross", rtol=1e-9)


def interp(ctx, rng):
    """linear interpolation reproduces every piecewise linear function on its nodes."""
    from enterprise.signals import utils as u, gp_signals as g, gp_priors  # noqa: F401

    dt = M.pick(rng, [30 * 86400.0, rng.uniform(1, 60) * 86400.0, 10.0 ** rng.uniform(3, 7.7)])
    n = tail(rng, 1, 40, 800)
    kind = M.pick(rng, ["random", "grid", "multiple", "gap", "cluster", "one"])
    t0 = 53000 * 86400.0 + (rng.uniform(0, 1e8) if rng.rand() < 0.7 else 0.0)
    k = tail(rng, 1, 40, 200)
    if kind == "random":
        t = t0 + rng.uniform(0, k, n) * dt
    elif kind == "grid":  # TOAs on the nodes
        t = t0 + dt * rng.permutation(k + 1).astype(float)
    elif kind == "multiple":  # span is a multiple of the step up to rounding
        t = np.concatenate([[t0], t0 + rng.uniform(0, k, n) * dt, [t0 + k * dt]])
    elif kind == "gap":
        t = np.concatenate([t0 + rng.uniform(0, 2, n) * dt, t0 + (k + 5 + rng.uniform(0, 2, n)) * dt])
    elif kind == "cluster":
        t = t0 + rng.randint(0, 5, n) * dt * 1.5
    else:
        t = np.array([t0])
    t = t[rng.permutation(len(t))]
    call1 = lambda: u.linear_interp_basis(t, dt) if dt != 30 * 86400.0 or rng.rand() < 0.5 else u.linear_interp_basis(t)
    A, x = call1()
    ctx.event("interp")
    ctx.event("interp:" + kind)
    ctx.sig(kind, len(t), k, round(dt))
    if not ctx.ok(A.shape == (len(t), len(x)) and len(x) >= 1, "interp-shape", "basis {} nodes {}".format(A.shape, len(x))):
        return
    ctx.close(A.sum(axis=1), np.ones(len(t)), "interp-partition-of-unity", rtol=0, atol=1e-9, kind=kind, dt=dt)
    ctx.ok(np.all(A >= -1e-9) and np.all((np.abs(A) > 1e-12).sum(axis=1) <= 2), "interp-hat", "more than two nodes or negative weights", kind=kind)
    ctx.ok(np.all(np.diff(x) > 0) and np.all(np.abs(A).sum(axis=0) > 0), "interp-nodes", "nodes not increasing or without TOAs", kind=kind)
    # node spacing: multiples of the step (nodes nobody uses are dropped)
    if len(x) > 1:
        d = np.diff(x) / dt
        ctx.close(d, np.round(d), "interp-step", rtol=0, atol=1e-7, kind=kind)
    # a function linear between the nodes: random values at the nodes
    v = rng.randn(len(x))
    want = np.empty(len(t))
    for i, ti in enumerate(t):
        j = np.searchsorted(x, ti, side="right") - 1
        j = min(max(j, 0), len(x) - 1)
        if j + 1 < len(x) and x[j + 1] - x[j] < 1.5 * dt:
            w = (ti - x[j]) / (x[j + 1] - x[j])
            want[i] = v[j] * (1 - w) + v[j + 1] * w
        else:
            want[i] = v[j]
    ctx.close(A @ v, want, "interp-linear", rtol=0, atol=1e-8 * 10 if True else 0, kind=kind, dt=dt, n=len(t))
    lin = (t - t0) / dt
    ctx.close(A @ ((x - t0) / dt), lin, "interp-line", rtol=0, atol=1e-7, kind=kind, dt=dt)


SCENARIOS = {"factory": (factory, 120, 4000), "direct": (direct, 2500, 80000), "prefix": (prefix, 60, 1000), "shift": (shift, 600, 16000), "uniformity": (uniformity, 8, 60),
             "signal": (signal, 600, 16000), "interp": (interp, 600, 20000)}
