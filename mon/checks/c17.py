"""C17: power-spectrum priors against their definitions (extended precision) and documented reductions."""
import numpy as np

from .. import model as M, psr as P
from ..core import size as tail

PROP = "C17"
RULE = ("a case is a spectral prior with random parameters on random frequency labels (linear, logarithmic or irregular ascending modes, 2 or more columns each), "
        "called on arrays and through GP signals with selections, vector parameters and constants; every element is compared with an extended-precision evaluation, "
        "and documented reductions and scalings are checked between priors; distinct = distinct (prior, label pattern, parameters fixed)")
ASSUMPTIONS = ["labels ascend", "parameters such that the variances neither overflow nor underflow double precision"]
REQUIRE = {"element": 800, "reduction": 300, "scaling": 150, "via-signal": 200, "weights": 50}
LD = np.longdouble
YR = LD(365.25) * 86400
FYR = 1 / YR
PI = LD("3.14159265358979323846264338327950288")
NAMES = ["powerlaw", "turnover", "free_spectrum", "t_process", "t_process_adapt", "turnover_knee", "broken_powerlaw", "powerlaw_genmodes"]


def labels(rng, comp):
    n = tail(rng, 1, 16, 150)
    u = rng.rand()
    T = 10.0 ** rng.uniform(7, 8.8)
    if u < 0.5:
        f = np.arange(1, n + 1) / T
    elif u < 0.75:
        f = np.logspace(rng.uniform(-9.5, -8.5), rng.uniform(-8, -6.5), n)
    else:
        f = np.sort(10.0 ** rng.uniform(-9.3, -6.5, n))
    return np.repeat(f, comp)


def p10(x):
    return LD(10) ** np.asarray(x, LD)


def width(f, c):
    g = np.asarray(f, LD)[::c]
    return np.repeat(np.concatenate([g[:1], g[1:] - g[:-1]]), c)


def expect(name, f, kw, c=2):
    """documented PSD times bin width."""
    F, w = np.asarray(f, LD), width(f, c)
    g = {"powerlaw": ("log10_A", -16, "gamma", 5), "powerlaw_genmodes": ("log10_A", -16, "gamma", 5), "turnover": ("log10_A", -15, "gamma", 4.33),
         "t_process": ("log10_A", -15, "gamma", 4.33), "t_process_adapt": ("log10_A", -15, "gamma", 4.33)}.get(name, ("log10_A", None, "gamma", None))
    if name == "free_spectrum":
        return np.repeat(p10(kw["log10_rho"]) ** 2, 2)
    A, gam = p10(kw.get("log10_A", g[1])), LD(kw.get("gamma", g[3]))
    hc = A * (F / FYR) ** ((3 - gam) / 2)
    if name == "turnover":
        f0, ka, be = p10(kw.get("lf0", -8.5)), LD(kw.get("kappa", 10 / 3)), LD(kw.get("beta", 0.5))
        hc = hc * (1 + (f0 / F) ** ka) ** (-be)
    elif name == "turnover_knee":
        hc = hc * (1 + F / p10(kw["lfk"])) ** LD(kw["delta"]) * (1 + (p10(kw["lfb"]) / F) ** LD(kw["kappa"])) ** (-LD(0.5))
    elif name == "broken_powerlaw":
        ka = LD(kw.get("kappa", 0.1))
        hc = hc * (1 + (F / p10(kw["log10_fb"])) ** (1 / ka)) ** (ka * (gam - LD(kw["delta"])) / 2)
    psd = hc**2 / (12 * PI**2 * F**3)
    if name == "t_process" and kw.get("alphas") is not None:
        psd = psd * np.repeat(np.asarray(kw["alphas"], LD), 2)
    if name == "t_process_adapt" and kw.get("alphas_adapt") is not None:
        if kw.get("nfreq") is None:
            psd = psd * np.repeat(np.asarray(kw["alphas_adapt"], LD), 2)
        else:
            k = int(np.floor(kw["nfreq"] + 0.5))
            psd = psd.copy()
            psd[2 * k:2 * k + 2] *= LD(np.ravel(kw["alphas_adapt"])[0])
    if name == "powerlaw_genmodes" and kw.get("wgts") is not None:
        w = np.repeat(np.asarray(kw["wgts"], LD) ** 2, c)
    return psd * w


def params(rng, name, nf, default=True):
    def maybe(k, v):
        return {} if default and rng.rand() < 0.15 else {k: v}

    if name == "free_spectrum":
        v = rng.uniform(-9, -4, nf)
        return {"log10_rho": list(v) if rng.rand() < 0.3 else v}
    kw = {}
    a, gm = rng.uniform(-18, -11), M.pick(rng, [rng.uniform(0, 7), 13 / 3, 3.0, 0.0, 5])
    if name in ("turnover_knee", "broken_powerlaw"):
        kw.update(log10_A=a, gamma=gm)
    else:
        kw.update(maybe("log10_A", a))
        kw.update(maybe("gamma", gm))
    wd = M.pick(rng, [2, 2, 8])

    def edge(v, *edges):
        return M.pick(rng, edges) if rng.rand() < 0.15 else v

    if name == "turnover":
        kw.update(maybe("lf0", rng.uniform(-9.5, -7)))
        kw.update(maybe("kappa", rng.uniform(0.5, 7)))
        kw.update(maybe("beta", edge(rng.uniform(0, 2), 0.0, 0.5, 1.0)))
    elif name == "turnover_knee":
        kw.update(lfb=rng.uniform(-9.5, -7), lfk=rng.uniform(-9, -7), kappa=edge(rng.uniform(0.5, 7), 0.0, 10 / 3), delta=edge(rng.uniform(-3, 2), 0.0))
    elif name == "broken_powerlaw":
        kw.update(delta=edge(rng.uniform(0, 5), 0.0, float(gm)), log10_fb=rng.uniform(-9, -7))
        kw.update(maybe("kappa", rng.uniform(0.05, 2) if rng.rand() < 0.8 else 10.0 ** rng.uniform(-1.7, 0.7)))
    elif name == "t_process":
        kw.update(maybe("alphas", 10.0 ** rng.uniform(-wd, wd, nf)))
    elif name == "t_process_adapt" and rng.rand() < 0.9:
        if rng.rand() < 0.5:
            kw["alphas_adapt"] = 10.0 ** rng.uniform(-wd, wd, nf)
        else:
            kw["alphas_adapt"] = float(10.0 ** rng.uniform(-wd, wd))
            kw["nfreq"] = rng.randint(nf) + rng.uniform(-0.49, 0.49)
    elif name == "powerlaw_genmodes" and rng.rand() < 0.7:
        kw["wgts"] = 10.0 ** rng.uniform(-6, -3, nf)
    return kw


def fn(name):
    from enterprise.signals import gp_priors

    return getattr(gp_priors, name)


def elements(ctx, got, want, key, rtol=1e-11, **kw):
    got = np.asarray(got)
    if not ctx.ok(got.shape == want.shape, key + "-shape", "{} expected {}".format(got.shape, want.shape), **kw):
        return
    want = np.asarray(want, LD)
    if not (np.all(want > 1e-290) and np.all(want < 1e290)):
        ctx.event("out-of-range-skipped")
        return
    ctx.close(np.asarray(np.asarray(got, LD) / want, float), np.ones(len(want)), key, rtol=rtol, **kw)


def direct(ctx, rng):
    name = M.pick(rng, NAMES)
    comp = M.pick(rng, [2, 2, 6, 1, 3]) if name in ("powerlaw", "powerlaw_genmodes") else 2
    f = labels(rng, comp)
    kw = params(rng, name, len(f) // comp)
    if rng.rand() < 0.15:  # whole numbers given as integers
        for k, v in kw.items():
            r = np.round(np.asarray(v, float))
            if k not in ("wgts", "nfreq") and np.all(r != 0):
                kw[k] = int(r) if np.ndim(v) == 0 else M.pick(rng, [r.astype(int), [int(x) for x in r]])
        ctx.event("integers")
    call = dict(kw)
    if comp != 2 or (name.startswith("powerlaw") and rng.rand() < 0.3):
        call["components"] = comp
    ctx.sig(name, comp, sorted(kw), len(f))
    f0 = f.copy()
    got = fn(name)(f, **call)
    ctx.event("element")
    elements(ctx, got, expect(name, f, kw, comp), name, kw=kw, comp=comp)
    ctx.same(f, f0, "labels-untouched")
    if comp > 1:
        g = np.asarray(got).reshape(-1, comp)
        ctx.ok(np.all(g == g[:, :1]), "repeated", "columns of one frequency differ", kw=kw, name=name)


def scaling(ctx, rng):
    name = M.pick(rng, [n for n in NAMES if n != "free_spectrum"])
    f = labels(rng, 2)
    kw = params(rng, name, len(f) // 2, default=False)
    d = rng.uniform(-2, 2)
    a = fn(name)(f, **kw)
    b = fn(name)(f, **dict(kw, log10_A=kw["log10_A"] + d))
    ctx.event("scaling")
    ctx.sig(name, len(f))
    ctx.close(b / a, np.full(len(f), 10 ** (2 * d)), "amplitude-squared", rtol=1e-10, name=name, kw=kw)
    if name == "powerlaw":
        r = fn(name)(f, **dict(kw, gamma=kw["gamma"] + 1)) / a
        ctx.close(r * f * float(YR), np.ones(len(f)), "slope", rtol=1e-10)
        k = rng.uniform(0.1, 10)  # pivot at 1/yr: at f = 1/yr the PSD does not depend on gamma
        g = np.repeat([float(FYR)], 2)
        ctx.close(fn(name)(g, log10_A=-14.0, gamma=k), float(LD(10) ** -28 / 12 / PI**2 * YR**2) * np.ones(2), "pivot", rtol=1e-11)


def reduction(ctx, rng):
    from enterprise.signals import gp_priors as g

    f = labels(rng, 2)
    n = len(f) // 2
    A, gm = rng.uniform(-17, -12), rng.uniform(0, 7)
    pl = g.powerlaw(f, log10_A=A, gamma=gm)
    kap, be, de = rng.uniform(1, 7), rng.uniform(0, 2), rng.uniform(-2, 2)
    lf0 = rng.uniform(-9.5, -7)
    al = 10.0 ** rng.uniform(-2, 2, n)
    wide = 10.0 ** rng.uniform(-2, 2)
    ctx.event("reduction")
    ctx.sig(n, round(gm, 1), round(kap), round(de))
    eq = lambda x, y, k, r=1e-10: ctx.close(np.asarray(x) / np.asarray(y), np.ones(len(f)), k, rtol=r)  # noqa: E731
    eq(g.turnover(f, log10_A=A, gamma=gm, lf0=-40.0, kappa=kap, beta=be), pl, "turnover-low")
    eq(g.turnover(f, log10_A=A, gamma=gm, lf0=lf0, kappa=kap, beta=0.0), pl, "turnover-beta0")
    eq(g.turnover_knee(f, log10_A=A, gamma=gm, lfb=-40.0, lfk=lf0, kappa=kap, delta=0.0), pl, "knee-off")
    eq(g.turnover_knee(f, log10_A=A, gamma=gm, lfb=-40.0, lfk=40.0, kappa=kap, delta=de), pl, "knee-far")
    eq(g.turnover_knee(f, log10_A=A, gamma=gm, lfb=lf0, lfk=lf0, kappa=kap, delta=0.0), g.turnover(f, log10_A=A, gamma=gm, lf0=lf0, kappa=kap, beta=0.5), "knee-turnover")
    eq(g.broken_powerlaw(f, log10_A=A, gamma=gm, delta=gm, log10_fb=lf0, kappa=0.3), pl, "broken-equal")
    eq(g.broken_powerlaw(f, log10_A=A, gamma=gm, delta=rng.uniform(0, 7), log10_fb=20.0, kappa=0.3), pl, "broken-far")
    # break far below the band: slope delta
    d = rng.uniform(0, 5)
    b = g.broken_powerlaw(f, log10_A=A, gamma=gm, delta=d, log10_fb=-14.0, kappa=0.2)
    q = b / g.powerlaw(f, log10_A=A, gamma=d)
    ctx.close(q / q[0], np.ones(len(f)), "broken-high-slope", rtol=1e-9)
    # continuity at the break: at f = f_b the factor is 2^(kappa (gamma - delta))
    k2 = rng.uniform(0.1, 1)
    at = g.broken_powerlaw(f, log10_A=A, gamma=gm, delta=d, log10_fb=np.log10(f[0]), kappa=k2)[0] / pl[0]
    ctx.close(at, 2 ** (k2 * (gm - d)), "broken-at-break", rtol=1e-9)
    at = g.turnover(f, log10_A=A, gamma=gm, lf0=np.log10(f[-1]), kappa=kap, beta=be)[-1] / pl[-1]
    ctx.close(at, 2 ** (-2 * be), "turnover-at-break", rtol=1e-9)
    eq(g.t_process(f, log10_A=A, gamma=gm), pl, "tprocess-default")
    eq(g.t_process(f, log10_A=A, gamma=gm, alphas=np.ones(n)), pl, "tprocess-unit")
    eq(g.t_process(f, log10_A=A, gamma=gm, alphas=al), pl * np.repeat(al, 2), "tprocess-factors")
    eq(g.t_process_adapt(f, log10_A=A, gamma=gm), pl, "adapt-default")
    eq(g.t_process_adapt(f, log10_A=A, gamma=gm, alphas_adapt=np.ones(n)), pl, "adapt-unit")
    eq(g.t_process_adapt(f, log10_A=A, gamma=gm, alphas_adapt=al), pl * np.repeat(al, 2), "adapt-factors")
    k = rng.randint(n)
    w = pl.copy()
    w[2 * k:2 * k + 2] *= wide
    eq(g.t_process_adapt(f, log10_A=A, gamma=gm, alphas_adapt=wide, nfreq=k + rng.uniform(-0.49, 0.49)), w, "adapt-one")
    eq(g.powerlaw_genmodes(f, log10_A=A, gamma=gm), pl, "genmodes")
    df = np.diff(np.concatenate([[0], f[::2]]))
    if np.all(df > 0):
        eq(g.powerlaw_genmodes(f, log10_A=A, gamma=gm, wgts=np.sqrt(df)), pl, "genmodes-weights")
    eq(g.free_spectrum(f, log10_rho=0.5 * np.log10(pl[::2])), pl, "free-powerlaw")
    # components only changes how often each frequency appears
    c = M.pick(rng, [1, 3, 6])
    x = np.repeat(f[::2], c)
    r = g.powerlaw(x, log10_A=A, gamma=gm, components=c)
    ctx.close(r / np.repeat(pl[::2], c), np.ones(len(x)), "components", rtol=1e-12)
    # the first distinct frequencies do not depend on later ones
    if n > 1:
        m = 2 * rng.randint(1, n)
        ctx.same(g.powerlaw(f[:m], log10_A=A, gamma=gm), pl[:m], "prefix")


def weights(ctx, rng):
    from enterprise.signals import gp_priors as g, gp_signals as gs, utils as u

    n = tail(rng, 1, 12, 100)
    w = np.ones(n) if rng.rand() < 0.5 else 10.0 ** rng.uniform(-8, 8, n)
    ctx.event("weights")
    ctx.sig(n, w[0] == 1)
    ctx.close(u.tm_prior(w), 1e40 * w, "tm-prior", rtol=1e-15)
    r = g.infinitepower(w)
    ctx.same(r, np.full(n, 1e40), "infinite-power")
    ctx.ok(g.infinitepower(np.arange(1, n + 1)).dtype == np.float64, "infinite-power-dtype")
    e = rng.uniform(-9, -4)
    ctx.close(gs.ecorr_basis_prior(w, log10_ecorr=e), w * 10 ** (2 * e), "ecorr-prior", rtol=1e-13)
    s = 10.0 ** rng.uniform(-10, -1, n)
    ctx.close(u.physicalephem_spectrum(s) / s**2, np.ones(n), "physicalephem-prior", rtol=1e-14)


def signal(ctx, rng):
    """Priors reached through signals, one vector per selection key, with free, shared or constant parameters."""
    from enterprise.signals import gp_signals as g, parameter as pm, signal_base as sb

    q = P.plain(rng, "J0", n=rng.randint(8, 30), nback=rng.randint(1, 4), sort=rng.rand() < 0.5)
    name = M.pick(rng, NAMES)
    nf = tail(rng, 1, 8, 60)
    T = 10.0 ** rng.uniform(7.5, 8.7)
    sel = M.pick(rng, [None, "backend", "half", "band", "overlap"])
    common = rng.rand() < 0.25
    if common:
        sel = None
    kw = {k: (np.array(v) if isinstance(v, list) else v) for k, v in params(rng, name, nf).items()}
    bind, free = {}, {}
    for k, v in kw.items():
        u = rng.rand()
        size = None if np.ndim(v) == 0 else len(v)
        if k in ("wgts",) or v is None:
            bind[k] = v
        elif u < 0.5:
            bind[k] = pm.Uniform(-50, 50, size=size)
            free[k] = None
        elif u < 0.65:
            bind[k] = pm.Uniform(-50, 50, size=size)("shared_" + k)
            free[k] = "shared_" + k
        elif u < 0.85:
            bind[k] = pm.Constant(v)
        else:
            bind[k] = v
    modes = None
    lab = np.arange(1, nf + 1) / T
    if rng.rand() < 0.3:
        modes = lab = np.sort(10.0 ** rng.uniform(-9, -7, nf))
        modes = list(modes) if rng.rand() < 0.5 else modes
    spec = fn(name)(**bind)
    if common:
        from enterprise.signals import utils as u

        cls = g.FourierBasisCommonGP(spec, u.hd_orf(), components=nf, Tspan=T, modes=modes, name="gw")
        pta = sb.PTA([sb.SignalCollection([cls])(q)])
        pre = {"": "gw"}
    else:
        s = g.FourierBasisGP(spec, components=nf, Tspan=T, modes=modes, selection=M.sel_obj(sel), name="red")(q)
        pre = {k: M.join(q.name, "red", k) for k in sorted(M.ref.masks(sel, q))}
    keys = sorted(pre)
    p, vals = {}, {}
    shared = {}
    for k in keys:
        new = dict(kw)
        other = params(rng, name, nf, default=False)
        for a in free:
            if a in other and np.shape(other[a]) == np.shape(kw[a]) and a != "nfreq":
                new[a] = np.array(other[a]) if np.ndim(other[a]) else other[a]
            if free[a]:
                new[a] = shared.setdefault(a, new[a])
            p[free[a] or pre[k] + "_" + a] = new[a]
        vals[k] = new
    ctx.event("via-signal")
    ctx.sig(name, sel, common, sorted(bind), sorted(free), nf)
    names = sorted(x.name for x in (pta if common else s).params)
    ctx.ok(names == sorted(p), "signal-params", "{} expected {}".format(names, sorted(p)))
    phi = np.asarray(pta.get_phi(p)[0] if common else s.get_phi(p))
    f = np.repeat(lab, 2)
    want = np.concatenate([expect(name, f, vals[k]) for k in keys])
    elements(ctx, phi, want, "signal-prior", name=name, sel=sel)
    if not common:
        r = s.get_phiinv(p)
        elements(ctx, np.asarray(r), 1 / want, "signal-prior-inverse", name=name)


SCENARIOS = {"direct": (direct, 1500, 50000), "scaling": (scaling, 250, 4000), "reduction": (reduction, 400, 8000), "weights": (weights, 80, 800),
             "signal": (signal, 400, 8000)}
