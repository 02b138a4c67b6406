"""C22: waveforms of deterministic signals."""
import copy
import os

import numpy as np

from .. import library as L, model as M, psr as P, ref
from ..core import REPO
from . import c01

PROP = "C22"
RULE = ("generic cases: 1-4 deterministic signals (burst with memory, chromatic sine, user waveforms of every per-TOA attribute; any selection; own, shared, fixed parameters) on unsorted/real pulsars, each delay, "
        "their sum and the likelihood against the likelihood without signals of residuals minus the reference delays; burst cases: direct calls against the geometric definition plus time, amplitude, "
        "polarisation, rotation and antenna-function relations; ephemeris cases: direct calls, signal objects (every option, own/constant/default parameters) and the GP basis against an independent shift "
        "of the Earth, linearity/additivity relations, per-TOA against epoch-averaged; distinct = distinct model or parameter description")
ASSUMPTIONS = ["selections of one deterministic signal do not overlap", "no pulsar within 1e-6 of the source direction (the antenna pattern is 0/0 there)",
               "ephemeris delays are differences of 500 s light times: absolute accuracy 3e-13 s", "the GP basis is a finite difference of step 1e-5: 2e-3 relative accuracy for the frame drift"]
REQUIRE = {"delay": 400, "delay-sum": 150, "lnlikelihood": 150, "bwm": 300, "ephem": 200, "epoch-average": 60, "gp-basis": 40}
KINDS = ["setIII", "orbel", "orbel-v2"]
FLOOR = 3e-13
DM = ["d_jupiter_mass", "d_saturn_mass", "d_uranus_mass", "d_neptune_mass"]


def orbits(kind):
    d = os.path.join(REPO, "enterprise/datafiles/ephemeris")
    return [np.load(os.path.join(d, f.format(kind))) for f in ("jupiter-{}-mjd.npy", "jupiter-{}-xyz-svd.npy", "saturn-{}-xyz-svd.npy")]


def _user(which):
    from enterprise.signals.parameter import function

    if which == 0:

        @function
        def ramp(toas, slope=1e-15, t0=54000.0):
            return slope * (toas - t0 * 86400.0)

        return ramp
    if which == 1:

        @function
        def proj(pos_t, planetssb, coef=1e-9, mix=0.5):
            return coef * np.sum(pos_t * (mix * planetssb[:, 4, :3] + (1 - mix) * planetssb[:, 2, :3]), axis=1)

        return proj
    if which == 3:

        @function
        def centred(toas, freqs, amp=1e-6, power=1.5):
            t = toas - toas.mean()
            return amp * (t / 1e7 + len(toas) * 1e-2 + np.cumsum(freqs / freqs[0]) ** power * 1e-3)

        return centred

    @function
    def dmlike(freqs, toaerrs, amp=1e-6, idx=2.0):
        return amp * (1400.0 / freqs) ** idx + toaerrs * amp * 1e5

    return dmlike


class USER(M.SINE):
    """User waveforms of several per-TOA attributes."""

    kind = "USER"

    def __init__(self, which, sel=None, name="user"):
        self.which, self.sel, self.name = which, sel, name
        self.ps = [[M.PS("slope", -1e-14, 1e-14), M.PS("t0", 53000, 55000)], [M.PS("coef", -1e-9, 1e-9), M.PS("mix", 0, 1)], [M.PS("amp", -1e-6, 1e-6), M.PS("idx", 1, 4)], [M.PS("amp", -1e-6, 1e-6), M.PS("power", 0.5, 2)]][which]

    def build(self):
        from enterprise.signals import deterministic_signals as d

        return d.Deterministic(_user(self.which)(**{s.kw: s.obj() for s in self.ps}), selection=M.sel_obj(self.sel), name=self.name)

    def delay(self, psr, p):
        d = np.zeros(len(psr.toas))
        m = self.masks(psr)
        for k, pre in self.prefixes(psr):
            a, b = [s.get(p, pre) for s in self.ps]
            if self.which == 0:
                v = a * (psr.toas - b * 86400.0)
            elif self.which == 1:
                v = a * np.sum(psr.pos_t * (b * psr.planetssb[:, 4, :3] + (1 - b) * psr.planetssb[:, 2, :3]), axis=1)
            elif self.which == 3:  # depends on which TOAs it is given
                if not np.any(m[k]):
                    continue
                t, fr = psr.toas[m[k]], psr.freqs[m[k]]
                d[m[k]] = a * ((t - t.mean()) / 1e7 + len(t) * 1e-2 + np.cumsum(fr / fr[0]) ** b * 1e-3)
                continue
            else:
                v = a * (1400.0 / psr.freqs) ** b + psr.toaerrs * a * 1e5
            d[m[k]] = v[m[k]]
        return d


def pulsar(rng, name="J0000+0000"):
    if rng.rand() < 0.25:
        return P.real(rng, n=rng.randint(12, 60), npar=rng.randint(1, 6))
    return c01.psr(rng, name, 8, 40)


def dets(rng):
    out = []
    sels = [None, "backend", "half", "band", "telescope", ("frontend",), ("freqband", (("lo", 0, 1000), ("hi", 1500, 4000)))]
    for k in range(rng.randint(1, 5)):
        sel = M.pick(rng, sels)
        nm = M.pick(rng, ["", "x", "sig"]) + "%d" % k
        c = rng.randint(0, 6)
        if c == 0:
            out.append(M.BWM(sel, nm))
        elif c == 1:
            out.append(M.SINE(sel, nm))
        else:
            out.append(USER(c - 2, sel, nm))
    if rng.rand() < 0.3:
        out[0].name = ""
    return out


def generic(ctx, rng):
    q = pulsar(rng)
    if rng.rand() < 0.3:  # flags that leave TOAs unselected by frontend/frequency selections
        q.flags["fe"] = np.where(rng.rand(len(q.toas)) < 0.4, "", np.asarray(q.backend_flags).astype(str))
    elif "fe" not in q.flags:
        q.flags["fe"] = np.asarray(q.backend_flags).astype(str)
    rest = [M.MN(M.pick(rng, [None, "backend"]))]
    if rng.rand() < 0.6:
        rest.append(M.RN(rng.randint(1, 5), "pl", None, 5 * M.YR))
    rest.append(M.TM(M.pick(rng, ["normed", "svd", "unnormed"])))
    ds = dets(rng)
    M.vary_params(rng, rest)
    M.vary_params(rng, ds)
    m, m0 = M.Model([q], rest + ds), M.Model([q], rest)
    ctx.sig(m.desc(), len(q.toas))
    pta = m.pta()
    alone = [M.Model([q], [M.MN(), d]).pta() for d in ds]
    for c in ds:
        for s in c.ps:
            s._i = None
    pta = m.pta()
    for _ in range(3):
        p = c01.draw(ctx, m, rng)
        refs = [d.delay(q, p) for d in ds]
        floor = 1e-15 + 1e-12 * max(np.max(np.abs(q.residuals)), max(np.max(np.abs(r)) for r in refs))
        for d, a, r in zip(ds, alone, refs):
            full = {k: v for k, v in p.items()}
            ctx.event("delay")
            got = a.get_delay(params={**full, **{k: 1.0 for k in a.param_names if k not in full}})[0]
            ctx.close(got, r, "delay", rtol=1e-10, atol=1e-14 * 1e-6, msg=d.desc(), params=p)
            sel = np.any([v for v in d.masks(q).values()], axis=0)
            ctx.ok(np.all(got[~sel] == 0), "delay-outside", d.desc())
        tot = np.sum(refs, axis=0)
        ctx.event("delay-sum")
        sc = sum(np.max(np.abs(r)) for r in refs)
        ctx.close(pta.get_delay(params=p)[0], tot, "delay-sum", rtol=1e-10, scale=sc, msg=m.desc())
        ctx.close(pta.get_residuals(), [q.residuals], "residuals-unchanged", rtol=0)
        keep = q.residuals
        try:
            q.residuals = keep - tot
            want = m0.lnl(p)
        finally:
            q.residuals = keep
        ctx.event("lnlikelihood")
        ctx.close(float(pta.get_lnlikelihood(dict(p))), want, "lnlikelihood", rtol=1e-8, atol=2e-6, scale=c01.scale(m, p, 0), model=m.desc(), params=p)
        ctx.ok(floor > 0, "floor")


def direction(rng):
    c = rng.randint(0, 6)
    if c == 0:
        return M.pick(rng, [np.eye(3)[0], np.eye(3)[1], np.eye(3)[2], -np.eye(3)[2], -np.eye(3)[0]]).astype(float)
    v = rng.randn(3)
    return v / np.linalg.norm(v)


def unit(theta, phi):
    return np.array([np.sin(theta) * np.cos(phi), np.sin(theta) * np.sin(phi), np.cos(theta)])


def burst(ctx, rng):
    from enterprise.signals import utils

    f = lambda *a, **k: utils.bwm_delay(*a, **k)
    for _ in range(8):
        pos = direction(rng)
        ct = M.pick(rng, [rng.uniform(-1, 1), rng.uniform(-1, 1), 1.0, -1.0, 0.0])
        ph = M.pick(rng, [rng.uniform(0, 2 * np.pi), 0.0, np.pi, rng.uniform(-3, 9), rng.uniform(-300, 300)])
        pol = M.pick(rng, [rng.uniform(0, np.pi), 0.0, np.pi / 4, rng.uniform(-300, 300)])
        lh = rng.uniform(-18, -10)
        t0 = M.pick(rng, [rng.uniform(53000, 55000), 54000, rng.uniform(40000, 70000)])
        if 1 - unit(np.arccos(ct), ph) @ pos < 1e-6:
            ctx.event("source-at-pulsar-skipped")
            continue
        t = rng.uniform(52500, 55500, rng.randint(1, 40)) * 86400.0
        if rng.rand() < 0.5:
            t[0] = t0 * 86400.0
        if rng.rand() < 0.5:
            t[-1] = np.nextafter(t0 * 86400.0, np.inf if rng.rand() < 0.5 else 0)
        t_in = t.copy()
        ctx.sig(round(ct, 6), round(ph, 6), round(pol, 6), len(t))
        args = dict(log10_h=lh, cos_gwtheta=ct, gwphi=ph, gwpol=pol, t0=t0)
        ctx.event("bwm")
        got = f(t, pos, **args)
        want = ref.bwm(t, pos, lh, ct, ph, pol, t0)
        h = 10**lh
        amp = h * max(np.max(np.abs(t - t0 * 86400.0)), 1e-9)  # responses are at most one
        ctx.close(got, want, "bwm", rtol=2e-10, scale=amp, params=args, pos=pos)
        ctx.ok(np.array_equal(t, t_in), "bwm-input-untouched")
        ctx.ok(np.all(got[t <= t0 * 86400.0] == 0), "bwm-before", "nonzero before the burst", params=args)
        ctx.ok(np.max(np.abs(got)) <= amp * (1 + 1e-9), "bwm-bound", "response above one", params=args)
        # linear growth after the epoch
        late = t > t0 * 86400.0
        if late.any():
            one = f(np.array([t0 * 86400.0 + 1e6]), pos, **args)[0] / 1e6
            ctx.close(got[late], one * (t[late] - t0 * 86400.0), "bwm-linear", rtol=1e-8, scale=amp)
        # amplitude, polarisation, rotation about z, mirror
        k = rng.uniform(-2, 2)
        ctx.close(f(t, pos, **dict(args, log10_h=lh + k)), got * 10**k, "bwm-amplitude", rtol=1e-9, scale=amp * 10**k)
        ctx.close(f(t, pos, **dict(args, gwpol=pol + np.pi / 2)), -got, "bwm-polarisation", rtol=1e-9, scale=amp)
        ctx.close(f(t, pos, **dict(args, gwpol=pol + np.pi)), got, "bwm-polarisation-pi", rtol=1e-9, scale=amp)
        a = rng.uniform(0, 6)
        R = np.array([[np.cos(a), -np.sin(a), 0], [np.sin(a), np.cos(a), 0], [0, 0, 1]])
        ctx.close(f(t, R @ pos, **dict(args, gwphi=ph + a)), got, "bwm-rotation", rtol=1e-9, scale=amp)
        # quadrature of the two polarisations: sin^2 law, F+^2 + Fx^2 = ((1 + cos mu)/2)^2 with mu the source angle
        x, y = f(t, pos, **dict(args, gwpol=0.0)), f(t, pos, **dict(args, gwpol=np.pi / 4))
        mu = unit(np.arccos(ct), ph) @ pos
        ctx.close(np.hypot(x, y), h * np.where(late, t - t0 * 86400.0, 0) * 0.5 * (1 + mu), "bwm-envelope", rtol=1e-7, scale=amp)
        # user antenna pattern
        calls = []

        def user(p, th, phi):
            calls.append((np.array(p), th, phi))
            return 0.3, -0.2, 0.1

        got = f(t, pos, antenna_pattern_fn=user, **args)
        want = (np.cos(2 * pol) * 0.3 - np.sin(2 * pol) * 0.2) * h * np.where(late, t - t0 * 86400.0, 0)
        ctx.close(got, want, "bwm-antenna-function", rtol=1e-9, scale=amp)
        ctx.ok(len(calls) == 1 and np.array_equal(calls[0][0], pos) and abs(calls[0][1] - np.arccos(ct)) < 1e-12 and calls[0][2] == ph, "bwm-antenna-arguments", repr(calls))


def ephem_params(rng, big=1.0):
    z = lambda s: 0.0 if rng.rand() < 0.25 else rng.uniform(-s, s) * big
    out = {"frame_drift_rate": z(1e-9), "d_jupiter_mass": z(5e-11), "d_saturn_mass": z(3e-11), "d_uranus_mass": z(2e-10), "d_neptune_mass": z(2e-10)}
    out["jup_orb_elements"] = rng.uniform(-0.05, 0.05, 6) * big * (rng.rand() < 0.75)
    out["sat_orb_elements"] = rng.uniform(-0.5, 0.5, 6) * big * (rng.rand() < 0.6)
    if rng.rand() < 0.3:  # single element
        for k in ("jup_orb_elements", "sat_orb_elements"):
            i = rng.randint(6)
            out[k] = np.where(np.arange(6) == i, out[k], 0.0)
    return out


def ephem_ref(q, v, orb):
    s = ref.ephem_shift(q.toas, q.planetssb, v["frame_drift_rate"], [v[k] for k in DM], v["jup_orb_elements"], v["sat_orb_elements"], *orb)
    return -np.sum(s * q.pos_t, axis=1)


def ephemeris(ctx, rng):
    """Direct calls of the delay function."""
    from enterprise.signals import utils

    q = pulsar(rng)
    kind = M.pick(rng, KINDS)
    orb = orbits(kind)
    early = rng.rand() < 0.4
    if early:  # decades of data around the tabulated years
        q = copy.copy(q)
        q.toas = (53000 + rng.uniform(-9000, 10000)) * 86400.0 + (q.toas - q.toas.mean()) * rng.uniform(0.2, 3)
    got = utils.get_planet_orbital_elements(kind)
    ctx.ok(all(np.array_equal(a, b) for a, b in zip(got, orb)), "orbital-data", kind)
    tab = dict(times=orb[0], jup_orbit=orb[1], sat_orbit=orb[2])
    call = lambda v, **k: utils.physical_ephem_delay(q.toas, q.planetssb, q.pos_t, **v, **tab, **k)
    before = [a.copy() for a in (q.toas, q.planetssb, q.pos_t)] + [o.copy() for o in orb]
    vs = [ephem_params(rng, 10.0 ** rng.uniform(-1, 3)) for _ in range(3)]
    if q.toas.min() < orb[0][0] * 86400.0 or q.toas.max() > orb[0][-1] * 86400.0:  # no orbit tables there
        for v in vs:
            v.update(jup_orb_elements=np.zeros(6), sat_orb_elements=np.zeros(6))
        ctx.event("outside-tables")
    out = []
    for v in vs:
        ctx.sig(kind, [round(float(x), 14) for x in np.concatenate([np.ravel(v[k]) for k in sorted(v)])])
        want = ephem_ref(q, v, orb)
        ctx.event("ephem")
        g = call(v)
        out.append(g)
        ctx.close(g, want, "ephem", rtol=1e-7, atol=FLOOR, kind=kind, params=v)
        if v["frame_drift_rate"] == 0:
            ctx.close(call(v, equatorial=False), want, "ephem-frames", rtol=1e-7, atol=FLOOR)
    ctx.ok(all(np.array_equal(a, b) for a, b in zip(before, [q.toas, q.planetssb, q.pos_t] + orb)), "ephem-inputs-untouched")
    zero = {k: np.zeros_like(x) if np.ndim(x) else 0.0 for k, x in vs[0].items()}
    ctx.close(call(zero), np.zeros(len(q.toas)), "ephem-zero", rtol=0, atol=FLOOR)
    # linear in the mass and orbital terms, additive over all terms
    a, b = rng.uniform(-3, 3, 2)
    nof = [dict(v, frame_drift_rate=0.0) for v in vs]
    f = [call(v) for v in nof]
    mix = {k: a * nof[0][k] + b * nof[1][k] for k in nof[0]}
    ctx.close(call(mix), a * f[0] + b * f[1], "ephem-linear", rtol=1e-7, atol=8 * FLOOR, scale=max(np.max(np.abs(a * f[0])), np.max(np.abs(b * f[1]))))
    parts = [call(dict(zero, **{k: x})) for k, x in vs[2].items()]
    ctx.close(out[2], np.sum(parts, axis=0), "ephem-additive", rtol=1e-7, atol=8 * FLOOR, scale=max(np.max(np.abs(x)) for x in parts))
    # frame: ecliptic positions give the ecliptic rotation
    e = zero.copy()
    e["frame_drift_rate"] = 1e-6 * rng.uniform(-1, 1)
    rot = q.planetssb.copy()
    rot[:, :, :3] = ref.eq2ecl(rot[:, :, :3])
    pe = ref.eq2ecl(q.pos_t)
    ctx.close(utils.physical_ephem_delay(q.toas, rot, pe, **e, **tab, equatorial=False), call(e), "ephem-ecliptic", rtol=1e-6, atol=4 * FLOOR)


def signal(ctx, rng):
    """The signal factory: options, default priors, per TOA and epoch averaged."""
    from enterprise.signals import deterministic_signals as d, parameter as pm

    q = pulsar(rng)
    kind = M.pick(rng, KINDS)
    orb = orbits(kind)
    v = ephem_params(rng)
    kw, fixed, free = {}, {}, {}
    default = {"sat_orb_elements": False}
    lims = dict(zip(["frame_drift_rate"] + DM, [1e-9, 1.54976690e-11, 8.17306184e-12, 5.71923361e-11, 7.96103855e-11]))
    name = M.pick(rng, ["", "eph"])
    for k in v:
        c = rng.randint(0, 5)
        size = 6 if np.ndim(v[k]) else None
        if c == 0:
            kw[k] = False
            v[k] = np.zeros(6) if size else 0.0
        elif c == 1:
            kw[k] = True
            free[k] = k
        elif c == 2:
            if default.get(k, True):
                free[k] = k
            else:
                v[k] = np.zeros(6)
        elif c == 3:  # own prior, possibly shared, possibly per pulsar
            own = pm.Uniform(-1, 1, size=size) if size else pm.Uniform(-1, 1)
            if rng.rand() < 0.5:
                nm = "my_" + k
                kw[k] = own(nm)
            else:
                nm = "_".join(x for x in [q.name, name, k] if x)
                kw[k] = own
            free[k] = nm
        elif size is None:
            kw[k] = pm.Constant(v[k]) if rng.rand() < 0.5 else pm.Constant()("c_" + k)
            fixed[k] = True
        else:
            kw[k] = v[k].copy()
            fixed[k] = True
    if kind != "setIII" or rng.rand() < 0.5:
        kw["model"] = kind
    if name:
        kw["name"] = name
    ctx.sig(kind, sorted(free), sorted(fixed), name, len(q.toas))
    p = {nm: v[k] for k, nm in free.items()}
    want = ephem_ref(q, v, orb)
    mk = lambda use: d.PhysicalEphemerisSignal(use_epoch_toas=use, **kw)
    sigs = {}
    for use in (False, True):
        s = mk(use)(q)
        s.set_default_params({"c_" + k: v[k] for k in fixed if np.ndim(v[k]) == 0})
        sigs[use] = s
        names = {x.name: x for x in s.params}
        ctx.ok(set(names) == set(p), "ephem-parameters", "{} expected {}".format(sorted(names), sorted(p)))
        for k, nm in free.items():
            if nm == k and kw.get(k, True) is True:
                # default priors
                r = repr(names.get(nm))
                if k in DM:
                    ctx.ok("Normal" in r and abs(names[nm].get_logpdf(0.0) - (-0.5 * np.log(2 * np.pi) - np.log(lims[k]))) < 1e-9, "ephem-priors", r)
                else:
                    b = {"frame_drift_rate": 1e-9, "jup_orb_elements": 0.05, "sat_orb_elements": 0.5}[k]
                    one = np.ones(6) if k != "frame_drift_rate" else 1.0
                    n = 6 if k != "frame_drift_rate" else 1
                    ctx.close(np.sum(names[nm].get_logpdf(0.99 * b * one)), -n * np.log(2 * b), "ephem-priors", rtol=1e-12, msg=r)
                    ctx.ok(np.sum(names[nm].get_logpdf(-1.01 * b * one)) == -np.inf, "ephem-priors", r)
    got = sigs[False].get_delay(p)
    ctx.event("ephem")
    ctx.close(got, want, "ephem-signal", rtol=1e-7, atol=FLOOR, options=sorted(kw), params=p)
    # epoch averaging: same delay for the TOAs of one epoch, equal to the waveform there up to interpolation
    ctx.event("epoch-average")
    ave = sigs[True].get_delay(p)
    eps = ref.epochs(q.toas, 1.0, 1)
    tol = 1e-5 * np.max(np.abs(want))
    ctx.close(ave, want, "epoch-average", rtol=0, atol=tol + 3 * FLOOR, options=sorted(kw), params=p)
    ctx.ok(all(np.ptp(ave[e]) == 0 for e in eps), "epoch-constant", "TOAs of an epoch get different delays")
    # order of the TOAs is immaterial
    perm = rng.permutation(len(q.toas))
    u = P.Plain()
    u.__dict__.update(q.__dict__)
    for k in ("toas", "stoas", "toaerrs", "residuals", "freqs", "backend_flags", "telescope", "pos_t", "planetssb", "sunssb", "Mmat"):
        setattr(u, k, getattr(q, k)[perm])
    u.flags = {k: x[perm] for k, x in q.flags.items()}
    for use in (False, True):
        s = mk(use)(u)
        s.set_default_params({"c_" + k: v[k] for k in fixed if np.ndim(v[k]) == 0})
        ctx.close(s.get_delay(p), sigs[use].get_delay(p)[perm], "ephem-order", rtol=1e-9, atol=3 * FLOOR)
    # in a likelihood, together with other delays
    rest = [M.MN()] + ([M.RN(2, "pl", None, 5 * M.YR)] if rng.rand() < 0.5 else []) + [M.TM()]
    m = M.Model([q], rest + ([M.SINE()] if rng.rand() < 0.5 else []))
    from enterprise.signals import signal_base as sb

    use = bool(rng.rand() < 0.5)
    pta = sb.PTA([(m.cls(m.comps[0]) + mk(use))(q)])
    pta.set_default_params({"c_" + k: v[k] for k in fixed if np.ndim(v[k]) == 0})
    pp = c01.draw(ctx, m, rng)
    keep = q.residuals
    try:
        q.residuals = keep - sigs[use].get_delay(p)
        wantl = m.lnl(pp)
        sc = c01.scale(m, pp, 0)
    finally:
        q.residuals = keep
    ctx.event("lnlikelihood")
    ctx.close(float(pta.get_lnlikelihood({**pp, **p})), wantl, "lnlikelihood-ephem", rtol=1e-8, atol=2e-6, scale=sc, model=m.desc())


def gpbasis(ctx, rng):
    from enterprise.signals import gp_signals as g, utils, signal_base as sb

    qs = [pulsar(rng), c01.psr(rng, "J0001", 8, 40)]
    kind = M.pick(rng, KINDS)
    orb = orbits(kind)
    names = ["frame_drift_rate"] + DM + ["jup_orb_elements", "sat_orb_elements"]
    deflt = dict(zip(names, [1e-9, 1.54976690e-11, 8.17306184e-12, 5.71923361e-11, 7.96103855e-11, 0.05, 0.5]))
    kw = {}
    for k in names:
        c = rng.randint(0, 4)
        if c == 0:
            kw[k] = None
        elif c == 1:
            kw[k] = 10.0 ** rng.uniform(-12, -9) if "orb" not in k else rng.uniform(0.01, 1)
    if all(kw.get(k, 1) is None for k in names):
        kw.pop("jup_orb_elements")
    if kind != "setIII" or rng.rand() < 0.5:
        kw["model"] = kind
    ctx.sig(kind, sorted((k, v is None) for k, v in kw.items() if k != "model"))
    want_sig, unit_p = [], []
    for k in names:
        s = kw.get(k, deflt[k])
        if s is None:
            continue
        for i in range(6 if "orb" in k else 1):
            want_sig.append(s)
            z = {n: (np.zeros(6) if "orb" in n else 0.0) for n in names}
            z[k] = np.where(np.arange(6) == i, 1.0, 0.0) if "orb" in k else 1.0
            unit_p.append((k, z))
    cls = g.FourierBasisCommonGP_physicalephem(**kw)
    from enterprise.signals import white_signals as w, parameter as pm

    pta = sb.PTA([(w.MeasurementNoise(efac=pm.Constant(1.0)) + cls)(q) for q in qs])
    ctx.ok(pta.param_names == [], "gp-parameters", repr(pta.param_names))
    for q, F in zip(qs, pta.get_basis({})):
        ctx.event("gp-basis")
        if not ctx.ok(F.shape == (len(q.toas), len(unit_p)), "gp-columns", repr(F.shape)):
            continue
        F2, s2 = utils.createfourierdesignmatrix_physicalephem(q.toas, q.planetssb, q.pos_t, **kw)
        ctx.close(s2, want_sig, "gp-sigmas", rtol=1e-12)
        ctx.close(F2, F, "gp-basis-direct", rtol=1e-12)
        for j, (k, z) in enumerate(unit_p):
            small = {n: (x * 1e-5 if np.ndim(x) else x * 1e-5) for n, x in z.items()}
            # delay per unit parameter; the rotation is linearised
            w_ = ephem_ref(q, small, orb) / 1e-5
            tol = 2e-3 if k == "frame_drift_rate" else 1e-6
            ctx.close(F[:, j], w_, "gp-basis", rtol=tol, atol=FLOOR / 1e-5, msg=k)
    phi = pta.get_phi({})
    phi = np.asarray(phi) if np.ndim(phi) == 2 else phi
    n = len(want_sig)
    full = np.kron(np.ones((2, 2)), np.diag(np.square(want_sig)))
    ctx.close(phi, full + np.diag(np.diag(np.asarray(phi) - full)), "gp-prior-offdiagonal", rtol=1e-12)
    ctx.close(np.diag(phi), np.tile(np.square(want_sig), 2), "gp-prior", rtol=1e-4)  # the monopole has a small diagonal regularisation
    # the deterministic delay is the basis times the parameters
    for q, F in zip(qs, pta.get_basis({})):
        coef = rng.randn(n) * want_sig
        v = {k: (np.zeros(6) if "orb" in k else 0.0) for k in names}
        for (k, z), c in zip(unit_p, coef):
            v[k] = v[k] + c * z[k]
        t, a, b = orb
        delay = utils.physical_ephem_delay(q.toas, q.planetssb, q.pos_t, times=t, jup_orbit=a, sat_orbit=b, **v)
        # the drift is only linear to first order; finite-difference error bounds
        tol = FLOOR + 3e-3 * abs(v["frame_drift_rate"]) * 500 * np.max(np.abs(q.toas / 86400 - 55197)) / 365.25 + np.sum(np.abs(coef)) * FLOOR / 1e-5
        ctx.close(delay, F @ coef, "gp-delay", rtol=1e-6, atol=tol)


SCENARIOS = {"generic": (generic, 250, 6000), "burst": (burst, 200, 6000), "ephemeris": (ephemeris, 150, 5000), "signal": (signal, 300, 6000), "gpbasis": (gpbasis, 80, 2000)}
