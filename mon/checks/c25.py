"""C25: eccentric binaries."""
import numpy as np
from scipy.integrate import solve_ivp

from .. import model as M, ref

PROP = "C25"
RULE = ("rate cases: (chirp mass, orbital frequency, eccentricity, mass ratio) log-uniform over pulsar-timing binaries, rates against energy and angular-momentum loss of two bodies; evolution cases: full solutions against an "
        "independent integrator, the Peters invariant, monotonicity and closed-form chirps; waveform cases: amplitudes against Bessel integrals, sums against a term-by-term loop and the time derivative of the sum "
        "against the quadrupole formula of a Kepler orbit with precessing periastron, circular limit, strain scaling; antenna cases: against the geometric definition; distinct = distinct binary parameters")
ASSUMPTIONS = ["binaries that do not merge within the time span (up to 60% of the time in which the frequency diverges)", "solver accuracy 1e-5 to 1e-4 relative (default tolerances of the integrator the code uses)",
               "no resonance n omega = 2 gammadot", "periastron measured from the projected line of sight, as in Barack and Cutler"]
REQUIRE = {"rates": 1000, "solution": 100, "invariant": 60, "chirp": 60, "amplitudes": 100, "series": 150, "quadrupole": 100, "antenna": 300}
GM = 1.32712440018e20 / 299792458.0**3  # s
MPC = 3.0856775814913673e22 / 299792458.0  # s


def binary(rng):
    F = 10 ** rng.uniform(-9.2, -7)
    mc = 10 ** rng.uniform(6.5, 10)
    e = M.pick(rng, [0.0, rng.uniform(0, 0.1), rng.uniform(0, 0.95), rng.uniform(0, 0.95)])
    q = M.pick(rng, [1.0, rng.uniform(0.02, 1), 10 ** rng.uniform(-2, 2)])
    return F, mc, e, q


def losses(F, mc, e, q):
    """dF/dt and de/dt of two point masses from the averaged loss of energy and angular momentum (Peters 1964)."""
    m = mc * GM
    Mt = m * ((1 + q) ** 2 / q) ** 0.6
    mu = Mt * q / (1 + q) ** 2
    w = 2 * np.pi * F
    a = (Mt / w**2) ** (1 / 3)
    dE = -32 / 5 * mu**2 * Mt**3 / a**5 * (1 + 73 / 24 * e**2 + 37 / 96 * e**4) / (1 - e**2) ** 3.5
    dL = -32 / 5 * mu**2 * Mt**2.5 / a**3.5 * (1 + 7 / 8 * e**2) / (1 - e**2) ** 2
    da = dE * 2 * a**2 / (mu * Mt)
    dF = -1.5 * F / a * da
    # L = mu sqrt(M a (1 - e^2))
    de_e = None
    if e > 0:
        de_e = (da * (1 - e**2) - dL * 2 * np.sqrt(a * (1 - e**2)) / (mu * np.sqrt(Mt))) / (2 * a * e)
    return dF, de_e


def gdot(F, mc, e, q):
    m1 = mc * GM * ((1 + q) ** 2 / q) ** 0.6
    x = (2 * np.pi * F * m1) ** (2 / 3)
    first = 3 * x / (1 - e**2) * 2 * np.pi * F  # Schwarzschild advance 6 pi M / a(1-e^2) per orbit
    return first * (1 + x / (1 - e**2) * (26 - 15 * e**2) / 4)


def rates(ctx, rng):
    from enterprise.signals import utils

    for _ in range(20):
        F, mc, e, q = binary(rng)
        ctx.sig("%.5g" % F, "%.5g" % mc, "%.5g" % e, "%.5g" % q)
        ctx.event("rates")
        dF, de = losses(F, mc, e, q)
        d = dict(F=F, mc=mc, e=e, q=q)
        gF, ge, gg = utils.get_Fdot(F, mc, e), utils.get_edot(F, mc, e), utils.get_gammadot(F, mc, q, e)
        ctx.close(gF, dF, "Fdot", rtol=1e-5, **d)
        if e > 0:
            cancel = abs(dF / F) / e  # the difference of the two losses cancels at small eccentricity
            ctx.close(ge, de, "edot", rtol=1e-6, atol=1e-13 * cancel, **d)
            ctx.ok(ge < 0, "edot-sign", **d)
        else:
            ctx.ok(ge == 0, "edot-circular", repr(ge), **d)
        ctx.ok(gF > 0 and gg > 0, "signs", **d)
        ctx.close(gg, gdot(F, mc, e, q), "gammadot", rtol=1e-5, **d)
        ctx.close(utils.get_gammadot(F, mc, 1 / q, e), gg, "gammadot-exchange", rtol=1e-12, **d)
        y = utils.get_coupled_ecc_eqns([F, e, rng.uniform(0, 6), rng.uniform(0, 6)], rng.uniform(-1e9, 1e9), mc, q)
        ctx.close(y / np.array([gF, abs(ge) or 1, gg, F]), np.array([1, np.sign(ge), 1, 2 * np.pi]), "coupled-equations", rtol=1e-12, **d)
        y = utils.get_coupled_constecc_eqns([F, rng.uniform(0, 6)], rng.uniform(-1e9, 1e9), mc, e)
        ctx.close(y / np.array([gF, F]), np.array([1, 2 * np.pi]), "coupled-equations-const", rtol=1e-12, **d)
        # vector arguments
        Fs, es = F * rng.uniform(0.5, 2, 4), rng.uniform(0.01, 0.9, 4)
        ctx.close(utils.get_Fdot(Fs, mc, es), [utils.get_Fdot(a, mc, b) for a, b in zip(Fs, es)], "vector", rtol=1e-12)
        ctx.close(utils.get_edot(Fs, mc, es), [utils.get_edot(a, mc, b) for a, b in zip(Fs, es)], "vector", rtol=1e-12)
        ctx.close(utils.get_gammadot(Fs, mc, q, es), [utils.get_gammadot(a, mc, q, b) for a, b in zip(Fs, es)], "vector", rtol=1e-12)


def peters(F, e):
    return F * (e ** (12 / 19) / (1 - e**2) * (1 + 121 / 304 * e**2) ** (870 / 2299)) ** 1.5


def evolution(ctx, rng):
    from enterprise.signals import utils

    F0, mc, e0, q = binary(rng)
    e0 = min(e0, 0.9)
    g0, p0 = rng.uniform(0, 6.3, 2)
    dF, _ = losses(F0, mc, e0, q)
    horizon = 3 / 8 * F0 / dF  # frequency diverges after this at constant eccentricity
    span = min(rng.uniform(0.02, 0.6) * horizon, 10 ** rng.uniform(7, 9.3))
    t = M.pick(rng, [np.linspace(0, span, 40), np.concatenate([[0], np.sort(rng.uniform(0, span, 30))]), 5e9 + np.linspace(0, span, 25), -rng.uniform(0, 1) * span + np.linspace(0, span, 25)])
    if rng.rand() < 0.2:
        t = np.sort(np.concatenate([t, t[5:8]]))  # repeated times
    ctx.sig("%.5g" % F0, "%.5g" % mc, "%.5g" % e0, "%.5g" % q, len(t))
    ctx.event("solution")
    d = dict(F0=F0, mc=mc, e0=e0, q=q, span=span)
    y = utils.solve_coupled_ecc_solution(F0, e0, g0, p0, mc, q, t)
    if not ctx.ok(np.shape(y) == (len(t), 4), "solution-shape", repr(np.shape(y)), **d):
        return
    F, e, g, p = y.T
    ctx.close(y[0], [F0, e0, g0, p0], "solution-initial", rtol=1e-12, **d)
    ctx.ok(np.all(np.diff(F) >= -1e-9 * F0), "frequency-grows", **d)
    ctx.ok(np.all(np.diff(e) <= 1e-9), "eccentricity-decays", **d)
    ctx.ok(np.all(np.diff(g) >= 0) and np.all(np.diff(p) >= 0), "phases-grow", **d)

    def rhs(_, z):
        dF, _ = losses(z[0] * F0, mc, z[1], q)
        m = mc * GM
        de = -304 / 15 * m ** (5 / 3) * (2 * np.pi * z[0] * F0) ** (8 / 3) * z[1] * (1 + 121 / 304 * z[1] ** 2) / (1 - z[1] ** 2) ** 2.5
        return [dF / F0, de, gdot(z[0] * F0, mc, z[1], q), 2 * np.pi * z[0] * F0]

    u, back = np.unique(t - t[0], return_inverse=True)
    s = solve_ivp(rhs, (0, u[-1]), [1.0, e0, g0, p0], t_eval=u, rtol=1e-10, atol=1e-12, method="DOP853")
    if s.status == 0 and s.y.shape[1] == len(u):
        w = s.y.T[back]
        grow = w[-1, 0]
        tol = 3e-5 * max(1.0, grow)
        ctx.close(F / F0, w[:, 0], "solution", rtol=tol, **d)
        ctx.close(e, w[:, 1], "solution-eccentricity", rtol=0, atol=tol, **d)
        ctx.close(g - g0, w[:, 2] - g0, "solution-periastron", rtol=tol, atol=1e-5, **d)
        ctx.close(p - p0, w[:, 3] - p0, "solution-phase", rtol=tol, atol=1e-5, **d)
    if e0 > 1e-3:
        ctx.event("invariant")
        k = e > 1e-4
        ctx.close(peters(F[k], e[k]) / peters(F0, e0), np.ones(k.sum()), "invariant", rtol=0, atol=5e-6 * F[-1] / F0 + 3e-7 / e[k].min(), **d)
    # circular and constant-eccentricity chirps: dF/dt = k F^(11/3)
    ctx.event("chirp")
    for ee, sol in ((e0, utils.solve_coupled_constecc_solution(F0, e0, p0, mc, t)), (0.0, None)):
        if sol is None:
            sol = utils.solve_coupled_ecc_solution(F0, 0.0, g0, p0, mc, q, t)
            ctx.ok(np.all(sol[:, 1] == 0), "circular-stays", **d)
            sol = sol[:, [0, 3]]
        else:
            ctx.ok(np.shape(sol) == (len(t), 2), "chirp-shape")
        k = losses(F0, mc, ee, q)[0] / F0 ** (11 / 3)
        x = 8 / 3 * k * F0 ** (8 / 3) * (t - t[0])
        ctx.close(sol[:, 0] / F0, (1 - x) ** (-3 / 8), "chirp", rtol=1e-4, e=ee, **d)
        want = 2 * np.pi * F0 ** (-5 / 3) / k * 3 / 5 * (1 - (1 - x) ** (5 / 8))
        if x[-1] > 1e-6:
            ctx.close(sol[:, 1] - p0, want, "chirp-phase", rtol=1e-4, atol=1e-4, e=ee, **d)


def bessel(n, x):
    """J_n(x) from its integral; exact to rounding for periodic integrands."""
    k = 400 + 8 * int(abs(n) + abs(x))
    tau = 2 * np.pi * np.arange(k) / k
    return float(np.mean(np.cos(n * tau - x * np.sin(tau))))


def coefs(n, z, e):
    """a_n, b_n and the coefficient of cos(n l), for amplitude z = mc^(5/3) omega^(2/3) / D."""
    J = [bessel(n + k, n * e) for k in (-2, -1, 0, 1, 2)]
    a = -n * z * (J[0] - 2 * e * J[1] + 2 / n * J[2] + 2 * e * J[3] - J[4])
    b = -n * z * np.sqrt(1 - e * e) * (J[0] - 2 * J[2] + J[4])
    return a, b, 2 * z * J[2]


def quad(l, gam, e, inc, z):
    """Polarisations of a Kepler orbit: second time derivative of the quadrupole, periastron direction held.
    The orbit's x axis (gamma = 0) is perpendicular to the line of nodes (Barack and Cutler)."""
    E = np.array(l, float)
    for _ in range(200):
        E = E - (E - e * np.sin(E) - l) / (1 - e * np.cos(E))
    x = np.array([np.cos(E) - e, np.sqrt(1 - e * e) * np.sin(E)])
    r = np.sqrt(np.sum(x**2, axis=0))
    v = np.array([-np.sin(E), np.sqrt(1 - e * e) * np.cos(E)]) / (1 - e * np.cos(E))
    acc = -x / r**3
    c, s = np.cos(gam), np.sin(gam)
    R = lambda u: np.array([c * u[0] - s * u[1], s * u[0] + c * u[1]])
    x, v, acc = R(x), R(v), R(acc)
    Q = lambda i, j: 2 * v[i] * v[j] + x[i] * acc[j] + acc[i] * x[j]
    ci = np.cos(inc)
    return z * (Q(1, 1) - ci**2 * Q(0, 0)), 2 * z * ci * Q(0, 1)


def waveform(ctx, rng):
    from enterprise.signals import utils

    F, mc, e, q = binary(rng)
    e = min(e, 0.75)
    dl = 10 ** rng.uniform(0, 4)
    h0 = None if rng.rand() < 0.5 else 10 ** rng.uniform(-18, -12)
    w = 2 * np.pi * F
    z = (mc * GM) ** (5 / 3) * w ** (2 / 3) / (dl * MPC) if h0 is None else h0 / 2
    d = dict(F=F, mc=mc, e=e, dl=dl, h0=h0)
    ctx.sig("%.5g" % F, "%.5g" % mc, "%.5g" % e, "%.5g" % dl, h0 is None)
    ctx.event("amplitudes")
    ns = np.sort(rng.permutation(40)[: rng.randint(1, 8)]) + 1
    want = np.array([coefs(int(n), z, e) for n in ns]).T
    want[2] /= ns * w
    for k, f in enumerate((utils.get_an, utils.get_bn, utils.get_cn)):
        sc = z * ns.max() / (w if k == 2 else 1)
        ctx.close(f(ns, mc, dl, h0, F, e), want[k], "amplitude-" + "abc"[k], rtol=1e-6 if h0 is None else 1e-10, atol=1e-12 * sc, **d)
        one = f(int(ns[0]), mc, dl, h0, F, e)
        ctx.close(one, want[k][0], "amplitude-scalar", rtol=1e-6, atol=1e-10 * sc, **d)
    # sum over the requested number of harmonics
    nmax = M.pick(rng, [1, 2, 3, 5, 12])
    t = M.pick(rng, [rng.uniform(0, 1e9, 6), 4.6e9 + rng.uniform(0, 3e8, 6), np.array([0.0])])
    l0, gam, inc = rng.uniform(-7, 7), rng.uniform(-7, 7), M.pick(rng, [rng.uniform(0, np.pi), 0.0, np.pi / 2, np.pi])
    gd = M.pick(rng, [0.0, w * rng.uniform(-0.1, 0.1), w * 1e-4, gdot(F, mc, e, q) if gdot(F, mc, e, q) < 0.1 * w else 0.0])
    d.update(t=t, l0=l0, gamma=gam, gammadot=gd, inc=inc, nmax=nmax)
    ci = np.cos(inc)
    sp, sx = np.zeros(len(t)), np.zeros(len(t))
    l, g = l0 + w * t, gam + gd * t
    for n in range(1, nmax + 1):
        a, b, c = coefs(n, z, e)
        dm, dp = n * w - 2 * gd, n * w + 2 * gd
        # integrals of cos/sin(n l -+ 2 gamma)
        sm_, sp_ = np.sin(n * l - 2 * g) / dm, np.sin(n * l + 2 * g) / dp
        cm_, cp_ = np.cos(n * l - 2 * g) / dm, np.cos(n * l + 2 * g) / dp
        sp += -0.5 * (1 + ci**2) * (a * (sm_ + sp_) - b * (sm_ - sp_)) + (1 - ci**2) * c * np.sin(n * l) / (n * w)
        sx += ci * (a * (cm_ - cp_) - b * (cm_ + cp_))
    ctx.event("series")
    got = utils.calculate_splus_scross(nmax, mc, dl, h0, F, e, t, l0, gam, gd, inc)
    sc = z / w * (1 + nmax * e)
    rt = 1e-6 if h0 is None else 1e-9
    ph = 1e-14 * nmax * np.max(np.abs(l))
    ctx.close(got[0], sp, "series", rtol=rt, atol=sc * (1e-9 + ph), **d)
    ctx.close(got[1], sx, "series-cross", rtol=rt, atol=sc * (1e-9 + ph), **d)
    # strain scaling, h0 against masses and distance
    k = 10 ** rng.uniform(-2, 2)
    big = utils.calculate_splus_scross(nmax, mc, dl / k, h0 if h0 is None else h0 * k, F, e, t, l0, gam, gd, inc)
    ctx.close(big[0], k * got[0], "linear-strain", rtol=1e-9, scale=k * sc, **d)
    ctx.close(big[1], k * got[1], "linear-strain", rtol=1e-9, scale=k * sc, **d)
    eq = utils.calculate_splus_scross(nmax, mc, dl, 2 * (mc * GM) ** (5 / 3) * w ** (2 / 3) / (dl * MPC), F, e, t, l0, gam, gd, inc)
    no = utils.calculate_splus_scross(nmax, mc, dl, None, F, e, t, l0, gam, gd, inc)
    zz = (mc * GM) ** (5 / 3) * w ** (2 / 3) / (dl * MPC)
    ctx.close(eq[0], no[0], "strain-definition", rtol=1e-6, atol=1e-6 * zz / w, **d)
    ctx.close(eq[1], no[1], "strain-definition", rtol=1e-6, atol=1e-6 * zz / w, **d)
    # gamma and periodicities
    per = utils.calculate_splus_scross(nmax, mc, dl, h0, F, e, t, l0 + 2 * np.pi, gam + np.pi, gd, inc)
    ctx.close(per[0], got[0], "periodic", rtol=1e-9, atol=sc * (1e-9 + ph), **d)
    if abs(ci) < 1e-9:
        ctx.close(got[1], np.zeros(len(t)), "edge-on", rtol=0, atol=1e-12 * sc)
    # full sum: its derivative is the strain of the orbit
    ctx.event("quadrupole")
    full = 3 if e == 0 else int(min(400, 12 + 40 / (1 - e) ** 1.5))
    t = rng.uniform(0, 3, 5) / F
    h = 1e-5 / w
    gd = M.pick(rng, [0.0, w * rng.uniform(-0.05, 0.05)])
    f = lambda tt: np.array(utils.calculate_splus_scross(full, mc, dl, h0, F, e, tt, l0, gam, gd, inc))
    der = (8 * (f(t + h) - f(t - h)) - (f(t + 2 * h) - f(t - 2 * h))) / (12 * h)
    want = np.array(quad(l0 + w * t, gam + gd * t, e, inc, z))
    top = z / (1 - e) ** 3
    ctx.close(der, want, "quadrupole", rtol=0, atol=top * 1e-4, full=full, **d)
    if e == 0:
        ph2 = 2 * (l0 + w * t + gam + gd * t)
        s = f(t)
        rate = 2 * w + 2 * gd
        ctx.close(s[0], 2 * z * (1 + ci**2) * np.sin(ph2) * 2 * w / rate / (2 * w) * 1.0, "circular", rtol=3e-5, scale=z / w, **d)
        ctx.close(s[1], 4 * z * ci * np.cos(ph2) / rate, "circular", rtol=3e-5, scale=z / w, **d)


def antenna(ctx, rng):
    from enterprise.signals import utils

    for _ in range(20):
        v = rng.randn(3)
        pos = v / np.linalg.norm(v)
        th, ph = M.pick(rng, [(np.arccos(rng.uniform(-1, 1)), rng.uniform(0, 2 * np.pi)), (0.0, 0.3), (np.pi / 2, 0.0), (np.pi, 1.0)])
        src = np.array([np.sin(th) * np.cos(ph), np.sin(th) * np.sin(ph), np.cos(th)])
        if 1 - src @ pos < 1e-6:
            continue
        ctx.event("antenna")
        ctx.sig("%.6g" % th, "%.6g" % ph, "%.6g" % pos[0])
        got = utils.create_gw_antenna_pattern(pos, th, ph)
        want = ref.antenna(pos, th, ph)
        ctx.close(got, want, "antenna", rtol=0, atol=1e-15 / (1 - src @ pos) + 1e-13, pos=pos, theta=th, phi=ph)
        fp, fc, mu = got
        ctx.close(mu, src @ pos, "antenna-angle", rtol=0, atol=1e-14)
        ctx.close(np.hypot(fp, fc), 0.5 * (1 + mu), "antenna-envelope", rtol=0, atol=1e-14 / (1 - mu) + 1e-13)
        anti = utils.create_gw_antenna_pattern(-src, th, ph)
        ctx.close(anti[:2], [0, 0], "antenna-opposite", rtol=0, atol=1e-14)
        p1 = utils.create_gw_antenna_pattern(pos, th, ph + 2 * np.pi)
        ctx.close(p1, got, "antenna-periodic", rtol=0, atol=1e-13 / (1 - mu))


SCENARIOS = {"rates": (rates, 200, 8000), "evolution": (evolution, 400, 12000), "waveform": (waveform, 600, 20000), "antenna": (antenna, 100, 4000)}
