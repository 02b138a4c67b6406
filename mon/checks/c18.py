"""C18: overlap-reduction functions and anisotropic correlations."""
import itertools

import numpy as np

from .. import model as M, psr as P, ref
from ..core import size as tail

PROP = "C18"
RULE = ("a case is a set of sky positions (random, clustered, coincident, antipodal, poles, pixel centres, nearly coincident) with an isotropic correlation, or with a multipole vector / "
        "sky map at some resolution; values are compared with closed forms or with an independent pixel sum, matrices are tested for symmetry and positive definiteness, "
        "conversions for linearity and round trips, and the anisotropic correlation also inside an array's prior; distinct = distinct (kind, geometry, size)")
ASSUMPTIONS = ["'distinct pulsars' have different position vectors; equal vectors mean the same pulsar (documented by the code)",
               "HEALPix quadrature limits map round trips and the lowest multipole's agreement with Hellings-Downs"]
REQUIRE = {"pair": 1500, "matrix": 150, "anis": 60, "round-trip": 100, "in-array": 30, "pixel-antipode": 10}


def positions(rng, n=None):
    """unit vectors, of several hostile kinds."""
    n = tail(rng, 2, 12, 60) if n is None else n
    kind = M.pick(rng, ["random", "random", "cluster", "poles", "axes", "antipodal", "near", "tiny", "mirror"])
    v = rng.randn(n, 3)
    if kind == "cluster":
        v = rng.randn(3) * 5 + 0.3 * v
    elif kind == "poles":
        v[:, :2] *= 1e-3
    elif kind == "axes":
        a = np.concatenate([np.eye(3), -np.eye(3)])
        v = a[rng.permutation(6)[: min(n, 6)]]
    elif kind == "mirror":  # directions sharing some of their components
        v = rng.randn(3) * np.array(list(itertools.product([1, -1], repeat=3)))[rng.permutation(8)[: min(n, 8)]]
    elif kind == "antipodal":
        v[n // 2:] = -v[: n - n // 2]
    elif kind in ("near", "tiny"):
        d = 10.0 ** rng.uniform(-9, -3) if kind == "near" else 10.0 ** rng.uniform(-17, -9)
        v = v / np.linalg.norm(v, axis=1)[:, None]
        v[1:] = v[0] + d * rng.randn(n - 1, 3) if rng.rand() < 0.5 else v[1:]
        v[-1] = v[0] + d * rng.randn(3)
    v = v / np.linalg.norm(v, axis=1)[:, None]
    # distinct vectors only
    out = []
    for x in v:
        if not any(np.array_equal(x, y) for y in out):
            out.append(x)
    return kind, np.array(out)


def rotation(rng):
    q, r = np.linalg.qr(rng.randn(3, 3))
    q = q * np.sign(np.diag(r))
    return q if np.linalg.det(q) > 0 else q[:, [1, 0, 2]]


def isotropic(ctx, rng):
    from enterprise.signals import utils as u

    kind, v = positions(rng)
    n = len(v)
    fns = {"hd": (u.hd_orf, ref.hd), "dipole": (u.dipole_orf, ref.dipole), "mono": (u.monopole_orf, ref.monopole)}
    name = M.pick(rng, sorted(fns))
    f, g = fns[name]
    ctx.sig(name, kind, n)
    ctx.event("kind:" + kind)
    C = np.zeros((n, n))
    W = np.zeros((n, n))
    deferred = f()("gw") if rng.rand() < 0.5 else None
    for i, j in itertools.product(range(n), range(n)):
        x, y = v[i].copy(), v[j].copy()
        C[i, j] = f(x, y) if deferred is None else deferred(x, y)
        W[i, j] = g(v[i], v[j], i == j)
        ctx.event("pair")
    ctx.ok(np.all(np.isfinite(C)), "finite", "non-finite correlation", kind=kind, name=name)
    ctx.ok(np.allclose(C, C.T, rtol=0, atol=1e-15), "symmetric", "correlation not symmetric", kind=kind, name=name)
    # nearly coincident: 1 - cos loses digits, x log x amplifies 40 times
    ctx.close(C, W, "closed-form", rtol=0, atol=3e-14, kind=kind, name=name)
    R = rotation(rng)
    w = v @ R.T
    ok = all(not np.array_equal(w[i], w[j]) for i, j in itertools.combinations(range(n), 2))
    if ok:
        Cr = np.array([[f(a, b) if i != j else f(a, a) for j, b in enumerate(w)] for i, a in enumerate(w)])
        ctx.close(Cr, C, "rotation-invariant", rtol=0, atol=5e-14, kind=kind, name=name)
    ev = np.linalg.eigvalsh(0.5 * (C + C.T))[0]
    ctx.event("matrix")
    ctx.ok(ev > {"hd": 0.5 - 1e-10, "dipole": 1e-5 - 1e-12, "mono": 1e-5 - 1e-12}[name], "positive-definite", "smallest eigenvalue {:.3e}".format(ev), kind=kind, name=name)
    i = rng.randint(n)
    ctx.close(C[i, i], {"hd": 1.0, "dipole": 1 + 1e-5, "mono": 1 + 1e-5}[name], "auto", rtol=1e-15)


def special(ctx, rng):
    """Hellings-Downs at its documented values; averages over the sky vanish (orthogonality to mono- and dipole)."""
    from enterprise.signals import utils as u

    a = rng.randn(3)
    a /= np.linalg.norm(a)
    ctx.sig(round(a[0], 1), round(a[1], 1))
    ctx.event("pair", 4)
    ctx.close(u.hd_orf(a, -a), 0.25, "hd-antipodal", rtol=0, atol=1e-14)
    b = np.cross(a, rng.randn(3))
    b /= np.linalg.norm(b)
    ctx.close(u.hd_orf(a, b), 1.5 * 0.5 * np.log(0.5) - 0.125 + 0.5, "hd-90", rtol=0, atol=1e-14)
    c = np.cos(np.pi / 3) * a + np.sin(np.pi / 3) * b
    ctx.close(u.hd_orf(a, c), 1.5 * 0.25 * np.log(0.25) - 0.25 * 0.25 + 0.5, "hd-60", rtol=0, atol=1e-13)
    x, w = np.polynomial.legendre.leggauss(60)
    val = np.array([u.hd_orf(a, xi * a + np.sqrt(1 - xi * xi) * b) for xi in x])
    ctx.close(np.sum(w * val), 0.0, "hd-no-monopole", rtol=0, atol=1e-4)
    ctx.close(np.sum(w * val * x), 0.0, "hd-no-dipole", rtol=0, atol=1e-4)
    # quadrupole and octupole powers: HD = sum 3/2 (2l+1)/((l+2)(l+1)l(l-1)) P_l
    for el in (2, 3, 4):
        pl = np.polynomial.legendre.legval(x, [0] * el + [1])
        want = 1.5 * (2 * el + 1) / ((el + 2.0) * (el + 1) * el * (el - 1))
        ctx.close(np.sum(w * val * pl) * (2 * el + 1) / 2, want, "hd-multipoles", rtol=0, atol=1e-3 * want + 1e-4)


# ---------------------------------------------------------------- anisotropy
def ylm(L, theta, phi):
    """real spherical harmonics (Condon-Shortley phase) by recursion: list over (l, m)."""
    x, s = np.cos(theta), np.sin(theta)
    p = {}
    p[0, 0] = np.full(len(theta), np.sqrt(1 / (4 * np.pi)))
    for m in range(1, L + 1):
        p[m, m] = -np.sqrt((2 * m + 1) / (2.0 * m)) * s * p[m - 1, m - 1]
    for m in range(0, L):
        p[m + 1, m] = np.sqrt(2 * m + 3.0) * x * p[m, m]
    for m in range(0, L + 1):
        for el in range(m + 2, L + 1):
            a = np.sqrt((4.0 * el * el - 1) / (el * el - m * m))
            b = np.sqrt(((el - 1.0) ** 2 - m * m) / (4 * (el - 1.0) ** 2 - 1))
            p[el, m] = a * (x * p[el - 1, m] - b * p[el - 2, m])
    out = []
    for el in range(L + 1):
        for m in range(-el, el + 1):
            if m == 0:
                out.append(p[el, 0])
            elif m > 0:
                out.append(np.sqrt(2) * p[el, m] * np.cos(m * phi))
            else:
                out.append(np.sqrt(2) * p[el, -m] * np.sin(-m * phi))
    return np.array(out)


def grid(nside):
    import healpy as hp

    return hp.pix2ang(nside, np.arange(hp.nside2npix(nside)))


def response(v, theta, phi):
    """F+ and Fx for GWs propagating towards the pixels: 1/2 (n n - m m) / (1 + k.p), m n / (1 + k.p)."""
    k = np.array([np.sin(theta) * np.cos(phi), np.sin(theta) * np.sin(phi), np.cos(theta)])
    m = np.array([-np.sin(phi), np.cos(phi), 0 * phi])
    n = np.array([-np.cos(theta) * np.cos(phi), -np.cos(theta) * np.sin(phi), np.sin(theta)])
    den = 0.5 * np.sum((k[None] + v[:, :, None]) ** 2, axis=1)
    a, b = v @ n, v @ m
    good = den > 1e-13
    d = np.where(good, den, 1.0)
    return np.where(good, 0.5 * (a**2 - b**2) / d, 0.0), np.where(good, a * b / d, 0.0), den


def pixel_orf(v, power, theta, phi):
    fp, fc, den = response(v, theta, phi)
    C = 1.5 / len(theta) * ((fp * power) @ fp.T + (fc * power) @ fc.T)
    return C + np.diag(np.diag(C)), den.min()


def locs(v):
    return np.array([np.arctan2(v[:, 1], v[:, 0]) % (2 * np.pi), np.arctan2(np.hypot(v[:, 0], v[:, 1]), v[:, 2])]).T


def vecs(lc):
    return np.array([np.sin(lc[:, 1]) * np.cos(lc[:, 0]), np.sin(lc[:, 1]) * np.sin(lc[:, 0]), np.cos(lc[:, 1])]).T


def anis(ctx, rng):
    """Anisotropic bases against an independent pixel sum."""
    from enterprise.signals import anis_coefficients as a

    ns = int(M.pick(rng, [2, 4, 8, 16]))
    L = rng.randint(0, 5)
    th, ph = grid(ns)
    kind, v = positions(rng, rng.randint(1, 8))
    if rng.rand() < 0.2:
        kind = "pixels"
        k = rng.permutation(len(th))[:5]
        v = vecs(np.array([ph[k], th[k]]).T) * (-1 if rng.rand() < 0.5 else 1)
    lc = locs(v)
    v = vecs(lc)
    Y = ylm(L, th, ph)
    B = a.anis_basis(lc, L, nside=ns)
    ctx.event("anis")
    ctx.sig(ns, L, kind, len(v))
    ctx.ok(B.shape == ((L + 1) ** 2, len(v), len(v)), "anis-shape", str(B.shape))
    ctx.ok(np.all(np.isfinite(B)), "anis-finite", "non-finite basis for {}".format(kind), kind=kind, nside=ns)
    # pixels opposite to a pulsar contribute an ill-defined, bounded amount
    dmin = response(v, th, ph)[2].min()
    slack = 4.0 / len(th) * 1.5 if dmin < 1e-13 else 1e-11 / max(dmin, 1e-12) ** 0.5
    for k in range((L + 1) ** 2):
        W, _ = pixel_orf(v, Y[k], th, ph)
        ctx.close(B[k], W, "anis-basis", rtol=0, atol=slack + 1e-12, k=k, kind=kind, nside=ns)
        ctx.ok(np.allclose(B[k], B[k].T, rtol=0, atol=1e-13), "anis-symmetric", "", k=k)
    # a user map: linear superposition, positive maps give positive definite matrices
    c = rng.randn((L + 1) ** 2) * 0.2
    c[0] = 2 * np.sqrt(np.pi)
    m = a.mapFromClm_fast(c, ns)
    O = a.orfFromMap_fast(lc, m)
    ctx.close(O, np.tensordot(c, B, 1), "map-orf-linear", rtol=1e-11)
    F = a.signalResponse_fast(lc[:, 1], lc[:, 0], th, ph)
    ctx.close(a.orfFromMap_fast(lc, m, response=F), O, "map-orf-response", rtol=1e-13)
    ctx.close(a.getCov(c, ns, F), O, "getcov", rtol=1e-12)
    fp, fc, _ = response(v, th, ph)
    if dmin > 1e-13:
        s = np.sqrt(1.5 / len(th))
        ctx.close(F[:, ::2], s * fp, "response-plus", rtol=0, atol=s * slack * 10 + 1e-13)
        ctx.close(F[:, 1::2], s * fc, "response-cross", rtol=0, atol=s * slack * 10 + 1e-13)
    # |F|^2 = (1 - k.p)^2 / 4 whatever the polarisation basis
    if m.min() > 0 and dmin > 1e-13:
        ctx.event("matrix")
        ev = np.linalg.eigvalsh(O)[0]
        ctx.ok(ev > 0, "anis-positive-definite", "smallest eigenvalue {:.3e}".format(ev), kind=kind)


def lowest(ctx, rng):
    """c_00 = 2 sqrt(pi) is Hellings-Downs."""
    from enterprise.signals import anis_coefficients as a, utils as u

    ns = int(M.pick(rng, [16, 32]))
    while True:
        kind, v = positions(rng, rng.randint(2, 12))
        if kind not in ("near", "tiny"):
            break
    lc = locs(v)
    B = a.anis_basis(lc, 0, nside=ns)[0] * 2 * np.sqrt(np.pi)
    H = np.array([[u.hd_orf(x, y) for y in v] for x in v])
    ctx.event("anis")
    ctx.sig(ns, kind, len(v))
    ctx.close(B, H, "lowest-multipole", rtol=0, atol=12.0 / (12 * ns**2) ** 1.0 + (6.0 / (12 * ns**2)), kind=kind, nside=ns)
    pos = [x for x in v]
    bb = a.anis_basis(lc, 1, nside=ns)
    for i, j in itertools.product(range(len(pos)), repeat=2):
        ctx.close(u.anis_orf(pos[i], pos[j], np.array([]), anis_basis=bb, psrs_pos=pos, lmax=0), B[i, j], "anis-orf-lowest", rtol=1e-12)


def antipode(ctx, rng):
    """pulsars at or next to the antipode of a pixel centre."""
    from enterprise.signals import anis_coefficients as a

    ns = int(M.pick(rng, [4, 8, 16]))
    th, ph = grid(ns)
    k = rng.permutation(len(th))[: rng.randint(2, 8)]
    lc = np.array([(ph[k] + np.pi) % (2 * np.pi), np.pi - th[k]]).T
    d = M.pick(rng, [0.0, 1e-16, 1e-12, 1e-9, 1e-8, 1e-6])
    if d:
        lc = lc + d * rng.randn(*lc.shape)
        lc[:, 1] = np.clip(lc[:, 1], 0, np.pi)
    ctx.event("pixel-antipode")
    ctx.sig(ns, d, len(k))
    B = a.anis_basis(lc, 1, nside=ns)
    ctx.ok(np.all(np.isfinite(B)), "antipode-finite", "non-finite correlations, distance {}".format(d), nside=ns)
    if np.all(np.isfinite(B)):
        v = vecs(lc)
        W, _ = pixel_orf(v, np.full(len(th), np.sqrt(1 / (4 * np.pi))), th, ph)
        ctx.close(B[0], W, "antipode-value", rtol=0, atol=10.0 / len(th), d=d)


def conversions(ctx, rng):
    """clm <-> alm <-> map."""
    import healpy as hp

    from enterprise.signals import anis_coefficients as a

    L = rng.randint(0, 9)
    n = (L + 1) ** 2
    c, c2 = rng.randn(n), rng.randn(n)
    s = rng.randn()
    ctx.event("round-trip")
    ns = int(M.pick(rng, [8, 16]))
    ctx.sig(L, ns)
    al = a.almFromClm(c)
    ctx.ok(al.shape == (hp.Alm.getsize(L),), "alm-size", str(al.shape))
    ctx.close(a.clmFromAlm(al), c, "clm-alm-clm", rtol=0, atol=1e-14)
    z = rng.randn(hp.Alm.getsize(L)) + 1j * rng.randn(hp.Alm.getsize(L))
    for el in range(L + 1):  # real maps have real m = 0
        z[hp.Alm.getidx(L, el, 0)] = z[hp.Alm.getidx(L, el, 0)].real
    zz = a.almFromClm(a.clmFromAlm(z))
    ctx.close(np.abs(zz - z), np.zeros(len(z)), "alm-clm-alm", rtol=0, atol=1e-14)
    lin = a.almFromClm(s * c + c2) - s * al - a.almFromClm(c2)
    ctx.close(np.abs(lin), np.zeros(len(z)), "alm-linear", rtol=0, atol=1e-13)
    ctx.close(np.sum(c**2), sum((1 if hp.Alm.getlm(L, i)[1] == 0 else 2) * abs(al[i]) ** 2 for i in range(len(al))), "power", rtol=1e-12)
    th, ph = grid(ns)
    want = c @ ylm(L, th, ph)
    m, mf = a.mapFromClm(c, ns), a.mapFromClm_fast(c, ns)
    ctx.close(m, want, "map", rtol=0, atol=1e-11)
    ctx.close(mf, want, "map-fast", rtol=0, atol=1e-11)
    el, mm = rng.randint(0, L + 1), 0
    mm = rng.randint(-el, el + 1)
    ctx.close(a.real_sph_harm(mm, el, ph, th), ylm(L, th, ph)[el * el + el + mm], "real-harmonic", rtol=0, atol=1e-11, l=el, m=mm)
    h = rng.randn(hp.nside2npix(ns))
    Y = ylm(L, th, ph)
    ctx.close(a.clmFromMap(h, L), 4 * np.pi / len(h) * (Y @ h), "clm-map", rtol=0, atol=1e-11)
    f1, f2 = a.clmFromMap_fast(h, L), a.clmFromMap_fast(s * h + want, L)
    ctx.close(f2, s * f1 + a.clmFromMap_fast(want, L), "clm-map-fast-linear", rtol=0, atol=1e-10)
    if L <= ns // 2:
        tol = 6.0 * (L + 1) ** 2 / ns**2
        ctx.close(a.clmFromMap(want, L), c, "map-round-trip", rtol=0, atol=tol * np.abs(c).max() + 1e-12)
        ctx.close(a.clmFromMap_fast(want, L), c, "map-round-trip-fast", rtol=0, atol=tol * np.abs(c).max() + 1e-12)


def in_array(ctx, rng):
    """The anisotropic correlation as a common signal: free, constant or fixed multipoles, in the array's prior."""
    from enterprise.signals import anis_coefficients as a, gp_signals as g, parameter as pm, signal_base as sb, utils as u

    npsr = rng.randint(2, 5)
    kind = "random"
    qs = [P.plain(rng, "J%04d" % i, n=6, npar=1) for i in range(npsr)]
    if rng.rand() < 0.4:
        kind, v = positions(rng, npsr)
        if kind in ("random", "mirror", "cluster", "axes", "antipodal") and len(v) == npsr:
            for q, x in zip(qs, v):
                q.pos = x
                q.theta, q.phi = float(np.arccos(x[2])), float(np.arctan2(x[1], x[0]) % (2 * np.pi))
    v = np.array([q.pos for q in qs])
    L = int(M.pick(rng, [0, 1, 1, 2, 2, 3, 4]))
    ns = int(M.pick(rng, [4, 8]))
    B = a.anis_basis(locs(v), L, nside=ns)
    if rng.rand() < 0.5:  # a basis of higher order may be truncated
        B = a.anis_basis(locs(v), L + 1, nside=ns)
    pos = [q.pos for q in qs]
    size = (L + 1) ** 2 - 1
    c = rng.uniform(-0.3, 0.3, size)
    mode = M.pick(rng, ["free", "const", "fixed", "named"]) if size else "fixed"
    par = {"free": lambda: pm.Uniform(-5, 5, size=size), "const": lambda: pm.Constant(c), "fixed": lambda: c, "named": lambda: pm.Uniform(-5, 5, size=size)("clm")}[mode]()
    orf = u.anis_orf(params=par, anis_basis=B, psrs_pos=pos, lmax=L) if rng.rand() < 1 else None
    if not callable(orf):
        raise AssertionError(orf)
    s = g.FourierBasisCommonGP(u.powerlaw(log10_A=-14.0, gamma=pm.Uniform(0, 7)), orf, components=2, Tspan=3e8, name="gw")
    pta = sb.PTA([sb.SignalCollection([s])(q) for q in qs])
    p = {"gw_gamma": 3.0}
    if mode in ("free", "named"):
        p["gw_params" if mode == "free" else "clm"] = c
    if rng.rand() < 0.3:
        p["unrelated"] = 1.0
    ctx.event("in-array")
    ctx.sig(mode, L, npsr, ns)
    want = []
    for n in (x.name for x in pta.params):
        want.append(n)
    ctx.ok(sorted(set(want)) == sorted(k for k in p if k != "unrelated"), "anis-params", "{} expected {}".format(want, sorted(p)))
    phi = pta.get_phi(p)
    th, ph = grid(ns)
    cl = np.concatenate([[2 * np.sqrt(np.pi)], c])
    G, _ = pixel_orf(v, cl @ ylm(L, th, ph), th, ph)
    x = ref.powerlaw(ref.rep([1 / 3e8, 2 / 3e8]), 1e-14, 3.0)
    W = np.zeros((4 * npsr, 4 * npsr))
    for i, j in itertools.product(range(npsr), range(npsr)):
        W[4 * i:4 * i + 4, 4 * j:4 * j + 4] = np.diag(x) * G[i, j]
    ctx.close(np.asarray(phi), W, "anis-in-array", rtol=1e-9, mode=mode)
    for i, j in itertools.product(range(npsr), repeat=2):
        ctx.close(u.anis_orf(qs[i].pos, qs[j].pos, c, anis_basis=B, psrs_pos=pos, lmax=L), G[i, j], "anis-orf", rtol=0, atol=1e-9)


SCENARIOS = {"isotropic": (isotropic, 400, 12000), "special": (special, 20, 200), "anis": (anis, 110, 2500), "lowest": (lowest, 24, 200),
             "antipode": (antipode, 30, 600), "conversions": (conversions, 120, 2500), "in_array": (in_array, 50, 1000)}
