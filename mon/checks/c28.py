"""C28: reference-frame rotations, sky geometry and physical constants."""
import numpy as np

from .. import model as M, ref
from ..core import size as tail

PROP = "C28"
RULE = ("random vectors, angles (scalar and per-row), epochs and offsets through the public rotation helpers, compared with elementary rotations written out here, plus group properties "
        "(orthogonality, inverses, determinant); random sky positions and polarisations through the antenna pattern; distinct = distinct random input")
ASSUMPTIONS = ["the obliquity itself is compared only to 0.003 degrees (the library uses 23.43704)", "constants are compared with IAU/CODATA values to 1e-4 relative or better"]
REQUIRE = {"ecliptic": 200, "euler": 200, "framerotate": 400, "constants": 1}


def R(axis, a):
    c, s = np.cos(a), np.sin(a)
    return {"x": np.array([[1, 0, 0], [0, c, -s], [0, s, c]]), "y": np.array([[c, 0, s], [0, 1, 0], [-s, 0, c]]), "z": np.array([[c, -s, 0], [s, c, 0], [0, 0, 1]])}[axis]


def angles(rng, n):
    return [M.pick(rng, [0.0, rng.uniform(-7, 7), rng.uniform(-1e-8, 1e-8), np.pi / 2, np.pi]) if rng.rand() < 0.6 else rng.uniform(-7, 7, n) for _ in range(3)]


def ecliptic(ctx, rng):
    from enterprise import constants as const
    from enterprise.signals import utils

    n = tail(rng, 1, 30, 500)
    x = rng.randn(n, 3) * 10.0 ** rng.uniform(-12, 6)
    if rng.rand() < 0.2:
        x[rng.randint(n)] = 0
    b = x.copy()
    ctx.sig(n, "%.6g" % x[0, 0])
    ctx.event("ecliptic")
    eq = utils.ecl2eq_vec(x)
    s = np.max(np.abs(x))
    ctx.close(eq, (R("x", const.e_ecl) @ x.T).T, "ecl2eq", rtol=1e-13, scale=s)
    ctx.close(utils.eq2ecl_vec(eq), x, "inverse", rtol=1e-14, atol=4e-16 * s, scale=s)
    ctx.close(utils.ecl2eq_vec(utils.eq2ecl_vec(x)), x, "inverse", rtol=1e-14, atol=4e-16 * s, scale=s)
    ctx.close(np.linalg.norm(eq, axis=1), np.linalg.norm(x, axis=1), "length", rtol=1e-14, scale=s)
    ctx.close(eq[:, 0], x[:, 0], "equinox-fixed", rtol=0)
    k = rng.randint(n)
    ctx.close(utils.ecl2eq_vec(x[k:k + 1])[0], eq[k], "row-by-row", rtol=1e-14, scale=s)
    # the north ecliptic pole is at right ascension 18h, declination 66.56 degrees
    pole = utils.ecl2eq_vec(np.array([[0.0, 0.0, 1.0]]))[0]
    ctx.close(np.degrees(np.arcsin(pole[2])), 90 - 23.4393, "ecliptic-pole", rtol=0, atol=0.003)
    ctx.ok(pole[1] < 0 and abs(pole[0]) < 1e-12, "ecliptic-pole", repr(pole))
    ctx.same(x, b, "input-untouched")


def euler(ctx, rng):
    from enterprise.signals import utils

    n = tail(rng, 1, 25, 400)
    z, y, x = angles(rng, n)
    E = utils.euler_vec(z, y, x, n)
    ctx.event("euler")
    ctx.sig(n, np.ravel(z)[0], np.ravel(y)[0], np.ravel(x)[0])
    if not ctx.ok(np.shape(E) == (n, 3, 3), "euler-shape", repr(np.shape(E))):
        return
    zz, yy, xx = [np.broadcast_to(a, n) for a in (z, y, x)]
    want = np.array([R("x", c) @ R("y", b) @ R("z", a) for a, b, c in zip(zz, yy, xx)])
    ctx.close(E, want, "euler", rtol=0, atol=1e-14)
    ctx.close(np.einsum("ijk,ilk->ijl", E, E), np.broadcast_to(np.eye(3), (n, 3, 3)), "orthogonal", rtol=0, atol=1e-14)
    ctx.close(np.linalg.det(E), np.ones(n), "proper", rtol=0, atol=1e-14)


def framerotate(ctx, rng):
    from enterprise import constants as const
    from enterprise.signals import utils

    n = tail(rng, 1, 30, 500)
    mjd = rng.uniform(48000, 60000, n)
    v = rng.randn(n, 3) * 10.0 ** rng.uniform(-3, 4)
    z, y, x = angles(rng, n)
    dz = float(M.pick(rng, [0.0, 1e-9, rng.uniform(-1e-3, 1e-3), rng.uniform(-1, 1)]))
    off = M.pick(rng, [None, list(rng.randn(3)), rng.randn(3), rng.randn(n, 3)])
    equ = bool(rng.rand() < 0.5)
    ctx.event("framerotate")
    ctx.sig(n, "%.6g" % v[0, 0], dz, equ, None if off is None else np.shape(off))
    b, t = v.copy(), mjd.copy()
    got = utils.ss_framerotate(mjd, v, x, y, z, dz, offset=off, equatorial=equ)
    zz, yy, xx = [np.broadcast_to(a, n) for a in (z, y, x)]
    O = R("x", const.e_ecl)
    w = (O.T @ v.T).T if equ else v
    w = np.array([R("x", c) @ R("y", bb) @ R("z", a + dz * (d - 55197.0) / 365.25) @ u for a, bb, c, d, u in zip(zz, yy, xx, mjd, w)])
    if off is not None:
        w = w + np.array(off)
    if equ:
        w = (O @ w.T).T
    d = dict(equatorial=equ, dz=dz)
    ctx.close(got, w, "framerotate", rtol=1e-12, **d)
    ctx.same(v, b, "input-untouched")
    ctx.same(mjd, t, "input-untouched")
    if off is None:
        ctx.close(np.linalg.norm(got, axis=1), np.linalg.norm(v, axis=1), "length", rtol=1e-13, scale=np.max(np.abs(v)), **d)
        back = utils.ss_framerotate(mjd, v, 0.0, 0.0, 0.0, 0.0, equatorial=equ)
        ctx.close(back, v, "identity", rtol=1e-14, scale=2 * np.max(np.abs(v)), **d)
        # no drift at the reference date, and drift rates add
        one = utils.ss_framerotate(np.full(n, 55197.0), v, x, y, z, dz, equatorial=equ)
        ctx.close(one, utils.ss_framerotate(np.full(n, 55197.0), v, x, y, z, 0.0, equatorial=equ), "drift-reference", rtol=1e-14, scale=2 * np.max(np.abs(v)), **d)
        two = utils.ss_framerotate(mjd, utils.ss_framerotate(mjd, v, 0.0, 0.0, 0.0, dz, equatorial=equ), 0.0, 0.0, 0.0, -dz, equatorial=equ)
        ctx.close(two, v, "drift-inverse", rtol=1e-13, scale=2 * np.max(np.abs(v)), **d)
    a, m = rng.uniform(-1, 1), 10.0 ** rng.uniform(-12, 0)
    ctx.close(utils.dmass(v, m * a), m * a * v, "dmass", rtol=1e-14)


def antenna(ctx, rng):
    """Antenna patterns: trace-free, quadrupolar in the polarisation basis, invariant under rotations about the polar axis."""
    from enterprise.signals import utils

    pos = rng.randn(3)
    pos /= np.linalg.norm(pos)
    th, ph = np.arccos(rng.uniform(-1, 1)), rng.uniform(0, 2 * np.pi)
    if rng.rand() < 0.1:
        th = M.pick(rng, [1e-3, np.pi / 2, np.pi - 1e-3])
    fp, fc, cosmu = utils.create_gw_antenna_pattern(pos, th, ph)
    ctx.sig("%.6g %.6g" % (th, ph), "%.6g" % pos[0])
    ctx.event("antenna")
    om = -np.array([np.sin(th) * np.cos(ph), np.sin(th) * np.sin(ph), np.cos(th)])  # direction of propagation
    mu = -om @ pos
    ctx.close(cosmu, mu, "antenna-angle", rtol=0, atol=1e-14)
    if 1 + om @ pos > 1e-6:
        # |F|^2 = ((1 + mu)/2)^2 in every frame: F depends on the source only through the angle to it, up to polarisation
        ctx.close(np.hypot(fp, fc), 0.5 * (1 - om @ pos) if False else 0.5 * (1 + mu), "antenna-magnitude", rtol=0, atol=1e-9 / (1 - mu) if mu > 0.999 else 1e-11)
        a = rng.uniform(0, 6)
        f2 = utils.create_gw_antenna_pattern(R("z", a) @ pos, th, ph + a)
        ctx.close(np.array(f2), np.array([fp, fc, cosmu]), "antenna-axial-symmetry", rtol=0, atol=1e-9 / (1 - mu) if mu > 0.999 else 1e-10)


CONST = dict(c=299792458.0, G=6.674e-11, yr=365.25 * 86400, day=86400.0, fyr=1 / (365.25 * 86400), AU=149597870700.0, pc=3.0856775814913673e16, kpc=3.0856775814913673e19,
             Mpc=3.0856775814913673e22, Gpc=3.0856775814913673e25, ly=9.4607304725808e15, GMsun=1.32712440e20, Msun=1.98841e30, Rsun=1476.625, Tsun=4.925490947e-6, h=6.62607015e-34,
             log10e=np.log10(np.e), ln10=np.log(10), pi=np.pi, e=np.e, erg=1e-7, DM_K=2.41e-16)


def constants(ctx, rng):
    from enterprise import constants as const

    ctx.event("constants")
    ctx.sig("constants")
    for k, v in sorted(CONST.items()):
        ctx.close(getattr(const, k), v, "constant-" + k, rtol=2e-4 if k in ("G", "Msun") else 1e-6)
    ctx.close(const.M_ecl, R("x", const.e_ecl), "ecliptic-matrix", rtol=0, atol=1e-15)


SCENARIOS = {"constants": (constants, 2, 2), "ecliptic": (ecliptic, 400, 8000), "euler": (euler, 400, 8000), "framerotate": (framerotate, 800, 20000), "antenna": (antenna, 400, 8000)}
