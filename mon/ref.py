"""Reference formulas, written from the documentation and independent of the code under test
(no import of enterprise here)."""
import numpy as np
import scipy.linalg as sl

YR = 365.25 * 86400.0
FYR = 1.0 / YR
DAY = 86400.0


# ---------------------------------------------------------------- epochs
def epochs(toas, dt=1.0, nmin=2):
    """Greedy partition in time order; list of index arrays."""
    order = sorted(range(len(toas)), key=lambda i: (toas[i], i))
    groups, first = [], None
    for i in order:
        if first is not None and toas[i] - first < dt:
            groups[-1].append(i)
        else:
            groups.append([i])
            first = toas[i]
    return [np.array(sorted(g)) for g in groups if len(g) >= nmin]


# ---------------------------------------------------------------- selections
def masks(kind, psr):
    n = len(psr.toas)
    if kind is None:
        return {"": np.ones(n, bool)}
    if kind == "backend":
        return {str(k): np.array([b == k for b in psr.backend_flags]) for k in sorted(set(psr.backend_flags))}
    if kind == "half":
        mid = 0.5 * (max(psr.toas) + min(psr.toas))
        return {"t1": np.array([t <= mid for t in psr.toas]), "t2": np.array([t > mid for t in psr.toas])}
    if kind == "band":
        fl = psr.flags["B"]
        return {str(k): np.array([b == k for b in fl]) for k in sorted(set(fl))}
    if kind == "telescope":
        return {str(k): np.array([b == k for b in psr.telescope]) for k in sorted(set(psr.telescope))}
    if kind == "overlap":  # overlapping masks, not a partition
        i = np.arange(n)
        return {"a": i % 2 == 0, "b": i % 3 == 0}
    if isinstance(kind, tuple):
        return masks2(kind, psr)
    raise KeyError(kind)


NG = ["ASP", "GASP", "GUPPI", "PUPPI", "YUPPI", "CHIME", "VEGAS"]
EPTA = (("Band.1", 0, 1000), ("Band.2", 1000, 2000), ("Band.3", 2000, 3000), ("Band.4", 3000, 10000))


def _byvalue(vals, subs=None):
    out = {}
    for i, v in enumerate(vals):
        v = str(v)
        if subs is None or any(v.find(s) >= 0 for s in subs):
            out.setdefault(v, np.zeros(len(vals), bool))[i] = True
    return out


def masks2(kind, psr):
    name, arg = kind[0], kind[1:]
    if name == "freqband":
        out = {}
        for k, lo, hi in arg[0] or EPTA:
            m = np.array([lo <= f < hi for f in psr.freqs])
            if m.any():
                out[k] = m
        return out
    if name == "frontend":
        return _byvalue(psr.flags["fe"])
    if name == "ng":
        return _byvalue(psr.backend_flags, NG)
    if name == "index":
        return {arg[0]: np.array([i in set(arg[1]) for i in range(len(psr.toas))])}
    if name == "custom":
        return _byvalue(psr.backend_flags, (arg[0],) if isinstance(arg[0], str) else arg[0])
    if name == "cdict":
        a = arg[0]
        if a is None:
            return {"": np.ones(len(psr.toas), bool)}
        if isinstance(a, str):
            return _byvalue(psr.backend_flags, (a,))
        if isinstance(a, frozenset):
            return _byvalue(psr.backend_flags, a)
        out = {}
        for flag, v in a:
            vals = psr.backend_flags if flag == "backend" else psr.flags[flag]
            out.update(_byvalue(vals, (v,) if isinstance(v, str) else v))
        return out
    if name == "user":
        return {"hi": np.array([f >= arg[0] for f in psr.freqs]), "lo": np.array([f < arg[0] for f in psr.freqs])}
    raise KeyError(kind)


# ---------------------------------------------------------------- bases
def freqs(n, T, logf=False, fmin=None, fmax=None, modes=None):
    if modes is not None:
        return np.array([float(m) for m in modes])
    if fmin is None and fmax is None and not logf:
        return np.array([k / T for k in range(1, n + 1)])
    lo = 1.0 / T if fmin is None else fmin
    hi = n / T if fmax is None else fmax
    if n == 1:
        return np.array([lo])
    if logf:
        return np.array([10 ** (np.log10(lo) + (np.log10(hi) - np.log10(lo)) * k / (n - 1)) for k in range(n)])
    return np.array([lo + (hi - lo) * k / (n - 1) for k in range(n)])


def fourier(t, f, phase=None):
    phase = np.zeros(len(f)) if phase is None else phase
    F = np.empty((len(t), 2 * len(f)))
    for k, fk in enumerate(f):
        F[:, 2 * k] = np.sin(2 * np.pi * t * fk + phase[k])
        F[:, 2 * k + 1] = np.cos(2 * np.pi * t * fk + phase[k])
    return F


def rep(f, n=2):
    return np.array([x for x in f for _ in range(n)])


def widths(fl, c=2):
    """Bin widths for labels repeated c times."""
    f = np.array([fl[i] for i in range(0, len(fl), c)])
    df = np.array([f[0]] + [f[i] - f[i - 1] for i in range(1, len(f))])
    return rep(df, c)


# ---------------------------------------------------------------- spectra (variance per column)
def powerlaw(fl, A, g, c=2):
    return A**2 / (12 * np.pi**2) * (fl / FYR) ** (-g) * YR**3 * widths(fl, c)


def hc2psd(fl, hc):
    return hc**2 / (12 * np.pi**2 * fl**3) * widths(fl, 2)


def turnover(fl, A, g, lf0, kappa, beta):
    hc = A * (fl / FYR) ** ((3 - g) / 2.0) * (1 + (10**lf0 / fl) ** kappa) ** (-beta)
    return hc2psd(fl, hc)


def turnover_knee(fl, A, g, lfb, lfk, kappa, delta):
    hc = A * (fl / FYR) ** ((3 - g) / 2.0) * (1 + fl / 10**lfk) ** delta * (1 + (10**lfb / fl) ** kappa) ** (-0.5)
    return hc2psd(fl, hc)


def broken(fl, A, g, delta, lfb, kappa):
    hc = A * (fl / FYR) ** ((3 - g) / 2.0) * (1 + (fl / 10**lfb) ** (1 / kappa)) ** (kappa * (g - delta) / 2.0)
    return hc2psd(fl, hc)


def free(lrho):
    return rep(10.0 ** (2 * np.asarray(lrho)), 2)


# ---------------------------------------------------------------- ORFs
def hd(p1, p2, same):
    if same:
        return 1.0
    # angle from the chord: accurate for nearly coincident directions
    x = np.sum((np.asarray(p1) - np.asarray(p2)) ** 2) / 4.0
    if x <= 0:
        return 0.5
    return 0.5 - x / 4.0 + 1.5 * x * np.log(x)


def dipole(p1, p2, same):
    return 1 + 1e-5 if same else float(np.dot(p1, p2))


def monopole(p1, p2, same):
    return 1 + 1e-5 if same else 1.0


def noorf(p1, p2, same):
    return 1.0 if same else 0.0


# ---------------------------------------------------------------- Gaussian densities
def lnpdf(K, r):
    """-1/2 r K^-1 r - 1/2 log det K."""
    c = sl.cholesky(K, lower=True)
    z = sl.solve_triangular(c, r, lower=True)
    return -0.5 * np.dot(z, z) - np.sum(np.log(np.diag(c)))


def lnpdf_tm(K0, M, r, prior=1e40):
    """As lnpdf with K = K0 + prior * M M^T, by the determinant lemma on scaled columns."""
    if M is None or M.shape[1] == 0:
        return lnpdf(K0, r)
    c = sl.cholesky(K0, lower=True)
    s = np.sqrt(np.sum(M**2, axis=0))
    Z = sl.solve_triangular(c, M / s, lower=True)
    z = sl.solve_triangular(c, r, lower=True)
    A = np.dot(Z.T, Z) + np.diag(1.0 / (prior * s**2))
    # QR of Z is more accurate than Cholesky of A; 1/prior is negligible but kept in A's diagonal
    d = np.sqrt(np.diag(A))
    q, rr = sl.qr(Z / d, mode="economic")
    proj = np.dot(q.T, z)
    quad = np.dot(z, z) - np.dot(proj, proj)
    ld = 2 * np.sum(np.log(np.diag(c))) + 2 * np.sum(np.log(np.abs(np.diag(rr)))) + 2 * np.sum(np.log(d))
    ld += M.shape[1] * np.log(prior) + 2 * np.sum(np.log(s))
    return -0.5 * quad - 0.5 * ld


def lnpdf_exact(K0, M, r, prior=1e40, digits=110):
    """The same in decimal arithmetic without any lemma: Cholesky of K0 + prior M M^T."""
    import decimal

    D = decimal.Decimal
    with decimal.localcontext() as c:
        c.prec = digits
        n = len(r)
        K = [[D(float(K0[i, j])) for j in range(n)] for i in range(n)]
        if M is not None:
            m = [[D(float(x)) for x in row] for row in M]
            for i in range(n):
                for j in range(n):
                    K[i][j] += D(prior) * sum(a * b for a, b in zip(m[i], m[j]))
        z, ld = [], D(0)
        L = [[D(0)] * n for _ in range(n)]
        for i in range(n):
            for j in range(i + 1):
                v = K[i][j] - sum(L[i][k] * L[j][k] for k in range(j))
                if i == j:
                    L[i][i] = v.sqrt()
                    ld += L[i][i].ln()
                else:
                    L[i][j] = v / L[j][j]
            z.append((D(float(r[i])) - sum(L[i][k] * z[k] for k in range(i))) / L[i][i])
        return float(-sum(x * x for x in z) / 2 - ld)


def pos_angles(v):
    return np.arccos(v[2]), np.arctan2(v[1], v[0]) % (2 * np.pi)


# ---------------------------------------------------------------- GW
def antenna(pos, theta, phi):
    """F+, Fx, cosMu from the geometric definition: source direction -Omega, polarisation
    basis m = phi-hat reversed, n = theta-hat as in Sesana & Vecchio / Ellis et al."""
    st, ct, sp, cp = np.sin(theta), np.cos(theta), np.sin(phi), np.cos(phi)
    omega = -np.array([st * cp, st * sp, ct])
    m = np.array([sp, -cp, 0.0])
    n = np.array([-ct * cp, -ct * sp, st])
    ep = np.outer(m, m) - np.outer(n, n)
    ec = np.outer(m, n) + np.outer(n, m)
    den = 1 + omega @ pos
    return 0.5 * (pos @ ep @ pos) / den, 0.5 * (pos @ ec @ pos) / den, -(omega @ pos)


def bwm(toas, pos, log10_h, cos_gwtheta, gwphi, gwpol, t0):
    fp, fc, _ = antenna(pos, np.arccos(cos_gwtheta), gwphi)
    dt = toas - t0 * DAY
    return (np.cos(2 * gwpol) * fp + np.sin(2 * gwpol) * fc) * 10**log10_h * np.where(dt > 0, dt, 0.0)


ECL = 23.43704 * np.pi / 180.0


def ecl2eq(v):
    c, s = np.cos(ECL), np.sin(ECL)
    return np.stack([v[..., 0], c * v[..., 1] - s * v[..., 2], s * v[..., 1] + c * v[..., 2]], axis=-1)


def eq2ecl(v):
    c, s = np.cos(ECL), np.sin(ECL)
    return np.stack([v[..., 0], c * v[..., 1] + s * v[..., 2], -s * v[..., 1] + c * v[..., 2]], axis=-1)


def ephem_shift(toas, planetssb, frame=0.0, dm=(0, 0, 0, 0), jup=None, sat=None, times=None, jorb=None, sorb=None):
    """Perturbed minus nominal Earth position (light seconds)."""
    mjd = toas / DAY
    earth = planetssb[:, 2, :3]
    e = eq2ecl(earth)
    ang = frame * (mjd - 55197.0) / 365.25
    ca, sa = np.cos(ang), np.sin(ang)
    rot = np.stack([ca * e[:, 0] - sa * e[:, 1], sa * e[:, 0] + ca * e[:, 1], e[:, 2]], axis=-1)
    out = ecl2eq(rot) - earth
    for k, d in zip((4, 5, 6, 7), dm):
        out = out + d * planetssb[:, k, :3]
    for coef, orb, mass in ((jup, jorb, 0.0009547918983127075), (sat, sorb, 0.00028588567008942334)):
        if coef is not None and np.any(np.asarray(coef) != 0):
            tr = np.zeros((len(times), 3))
            for j in range(6):
                tr += mass * coef[j] * orb[j]
            out = out + np.stack([np.interp(mjd, times, tr[:, a]) for a in range(3)], axis=-1)
    return out
