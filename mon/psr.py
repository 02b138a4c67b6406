"""Synthetic pulsars.

`Sky` draws one data set (a table of observations in arbitrary order).  It can be
presented as a plain duck-typed pulsar (`plain`), through a fake libstempo object
(`tempo2`) or through fake PINT objects (`pint`), so that the real pulsar classes
run on it.
"""
import numpy as np

DAY = 86400.0
YR = 365.25 * DAY
BACKENDS = ["Rcvr_800_GUPPI", "Rcvr1_2_GUPPI", "L-wide_PUPPI", "S-wide_ASP", "430_X"]

NESTED = ["Rcvr_GUPPI", "GUPPI", "S-Rcvr_GUPPI", "GUPPI_X", "S"]  # names that contain one another


class Plain(object):
    """Duck-typed pulsar: attributes only."""

    def __repr__(self):
        return "<Plain {} n={}>".format(self.name, len(self.toas))


def epochs(rng, n, span, cluster):
    """n times in [0, span]; `cluster` is the typical number of TOAs per epoch."""
    out = []
    while len(out) < n:
        t0 = rng.uniform(0, span)
        k = max(1, rng.poisson(cluster)) if cluster > 0 else 1
        k = min(k, n - len(out))
        out.extend(t0 + np.sort(rng.uniform(0, 0.45, k)) - 0.2)
    return np.array(out[:n])


def design(rng, t, freqs, npar, jump=None):
    x = (t - t.min()) / max(t.max() - t.min(), 1.0) - 0.5
    cols = [np.ones_like(t), x, x**2, np.sin(2 * np.pi * t / YR), np.cos(2 * np.pi * t / YR), (1400.0 / freqs) ** 2]
    names = ["Offset", "F0", "F1", "RAJ", "DECJ", "DM1"]
    if jump is not None:
        cols.append(jump.astype(float))
        names.append("JUMP1")
    k = len(cols)
    while len(cols) < npar:
        cols.append(np.cos(2 * np.pi * t / YR * (1.3 + 0.37 * (len(cols) - k))))
        names.append("P{}".format(len(cols)))
    scale = 10.0 ** rng.uniform(-3, 3, npar)
    M = np.array(cols[:npar]).T * scale
    while M.shape[1] > 1 and np.linalg.cond(M / np.sqrt(np.sum(M**2, axis=0))) > 2e3:
        M = M[:, :-1]  # keep the timing model well determined
    return np.ascontiguousarray(M), names[: M.shape[1]]


def plain(rng, name="J0000+0000", n=30, npar=3, span=5 * YR, cluster=2.0, nback=2, noise=1e-6, pos=None,
          sort=True, backends=None, start=53000 * DAY):
    p = Plain()
    p.name = name
    t = epochs(rng, n, span, cluster) + start
    if sort:
        t = np.sort(t)
    else:
        t = t[rng.permutation(n)]
    p.toas = t
    p.stoas = t - rng.uniform(-400, 400, n)
    p.toaerrs = 10.0 ** rng.uniform(-0.5, 0.5, n) * noise
    p.residuals = noise * rng.randn(n) + 3 * noise * np.sin(2 * np.pi * (t - start) / span * 1.7)
    p.freqs = rng.uniform(400.0, 3000.0, n)
    if backends is None:
        backends = NESTED[:nback] if int(t.sum()) % 4 == 0 else BACKENDS[:nback]
    be = np.array(backends)
    p.backend_flags = be[rng.randint(0, len(be), n)]
    if n >= len(be):
        p.backend_flags[rng.permutation(n)[: len(be)]] = be
    p.flags = {
        "f": p.backend_flags.copy(),
        "B": np.array(["10CM", "20CM", "40CM"])[rng.randint(0, 3, n)],
        "fe": np.array([b.split("_")[0] for b in p.backend_flags]),
        "group": p.backend_flags.copy(),
    }
    p.telescope = np.array(["GBT", "AO", "CHIME"])[rng.randint(0, 3, n)]
    p.Mmat, p.fitpars = design(rng, t, p.freqs, npar)
    v = rng.randn(3) if pos is None else np.asarray(pos, float)
    v = v / np.linalg.norm(v)
    p.pos = v
    p.theta = float(np.arccos(v[2]))
    p.phi = float(np.arctan2(v[1], v[0]) % (2 * np.pi))
    pm = 1e-9 * rng.randn(3)
    p.pos_t = v[None, :] + pm[None, :] * ((t - t.mean()) / YR)[:, None]
    p.planetssb = planets(t, rng)
    p.sunssb = 2e-3 * p.planetssb[:, 4, :]
    p.pdist = (1.0 + rng.rand(), 0.2)
    p.dm = 15.0
    p.dmx = None
    return p


def planets(t, rng):
    """Smooth, planet-like orbits in light seconds (n, 9, 6)."""
    a = np.array([0.39, 0.72, 1.0, 1.52, 5.2, 9.5, 19.2, 30.0, 39.5]) * 499.0
    per = np.array([0.24, 0.615, 1.0, 1.88, 11.86, 29.4, 84.0, 165.0, 248.0]) * YR
    ph = rng.uniform(0, 2 * np.pi, 9)
    inc = rng.uniform(0.3, 0.5, 9)
    w = 2 * np.pi / per
    arg = w[None, :] * t[:, None] + ph[None, :]
    out = np.zeros((len(t), 9, 6))
    out[:, :, 0] = a * np.cos(arg)
    out[:, :, 1] = a * np.sin(arg) * np.cos(inc)
    out[:, :, 2] = a * np.sin(arg) * np.sin(inc)
    out[:, :, 3] = -a * w * np.sin(arg)
    out[:, :, 4] = a * w * np.cos(arg) * np.cos(inc)
    out[:, :, 5] = a * w * np.cos(arg) * np.sin(inc)
    return out


FEATHER = "/repo/tests/data/B1855+09_NANOGrav_9yv1.t2.feather"
_real = []


def real(rng, n=80, npar=8):
    """Random subset of the real pulsar data of the repository, as a plain pulsar."""
    if not _real:
        from enterprise.pulsar import Pulsar

        _real.append(Pulsar(FEATHER))
    q = _real[0]
    i = np.sort(rng.permutation(len(q.toas))[:n])
    if rng.rand() < 0.5:  # keep whole epochs
        for _ in range(20):
            s = rng.randint(0, len(q.toas) - n)
            # not all of one observation: the phases of a Fourier basis over seconds have no precision
            if np.ptp(q.toas[s : s + n]) > 20 * 86400.0:
                i = np.arange(s, s + n)
                break
    p = Plain()
    p.name = q.name
    for a in ("toas", "stoas", "toaerrs", "residuals", "freqs", "backend_flags", "telescope", "planetssb", "sunssb", "pos_t"):
        setattr(p, a, np.array(getattr(q, a)[i]))
    p.flags = {k: np.array(v[i]).astype(str) for k, v in q.flags.items()}
    p.backend_flags = p.backend_flags.astype(str)
    if "B" not in p.flags:
        p.flags["B"] = np.where(p.freqs < 1000, "40CM", "20CM")
    M = np.array(q.Mmat[i])
    keep = []
    for k in rng.permutation(M.shape[1]):
        c = M[:, keep + [k]]
        if np.all(np.sum(c**2, axis=0) > 0) and np.linalg.cond(c / np.sqrt(np.sum(c**2, axis=0))) < 2e3:
            keep.append(k)
        if len(keep) == npar:
            break
    p.Mmat = np.ascontiguousarray(M[:, keep])
    p.fitpars = ["P%d" % k for k in keep]
    p.pos = np.array(q.pos)
    p.theta, p.phi, p.pdist, p.dm, p.dmx = q.theta, q.phi, tuple(q.pdist), q.dm, None
    return p


# --------------------------------------------------------------------------
# fake libstempo


class _Par(object):
    def __init__(self, val=0.0, err=0.0, fit=False):
        self.val, self.err, self.fit = val, err, fit


PLANETS = ["mercury", "venus", "earth", "mars", "jupiter", "saturn", "uranus", "neptune", "pluto"]


class FakeT2(object):
    """Mimics the part of libstempo.tempopulsar that Tempo2Pulsar uses. `rec` is a dict of
    per-TOA arrays in file order."""

    def __init__(self, rec):
        self.rec = rec
        self.name = rec["name"]
        self.stoas = np.asarray(rec["stoas"], np.longdouble) / DAY
        self.toaerrs = np.asarray(rec["toaerrs"], float) * 1e6
        self.psrPos = np.asarray(rec["pos_t"], float)
        self.calls = 0
        self._p = dict(rec.get("pars", {}))
        for i in range(1, 10):
            self._p["DMASSPLANET{}".format(i)] = _Par(None)
        self._fit = list(rec["fitpars"][1:])
        self._set = list(rec.get("setpars", []))
        # like tempo2, the positions of a planet are computed by formbats, for the planets whose
        # mass correction is set
        for pl in PLANETS:
            setattr(self, pl + "_ssb", np.zeros((len(rec["toas"]), 6)))
        self.sun_ssb = np.zeros((len(rec["toas"]), 6))

    def toas(self):
        return np.asarray(self.rec["toas"], np.longdouble) / DAY

    def residuals(self):
        return np.asarray(self.rec["residuals"], np.longdouble)

    def designmatrix(self):
        return np.asarray(self.rec["Mmat"], np.longdouble)

    def ssbfreqs(self):
        return np.asarray(self.rec["freqs"], float) * 1e6

    def telescope(self):
        return np.char.encode(self.rec["telescope"], "ascii")

    def pars(self, which="fit"):
        if which == "fit":
            return tuple(self._fit)
        return tuple(self._set)

    def flags(self):
        return list(self.rec["flags"].keys())

    def flagvals(self, key):
        return np.asarray(self.rec["flags"][key])

    def formbats(self):
        self.calls += 1
        for i, pl in enumerate(PLANETS):
            if self._p["DMASSPLANET{}".format(i + 1)].val is not None:
                setattr(self, pl + "_ssb", self.rec["planetssb"][:, i, :].copy())
        self.sun_ssb = self.rec["sunssb"].copy()

    def __getitem__(self, key):
        return self._p[key]


def record(rng, name="J1234+5678", n=30, npar=5, span=5 * YR, cluster=2.0, ties=False, ndmx=0, flags=None, start=53000 * DAY,
           ecliptic=False, longnames=False, nfrozen=0):
    """A table of observations in file order (not time order)."""
    t = epochs(rng, n, span, cluster) + start
    t = t[rng.permutation(n)]
    if ties and n > 4:
        k = rng.randint(1, n // 2)
        t[rng.permutation(n)[:k]] = t[rng.permutation(n)[:k]]
    rec = {"name": name, "toas": t, "stoas": t + rng.uniform(-400, 400, n)}
    tag = np.arange(n)
    rec["tag"] = tag
    rec["toaerrs"] = (1.0 + tag * 1e-3) * 1e-6
    rec["residuals"] = rng.randn(n) * 1e-6
    rec["freqs"] = rng.uniform(400.0, 3000.0, n)
    M, fit = design(rng, t, rec["freqs"], npar)
    pars = {"DM": _Par(15.3), "RAJ": _Par(rng.uniform(0, 2 * np.pi)), "DECJ": _Par(rng.uniform(-1.4, 1.4))}
    setp = ["DM", "RAJ", "DECJ", "F0", "PEPOCH"]
    if ecliptic:
        pars["ELONG"], pars["ELAT"] = _Par(rng.uniform(0, 6.2)), _Par(rng.uniform(-1.4, 1.4))
        setp = ["DM", "F0", "ELONG", "ELAT"]
        fit = [{"RAJ": "ELONG", "DECJ": "ELAT"}.get(f, f) for f in fit]
    if ndmx:
        edges = np.linspace(rec["stoas"].min() / DAY - 1, rec["stoas"].max() / DAY + 1, ndmx + 1)
        for i in range(ndmx):
            k = "{:04d}".format(i + 1)
            sel = (rec["stoas"] / DAY >= edges[i]) & (rec["stoas"] / DAY < edges[i + 1])
            M = np.concatenate([M, (sel / (2.41e-4 * rec["freqs"] ** 2))[:, None]], axis=1)
            fit = fit + ["DMX_" + k]
            pars["DMX_" + k] = _Par(1e-4 * rng.randn(), 1e-5)
            pars["DMXR1_" + k], pars["DMXR2_" + k] = _Par(edges[i]), _Par(edges[i + 1])
            setp += ["DMX_" + k, "DMXR1_" + k, "DMXR2_" + k]
    for i in range(nfrozen):  # set, not fitted
        k = "{:04d}".format(ndmx + i + 1)
        pars["DMX_" + k] = _Par(1e-4 * rng.randn(), 1e-5)
        pars["DMXR1_" + k], pars["DMXR2_" + k] = _Par(40000.0 + i), _Par(40001.0 + i)
        setp += ["DMX_" + k, "DMXR1_" + k, "DMXR2_" + k]
    rec["Mmat"], rec["fitpars"] = M, fit
    rec["pars"], rec["setpars"] = pars, setp
    v = rng.randn(3)
    v /= np.linalg.norm(v)
    rec["pos_t"] = v[None, :] + 1e-9 * tag[:, None]
    rec["pos_icrs"], rec["ecliptic"] = rec["pos_t"], ecliptic
    rec["ssb_obs"] = 500.0 * rng.randn(n, 3)
    rec["planetssb"] = planets(t, rng) + tag[:, None, None]
    rec["sunssb"] = rng.randn(n, 6) + 10 * tag[:, None]
    rec["telescope"] = np.array(["gbt", "ao", "chime"])[rng.randint(0, 3, n)]
    if flags is None:
        be = np.array(BACKENDS)[rng.randint(0, 3, n)]
        flags = {"f": be, "B": np.array(["10CM", "20CM"])[rng.randint(0, 2, n)], "tag": np.array(["t%d" % i for i in tag])}
    rec["flags"] = flags
    return rec


def tempo2(rec, **kw):
    from enterprise.pulsar import Tempo2Pulsar

    return Tempo2Pulsar(FakeT2(rec), **kw)
