"""Fake libstempo and PINT packages (neither is installed): they present one table of observations
(`psr.record`) through the interfaces that the pulsar classes use, so that the real classes, and the
`Pulsar` factory with its par/tim files, run on known data.

`install()` puts them in sys.modules; it must run before enterprise.pulsar is imported.
"""
import os
import sys
import types

import numpy as np

from . import psr as P

DAY = 86400.0
REGISTRY = {}  # key written in the tim file -> record
LOG = []


def _units():
    import astropy.constants as const
    import astropy.units as u

    return u, const


def key_of(timfile):
    """Key and number of TOA lines of a tim file (INCLUDEs are relative to the current directory)."""
    key, n = None, 0
    for line in open(timfile):
        w = line.split()
        if not w or w[0] == "C":
            continue
        if w[0] == "INCLUDE":
            k, m = key_of(w[1])
            key, n = k or key, n + m
        elif w[0] == "KEY":
            key = w[1]
            n += 1
        else:
            n += 1
    return key, n


class tempopulsar(P.FakeT2):
    def __init__(self, parfile=None, timfile=None, maxobs=None, ephem=None, clk=None, rec=None):
        if rec is None:
            open(parfile).close()
            key, n = key_of(timfile)
            LOG.append(dict(maxobs=maxobs, lines=n, ephem=ephem, clk=clk))
            rec = REGISTRY[key]
        super().__init__(rec)


class _Q(object):
    def __init__(self, value):
        self.value = value


class _PintPar(object):
    def __init__(self, value, err=None, frozen=True, unit=""):
        u, _ = _units()
        self.value, self.uncertainty_value, self.frozen = value, err, frozen
        self.quantity = value * u.Unit(unit) if not isinstance(value, str) else value


class TOAs(object):
    def __init__(self, rec, planets=True):
        u, const = _units()
        self.rec = rec
        self.ntoas = len(rec["toas"])
        self.table = types.SimpleNamespace(colnames=[])
        tab = {}
        obs = rec["ssb_obs"]
        tab["ssb_obs_pos"] = (obs * u.s * const.c).to("km")
        if planets:
            for name, i in (("earth", 2), ("jupiter", 4), ("saturn", 5), ("uranus", 6), ("neptune", 7)):
                tab["obs_%s_pos" % name] = ((rec["planetssb"][:, i, :3] - obs) * u.s * const.c).to("km")
        tab["obs_sun_pos"] = ((rec["sunssb"][:, :3] - obs) * u.s * const.c).to("km")
        self.table = _Table(tab)

    def get_mjds(self):
        return _Q(np.asarray(self.rec["stoas"], np.longdouble) / DAY)

    def get_errors(self):
        u, _ = _units()
        return np.asarray(self.rec["toaerrs"]) * 1e6 * u.us

    def get_obss(self):
        return self.rec["telescope"]

    def get_flags(self):
        out = []
        for i in range(self.ntoas):
            f = {k: v[i] * _units()[0].s for k, v in self.rec["flags"].items() if v.dtype.kind == "f"}
            f.update({k: str(v[i]) for k, v in self.rec["flags"].items() if v.dtype.kind != "f" and str(v[i]) != ""})
            out.append(f)
        return out

    def write_TOA_file(self, f):
        f.write("TIM " + self.rec["name"])


class _Table(dict):
    @property
    def colnames(self):
        return list(self.keys())


class TimingModel(object):
    def __init__(self, rec):
        self.rec = rec
        self.PSR = _Q(rec["name"])
        fit = set(rec["fitpars"][1:])
        self._p = {}
        for k, p in rec["pars"].items():
            unit = {"RAJ": "rad", "DECJ": "rad", "ELONG": "rad", "ELAT": "rad"}.get(k, "")
            if k in ("RAJ", "DECJ") and rec["ecliptic"]:
                continue
            val, e = p.val, p.err
            if k in ("RAJ",):
                val, unit = np.degrees(p.val) / 15.0, "hourangle"
            elif unit == "rad":
                val, unit = np.degrees(p.val), "deg"
            self._p[k] = _PintPar(val, e if e else None, k not in fit, unit)
        for k in fit:
            self._p.setdefault(k, _PintPar(0.0, 1.0, False))
        self.params = ["PSR"] + list(self._p)
        self.components = {"AstrometryEcliptic" if rec["ecliptic"] else "AstrometryEquatorial": self}

    def __getattr__(self, k):
        if k.startswith("__") or "_p" not in self.__dict__:
            raise AttributeError(k)
        if k in self._p:
            return self._p[k]
        raise AttributeError(k)

    def __getitem__(self, k):
        return self._p[k]

    @property
    def PSR(self):
        return self.__dict__["_psr"]

    @PSR.setter
    def PSR(self, v):
        v.frozen = True
        self.__dict__["_psr"] = v

    def as_parfile(self):
        return "PAR " + self.rec["name"]

    def get_barycentric_toas(self, toas):
        u, _ = _units()
        return np.asarray(self.rec["toas"], np.longdouble) / DAY * u.d

    def designmatrix(self, toas):
        names = list(self.rec["fitpars"])
        return self.rec["Mmat"].copy(), names, ["unit:" + n for n in names]

    def barycentric_radio_freq(self, toas):
        u, _ = _units()
        return self.rec["freqs"] * u.MHz

    def ssb_to_psb_xyz_ICRS(self, epoch):
        assert np.allclose(np.asarray(epoch.mjd, float), self.rec["toas"] / DAY, rtol=0, atol=1e-6)
        return _Q(self.rec["pos_icrs"].copy())


class Residuals(object):
    def __init__(self, toas, model):
        u, _ = _units()
        self.time_resids = np.asarray(toas.rec["residuals"], np.longdouble) * 1e6 * u.us


def get_model_and_toas(parfile, timfile, ephem=None, bipm_version=None, planets=True, **kw):
    open(parfile).close()
    key, n = key_of(timfile)
    LOG.append(dict(ephem=ephem, bipm_version=bipm_version, planets=planets))
    rec = REGISTRY[key]
    return TimingModel(rec), TOAs(rec, planets=planets)


def install():
    if "libstempo" in sys.modules and getattr(sys.modules["libstempo"], "_fake", False):
        return
    assert "enterprise.pulsar" not in sys.modules

    def module(name, **kw):
        m = types.ModuleType(name)
        m._fake = True
        m.__dict__.update(kw)
        sys.modules[name] = m
        return m

    module("libstempo", tempopulsar=tempopulsar)
    pint = module("pint")
    pint.__path__ = []
    pint.models = module("pint.models", TimingModel=TimingModel, get_model_and_toas=get_model_and_toas)
    pint.models.__path__ = []
    pint.models.timing_model = module("pint.models.timing_model", TimingModel=TimingModel)
    pint.residuals = module("pint.residuals", Residuals=Residuals)
    pint.toa = module("pint.toa", TOAs=TOAs)


def files(rng, root, rec, include=False):
    """par and tim files of a record under root; returns their paths and the registry key."""
    key = "k%d" % rng.randint(1 << 30)
    REGISTRY[key] = rec
    d = os.path.join(root, "d%d" % rng.randint(1 << 30))
    os.makedirs(d)
    par, tim = os.path.join(d, "x.par"), os.path.join(d, "x.tim")
    open(par, "w").write("PSR {}\n".format(rec["name"]))
    lines = "".join("toa {}\n".format(i) for i in range(len(rec["toas"])))
    os.makedirs(os.path.join(d, "sub"))
    if include == "mixed":
        # TOAs next to INCLUDEs, which may be nested (paths are relative to the directory of the base file)
        filler = lambda: "".join(["toa -\n", "\n", "C toa\n"][min(rng.randint(8), 2) if rng.rand() < 0.3 else 0] for _ in range(rng.randint(0, 250)))
        open(os.path.join(d, "sub", "z.tim"), "w").write(filler())
        open(os.path.join(d, "sub", "y.tim"), "w").write(filler() + ("INCLUDE sub/z.tim\n" if rng.rand() < 0.5 else "") + lines)
        text = ["INCLUDE sub/y.tim\n", "C INCLUDE sub/w.tim\n", "KEY {}\n".format(key), filler()]
        if rng.rand() < 0.5:
            text.append("INCLUDE sub/z.tim\n")
        open(tim, "w").write("FORMAT 1\n" + "".join(text[i] for i in rng.permutation(len(text))))
    elif include:
        open(os.path.join(d, "sub", "y.tim"), "w").write("C comment\nKEY {}\n".format(key) + lines)
        open(tim, "w").write("FORMAT 1\nINCLUDE sub/y.tim\n")
    else:
        open(tim, "w").write("C comment\nKEY {}\n".format(key) + lines)
    return par, tim, key
