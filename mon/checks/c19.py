"""C19: every column of a pulsar follows the observations (identity tags carried through the real pulsar classes)."""
import os
import shutil
import tempfile

import numpy as np

from .. import fakes as F, psr as P, ref
from ..core import size as tail

PROP = "C19"
RULE = ("columns cases: a table of observations in random file order (tied times, several flag layouts, ecliptic or equatorial, DMX fitted and frozen) is loaded through the real "
        "Tempo2Pulsar or PintPulsar over fake libstempo / PINT objects, then taken through a random sequence of filter_data, set_flags and sort_data, every column being compared with the table through "
        "identity tags after each step; factory cases: the same through Pulsar(par, tim) with all options, relative paths, INCLUDEs and failures; distinct = distinct (class, options, history, resulting order)")
ASSUMPTIONS = ["libstempo and PINT are not installed: fakes present known tables through the interface the classes use",
               "pulsars have more than three TOAs"]
REQUIRE = {"column": 20000, "backend-flags": 500, "filter-window": 300, "set-flags": 50, "factory-data": 40, "dmx": 300}
NAMES = ["J1234+5678", "B1855+09", "1855+09", "0030+0451", "J1748-2446B", "J0030+0451", "J1909-3744", "1937+21", "B0000+00", "J0437-4715B"]


def setup(ctx):
    F.install()


def flagset(rng, n, tag):
    """Flags with gaps, several precedence levels, values of different lengths."""
    vals = ["a", "GASP", "L-wide_PUPPI", "Rcvr1_2_GUPPI", "x" * 23]

    def col(gap, k=None):
        v = np.array(vals)[rng.randint(0, k or rng.randint(1, 6), n)]
        return np.where(rng.rand(n) < gap, "", v)

    fl = {"tag": np.array(["t%d" % i for i in tag])}
    for k in ["fe", "be", "f", "i", "sys", "g", "group"]:
        if rng.rand() < 0.5:
            fl[k] = col(M_pick(rng, [0.0, 0.3, 1.0]))
    if rng.rand() < 0.5:
        fl["fe"], fl["be"] = col(0.2), col(0.2)
    if rng.rand() < 0.5:
        fl["B"] = col(0.1)
    if rng.rand() < 0.3:
        fl["snr"] = rng.uniform(1, 9, n)
    keys = list(fl)
    return {keys[i]: fl[keys[i]] for i in rng.permutation(len(keys))}


def M_pick(rng, seq):
    return seq[rng.randint(len(seq))]


def backend(fl, n):
    """Documented precedence, TOA by TOA."""
    out = []
    for i in range(n):
        v = ""
        for k in ["group", "g", "sys", "i", "f"]:
            if k in fl and fl[k][i] != "":
                v = fl[k][i]
                break
        if v == "" and "fe" in fl and "be" in fl and fl["fe"][i] and fl["be"][i]:
            v = fl["fe"][i] + "_" + fl["be"][i]
        out.append(str(v))
    return out


class Want(object):
    """What the pulsar should look like: the table, the rows kept, the columns kept, the flags."""

    def __init__(self, rec, kind, sort, planets):
        self.rec, self.kind, self.sort, self.planets = rec, kind, sort, planets
        self.keep = np.ones(len(rec["toas"]), bool)
        self.cols = np.ones(rec["Mmat"].shape[1], bool)
        self.flags = {k: np.asarray(v) for k, v in rec["flags"].items()}
        if kind == "pint":  # flags without any value are not known to PINT
            self.flags = {k: v for k, v in self.flags.items() if v.dtype.kind == "f" or (v != "").any()}

    def filter(self, lo, hi):
        t = self.rec["toas"]
        if lo is not None:
            self.keep &= t >= lo
        if hi is not None:
            self.keep &= t <= hi
        self.cols &= np.any(self.rec["Mmat"][self.keep] != 0, axis=0)


def compare(ctx, psr, w):
    rec = w.rec
    tags = np.asarray(psr.flags["tag"])
    idx = np.array([int(x[1:]) for x in tags], dtype=int)
    if not ctx.ok(sorted(idx) == list(np.flatnonzero(w.keep)), "rows", "rows present are not those of the table", got=idx):
        return None
    n = len(idx)
    if w.sort:
        ctx.ok(bool(np.all(np.diff(rec["toas"][idx]) >= 0)), "time-order", "rows are not in time order", got=rec["toas"][idx])
        ctx.ok(bool(np.all(np.diff(psr.toas) >= 0)), "time-order", "toas are not in time order")
    else:
        ctx.ok(list(idx) == list(np.flatnonzero(w.keep)), "file-order", "unsorted pulsar does not keep the file order")

    def column(name, got, want, rtol=0.0):
        got, want = np.asarray(got), np.asarray(want)
        ctx.checks["column"] += 1
        good = got.shape == want.shape and (np.array_equal(got, want) if rtol == 0 else np.allclose(got, want, rtol=rtol, atol=0, equal_nan=True))
        if not good:
            ctx.violation("column", "{} is not aligned with the observations".format(name), got=got, want=want, order=idx)

    eq = ref.ecl2eq if (rec["ecliptic"] and w.kind == "t2") else (lambda x: x)
    column("toas", psr.toas, rec["toas"][idx], 1e-15)
    column("stoas", psr.stoas, rec["stoas"][idx], 1e-15)
    column("residuals", psr.residuals, rec["residuals"][idx], 1e-14)
    column("toaerrs", psr.toaerrs, rec["toaerrs"][idx], 1e-14)
    column("freqs", psr.freqs, rec["freqs"][idx], 1e-14)
    column("telescope", psr.telescope, rec["telescope"][idx])
    column("Mmat", psr.Mmat, rec["Mmat"][idx][:, w.cols])
    ctx.ok(list(psr.fitpars) == [p for p, k in zip(rec["fitpars"], w.cols) if k], "fitpars", "got {}".format(psr.fitpars))
    close = (lambda g, e, name: (ctx.close(g, e, "column", rtol=1e-12, msg=name + " is not aligned with the observations")))
    close(psr.pos_t, eq(rec["pos_t"][idx]), "pos_t")
    if w.planets:
        pl, sun = rec["planetssb"][idx], rec["sunssb"][idx]
        if w.kind == "t2":
            pl = np.concatenate([eq(pl[..., :3]), eq(pl[..., 3:])], axis=-1)
            sun = np.concatenate([eq(sun[..., :3]), eq(sun[..., 3:])], axis=-1)
        else:
            full = np.full(pl.shape, np.nan)
            full[:, [2, 4, 5, 6, 7], :3] = pl[:, [2, 4, 5, 6, 7], :3]
            pl = full
            sun = np.concatenate([sun[:, :3], np.zeros((n, 3))], axis=1)
        close(psr.planetssb, pl, "planetssb")
        close(psr.sunssb, sun, "sunssb")
    fl = psr.flags
    ctx.ok(set(fl) == set(w.flags), "flag-names", "{} expected {}".format(sorted(fl), sorted(w.flags)))
    for k in w.flags:
        if k in fl:
            column("flag " + k, fl[k], w.flags[k][idx])
    want = backend({k: v[idx] for k, v in w.flags.items()}, n)
    ctx.ok([str(x) for x in psr.backend_flags] == want, "backend-flags", "", got=psr.backend_flags, want=want)
    # permutations are inverse to each other
    x = np.arange(n)
    ctx.ok(np.array_equal(x[psr.isort][psr.iisort], x) and np.array_equal(x[psr.iisort][psr.isort], x), "isort", "isort and iisort are not inverse")
    if hasattr(psr, "designmatrix_units"):
        ctx.ok(list(psr.designmatrix_units) == ["unit:" + p for p in psr.fitpars], "units", "")
    return idx


def metadata(ctx, psr, rec, kind):
    ctx.ok(psr.name == rec["name"], "name", psr.name)
    known = rec["setpars"] if kind == "t2" else F.TimingModel(rec).params
    ctx.ok(list(psr.setpars) == [p for p in known if p not in rec["fitpars"]], "setpars", "{} of {}, fitted {}".format(psr.setpars, known, rec["fitpars"]))
    ctx.ok(psr.dm == rec["pars"]["DM"].val, "dm", psr.dm)
    # DMX table
    dmx = {}
    for p in rec["pars"]:
        if p.startswith("DMX_"):
            fit = p in rec["fitpars"]
            if kind == "pint" and not fit:
                continue
            k = p[4:]
            dmx[p] = {"DMX": rec["pars"][p].val, "DMXerr": rec["pars"][p].err, "DMXR1": rec["pars"]["DMXR1_" + k].val, "DMXR2": rec["pars"]["DMXR2_" + k].val, "fit": fit}
    ctx.ok((psr.dmx or {}) == dmx, "dmx", "DMX table differs", got=psr.dmx, want=dmx)
    if rec["ecliptic"]:
        lon, lat = rec["pars"]["ELONG"].val, rec["pars"]["ELAT"].val
        v = ref.ecl2eq(np.array([np.cos(lon) * np.cos(lat), np.sin(lon) * np.cos(lat), np.sin(lat)]))
        if not rec["name"].startswith("B"):
            ctx.close(psr.pos, v, "position", atol=1e-4, rtol=0, msg="ecliptic position of " + rec["name"])
    else:
        ra, de = rec["pars"]["RAJ"].val, rec["pars"]["DECJ"].val
        ctx.close([psr.theta, psr.phi], [np.pi / 2 - de, ra], "position", rtol=1e-12)
        ctx.close(psr.pos, [np.cos(ra) * np.cos(de), np.sin(ra) * np.cos(de), np.sin(de)], "position", rtol=1e-12)
    ctx.close(psr.pos, [np.sin(psr.theta) * np.cos(psr.phi), np.sin(psr.theta) * np.sin(psr.phi), np.cos(psr.theta)], "position-consistent", rtol=1e-12)
    import json

    table = json.load(open("/repo/enterprise/datafiles/pulsar_distances.json"))
    nm = rec["name"]
    cand = [nm] if nm[0] in "JB" else ["J" + nm, "B" + nm]
    want = next((table[c] for c in cand if c in table), [1.0, 0.2])
    ctx.ok(list(psr.pdist) == list(want), "pdist", "{}: {} expected {}".format(nm, psr.pdist, want))


def draw(rng, flags=True):
    n = tail(rng, 4, 40, 2000)
    ndmx = M_pick(rng, [0, 0, 2, 5])
    rec = P.record(rng, name=M_pick(rng, NAMES), n=n, npar=rng.randint(1, 6), cluster=M_pick(rng, [0, 3.0]), ties=bool(rng.rand() < 0.5), ndmx=ndmx,
                   nfrozen=rng.randint(0, 3), ecliptic=bool(rng.rand() < 0.4))
    rec["flags"] = flagset(rng, n, rec["tag"])
    if rng.rand() < 0.3 and n % 2 == 0:  # a column whose entries cancel
        k = rng.randint(1, rec["Mmat"].shape[1]) if rec["Mmat"].shape[1] > 1 else 0
        rec["Mmat"] = rec["Mmat"].copy()
        rec["Mmat"][:, k] = np.where(np.arange(n) % 2, 1.0, -1.0)
    if rng.rand() < 0.2:  # already sorted input
        o = np.argsort(rec["toas"], kind="mergesort")
        for k in ("toas", "stoas", "freqs", "residuals", "telescope", "Mmat", "pos_t", "planetssb", "sunssb"):
            rec[k] = rec[k][o]
        rec["pos_icrs"] = rec["pos_t"]
    return rec


DEFAULTS = {"sort": True, "planets": True, "drop_t2pulsar": True, "drop_pintpsr": True, "ephem": None, "clk": None}


def opts(rng, **kw):
    """Options that have their default value are given or left out."""
    return {k: v for k, v in kw.items() if v is not DEFAULTS[k] or rng.rand() < 0.5}


def make(rng, rec, kind, sort, planets, drop):
    from enterprise.pulsar import PintPulsar, Tempo2Pulsar

    if kind == "t2":
        return Tempo2Pulsar(F.tempopulsar(rec=rec), **opts(rng, sort=sort, planets=planets, drop_t2pulsar=drop))
    return PintPulsar(F.TOAs(rec), F.TimingModel(rec), **opts(rng, sort=sort, planets=planets, drop_pintpsr=drop))


def columns(ctx, rng):
    rec = draw(rng)
    kind = M_pick(rng, ["t2", "pint"])
    sort, planets, drop = bool(rng.rand() < 0.7), bool(rng.rand() < 0.8), bool(rng.rand() < 0.7)
    psr = make(rng, rec, kind, sort, planets, drop)
    for name in ("t2pulsar",) if kind == "t2" else ("model", "pint_toas"):
        ctx.ok(hasattr(psr, name) == (not drop), "timing-object-kept", "{} with drop {}".format(name, drop))
    if kind == "pint":  # empty values are absent in PINT, and the flag then reads as empty
        rec["flags"] = {k: v for k, v in rec["flags"].items()}
    w = Want(rec, kind, sort, planets)
    compare(ctx, psr, w)
    metadata(ctx, psr, rec, kind)
    hist = []
    for step in range(rng.randint(1, 6)):
        op = M_pick(rng, ["filter", "set", "set", "sort", "read"])
        idx = np.array([int(x[1:]) for x in psr.flags["tag"]], dtype=int)
        if op == "filter":
            t = np.sort(psr.toas)
            if len(t) < 4:
                continue
            how = rng.randint(5)
            a, b = sorted(rng.randint(0, len(t), 2))
            # windows between TOAs, so that rounding of the MJD does not matter, or open on a side, or out of range
            lo = t[a] - 1.0 if how in (0, 1, 4) else None
            hi = t[b] + 1.0 if how in (0, 2, 4) else None
            if how == 3 and rng.rand() < 0.3:
                lo, hi = t[0] - 1e6, t[-1] + 1e6
            lo = None if lo is None else lo / 86400
            hi = None if hi is None else hi / 86400
            kept = w.keep.copy(), w.cols.copy()
            w.filter(None if lo is None else lo * 86400, None if hi is None else hi * 86400)
            if w.keep.sum() == 3:  # a three-TOA array cannot be told from a position
                w.keep, w.cols = kept
                continue
            r = psr.filter_data(lo, hi) if rng.rand() < 0.5 else psr.filter_data(start_time=lo, end_time=hi)
            ctx.ok(r is None, "filter-returns-nothing", r)
            ctx.ok(set(np.round(psr.toas)) == set(np.round(rec["toas"][w.keep])), "filter-window", "window {} {}".format(lo, hi))
        elif op == "set":
            name = M_pick(rng, ["group", "f", "new", "B", "num", "fe"])
            vals = np.array(["v%d" % (i % 7) + "y" * (i % 4) for i in idx])
            if name == "num":
                vals = idx * 1.5 if rng.rand() < 0.5 else idx.copy()
            if kind == "t2":
                if not isinstance(getattr(psr, "_flags", None), dict):
                    ctx.raises(NotImplementedError, lambda: psr.set_flags(name, vals), "set-flags-record")
            else:
                keep = vals.copy()
                psr.set_flags(name, vals)
                ctx.same(vals, keep, "set-flags-input-untouched")
                full = np.zeros(len(w.keep), dtype=vals.dtype)
                full[idx] = vals
                w.flags[name] = full
                ctx.ok(np.array_equal(psr.flags[name], vals), "set-flags", "flag read back differs", got=psr.flags[name], want=vals)
        elif op == "sort":
            psr.sort_data()
        else:
            for a in ("toas", "flags", "backend_flags", "Mmat", "residuals"):
                getattr(psr, a)
        hist.append(op)
        ctx.event("op:" + op)
        got = compare(ctx, psr, w)
        if got is None:
            return
    ctx.sig(kind, sort, planets, hist, list(got) if hist else 0)
    ctx.event("kind:" + kind)


def factory(ctx, rng):
    from enterprise.pulsar import Pulsar, get_maxobs

    root = tempfile.mkdtemp(prefix="mon-c19-")
    home = os.getcwd()
    try:
        rec = draw(rng)
        kind = M_pick(rng, ["t2", "pint"])
        sort, planets, drop = bool(rng.rand() < 0.7), bool(rng.rand() < 0.8), bool(rng.rand() < 0.6)
        par, tim, key = F.files(rng, root, rec, include=M_pick(rng, ["", "", "only", "mixed"]))
        ephem, clk = M_pick(rng, [None, "DE436"]), M_pick(rng, [None, "TT(BIPM2015)"])
        kw = opts(rng, sort=sort, planets=planets, ephem=ephem)
        if kind == "t2":
            kw.update(opts(rng, drop_t2pulsar=drop, clk=clk))
            if rng.rand() < 0.5:
                kw["timing_package"] = M_pick(rng, ["tempo2", "Tempo2"])
        else:
            kw.update(opts(rng, drop_pintpsr=drop))
            kw["timing_package"] = M_pick(rng, ["pint", "PINT"])
            c = rng.randint(3)
            if c == 1:
                kw["clk"] = "TT(BIPM2019)"
            if c == 2:
                kw["bipm_version"] = "BIPM2018"
        mode = rng.randint(4)
        if mode == 0:  # run from elsewhere with relative paths
            os.chdir(root)
            par, tim = os.path.relpath(par), os.path.relpath(tim)
        elif mode == 1:
            os.chdir(os.path.dirname(tim))
            par, tim = "x.par", "x.tim"
        elif mode == 2:  # a par file in another directory
            other = os.path.join(root, "other")
            os.makedirs(other)
            os.rename(par, os.path.join(other, "z.par"))
            par = os.path.join(other, "z.par")
        cwd = os.getcwd()
        F.LOG[:] = []
        args = (par, tim) if rng.rand() < 0.7 else (tim, par)
        psr = Pulsar(*args, **kw)
        ctx.ok(os.getcwd() == cwd, "factory-cwd", "working directory changed to " + os.getcwd())
        ctx.ok(type(psr).__name__ == ("Tempo2Pulsar" if kind == "t2" else "PintPulsar"), "factory-class", type(psr).__name__)
        w = Want(rec, kind, sort, planets)
        compare(ctx, psr, w)
        metadata(ctx, psr, rec, kind)
        log = F.LOG[-1] if F.LOG else {}
        ctx.ok(log.get("ephem") == ephem, "factory-option", "ephem {}".format(log))
        if kind == "t2":
            ctx.ok(log.get("clk") == clk, "factory-option", str(log))
            ctx.ok(log.get("maxobs", 0) >= log.get("lines", 0), "factory-maxobs", "room for {} of {} TOAs".format(log.get("maxobs"), log.get("lines")))
            ctx.ok(hasattr(psr, "t2pulsar") == (not drop), "factory-drop", "")
            if not drop:
                ctx.ok(psr.parfile == "PSR {}\n".format(rec["name"]) and "toa" in psr.timfile or "INCLUDE" in psr.timfile, "factory-files", "")
        else:
            bv = "BIPM2019" if kw.get("clk") else kw.get("bipm_version")
            ctx.ok(log.get("bipm_version") == bv and log.get("planets") == planets, "factory-option", str(log))
            ctx.ok(hasattr(psr, "model") == (not drop) and hasattr(psr, "pint_toas") == (not drop), "factory-drop", "")
        ctx.checks["factory-data"] += 1
        # failures leave the working directory alone and are reported
        ctx.raises((OSError,), lambda: Pulsar("nope.par", tim, **kw), "factory-missing")
        ctx.raises((OSError,), lambda: Pulsar(par, "nope.tim", **kw), "factory-missing")
        ctx.raises(ValueError, lambda: Pulsar(par, tim + "x", **kw), "factory-missing")
        ctx.raises(ValueError, lambda: Pulsar(par, tim, timing_package="other"), "factory-missing")
        del F.REGISTRY[key]
        ctx.raises(KeyError, lambda: Pulsar(par, tim, **kw), "factory-failure")
        ctx.ok(os.getcwd() == cwd, "factory-cwd", "working directory changed to {} by a failed load".format(os.getcwd()))
        # from objects
        if kind == "t2":
            q = Pulsar(F.tempopulsar(rec=rec), **opts(rng, sort=sort, planets=planets, drop_t2pulsar=drop))
        else:
            a = (F.TOAs(rec), F.TimingModel(rec))
            q = Pulsar(*(a if rng.rand() < 0.5 else a[::-1]), **opts(rng, sort=sort, planets=planets, drop_pintpsr=drop))
        compare(ctx, q, w)
        if kind == "pint" and planets:
            ctx.raises(ValueError, lambda: Pulsar(F.TOAs(rec, planets=False), F.TimingModel(rec), planets=True), "factory-planets")
        ctx.sig(kind, sort, planets, drop, mode, sorted(kw))
    finally:
        os.chdir(home)
        shutil.rmtree(root)


SCENARIOS = {"columns": (columns, 700, 20000), "factory": (factory, 100, 2000)}
