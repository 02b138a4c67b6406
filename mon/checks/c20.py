"""C20: feather and pickle round trips."""
import json
import os
import pickle
import shutil
import subprocess
import sys
import tempfile

import numpy as np

from .. import fakes as F, library as L, model as M, psr as P
from ..core import ENV, VERIF, digest
from . import c01, c15, c19
from ..core import size as tail

PROP = "C20"
RULE = ("feather cases: pulsars built by the real tempo2/PINT classes over fakes (any flags, order, filtering, DMX, no planets, up to 20 design-matrix columns) saved, loaded, resaved and reloaded, "
        "all columns, metadata, flags and noise dictionaries compared and the source pulsar fingerprinted before and after; pickle cases: the same through to_pickle, read by this and by a new process, then "
        "used further; likelihood cases: random models (common processes, wideband timing models included) evaluated on pulsars and on their reloaded copies; distinct = distinct content fingerprint and history")
ASSUMPTIONS = ["numeric flags are kept as text by feather files (compared by value)", "noise dictionary keys start with the pulsar name and an underscore"]
REQUIRE = {"roundtrip-column": 5000, "source-untouched": 300, "noisedict": 200, "lnlikelihood": 100, "pickle": 100, "other-process": 4}
COLS = ["toas", "stoas", "toaerrs", "residuals", "freqs", "backend_flags", "telescope", "Mmat", "pos_t", "planetssb", "sunssb"]
META = ["name", "dm", "dmx", "pdist", "pos", "phi", "theta", "fitpars"]


def setup(ctx):
    F.install()


def norm(v):
    if v is None:
        return None
    v = np.asarray(v)
    if v.dtype.kind in "OUS":
        return v.astype(str)
    return v


def snap(psr, flags_text=False):
    out = {k: norm(getattr(psr, k)) for k in COLS}
    for k in META:
        if hasattr(psr, k):
            v = getattr(psr, k)
            out["meta " + k] = json.loads(json.dumps(v.tolist() if isinstance(v, np.ndarray) else v))
    for k, v in psr.flags.items():
        v = np.asarray(v)
        if flags_text and v.dtype.kind in "OUS" and k in flags_text:
            v = v.astype(str).astype(float)
        out["flag " + k] = norm(v)
    return out


def numeric(psr):
    return tuple(k for k, v in psr.flags.items() if np.asarray(v).dtype.kind in "fi")


def differ(ctx, key, a, b, msg):
    """compare two snapshots"""
    ctx.ok(sorted(a) == sorted(b), key + "-attributes", "{}: {}".format(msg, sorted(set(a) ^ set(b))))
    for k in a:
        if k not in b:
            continue
        ctx.checks[key] += 1
        x, y = a[k], b[k]
        if isinstance(x, np.ndarray) and isinstance(y, np.ndarray):
            good = x.shape == y.shape and np.array_equal(x, y, equal_nan=(x.dtype.kind == "f" and y.dtype.kind == "f"))
        elif isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
            good = False
        else:
            good = x == y
        if not good:
            ctx.violation(key, "{} changed {}".format(k, msg), got=y, want=x)


def source(ctx, rng):
    """A pulsar from one of the real classes, and a way to make an identical one."""
    rec = c19.draw(rng)
    if rng.rand() < 0.4:
        n = tail(rng, 6, 30, 800)
        rec = P.record(rng, name=M.pick(rng, c19.NAMES), n=n, npar=rng.randint(1, 6), ndmx=rng.randint(6, 14), ecliptic=bool(rng.rand() < 0.4))
        rec["flags"] = c19.flagset(rng, n, rec["tag"])
    if rng.rand() < 0.15:  # one of several data sets of a pulsar
        rec["name"] += M.pick(rng, ["_PPTA", "_dr2_lite"])
    kind = M.pick(rng, ["t2", "pint"])
    args = (kind, bool(rng.rand() < 0.6), bool(rng.rand() < 0.8), bool(rng.rand() < 0.7))
    steps = []
    if rng.rand() < 0.3:
        t = np.sort(rec["toas"])
        k = len(t) // 4
        if len(t) - k > 4:
            steps.append(("filter", (t[k] - 1) / 86400))
    if kind == "pint" and rng.rand() < 0.4:
        steps.append(("set", rng.randint(3)))

    flagname = ["my_new_flag", "a_b_c_d_e_f_g", "_x", "toas", "n.a-m e", "\u00b5s"][rng.randint(6)]
    text = ["q%d", "a value of many words, " * 5 + "%d", "\u03b1\u03b2 \u00e9%d", " %d ", "%d"][rng.randint(5)]

    def make():
        p = c19.make(rng, rec, *args)
        for s in steps:
            if s[0] == "filter":
                p.filter_data(start_time=s[1])
            else:
                v = np.array([text % (i % 5) for i in range(len(p.toas))])
                p.set_flags(flagname, v if s[1] else np.arange(len(v)) * 0.1)
        return p

    ctx.event("source:" + kind)
    return make, args, steps


def noise(rng, name):
    own = {"{}_{}".format(name, k): float(10 ** rng.uniform(-8, 1) * rng.choice([-1, 1])) for k in ["efac", "red_noise_gamma", "GASP_log10_equad", "x_y_z"][: rng.randint(1, 5)]}
    if rng.rand() < 0.3:
        own[name + "_arr"] = [1.0, 2.5]
    if rng.rand() < 0.5:
        own[name + "_zero"] = 0.0
        own[name + "_whole"] = int(rng.randint(-20, 20))
    other = {"Q9999+9999_efac": 1.0, "gw_log10_A": -15.0, "X" + name + "_efac": 3.0}
    return own, dict(list(other.items()) + list(own.items()))


def feather(ctx, rng):
    from enterprise.pulsar import FeatherPulsar, Pulsar

    make, args, steps = source(ctx, rng)
    psr = make()
    root = tempfile.mkdtemp(prefix="mon-c20-")
    try:
        f1, f2, f3 = (os.path.join(root, "%s.feather" % k) for k in "abc")
        text = numeric(psr)
        before = snap(psr)
        own, full = noise(rng, psr.name)
        how = rng.randint(5)
        want = None
        if how == 0:
            psr.to_feather(f1)
        elif how == 1:
            psr.to_feather(f1, noisedict=full)
            want = own
        elif how == 2:
            psr.noisedict = full
            psr.to_feather(f1)
            want = own
        elif how == 3:
            psr.noisedict = {psr.name + "_old": 7.0}
            keep = dict(full)
            psr.to_feather(f1, noisedict=full)
            want = own
            ctx.ok(full == keep and psr.noisedict == {psr.name + "_old": 7.0}, "noisedict-untouched", "")
        else:
            FeatherPulsar.save_feather(psr, f1, noisedict=full)
            want = own
        differ(ctx, "source-untouched", before, snap(psr), "by saving")
        a = Pulsar(f1) if rng.rand() < 0.5 else Pulsar(filepath=f1)
        ctx.ok(getattr(a, "noisedict", None) == want, "noisedict", "read {} saved {}".format(getattr(a, "noisedict", None), want))
        ref = snap(make(), text)
        differ(ctx, "roundtrip-column", ref, snap(a, text), "in a feather file")
        ctx.ok(a.planetssb is None or a.planetssb.flags["C_CONTIGUOUS"] and a.Mmat.flags["C_CONTIGUOUS"], "contiguous", "")
        # resave: same content and same noise dictionary
        b4 = snap(a)
        if rng.rand() < 0.5:
            a.save_feather(f2)
        else:
            FeatherPulsar.save_feather(a, f2)
        differ(ctx, "source-untouched", b4, snap(a), "by resaving")
        b = Pulsar(f2)
        differ(ctx, "second-roundtrip", b4, snap(b), "in the second round trip")
        ctx.ok(getattr(b, "noisedict", None) == want, "noisedict", "second round trip: {} instead of {}".format(getattr(b, "noisedict", None), want))
        # reading twice, after the first copy was modified
        a.residuals = a.residuals + 1
        a.flags["tag"] = a.flags["tag"][::-1]
        differ(ctx, "second-roundtrip", b4, snap(Pulsar(f1)), "when read again")
        # overwriting an existing file, with another noise dictionary
        Pulsar(f1).save_feather(f2, noisedict={psr.name + "_new": 1.25})
        ctx.ok(Pulsar(f2).noisedict == {psr.name + "_new": 1.25}, "noisedict", "not replaced")
        ctx.sig(args, steps, how, digest([before[k] for k in ("toas", "Mmat")]))
        if before["Mmat"].shape[1] > 10:
            ctx.event("more-than-ten-columns")
        if before["planetssb"] is None:
            ctx.event("no-planets")
    finally:
        shutil.rmtree(root)


def pickled(ctx, rng):
    make, args, steps = source(ctx, rng)
    psr = make()
    root = tempfile.mkdtemp(prefix="mon-c20-")
    home = os.getcwd()
    try:
        before = snap(psr)
        out = os.path.join(root, "new", "dir") if rng.rand() < 0.5 else root
        if rng.rand() < 0.3:
            os.chdir(root)
            out = None
        for rep in range(rng.randint(1, 3)):  # saving again overwrites
            psr.to_pickle(out)
        path = os.path.join(out or root, psr.name + ".pkl")
        differ(ctx, "source-untouched", before, snap(psr), "by pickling")
        q = pickle.load(open(path, "rb"))
        differ(ctx, "pickle", before, snap(q), "in a pickle file")
        ctx.ok(type(q) is type(psr), "pickle-class", type(q).__name__)
        for a in ("setpars", "isort", "iisort", "parfile", "timfile"):
            if hasattr(psr, a):
                ctx.ok(hasattr(q, a) and digest(np.asarray(getattr(q, a), dtype=object if a in ("setpars",) else None)) == digest(np.asarray(getattr(psr, a), dtype=object if a in ("setpars",) else None))
                       if not isinstance(getattr(psr, a), slice) else getattr(q, a) == getattr(psr, a), "pickle-attribute", a)
        # later operations act the same on the copy, and not on the original
        t = np.sort(before["toas"])
        lo = (t[len(t) // 3] - 1) / 86400
        if len(t) - len(t) // 3 > 4:
            q.filter_data(start_time=lo)
            differ(ctx, "source-untouched", before, snap(psr), "by filtering its copy")
            w = make()
            w.filter_data(start_time=lo)
            differ(ctx, "pickle", snap(w), snap(q), "when filtered after pickling")
        if rng.rand() < 0.04:
            code = ("import sys,pickle;sys.path.insert(0,%r);from mon import core;core.quiet();from mon import fakes;fakes.install();from mon.checks import c20;"
                    "print(core.digest(c20.snap(pickle.load(open(%r,'rb')))))" % (VERIF, path))
            r = subprocess.run([sys.executable, "-c", code], env=dict(os.environ, **ENV), capture_output=True, text=True)
            ctx.event("other-process")
            ctx.ok(r.stdout.split()[-1:] == [digest(before)], "pickle-other-process", r.stderr[-300:])
        ctx.sig(args, steps, out is None, digest([before[k] for k in ("toas", "Mmat")]))
    finally:
        os.chdir(home)
        shutil.rmtree(root)


def reload(psrs, root, rng, times):
    from enterprise.pulsar import FeatherPulsar, Pulsar

    out = list(psrs)
    how = []
    for _ in range(times):
        mode = rng.randint(3)
        how.append(mode)
        for i, q in enumerate(out):
            if mode == 0 and not hasattr(q, "_nope"):
                out[i] = pickle.loads(pickle.dumps(q))
            else:
                f = os.path.join(root, "p%d.feather" % i)
                FeatherPulsar.save_feather(q, f)
                out[i] = Pulsar(f)
    return out, how


def likelihood(ctx, rng):
    npsr = rng.randint(1, 4)
    wb = rng.rand() < 0.25
    if wb:
        qs = [L.wideband_psr(rng, "J%04d" % i) for i in range(npsr)]
        w = c15.WB(rng, M.pick(rng, [None, "backend"]), M.pick(rng, [None, "backend"]))
        T = float(max(q.toas.max() for q in qs) - min(q.toas.min() for q in qs))
        comps = [M.MN("backend"), w] + M.random_gps(rng, T, n=1)
        M.fix_spans(qs, comps, T)
        m = M.Model(qs, comps)
        ctx.event("wideband")
    else:
        if rng.rand() < 0.3:
            qs = [P.real(rng, n=rng.randint(20, 60), npar=rng.randint(1, 6))]
        else:
            qs = [P.plain(rng, "J%04d" % i, n=rng.randint(8, 25), npar=rng.randint(1, 5), cluster=M.pick(rng, [0, 2.5]), sort=bool(rng.rand() < 0.6)) for i in range(npsr)]
        m = M.random_model(rng, qs, common=rng.randint(0, 3) if len(qs) > 1 else 0, marg=True)
    root = tempfile.mkdtemp(prefix="mon-c20-")
    try:
        copies, how = reload(qs, root, rng, rng.randint(1, 4))
        m2 = M.Model(copies, m.comps)
        a, b = m.pta(), None
        for c in {c for cs in m.comps for c in cs}:
            for s in getattr(c, "ps", ()):
                s._i = None
        b = m2.pta()
        ctx.ok(a.param_names == b.param_names, "parameters", "", got=b.param_names, want=a.param_names)
        for _ in range(2):
            p = {n.name: n.sample() for n in a.params} if wb else c01.draw(ctx, m, rng)
            x, y = float(a.get_lnlikelihood(p)), float(b.get_lnlikelihood(p))
            sc = sum(c01.scale(m, p, i) for i in range(len(qs))) if not wb else abs(x)
            ctx.close(y, x, "lnlikelihood", rtol=1e-8, atol=2e-6, scale=sc, model=m.desc(), how=how)
        ctx.sig(m.desc(), how)
    finally:
        shutil.rmtree(root)


def real(ctx, rng):
    """The file in the repository: save and reload."""
    from enterprise.pulsar import Pulsar

    root = tempfile.mkdtemp(prefix="mon-c20-")
    try:
        a = Pulsar(P.FEATHER)
        f = os.path.join(root, "r.feather")
        a.save_feather(f)
        differ(ctx, "roundtrip-column", snap(a), snap(Pulsar(f)), "in a copy of the repository's file")
        ctx.sig("real", digest(snap(a)))
    finally:
        shutil.rmtree(root)


SCENARIOS = {"feather": (feather, 240, 5000), "pickle": (pickled, 240, 5000), "likelihood": (likelihood, 160, 3000), "real": (real, 2, 4)}
