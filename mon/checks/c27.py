"""C27: arrays, pulsar models and signals as ordered containers of their parts."""
import re

import numpy as np
import scipy.sparse as sps

from .. import library as L, model as M, psr as P
from .c01 import draw
from ..core import size as tail

PROP = "C27"
RULE = ("a case is a random array (1-5 pulsars, names that may contain one another, any signals, common processes), or random sums of models, pulsar models and arrays, or sets of library signals "
        "with and without user names; every lookup by name, position, iteration and summary row is compared with the list of parts the case was built from, and every array quantity with that of "
        "the part; distinct = distinct (kind of sum, model)")
ASSUMPTIONS = ["two signals of one pulsar model have different ids unless the user gives them the same name"]
REQUIRE = {"lookup": 2000, "missing-key": 600, "array-quantity": 1500, "sum": 200, "named-signals": 150, "summary-row": 1500, "report": 100}


def name_sets(rng, n):
    if rng.rand() < 0.5:
        return ["J1" + "0" * k for k in rng.permutation(n)]
    return ["J%04d" % (k + 3) for k in rng.permutation(n)]


def fragments(rng, names):
    """Strings that are no name: parts and extensions of names."""
    out = []
    for n in names:
        out += [n[:-1], n[1:], n + "0", n.lower(), n + " ", "", n[:2]]
    out = sorted({x for x in out if x not in names})
    return [out[k] for k in rng.permutation(len(out))[:4]]


def mapping(ctx, rng, box, names, parts, what, **d):
    """`box` behaves like an ordered mapping with these names and parts."""
    ctx.ok(len(box) == len(parts), what + "-len", "{} expected {}".format(len(box), len(parts)), **d)
    ctx.ok(list(box.keys()) == list(names), what + "-keys", "{} expected {}".format(box.keys(), names), **d)
    vals = list(box.values())
    ctx.ok(len(vals) == len(parts) and all(a is b for a, b in zip(vals, parts)), what + "-values", "", **d)
    items = list(box.items())
    ctx.ok([k for k, _ in items] == list(names) and all(a is b for (_, a), b in zip(items, parts)) and len(items) == len(parts), what + "-items", "", **d)
    for k in range(-len(parts), len(parts)):
        ctx.event("lookup")
        ctx.ok(box[k] is parts[k], what + "-position", "position {}".format(k), **d)
    for k, n in enumerate(names):
        ctx.event("lookup")
        ctx.ok(box[n] is parts[list(names).index(n)], what + "-name", "name {}".format(n), **d)
    for bad in fragments(rng, names):
        ctx.event("missing-key")
        ctx.raises(KeyError, lambda: box[bad], what + "-missing", "looking up {!r} in {}".format(bad, names), **d)
    ctx.raises(IndexError, lambda: box[len(parts)], what + "-out-of-range", **d)
    text = repr(box)
    ctx.ok(all(n in text for n in names), what + "-repr", text, **d)


def rows(text):
    """(signal name, class, number of parameters) rows of a summary."""
    out = []
    for line in text.splitlines():
        f = re.match(r"^(\S+)\s+(\S+)\s+(\d+)\s*$", line)
        if f and f.group(2) != "params:":
            out.append((f.group(1), f.group(2), int(f.group(3))))
    return out


def equal(a, b):
    if a is None or b is None:
        return a is None and b is None
    if sps.issparse(a) or sps.issparse(b):
        return sps.issparse(a) and sps.issparse(b) and (a != b).nnz == 0
    return np.array_equal(np.asarray(a), np.asarray(b), equal_nan=True)


def check(ctx, rng, pta, qs, m, p, **d):
    scs = pta.pulsarmodels
    names = [q.name for q in qs]
    mapping(ctx, rng, pta, names, scs, "array", **d)
    ctx.ok(pta.pulsars == names, "array-pulsars", "", **d)
    table = {}
    expect = []
    for i, sc in enumerate(scs):
        sigs = sc.signals
        ctx.ok(sc.psrname == names[i], "pulsar-model-name", "", **d)
        mapping(ctx, rng, sc, [s.signal_id for s in sigs], sigs, "pulsar-model", **d)
        for s in sigs:
            ctx.ok(s.psrname == names[i] and s.name == names[i] + "_" + s.signal_id, "signal-name", "{} {} {}".format(s.psrname, s.name, s.signal_id), **d)
            table.setdefault(s.name, s)
            expect.append((s.name, type(s).__name__, len(s.param_names)))
            ctx.ok(all(par.name in repr(s) for par in s.params) and s.signal_id in repr(s), "signal-repr", repr(s), **d)
    ctx.ok(set(pta.signals) == set(table) and all(pta.signals[k] is v for k, v in table.items()), "array-signals", "", **d)
    for k, v in table.items():
        ctx.event("lookup")
        ctx.ok(pta.get_signal(k) is v, "get-signal", k, **d)
    for bad in fragments(rng, sorted(table)):
        ctx.raises(KeyError, lambda: pta.get_signal(bad), "get-signal-missing", bad, **d)
    if not any(s.signal_id.count(" ") for sc in scs for s in sc.signals):
        for flag in (True, False):
            text = pta.summary(include_params=flag)
            got = rows(text)
            ctx.event("summary-row", len(expect))
            ctx.ok(got == expect, "summary-rows", "{} expected {}".format(got, expect)[:500], **d)
            tot = dict(re.findall(r"^(.*): (\d+)$", text, re.M))
            ctx.ok(tot.get("Varying params") == str(len(pta.param_names)) and tot.get("Number of pulsars") == str(len(scs)), "summary-totals", "{}".format(tot), **d)


QUANT = ["get_delay", "get_TNr", "get_TNT", "get_rNr_logdet", "get_basis", "get_logsignalprior"]


def quantities(ctx, rng, pta, p, **d):
    scs = pta.pulsarmodels
    for k in rng.permutation(len(QUANT)):
        q = QUANT[k]
        got = getattr(pta, q)(p)
        ctx.ok(isinstance(got, list) and len(got) == len(scs), "array-quantity-list", q, **d)
        for a, sc in zip(got, scs):
            b = getattr(sc, q)(p)
            ctx.event("array-quantity")
            if q == "get_rNr_logdet":
                ctx.ok(equal(a[0], b[0]) and equal(a[1], b[1]), "array-quantity", q, **d)
            else:
                ctx.ok(equal(a, b), "array-quantity", q, **d)
    res = pta.get_residuals()
    nd = pta.get_ndiag(p)
    ctx.ok(len(res) == len(nd) == len(scs), "array-quantity-list", "residuals, ndiag", **d)
    for r, n, sc in zip(res, nd, scs):
        x = rng.randn(len(r))
        ctx.event("array-quantity")
        ctx.close(n.solve(x, left_array=x), sc.get_ndiag(p).solve(x, left_array=x), "array-quantity-noise", rtol=1e-12, **d)


def array(ctx, rng):
    n = tail(rng, 1, 6, 30)
    qs = [P.plain(rng, nm, n=rng.randint(6, 14), npar=2, cluster=rng.choice([0, 2])) for nm in name_sets(rng, n)]
    m = M.random_model(rng, qs, common=rng.randint(0, 3) if n > 1 else 0, per_psr=n == 1 or rng.rand() < 0.5, marg=True)
    pta = m.pta()
    p = draw(ctx, m, rng, 1e9)
    ctx.sig("array", m.desc())
    d = dict(model=m.desc())
    check(ctx, rng, pta, qs, m, p, **d)
    for q, r in zip(qs, pta.get_residuals()):
        ctx.same(r, q.residuals, "array-residuals", **d)
    quantities(ctx, rng, pta, p, **d)
    if rng.rand() < 0.5:
        pta.get_lnlikelihood(p)
        check(ctx, rng, pta, qs, m, p, after="evaluation", **d)


def sums(ctx, rng):
    """Sums of signals, pulsar models and arrays hold the parts in the order of the sum."""
    from enterprise.signals import signal_base as sb

    n = tail(rng, 2, 6, 30)
    qs = [P.plain(rng, nm, n=rng.randint(6, 12), npar=2, cluster=2) for nm in name_sets(rng, n)]
    m = M.random_model(rng, qs, common=0, per_psr=True)
    scs = list(m.pta().pulsarmodels)
    p = draw(ctx, m, rng, 1e9)
    how = M.pick(rng, ["models", "array+model", "array+array", "tree", "single", "list"])
    ctx.sig(how, m.desc())
    ctx.event("sum")
    if how == "models":
        pta = scs[0] + scs[1]
        for s in scs[2:]:
            pta = pta + s
    elif how == "array+model":
        k = rng.randint(1, n)
        pta = sb.PTA(scs[:k])
        for s in scs[k:]:
            pta = pta + s
    elif how == "array+array":
        k = rng.randint(1, n)
        pta = sb.PTA(scs[:k]) + sb.PTA(scs[k:])
    elif how == "tree":
        def tree(xs):
            if len(xs) == 1:
                return sb.PTA(xs)
            k = rng.randint(1, len(xs))
            return tree(xs[:k]) + tree(xs[k:])

        pta = tree(scs)
    elif how == "single":  # a pulsar model on its own is an array of one
        scs, qs = scs[:1], qs[:1]
        pta = sb.PTA(scs[0])
        m = M.Model(qs, [m.comps[0]])
        p = {k: v for k, v in p.items() if k in m.params()}
    else:
        pta = sb.PTA(scs)
    d = dict(how=how, model=m.desc())
    ctx.ok(len(pta.pulsarmodels) == len(scs) and all(a is b for a, b in zip(pta.pulsarmodels, scs)), "sum-order", "{} expected {}".format(pta.pulsars, [s.psrname for s in scs]), **d)
    check(ctx, rng, pta, qs, m, p, **d)
    # the operands are unchanged and the likelihoods add
    parts = [float(sb.PTA([s]).get_lnlikelihood({k: v for k, v in p.items() if k in {x.name for x in s.params}})) for s in scs]
    total = float(pta.get_lnlikelihood(p))
    if np.all(np.isfinite(parts)):
        ctx.close(total, sum(parts), "sum-likelihood", rtol=1e-9, atol=1e-6, scale=sum(abs(x) for x in parts), **d)
    quantities(ctx, rng, pta, p, **d)

    class Own(sb.LogLikelihood):
        pass

    k = rng.randint(0, len(scs))
    one = sb.PTA(scs[:k] or scs, lnlikelihood=Own)
    grown = one + (scs[0] if rng.rand() < 0.5 else sb.PTA(scs[:1]))
    ctx.ok(len(one) == len(scs[:k] or scs) and len(grown) == len(one) + 1, "operands-untouched", "", **d)
    ctx.ok(grown.lnlikelihood is Own, "sum-keeps-likelihood", repr(grown.lnlikelihood), **d)


def names(ctx, rng):
    """Library signals with and without user names in one model."""
    from enterprise.signals import deterministic_signals as det, gp_signals as g, parameter as pm, signal_base as sb, utils, white_signals as w

    q = P.plain(rng, "J0030", n=rng.randint(10, 20), npar=2, cluster=3)
    T = 5 * M.YR
    pl = lambda: utils.powerlaw(log10_A=pm.Uniform(-16, -12), gamma=pm.Uniform(1, 6))  # noqa: E731
    fac = {
        "efac": lambda **k: w.MeasurementNoise(efac=pm.Uniform(0.5, 2), log10_t2equad=pm.Uniform(-8, -6), **k),
        "equad": lambda **k: w.TNEquadNoise(log10_tnequad=pm.Uniform(-8, -6), **k),
        "ecorr": lambda **k: w.EcorrKernelNoise(log10_ecorr=pm.Uniform(-8, -6), method="sherman-morrison", **k),
        "becorr": lambda **k: g.EcorrBasisModel(log10_ecorr=pm.Uniform(-8, -6), **k),
        "red": lambda **k: g.FourierBasisGP(pl(), components=3, Tspan=T, **k),
        "common": lambda **k: g.FourierBasisCommonGP(pl(), utils.hd_orf(), components=2, Tspan=T, **dict(dict(name="gw0"), **k)),
        "basis": lambda **k: g.BasisGP(pl(), utils.createfourierdesignmatrix_red(nmodes=2, Tspan=T), **dict(dict(name="gp0"), **k)),
        "det": lambda **k: det.Deterministic(M._sine_fn()(log10_amp=pm.Uniform(-7, -6), log10_f=pm.Uniform(-8, -7)), **dict(dict(name="sine0"), **k)),
        "tm": lambda **k: g.TimingModel(**k),
        "ephem": lambda **k: det.PhysicalEphemerisSignal(frame_drift_rate=pm.Uniform(-1e-9, 1e-9), d_jupiter_mass=False, d_saturn_mass=False, d_uranus_mass=False, d_neptune_mass=False,
                                                         jup_orb_elements=False, sat_orb_elements=False, **k),
    }
    per_pulsar = {"efac", "equad", "ecorr", "becorr", "red", "basis", "det"}
    chosen = ["efac"] + [k for k in sorted(fac) if k != "efac" and rng.rand() < 0.5]
    sigs, meta = [], []
    nm = ["aa", "a", "aaa", "b"]
    for k in chosen:
        if k == "ecorr" and rng.rand() < 0.5:
            continue
        many = 1 if k in ("ecorr", "tm", "ephem") else rng.randint(1, 4)
        given = [nm[i] + k for i in rng.permutation(4)[:many]]
        if rng.rand() < 0.5:
            given[0] = None
        for x in given:
            s = fac[k](**({} if x is None else {"name": x}))
            sigs.append(s)
            meta.append((k, x))
    o = rng.permutation(len(sigs))
    sigs, meta = [sigs[i] for i in o], [meta[i] for i in o]

    def tree(xs):  # any grouping of the sum
        if len(xs) == 1:
            return xs[0]
        k = M.pick(rng, [1, len(xs) - 1, rng.randint(1, len(xs))])
        return tree(xs[:k]) + tree(xs[k:])

    tot = tree(sigs)
    if len(sigs) == 1:
        tot = sb.SignalCollection(sigs)
    sc = tot(q)
    pta = sb.PTA([sc])
    ctx.sig("names", meta)
    ctx.event("named-signals")
    d = dict(signals=meta)
    ids = sc.keys()
    ctx.ok(len(ids) == len(sigs) and len(set(ids)) == len(ids), "distinct-ids", "{}".format(ids), **d)
    ctx.ok(all(isinstance(s, f) for s, f in zip(sc.signals, sigs)), "sum-order", "{} expected {}".format(ids, meta), **d)
    seen = {}
    for (k, x), s in zip(meta, sc.signals):
        if x is not None:
            ctx.ok(x in s.signal_id, "name-in-id", "{} not in {}".format(x, s.signal_id), **d)
            if k in per_pulsar and k != "ecorr":  # the kernel's parameters are not named after it
                ctx.ok(all(n.startswith("J0030_") and x in n for n in s.param_names), "name-in-parameters", "{} for {}".format(s.param_names, x), **d)
        if k in per_pulsar:
            for n in s.param_names:
                ctx.ok(n not in seen, "distinct-parameters", "{} of {} and {}".format(n, seen.get(n), (k, x)), **d)
                seen[n] = (k, x)
        ctx.ok(sc[s.signal_id] is s and pta.get_signal("J0030_" + s.signal_id) is s, "lookup-named", s.signal_id, **d)
    mapping(ctx, rng, sc, ids, sc.signals, "pulsar-model", **d)
    ctx.ok(len(pta.signals) == len(sigs), "array-signals", "{}".format(sorted(pta.signals)), **d)
    p = L.sample(rng, pta, 1)[0]
    ctx.ok(set(p) == {x for s in sc.signals for x in [q.name for q in s.params]}, "all-parameters", "", **d)
    # every independently named part contributes
    base = sum(np.asarray(s.get_ndiag(p)) for (k, x), s in zip(meta, sc.signals) if k in ("efac", "equad"))
    if not any(k == "ecorr" for k, _ in meta):
        ctx.close(np.asarray(sc.get_ndiag(p)), base, "noise-sum", rtol=1e-13, **d)
    dl = sum(np.asarray(s.get_delay(p)) for (k, x), s in zip(meta, sc.signals) if k in ("det", "ephem"))
    ctx.close(np.asarray(sc.get_delay(p)) + np.zeros(len(q.toas)), dl + np.zeros(len(q.toas)), "delay-sum", rtol=1e-13, **d)


def reports(ctx, rng):
    """Summaries of Gaussian processes of every form: marginalised, explicit coefficients, bases that vary."""
    from enterprise.signals import gp_priors, gp_signals as g, parameter as pm, selections as se, signal_base, white_signals as w

    @pm.function
    def tilted(toas, freqs, idx=2.0):
        x = (toas - toas.min()) / 1e8
        return np.array([np.ones_like(x), x]).T * (1400 / freqs)[:, None] ** idx, np.array([1e-9, 2e-9])

    qs = [P.plain(rng, n, n=rng.randint(6, 20), npar=2, nback=2) for n in name_sets(rng, tail(rng, 1, 4, 40))]
    spec = lambda c: gp_priors.powerlaw(log10_A=pm.Uniform(-16, -13), gamma=pm.Constant(4.0), components=c)
    s = w.MeasurementNoise(efac=pm.Uniform(0.5, 2))
    kinds = []
    for k in range(rng.randint(1, 4)):
        sel = se.Selection(M.pick(rng, [se.no_selection, se.by_backend, se.cut_half]))
        co, nf = bool(rng.rand() < 0.5), rng.randint(1, 5)
        kind = M.pick(rng, ["fourier", "tilted", "tm", "ecorr"])
        if kind == "fourier":
            s = s + g.FourierBasisGP(spec(2), components=nf, coefficients=co, selection=sel, name="g%d" % k, Tspan=5 * M.YR)
        elif kind == "tilted":
            s, co = s + g.BasisGP(spec(1), tilted(idx=pm.Uniform(1, 3)), selection=sel, name="g%d" % k), False
        elif kind == "tm":
            s = s + g.TimingModel(coefficients=co, name="g%d" % k)
        else:
            s = s + g.EcorrBasisModel(coefficients=co, selection=sel, name="g%d" % k)
        kinds.append((kind, co))
    ctx.sig(kinds, len(qs))
    pta = signal_base.PTA([s(q) for q in qs])
    if rng.rand() < 0.5:  # before or after an evaluation
        p = {x.name: (1e-8 * rng.randn(x.size) if "coefficients" in x.name else x.sample()) for x in pta.params}
        pta.get_lnlikelihood(p)
    text = pta.summary(include_params=bool(rng.rand() < 0.5))
    ctx.event("report")
    want = [(x.name, type(x).__name__, len(x.param_names)) for sc in pta.pulsarmodels for x in sc.signals]
    ctx.ok(rows(text) == want, "summary-rows", "{} expected {}".format(rows(text), want)[:500])
    # the bases that are shown have the shapes of the model
    name, shown = None, 0
    sigs = {x.name: x for sc in pta.pulsarmodels for x in sc.signals}
    for line in text.splitlines():
        f = re.match(r"^(\S+)\s+(\S+)\s+(\d+)\s*$", line)
        name = f.group(1) if f and f.group(1) in sigs else name
        f = re.match(r"^Basis shape.*: \((\d+), (\d+)\)", line)
        if f:
            shown += 1
            q = next(x for x in qs if x.name == sigs[name].psrname)
            B = sigs[name].get_basis({n: 1.0 for n in sigs[name].param_names if n.endswith("idx")})
            ctx.ok(int(f.group(1)) == len(q.toas) and (B is None or B.shape[1] == int(f.group(2))), "summary-basis", line)
    ctx.ok(shown >= len(qs) * sum(k[0] == "fourier" and not k[1] for k in kinds), "summary-basis", "{} shapes shown".format(shown))
    again = pta.summary()
    ctx.ok(pta.summary() == again, "summary-repeatable", "")


SCENARIOS = {"reports": (reports, 120, 1500), "array": (array, 260, 5000), "sums": (sums, 240, 5000), "names": (names, 240, 5000)}
