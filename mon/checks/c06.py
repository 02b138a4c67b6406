"""C06: constants against free parameters held at the same value."""
import copy

import numpy as np

from .. import library as L, model as M, psr as P
from . import c01, c03

PROP = "C06"
RULE = ("a case is a random array built twice: with all parameters free, and with a random subset replaced by constants (values given at "
        "construction, or unset/other and set later, repeatedly, one by one, in a full or partial dictionary, on the array or a pulsar model); "
        "every public quantity of the second array is compared with the first evaluated at the same values; distinct = distinct (model, subset, history)")
ASSUMPTIONS = ["a named constant instance is not shared by two arrays whose caches would need invalidating"]
REQUIRE = {"compared": 3000, "set": 600, "kept": 300, "lib": 60}


def freeze(rng, m, frac, unset):
    """copy of the model with a random subset of parameters constant."""
    comps = {}
    for lst in m.comps:
        for c in lst:
            if c not in comps:
                comps[c] = copy.deepcopy(c)
    n = 0
    for c in comps.values():
        for group in (getattr(c, "ps", []), getattr(c, "bps", []), getattr(c, "ops", [])):
            for s in group:
                if s.mode == "free" and rng.rand() < frac:
                    s.mode, s.value = ("cinst" if s.size is None and rng.rand() < 0.15 else "const"), (None if unset else s.draw(rng))
                    if s.mode == "cinst":
                        s.inst = "named_{}_{}".format(s.kw, n)
                    n += 1
    return M.Model(m.psrs, [[comps[c] for c in lst] for lst in m.comps])


def pairs(m, fz):
    """{free name: frozen name} over all parameters (they differ for named constants)."""
    out = {}
    for q, a, b in zip(m.psrs, m.comps, fz.comps):
        for c, d in zip(a, b):
            for (n1, s1), (n2, s2) in zip(allp(c, q), allp(d, q)):
                out[n1] = (n2, s2)
    return out


def allp(c, q):
    out = [(s.name(pre), s) for _, pre in c.prefixes(q) for s in c.ps]
    if c.common:
        out += [(s.name(M.join(q.name, c.name)), s) for s in c.bps] + [(s.name(c.name), s) for s in c.ops]
    return [(n, s) for n, s in out if s.mode != "raw"]


def quantities(ctx, A, B, p, pb, rng, n, **d):
    ops = c03.vec_ops(A)
    todo = ["lnl", "phi"] + [ops[rng.randint(len(ops))] for _ in range(n)]
    for op in todo:
        if op == "lnprior":
            continue
        ctx.event("compared")
        ctx.event("op:" + (op if isinstance(op, str) else op[0]))
        pa = p if op != "lnl-vector" else p
        a, _ = c03.call(A, op, dict(pa))
        b, _ = c03.call(B, op, dict(pb))
        c03.compare(ctx, b, a, "constant-as-free", op=op, **d)


def close_names(ctx, A, B, mp, **d):
    want = sorted(n2 for n1, (n2, s) in mp.items() if s.mode not in ("const", "cinst"))
    ctx.ok([q.name for q in B.params] == want, "constants-not-varying", "{} expected {}".format([q.name for q in B.params], want), **d)
    ctx.ok(sorted(q.name for q in A.params) == sorted(mp), "free-params", "", **d)


def psrs(rng):
    return [P.plain(rng, "J%04d" % k, n=rng.randint(8, 16), npar=2, cluster=2, nback=2) for k in range(rng.randint(1, 4))]


def models(ctx, rng):
    qs = psrs(rng)
    m = M.random_model(rng, qs, common=rng.randint(0, 3) if len(qs) > 1 else 0, marg=True, mix=False)
    late = rng.rand() < 0.75
    fz = freeze(rng, m, rng.choice([0.25, 0.6, 1.0]), unset=late and rng.rand() < 0.5)
    A, B = m.pta(), fz.pta()
    mp = pairs(m, fz)
    cn = {n1: (n2, s) for n1, (n2, s) in mp.items() if s.mode in ("const", "cinst")}
    d = dict(model=fz.desc())
    close_names(ctx, A, B, mp, **d)
    cur = {n2: s.value for n2, s in cn.values()}
    owner = {n2: s for n2, s in cn.values()}
    steps = rng.randint(2, 6) if late else 1
    trace = []
    for k in range(steps):
        if late:
            upd = {n2: s.draw(rng) for n2, s in cn.values()}
            if all(v is not None for v in cur.values()) and k and rng.rand() < 0.7:
                keep = set(rng.permutation(sorted(upd))[: rng.randint(1, 3)]) if upd else set()
                upd = {n: v for n, v in upd.items() if n in keep}  # partial: the others keep their value
                ctx.event("kept", len(cur) - len(upd))
            give = dict(upd)
            if rng.rand() < 0.3:
                give["some_other_name"] = 1.0
            if rng.rand() < 0.3 and any(s.free() for _, s in mp.values()):  # names of varying parameters are ignored
                n = sorted(n2 for n2, s in mp.values() if s.free())[0]
                give[n] = 0.5
            if rng.rand() < 0.75:
                B.set_default_params(give)
            else:
                for sc in B.pulsarmodels:
                    sc.set_default_params(give)
            cur.update(upd)
            ctx.event("set", len(upd))
            trace.append(sorted(upd))
        ctx.ok([q.name for q in B.params] == sorted(n2 for n2, s in mp.values() if s.free()), "constants-not-varying", "after set_default_params", **d)
        for _ in range(2):
            p = c01.draw(ctx, m, rng)
            p.update({n1: cur[n2] for n1, (n2, s) in cn.items()})
            if c01.dynamic(m, p) > 1e10:
                continue
            quantities(ctx, A, B, p, {n2: p[n1] for n1, (n2, s) in mp.items() if s.free()}, rng, 5, trace=trace[-3:], **d)
            want = m.lnl(p)
            if min(m.conditioning(i, p) for i in range(len(qs))) > 3e-11:
                ctx.close(float(B.get_lnlikelihood({n2: p[n1] for n1, (n2, s) in mp.items() if s.free()})), want, "constant-likelihood", rtol=1e-7,
                          atol=1e-5, scale=sum(c01.scale(m, p, i) for i in range(len(qs))), **d)
    ctx.sig(fz.desc(), trace)


def lib(ctx, rng):
    """Library signals without a reference entry: ephemeris (signal and GP), wideband timing model, explicit coefficients."""
    from enterprise.signals import deterministic_signals as det, gp_signals as g, parameter as pm, selections, signal_base, utils, white_signals as w

    kind = M.pick(rng, ["ephem", "wideband", "coeff", "commoncoeff", "delay"])
    spec = {}

    def par(kw, lo, hi, size=None):
        spec[kw] = (lo, hi, size)
        return kw

    if kind == "ephem":
        keys = [par("frame_drift_rate", -1e-9, 1e-9)] + [par("d_%s_mass" % x, -1e-10, 1e-10) for x in ("jupiter", "saturn", "uranus", "neptune")]
        keys += [par("jup_orb_elements", -0.05, 0.05, 6), par("sat_orb_elements", -0.5, 0.5, 6)]
    elif kind == "wideband":
        keys = [par("dmefac", 0.5, 2), par("log10_dmequad", -4, -3), par("dmjump", -0.01, 0.01)]
    elif kind == "delay":
        keys = [par("log10_h", -14, -12), par("cos_gwtheta", -1, 1), par("gwphi", 0, 6), par("gwpol", 0, 3), par("t0", 53300, 54400)]
    else:
        keys = [par("log10_A", -14, -13), par("gamma", 1, 5), par("idx", 2, 4), par("rho", 0.1, 0.5)]
    late = rng.rand() < 0.7
    frozen = set(k for k in keys if rng.rand() < 0.5) or {keys[0]}
    init = {k: (None if late and rng.rand() < 0.5 and kind not in ("coeff", "commoncoeff") else rng.uniform(spec[k][0], spec[k][1], spec[k][2])) for k in sorted(frozen)}
    seed = rng.randint(1 << 30)
    if kind == "wideband":
        qs = [L.wideband_psr(rng, "J%04d" % k) for k in range(2)]
    else:
        qs = [P.plain(rng, "J%04d" % k, n=rng.randint(8, 16), npar=2, cluster=2, nback=2) for k in range(2)]

    def build(fr):
        r = np.random.RandomState(seed)

        def ob(k):
            lo, hi, size = spec[k]
            return pm.Constant(init[k]) if k in fr else pm.Uniform(lo, hi, size=size)

        s = w.MeasurementNoise(pm.Constant(1.1))
        if kind == "ephem":
            s = s + det.PhysicalEphemerisSignal(model=M.pick(r, ["setIII", "orbel", "orbel-v2"]), use_epoch_toas=r.rand() < 0.5,
                                                **{k: ob(k)(k) if r.rand() < 0.5 else ob(k) for k in keys})
            s = s + g.TimingModel()
        elif kind == "wideband":
            s = s + g.WidebandTimingModel(**{k: ob(k) for k in keys}, selection=selections.Selection(selections.by_backend),
                                          dmjump_selection=selections.Selection(selections.by_backend))
        elif kind == "delay":
            s = s + det.Deterministic(utils.bwm_delay(**{k: ob(k) for k in keys}), selection=M.sel_obj("half"), name="bwm") + g.TimingModel()
        elif kind == "coeff":
            s = s + g.BasisGP(utils.powerlaw(log10_A=ob("log10_A"), gamma=ob("gamma")),
                              utils.createfourierdesignmatrix_chromatic(nmodes=3, Tspan=5 * M.YR, idx=ob("idx")), coefficients=True,
                              selection=M.sel_obj("half"), name="c")
        else:
            s = s + g.BasisCommonGP(utils.powerlaw(log10_A=ob("log10_A"), gamma=ob("gamma")),
                                    utils.createfourierdesignmatrix_chromatic(nmodes=3, Tspan=5 * M.YR, idx=ob("idx")),
                                    M._user_orf()(rho=ob("rho")), coefficients=r.rand() < 0.5, name="cc")
        return signal_base.PTA([s(q) for q in qs])

    A, B = build(set()), build(frozen)
    ctx.event("lib")
    ctx.event("lib:" + kind)

    def kw_of(name):
        return [k for k in sorted(spec, key=len, reverse=True) if name.endswith(k)][0] if any(name.endswith(k) for k in spec) else None

    bn = {q.name for q in B.params}
    cn = sorted({q.name for q in A.params} - bn)
    ctx.ok(all(kw_of(n) in frozen for n in cn) and not any(kw_of(n) in frozen for n in bn), "constants-not-varying", "{} {}".format(cn, sorted(bn)), kind=kind)
    cur = {n: init[kw_of(n)] for n in cn}
    for k in range(3):
        if late or any(v is None for v in cur.values()):
            upd = {n: rng.uniform(*spec[kw_of(n)]) for n in cn}
            if k and all(v is not None for v in cur.values()):
                upd = {n: v for n, v in upd.items() if rng.rand() < 0.5}
                ctx.event("kept", len(cur) - len(upd))
            B.set_default_params(upd)
            cur.update(upd)
            ctx.event("set", len(upd))
        p = L.sample(rng, A, 1)[0]
        p.update(cur)
        quantities(ctx, A, B, p, {n: v for n, v in p.items() if n in bn}, rng, 5, kind=kind, frozen=sorted(frozen), step=k)
        # the coefficient prior as well: parameters that stay free have the same prior
        if any("_coefficients" in n for n in bn) and kind == "commoncoeff":
            continue  # prior documented as not implemented
        b = float(np.sum([q.get_logpdf(params={**p}) for q in A.params if q.name in bn]))
        ctx.close(float(B.get_lnprior({n: v for n, v in p.items() if n in bn})), b, "free-prior-unchanged", rtol=1e-10, kind=kind, frozen=sorted(frozen))
    ctx.sig(kind, sorted(frozen), late, sorted(cn))


SCENARIOS = {"models": (models, 500, 8000), "lib": (lib, 250, 4000)}
