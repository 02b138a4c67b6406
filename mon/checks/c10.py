"""C10: selections against their stated criteria; per-key independence of every signal kind."""
import numpy as np

from .. import big, model as M, psr as P, ref
from ..core import size as tail

PROP = "C10"
RULE = ("mask cases: every library selection (and user ones) on pulsars with random flags - values contained in one another, unsorted, tied times, "
        "several pulsars through one selection object; effect cases: one signal of every kind (efac/equad, t2equad, tnequad, four ECORR kernels, basis ECORR, "
        "Fourier, chromatic, dense GP, deterministic, explicit coefficients) under such a selection, compared with the reference contribution and re-evaluated with one key's parameters "
        "changed; distinct = distinct (selection, masks, signal)")
ASSUMPTIONS = ["ECORR kernels are used with non-overlapping selections, as they require",
               "two flags of a custom dictionary that share a value select under one key; such dictionaries are not generated"]
REQUIRE = {"mask-equal": 4000, "independent-key": 1500, "partition": 500, "own-rows": 200}
POOL = ["ASP", "GASP", "L-wide_ASP", "430_PUPPI", "L-wide_PUPPI", "Rcvr1_2_GUPPI", "Rcvr_800_GUPPI", "CHIME", "L-wide", "VEGAS_1", "S", "s", "10", "ASP_2", "CHIME-2"]
FE = ["fe800", "fe1400", "fe14", "RCVR"]
BANDS = ["10CM", "20CM", "40CM", "2"]


def pulsar(rng, name, n=None, sort=None):
    n = tail(rng, 2, 30, 400) if n is None else n
    be = [POOL[i] for i in rng.permutation(len(POOL))[: rng.randint(1, min(n, 6) + 1)]]
    if n > 60:
        be = big.systems(rng, rng.randint(8, 40))
    q = P.plain(rng, name, n=n, npar=2, backends=be, cluster=rng.choice([0, 2.5]), sort=bool(rng.rand() < 0.6) if sort is None else sort)
    q.flags["fe"] = np.array(FE)[rng.randint(0, rng.randint(1, 5), n)]
    q.flags["B"] = np.array(BANDS)[rng.randint(0, rng.randint(1, 5), n)]
    if rng.rand() < 0.3:
        q.flags["fe"] = q.flags["fe"].astype(object)
    if rng.rand() < 0.2:
        q.freqs = rng.choice([24.0, 49.0, 9999.0, 9500.0, 25000.0] if rng.rand() < 0.3 else [999.0, 1000.0, 1999.5, 2000.0, 3000.0, 430.0, 10000.0, 1400.0], n).astype(float)
    if rng.rand() < 0.3:  # ties at the midpoint
        q.toas[0], q.toas[-1] = 4.5e9, 4.6e9
        q.toas[1:-1] = np.clip(q.toas[1:-1], 4.5e9, 4.6e9)
        if n > 2:
            q.toas[rng.randint(1, n - 1)] = 4.55e9
        if n > 2 and rng.rand() < 0.5:
            q.toas[1:-1] = q.toas[1:-1][rng.permutation(n - 2)]
    q.telescope = np.array(["GBT", "AO", "CHIME", "AO2"])[rng.randint(0, 4, n)]
    return q


def kinds(rng, n, overlap=True):
    out = [None, "backend", "half", "band", "telescope", ("frontend",), ("ng",), ("freqband", None), ("user", float(rng.uniform(500, 2500)))]
    e = np.sort(np.append(rng.uniform(300, 3100, 3), 1000.0))
    out.append(("freqband", (("lo", float(e[0]), float(e[1])), ("mid", float(e[1]), float(e[2])), ("top", float(e[2]), float(e[3])))))
    if overlap:
        out += ["overlap", ("freqband", (("a", 300.0, 2000.0), ("b", 1000.0, 9000.0)))]
        out.append(("cdict", (("backend", None), ("B", None))))
        out.append(("cdict", (("fe", ("fe14",)), ("B", None), ("backend", "ASP"))))
    out.append(("index", "seg", tuple(int(i) for i in rng.permutation(n + 2)[: rng.randint(1, n + 1)]), M.pick(rng, ["list", "array"])))
    subs = tuple(str(x) for x in rng.choice(["ASP", "PUPPI", "GUPPI", "wide", "L", "S", "1"], rng.randint(1, 3), replace=False))
    out += [("custom", None), ("custom", subs), ("custom", subs[0]), ("cdict", None), ("cdict", frozenset(subs)), ("cdict", subs[0])]
    out += [("cdict", (("B", None),)), ("cdict", (("fe", None),)), ("cdict", (("backend", None),)), ("cdict", (("backend", subs),)), ("cdict", (("fe", "14"),))]
    return out


PART = [None, "backend", "half", "band", "telescope", ("frontend",), ("user",), ("custom", None), ("cdict", None), ("cdict", (("B", None),)), ("cdict", (("fe", None),)),
        ("cdict", (("backend", None),))]


def compare_masks(ctx, got, want, kind, psr):
    ctx.ok(set(map(str, got)) == set(want) and len(got) == len(want), "mask-keys", "{}: {} expected {}".format(kind, list(got), list(want)))
    for k in want:
        if k not in got:
            continue
        g = np.asarray(got[k])
        ctx.ok(g.dtype == bool and g.shape == want[k].shape and np.array_equal(g, want[k]), "mask-equal",
               "selection {} key {!r}".format(kind, k), got=g, want=want[k], backend=list(psr.backend_flags), freqs=psr.freqs)


def masks(ctx, rng):
    qs = [pulsar(rng, "J%d" % i) for i in range(rng.randint(1, 4))]
    for kind in kinds(rng, max(len(q.toas) for q in qs)):
        from enterprise.signals import selections as S

        sel = M.sel_obj(kind)
        raw = M.sel_fn(kind) if isinstance(kind, tuple) else None
        order = [qs[i] for i in rng.randint(0, len(qs), len(qs) + 1)]
        for q in order:
            want = ref.masks(kind, q)
            inst = sel(q)
            compare_masks(ctx, inst.masks, want, kind, q)
            compare_masks(ctx, inst.masks, want, kind, q)  # a property: again
            if raw is not None:
                compare_masks(ctx, S.selection_func(raw)(psr=q), want, kind, q)
            if kind in PART or (isinstance(kind, tuple) and kind[0] == "user"):
                ctx.ok(np.array_equal(sum(np.asarray(m, int) for m in inst.masks.values()), np.ones(len(q.toas), int)), "partition", str(kind))
            # the call: one parameter per key, named after pulsar, key and parameter; masked array
            from enterprise.signals import parameter as pm

            par, mk = inst("efac", pm.Uniform(0, 1))
            names = {"_".join([x for x in (k, "efac") if x]): k for k in want}
            ctx.ok(set(map(str, par)) == set(names) == set(map(str, mk)), "call-keys", str(kind))
            for kn, k in names.items():
                ctx.ok(par[kn].name == q.name + "_" + kn and np.array_equal(mk[kn], want[k]), "call-parameter", "{} {}".format(kind, par[kn].name))
            par, ma = inst("efac", pm.Uniform(0, 1), arr=q.toaerrs)
            for kn, k in names.items():
                ctx.same(ma[kn], np.where(want[k], q.toaerrs, 0.0), "call-masked-array")
            ctx.sig(kind, {k: v.tobytes() for k, v in want.items()})
    # direct call of a selection with a mask: attributes are restricted to it
    q = qs[0]
    m = rng.rand(len(q.toas)) < 0.6
    if m.any() and m.sum() != len(m):
        from enterprise.signals import selections as S

        got = S.selection_func(S.by_backend)(psr=q, mask=m)
        want = ref._byvalue(q.backend_flags[m])
        compare_masks(ctx, got, want, "by_backend on a mask", q)


def dense_N(nd, n):
    """covariance behind a noise object, through its own solve."""
    from enterprise.signals import signal_base

    d = np.full(n, 1e-12)
    x = nd + signal_base.ndarray_alt(d)
    I = np.eye(n)
    Ki = x.solve(I, left_array=I) if not isinstance(x, np.ndarray) else np.diag(1.0 / np.asarray(x))
    return np.asarray(Ki), d


def contribution(s, psr, p):
    """what one signal adds: (delay, covariance, extra: diagonal used to make N invertible)."""
    n = len(psr.toas)
    out = {}
    d = s.get_delay(p)
    out["delay"] = np.zeros(n) + np.asarray(d, float)
    nd = s.get_ndiag(p)
    if nd is not None:
        if isinstance(nd, np.ndarray):
            out["diag"] = np.array(nd, float)
        else:
            out["Ninv"] = dense_N(nd, n)[0]
    F = s.get_basis(p)
    phi = s.get_phi(p)
    if F is not None and phi is not None:
        F, phi = np.array(F, float), np.array(phi, float)
        out["rows"] = np.dot(F * phi, F.T) if phi.ndim == 1 else F @ phi @ F.T
    return out


def components(rng, n, part):
    T = 5 * M.YR
    k = rng.randint(0, 9)
    sel = M.pick(rng, part)
    if k == 0:
        return M.MN(sel, t2=rng.rand() < 0.6, name=M.pick(rng, ["", "wn"]))
    if k == 1:
        return M.TNEQ(sel)
    if k in (2, 3):
        nonover = [s for s in part if not (s == "overlap" or (isinstance(s, tuple) and s[0] in ("cdict", "freqband") and s[1] is not None and len(s[1]) > 1 and isinstance(s[1], tuple)))]
        return M.EC(M.pick(rng, nonover), M.pick(rng, M.METHODS))
    if k == 4:
        return M.ECB(sel)
    if k == 5:
        return M.RN(rng.randint(1, 4), M.pick(rng, M.SPECS), sel, T, name="rn", combine=bool(rng.rand() < 0.5))
    if k == 6:
        return M.CHROM(3, "pl", sel, T, vary=M.varying(rng), name="ch")
    if k == 7:
        return M.DENSE(300 * 86400.0, sel, name="se")
    return M.SINE(sel)


def effect(ctx, rng):
    """One signal of one kind under a selection: its contribution, and its change when one key's parameters change."""
    q = pulsar(rng, "J5", n=tail(rng, 6, 24, 150, 0.02))
    c = components(rng, len(q.toas), kinds(rng, len(q.toas)))
    want_masks = ref.masks(c.sel, q)
    if c.kind == "DENSE" and any(m.sum() == 0 for m in want_masks.values()):
        c.sel, want_masks = None, ref.masks(None, q)
    if not want_masks:
        ctx.event("selection-selects-nothing")
        want_masks = {}
    m = M.Model([q], [c])
    s = m.sig(c)(q)
    ctx.sig(c.desc(), {k: v.tobytes() for k, v in want_masks.items()})
    ctx.ok({x.name for x in s.params} == set(m.params()), "parameter-names", "{} expected {}".format(sorted(x.name for x in s.params), sorted(m.params())))
    p = m.draw(rng)

    def check(p):
        got = contribution(s, q, p)
        n = len(q.toas)
        ctx.close(got["delay"], c.delay(q, p) + np.zeros(n), "delay", rtol=1e-10, sel=c.sel)
        N = c.N(q, p)
        if "diag" in got:
            ctx.close(got["diag"], np.diag(N), "noise-diagonal", rtol=1e-12, sel=c.sel)
        elif "Ninv" in got:
            ctx.close(got["Ninv"] @ (N + 1e-12 * np.eye(n)), np.eye(n), "noise-covariance", rtol=1e-7, sel=c.sel, kind=c.desc())
        K = sum([np.dot(F * phi, F.T) if np.ndim(phi) == 1 else F @ phi @ F.T for _, F, phi in c.blocks(q, p)], np.zeros((n, n)))
        if "rows" in got:
            ctx.close(got["rows"], K, "gp-covariance", rtol=1e-9, sel=c.sel, kind=c.desc())
        elif c.kind in ("ECB", "RN", "CHROM", "DENSE"):
            ctx.ok(not np.any(K), "gp-missing", "no basis although the selection selects TOAs", sel=c.sel)
        return got

    base = check(p)
    for key, mask in want_masks.items():
        pre = [pr for k, pr in c.prefixes(q) if k == key]
        p2 = dict(p)
        for x in c.ps:
            p2[x.name(pre[0])] = x.draw(rng)
        new = check(p2)
        out = ~mask
        for what in base:
            a, b = base[what], new[what]
            if what == "Ninv":
                # covariance among the other TOAs must be as before: compare through the Schur-free identity N = Ninv^-1
                continue
            if what == "rows":
                same = np.array_equal(a[np.ix_(out, out)], b[np.ix_(out, out)]) or np.allclose(a[np.ix_(out, out)], b[np.ix_(out, out)], rtol=1e-12, atol=0)
            else:
                same = np.array_equal(a[out], b[out])
            others = [k for k, mm in want_masks.items() if k != key and np.any(mm & mask)]
            ctx.ok(same, "independent-key", "{} of {}: changing {} changed TOAs outside its mask".format(what, c.desc(), key))
            if mask.sum() >= 2 and what in ("diag", "rows") and not others and c.kind != "ECB":
                ctx.ok(not np.array_equal(a, b), "key-has-effect", "{} of {}: changing {} had no effect".format(what, c.desc(), key))


def coefficients(ctx, rng):
    """Explicit coefficients: every key's coefficients act on its own TOAs."""
    q = pulsar(rng, "J6", n=rng.randint(6, 20))
    T = 5 * M.YR
    kind = M.pick(rng, [None, "backend", "half", "band", ("frontend",), "overlap", ("freqband", None)])
    c = M.RN(rng.randint(1, 4), "pl", kind, T, name="rn", coefficients=True) if rng.rand() < 0.5 else \
        M.CHROM(rng.randint(2, 4), "pl", kind, T, vary=M.varying(rng, 0.6), name="ch", coefficients=True)
    m = M.Model([q], [c])
    s = m.sig(c)(q)
    ms = ref.masks(kind, q)
    ctx.sig(c.desc(), {k: v.tobytes() for k, v in ms.items()})
    p = m.draw(rng)
    cn = {k: pre + "_coefficients" for k, pre in c.prefixes(q)}
    got = {x.name for x in s.params}
    ctx.ok(set(cn.values()) <= got, "coefficient-names", "{} expected {}".format(sorted(got), sorted(cn.values())))
    for k in cn:
        p[cn[k]] = 1e-6 * rng.randn(2 * c.nf)
    want = np.zeros(len(q.toas))
    for k, pre in c.prefixes(q):
        F, _ = c.basis_ref(q, ms[k], p, pre)
        want[ms[k]] += F @ p[cn[k]]
    ctx.close(np.asarray(s.get_delay(p), float), want, "coefficient-delay", rtol=1e-10)
    for k in cn:
        p2 = dict(p)
        p2[cn[k]] = 1e-6 * rng.randn(2 * c.nf)
        d = np.asarray(s.get_delay(p2), float) - s.get_delay(p)
        ctx.ok(np.max(np.abs(d[~ms[k]]), initial=0) <= 1e-18, "independent-key", "coefficients of {} moved other TOAs".format(k))


def constants(ctx, rng):
    """Selections with constants set from a noise dictionary: every key takes its own value."""
    q = pulsar(rng, "J7", n=rng.randint(6, 20))
    kind = M.pick(rng, ["backend", "band", ("frontend",), "half", "telescope"])
    from enterprise.signals import parameter as pm, white_signals as w, gp_signals as g, gp_priors, signal_base

    ms = ref.masks(kind, q)
    sel = M.sel_obj(kind)
    s = w.MeasurementNoise(efac=pm.Constant(), selection=sel) + w.TNEquadNoise(log10_tnequad=pm.Constant(), selection=sel)
    s += w.EcorrKernelNoise(log10_ecorr=pm.Constant(), selection=sel, method=M.pick(rng, M.METHODS))
    s += g.FourierBasisGP(gp_priors.powerlaw(log10_A=pm.Constant(), gamma=pm.Constant(), ), components=2, Tspan=5 * M.YR, selection=sel, name="rn")
    pta = signal_base.PTA([s(q)])
    val = {}
    for k in ms:
        val["J7_%s_efac" % k] = rng.uniform(0.5, 2)
        val["J7_%s_log10_tnequad" % k] = rng.uniform(-7, -6)
        val["J7_%s_log10_ecorr" % k] = rng.uniform(-7, -6)
        val["J7_rn_%s_log10_A" % k] = rng.uniform(-14, -13)
        val["J7_rn_%s_gamma" % k] = rng.uniform(1, 5)
    pta.set_default_params(val)
    ctx.ok(pta.param_names == [], "all-constant", str(pta.param_names))
    cs = [M.MN(kind), M.TNEQ(kind), M.EC(kind), M.RN(2, "pl", kind, 5 * M.YR, name="rn")]
    m = M.Model([q], cs)
    K = m.K(0, val)
    want = ref.lnpdf(K, q.residuals)
    ctx.sig(kind, {k: v.tobytes() for k, v in ms.items()})
    ctx.close(float(pta.get_lnlikelihood({})), want, "constant-per-key", rtol=1e-8, atol=1e-5)


def attributes(ctx, rng):
    """Sub-models whose functions use every kind of per-TOA pulsar data (vectors, matrices, cubes, flag dictionaries) receive the rows of their own TOAs."""
    from enterprise.signals import gp_signals as g, parameter as pm, white_signals as w

    q = pulsar(rng, "J8", n=rng.randint(7, 24))
    n = len(q.toas)
    q.planetssb = rng.randn(n, 9, 6)
    q.pos_t = rng.randn(n, 3)
    kind = M.pick(rng, kinds(rng, n))
    ms = {k: v for k, v in ref.masks(kind, q).items()}
    seen = []

    def rec(a):
        seen.append(a)

    def basis(toas, Mmat, planetssb, pos_t, flags, toaerrs, pos, amp=1.0):
        rec((toas, Mmat, planetssb, pos_t, flags, toaerrs, pos))
        F = np.column_stack([Mmat[:, :2], planetssb[:, 2, 1], pos_t[:, 0] * amp, (flags["B"] == "10CM") * 1.0, toaerrs])
        return F, np.arange(6) + 1.0

    def prior(f, sc=1.0):
        return f * sc

    s = g.BasisGP(pm.Function(prior, sc=pm.Uniform(1, 2)), pm.Function(basis, amp=pm.Uniform(1, 3)), selection=M.sel_obj(kind), name="att")(q)
    ctx.sig(kind, n, {k: v.tobytes() for k, v in ms.items()})
    p = {x.name: float(rng.uniform(1, 2)) for x in s.params}
    if not ms:
        return
    F = s.get_basis(p)
    used = 0
    for k in sorted(ms):
        m = ms[k]
        amp = p["_".join([x for x in ("J8_att", k, "amp") if x])]
        want = np.column_stack([q.Mmat[m][:, :2], q.planetssb[m, 2, 1], q.pos_t[m, 0] * amp, (q.flags["B"][m] == "10CM") * 1.0, q.toaerrs[m]])
        if q.Mmat.shape[1] != 2:
            return
        if not ctx.ok(F.shape == (n, 6 * len(ms)), "attribute-basis-shape", str(F.shape)):
            return
        ctx.event("own-rows")
        ctx.close(F[m, used:used + 6], want, "own-rows", rtol=1e-14, sel=kind)
        ctx.ok(not np.any(F[~m, used:used + 6]), "other-rows-zero", sel=kind)
        used += 6
    for a in seen:
        ctx.ok(a[6] is q.pos or np.array_equal(a[6], q.pos), "pulsar-attribute-unmasked")
    # a white-noise variance computed from several attributes
    def var(toaerrs, pos_t, freqs, e=1.0):
        return e**2 * toaerrs**2 * (1 + pos_t[:, 1] ** 2) * (freqs / 1e3)

    s = w.WhiteNoise(pm.Function(var, e=pm.Uniform(1, 2)), selection=M.sel_obj(kind), name="v")(q)
    p = {x.name: float(rng.uniform(1, 2)) for x in s.params}
    got = np.asarray(s.get_ndiag(p), float)
    want = np.zeros(n)
    for k, m in ms.items():
        want[m] += (p["_".join([x for x in ("J8_v", k, "e") if x])] ** 2 * q.toaerrs**2 * (1 + q.pos_t[:, 1] ** 2) * (q.freqs / 1e3))[m]
    ctx.close(got, want, "variance-own-rows", rtol=1e-13, sel=kind)


SCENARIOS = {"attributes": (attributes, 200, 4000), "masks": (masks, 150, 2500), "effect": (effect, 1200, 20000), "coefficients": (coefficients, 90, 2000), "constants": (constants, 80, 1500)}
