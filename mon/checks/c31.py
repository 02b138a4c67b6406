"""C31: an option that is left out has its documented default, and positional arguments mean what their order says."""
import numpy as np

from .. import library as L, psr as P

PROP = "C31"
RULE = ("a case is one public function, kernel or signal factory with a random subset of its options at other values, called once with every argument spelled out by keyword and once with a random number of leading "
        "arguments by position and the options that have their default left out (directly, and for kernels also through a deferred function); results, inventories, parameter declarations, samples, priors and "
        "likelihoods must be identical; convenience constructors with random options next to the general form written out (inventory, bases, priors, likelihood); distinct = function, values given, options left out, number of positional arguments")
ASSUMPTIONS = ["documented defaults and argument order are those of the signatures and docstrings of the pinned commit, written out in this file"]
REQUIRE = {"kernel": 800, "signal": 300, "prior": 100, "tool": 60, "general": 200, "omitted": 1500, "positional": 400, "deferred": 300}

YR, DAY = 365.25 * 86400.0, 86400.0
REQ = object()


def pick(rng, seq):
    return seq[rng.randint(len(seq))]


def u(a, b):
    return lambda rng, q: float(rng.uniform(a, b))


def i(a, b):
    return lambda rng, q: int(rng.randint(a, b))


def const(v):
    return lambda rng, q: v


def col(name):
    return lambda rng, q: getattr(q, name)


def freqs(rng, q):
    return np.repeat(np.arange(1, 6) / (5 * YR), 2)


def four(*extra):
    """The options all Fourier bases share, in the given order."""
    t = {"nmodes": ("nmodes", 30, i(2, 12)), "Tspan": ("Tspan", None, u(3 * YR, 9 * YR)), "logf": ("logf", False, const(True)), "fmin": ("fmin", None, u(1e-9, 3e-9)), "fmax": ("fmax", None, u(2e-8, 1e-7)),
         "modes": ("modes", None, lambda rng, q: np.sort(rng.uniform(1e-9, 1e-7, 4))), "pseed": ("pseed", None, i(1, 99)), "pshift": ("pshift", False, const(True))}
    return [t[e] if isinstance(e, str) else e for e in extra]


def six(rng, q):
    return 1e-2 * rng.randn(6)


TOAS, FREQS = ("toas", REQ, col("toas")), ("freqs", REQ, col("freqs"))
F = ("f", REQ, freqs)
VALUE = ("value", REQ, u(0.1, 0.9))


def elements(rng, q):
    return float(rng.uniform(0.01, 0.1))


# module, name, arguments in order: (name, default or REQ, other value); exclusive = these options are given alone
KERNELS = [
    ("white_signals", "efac_ndiag", [("toaerrs", REQ, col("toaerrs")), ("efac", 1.0, u(0.5, 2))]),
    ("white_signals", "combined_ndiag", [("toaerrs", REQ, col("toaerrs")), ("efac", 1.0, u(0.5, 2)), ("log10_t2equad", -8, u(-7, -5))]),
    ("white_signals", "tnequad_ndiag", [TOAS, ("log10_tnequad", -8, u(-7, -5))]),
    ("gp_signals", "ecorr_basis_prior", [("weights", REQ, lambda rng, q: rng.uniform(1, 2, 4)), ("log10_ecorr", -8, u(-7, -5))]),
    ("gp_bases", "createfourierdesignmatrix_red", [TOAS] + four("nmodes", "Tspan", "logf", "fmin", "fmax", "pshift", "modes", "pseed")),
    ("gp_bases", "createfourierdesignmatrix_dm", [TOAS, FREQS] + four("nmodes", "Tspan", "pshift", ("fref", 1400, u(800, 2000)), "logf", "fmin", "fmax", "modes")),
    ("gp_bases", "createfourierdesignmatrix_dm_tn", [TOAS, FREQS] + four("nmodes", "Tspan", "pshift", ("fref", 1400, u(800, 2000)), "logf", "fmin", "fmax", ("idx", 2, u(1, 4)), "modes")),
    ("gp_bases", "createfourierdesignmatrix_env", [TOAS] + four(("log10_Amp", -7, u(-8, -6)), ("log10_Q", np.log10(300), u(1, 3)), ("t0", 53000 * 86400, u(52000 * DAY, 55000 * DAY)), "nmodes", "Tspan", "logf", "fmin", "fmax", "modes")),
    ("gp_bases", "createfourierdesignmatrix_ephem", [TOAS, ("pos", REQ, col("pos"))] + four("nmodes", "Tspan")),
    ("gp_bases", "createfourierdesignmatrix_chromatic", [TOAS, FREQS] + four("nmodes", "Tspan", "logf", "fmin", "fmax", ("idx", 4, u(1, 5)), "modes")),
    ("gp_bases", "createfourierdesignmatrix_general", [TOAS, FREQS, ("flags", REQ, col("flags"))] + four(("flagname", "group", const("B")), ("flagval", None, lambda rng, q: str(q.flags["group"][0])), ("idx", None, u(1, 4)),
                                                       ("tndm", False, const(True)), "nmodes", "Tspan", ("psrTspan", True, const(False)), "logf", "fmin", "fmax", "modes", ("pshift", None, const(True)), "pseed")),
    ("gp_priors", "powerlaw", [F, ("log10_A", -16, u(-15, -13)), ("gamma", 5, u(1, 6)), ("components", 2, const(1))]),
    ("gp_priors", "turnover", [F, ("log10_A", -15, u(-16, -13)), ("gamma", 4.33, u(1, 6)), ("lf0", -8.5, u(-9, -8)), ("kappa", 10 / 3, u(1, 4)), ("beta", 0.5, u(0.2, 1))]),
    ("gp_priors", "turnover_knee", [F, ("log10_A", REQ, u(-16, -13)), ("gamma", REQ, u(1, 6)), ("lfb", REQ, u(-9, -8)), ("lfk", REQ, u(-8, -7)), ("kappa", REQ, u(1, 4)), ("delta", REQ, u(0.1, 2))]),
    ("gp_priors", "broken_powerlaw", [F, ("log10_A", REQ, u(-16, -13)), ("gamma", REQ, u(1, 6)), ("delta", REQ, u(0, 2)), ("log10_fb", REQ, u(-9, -8)), ("kappa", 0.1, u(0.2, 1))]),
    ("gp_priors", "powerlaw_genmodes", [F, ("log10_A", -16, u(-15, -13)), ("gamma", 5, u(1, 6)), ("components", 2, const(1)), ("wgts", None, lambda rng, q: rng.uniform(1e-5, 1e-4, 5))]),
    ("gp_priors", "free_spectrum", [F, ("log10_rho", REQ, lambda rng, q: rng.uniform(-8, -6, 5))]),
    ("gp_priors", "t_process", [F, ("log10_A", -15, u(-16, -13)), ("gamma", 4.33, u(1, 6)), ("alphas", None, lambda rng, q: rng.uniform(0.5, 2, 5))]),
    ("gp_priors", "t_process_adapt", [F, ("log10_A", -15, u(-16, -13)), ("gamma", 4.33, u(1, 6)), ("alphas_adapt", None, u(0.5, 2)), ("nfreq", None, i(0, 5))]),
    ("utils", "bwm_delay", [TOAS, ("pos", REQ, col("pos")), ("log10_h", -14.0, u(-15, -12)), ("cos_gwtheta", 0.0, u(-1, 1)), ("gwphi", 0.0, u(0, 6)), ("gwpol", 0.0, u(0, 3)), ("t0", 55000, u(53200, 54600)),
                            ("antenna_pattern_fn", None, const(lambda pos, th, ph: (pos[0] + th, pos[1] - ph)))]),
    ("utils", "create_quantization_matrix", [TOAS, ("dt", 1, u(2, 2e6)), ("nmin", 2, i(1, 4))]),
    ("utils", "linear_interp_basis", [TOAS, ("dt", 30 * 86400, u(10 * DAY, 200 * DAY))]),
    ("utils", "normed_tm_basis", [("Mmat", REQ, col("Mmat")), ("norm", None, lambda rng, q: rng.uniform(1, 2, q.Mmat.shape[1])), ("idx_exclude", None, const([1]))]),
    ("utils", "unnormed_tm_basis", [("Mmat", REQ, col("Mmat")), ("idx_exclude", None, const([0]))]),
    ("utils", "svd_tm_basis", [("Mmat", REQ, col("Mmat")), ("idx_exclude", None, const([0]))]),
    ("utils", "createfourierdesignmatrix_physicalephem", [TOAS, ("planetssb", REQ, col("planetssb")), ("pos_t", REQ, col("pos_t")), ("frame_drift_rate", 1e-9, u(1e-10, 1e-8)), ("d_jupiter_mass", 1.54976690e-11, u(1e-11, 1e-10)),
                                                          ("d_saturn_mass", 8.17306184e-12, u(1e-11, 1e-10)), ("d_uranus_mass", 5.71923361e-11, u(1e-11, 1e-10)), ("d_neptune_mass", 7.96103855e-11, u(1e-11, 1e-10)),
                                                          ("jup_orb_elements", 0.05, elements), ("sat_orb_elements", 0.5, elements), ("model", "setIII", const("orbel"))]),
    ("utils", "physical_ephem_delay", [TOAS, ("planetssb", REQ, col("planetssb")), ("pos_t", REQ, col("pos_t")), ("frame_drift_rate", 0, u(1e-10, 1e-8)), ("d_jupiter_mass", 0, u(1e-11, 1e-10)), ("d_saturn_mass", 0, u(1e-11, 1e-10)),
                                       ("d_uranus_mass", 0, u(1e-11, 1e-10)), ("d_neptune_mass", 0, u(1e-11, 1e-10))]),
]
PLAINFN = [
    ("utils", "get_planet_orbital_elements", [("model", "setIII", const("orbel-v2"))]),
    ("utils", "ss_framerotate", [("mjd", REQ, lambda rng, q: rng.uniform(52000, 56000, 5)), ("planet", REQ, lambda rng, q: rng.randn(5, 3)), ("x", REQ, u(-1, 1)), ("y", REQ, u(-1, 1)), ("z", REQ, u(-1, 1)), ("dz", REQ, u(-1, 1)),
                                 ("offset", None, lambda rng, q: rng.randn(3)), ("equatorial", False, const(True))]),
    ("utils", "create_stabletimingdesignmatrix", [("designmat", REQ, col("Mmat")), ("fastDesign", True, const(False))]),
    ("utils", "quant2ind", [("U", REQ, lambda rng, q: np.repeat(np.eye(4), 3, axis=0)), ("as_slice", False, const(True))]),
    ("anis_coefficients", "anis_basis", [("psr_locs", REQ, lambda rng, q: np.array([[0.3, 1.2], [2.0, 0.4], [4.0, 2.2]])), ("lmax", REQ, i(0, 2)), ("nside", 32, const(4))]),
    ("anis_coefficients", "createSignalResponse_pol", [("pphi", REQ, lambda rng, q: np.repeat([[0.3], [2.0]], 5, axis=1)), ("ptheta", REQ, lambda rng, q: np.repeat([[1.1], [0.4]], 5, axis=1)), ("gwphi", REQ, lambda rng, q: np.repeat(rng.uniform(0, 6, (1, 5)), 2, axis=0)),
                                                       ("gwtheta", REQ, lambda rng, q: np.repeat(rng.uniform(0, 3, (1, 5)), 2, axis=0)), ("plus", True, const(False)), ("norm", True, const(False))]),
]


def arguments(rng, args, q, pother=0.4):
    """Values for every argument: the documented default or another."""
    vals, isdef = {}, {}
    for n, d, other in args:
        if d is REQ or rng.rand() < pother:
            vals[n], isdef[n] = other(rng, q), False
        else:
            vals[n], isdef[n] = d, True
    return vals, isdef


def split(ctx, rng, args, vals, isdef, nreq=None):
    """Positional part and keyword part of the second call."""
    names = [a[0] for a in args]
    npos = int(rng.randint(nreq, len(names) + 1)) if nreq is not None and rng.rand() < 0.5 else (nreq or 0)
    pos = [vals[n] for n in names[:npos]]
    kw = {n: vals[n] for n in names[npos:] if not (isdef[n] and rng.rand() < 0.8)}
    left = [n for n in names[npos:] if n not in kw]
    ctx.event("omitted", len(left))
    if npos > (nreq or 0):
        ctx.event("positional")
    return pos, kw, left, npos


def flat(x):
    if isinstance(x, dict):
        return [(k, v) for k in sorted(x, key=str) for v in flat(x[k])]
    if isinstance(x, (tuple, list)):
        return [v for y in x for v in flat(y)]
    return [np.asarray(x)]


def same(a, b):
    a, b = flat(a), flat(b)
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if isinstance(x, tuple):
            if x[0] != y[0]:
                return False
            x, y = np.asarray(x[1]), np.asarray(y[1])
        if x.shape != y.shape or not np.array_equal(x, y, equal_nan=x.dtype.kind == "f"):
            return False
    return True


def plain(rng):
    return P.plain(rng, "J0", n=rng.randint(8, 25), npar=rng.randint(2, 5))


def module(name):
    import importlib

    return importlib.import_module("enterprise.signals." + name)


def call(seed, fn):
    np.random.seed(seed)
    return fn()


def kernels(ctx, rng):
    """Kernels: spelled out, with omissions, by position, and through a deferred function."""
    from enterprise.signals import parameter as pm

    for mod, name, args in [KERNELS[k] for k in rng.permutation(len(KERNELS))[:10]] + [PLAINFN[k] for k in rng.permutation(len(PLAINFN))[:2]]:
        fn = getattr(module(mod), name)
        q = plain(rng)
        vals, isdef = arguments(rng, args, q)
        if name == "createfourierdesignmatrix_general" and not isdef["flagname"] and not isdef["flagval"]:
            vals["flagval"] = str(q.flags["B"][0])
        if name == "t_process_adapt" and isdef["nfreq"] and not isdef["alphas_adapt"]:
            vals["alphas_adapt"] = rng.uniform(0.5, 2, 5)
        if name == "normed_tm_basis" and vals["idx_exclude"] and vals["norm"] is not None:  # one number for every column that is left
            vals["norm"] = vals["norm"][1:]
        if vals.get("components") == 1:
            vals["f"] = vals["f"][::2]
        nreq = sum(a[1] is REQ for a in args)
        pos, kw, left, npos = split(ctx, rng, args, vals, isdef, nreq)
        ctx.sig(name, sorted(n for n in isdef if not isdef[n]), left, npos)
        ctx.event("kernel")
        s = rng.randint(1 << 30)
        # (arrays of the arguments must not be shared between the calls)
        cp = lambda v: v.copy() if isinstance(v, np.ndarray) else v
        want = call(s, lambda: fn(**{k: cp(v) for k, v in vals.items()}))
        got = call(s, lambda: fn(*[cp(v) for v in pos], **{k: cp(v) for k, v in kw.items()}))
        ctx.ok(same(got, want), "omitted-is-default", "{} without {} ({} by position) differs from the call with every argument".format(name, left, npos), given=sorted(n for n in isdef if not isdef[n]))
        if (mod, name, args) in [k for k in KERNELS] and rng.rand() < 0.5:
            # deferred: the required arguments come at the call, the options with the declaration
            opts = {n: vals[n] for n, d, o in args if d is not REQ and n in kw and not isinstance(vals[n], (list, np.ndarray)) and not callable(vals[n]) and vals[n] is not None}
            rest = {n: vals[n] for n, d, o in args if d is not REQ and not isdef[n] and n not in opts}
            if rest or not nreq:
                continue
            ctx.event("deferred")
            wrapped = {n: (pm.Constant(v) if rng.rand() < 0.4 and isinstance(v, float) else v) for n, v in opts.items()}
            f = pm.Function(getattr(fn, "__wrapped__", fn), **wrapped)("x") if rng.rand() < 0.3 or not hasattr(fn, "__wrapped__") else (fn(**wrapped)("x") if rng.rand() < 0.5 else fn(**wrapped)("x", psr=q))
            got = call(s, lambda: f(*[cp(vals[a[0]]) for a in args[:nreq]], params={}))
            ctx.ok(same(got, want), "deferred-omitted-is-default", "{} deferred with {} only".format(name, sorted(opts)))


# ------------------------------------------------------------------ signal factories
def signals(pm, se):
    U = pm.Uniform
    none, back, half = se.Selection(se.no_selection), se.Selection(se.by_backend), se.Selection(se.cut_half)
    sel = ("selection", none, const(back))
    par = lambda a, b, size=None: (lambda rng, q: U(a, b, size=size))
    spec = lambda rng, q: module("gp_priors").powerlaw(log10_A=U(-16, -13), gamma=pm.Constant(4.0))
    nm = lambda d, new="zz": ("name", d, const(new))
    orf = lambda rng, q: module("utils").hd_orf()
    fopt = four("Tspan", "logf", "fmin", "fmax", "modes")
    comp = ("components", 20, i(2, 6))
    ps = [("pshift", False, const(True)), ("pseed", None, i(1, 99))]
    wave = lambda rng, q: module("utils").bwm_delay(log10_h=U(-15, -12), t0=pm.Constant(54000))
    sat = [(n, True, par(-1e-10, 1e-10)) for n in ("frame_drift_rate", "d_jupiter_mass", "d_saturn_mass", "d_uranus_mass", "d_neptune_mass")]
    return [
        ("white_signals", "MeasurementNoise", [("efac", U(0.5, 1.5), par(0.8, 1.2)), ("log10_t2equad", None, par(-8, -6)), sel, nm("")], 0),
        ("white_signals", "TNEquadNoise", [("log10_tnequad", U(-10, -5), par(-8, -6)), sel, nm("")], 0),
        ("white_signals", "EcorrKernelNoise", [("log10_ecorr", U(-10, -5), par(-8, -6)), sel, ("method", "fast-sherman-morrison", const("sparse")), nm("")], 0),
        ("white_signals", "WhiteNoise", [("varianceFunction", REQ, lambda rng, q: module("white_signals").efac_ndiag(efac=U(0.5, 1.5))), sel, nm("")], 1),
        ("gp_signals", "BasisGP", [("priorFunction", REQ, spec), ("basisFunction", REQ, lambda rng, q: module("gp_bases").createfourierdesignmatrix_red(nmodes=4)), ("coefficients", False, const(True)), ("combine", True, const(False)), sel, nm("")], 2),
        ("gp_signals", "FourierBasisGP", [("spectrum", REQ, spec), ("coefficients", False, const(True)), ("combine", True, const(False)), comp, sel] + fopt + [nm("red_noise")] + ps, 1),
        ("gp_signals", "TimingModel", [("coefficients", False, const(True)), nm("linear_timing_model"), ("use_svd", False, const(True)), ("normed", True, const(False)), ("idx_exclude", None, const([1]))], 0),
        ("gp_signals", "MarginalizingTimingModel", [nm("marginalizing_linear_timing_model"), ("use_svd", False, const(True)), ("normed", True, const(False))], 0),
        ("gp_signals", "EcorrBasisModel", [("log10_ecorr", U(-10, -5), par(-8, -6)), ("coefficients", False, const(True)), sel, nm("basis_ecorr")], 0),
        ("gp_signals", "BasisCommonGP", [("priorFunction", REQ, spec), ("basisFunction", REQ, lambda rng, q: module("gp_bases").createfourierdesignmatrix_red(nmodes=4)), ("orfFunction", REQ, orf), ("coefficients", False, const(True)),
                                         ("combine", True, const(False)), nm("")], 3),
        ("gp_signals", "FourierBasisCommonGP", [("spectrum", REQ, spec), ("orf", REQ, orf), ("coefficients", False, const(True)), ("combine", True, const(False)), comp] + fopt + [nm("common_fourier")] + ps, 2),
        ("gp_signals", "FourierBasisCommonGP_ephem", [("spectrum", REQ, lambda rng, q: module("gp_priors").powerlaw(log10_A=U(-16, -13), gamma=pm.Constant(4.0), components=6)), ("components", REQ, i(1, 4)), ("Tspan", REQ, u(3 * YR, 6 * YR)), nm("ephem_gp")], 3),
        ("gp_signals", "FourierBasisCommonGP_physicalephem", [("frame_drift_rate", 1e-9, u(1e-10, 1e-8)), ("d_jupiter_mass", 1.54976690e-11, const(None)), ("d_saturn_mass", 8.17306184e-12, u(1e-11, 1e-10)),
                                                              ("d_uranus_mass", 5.71923361e-11, u(1e-11, 1e-10)), ("d_neptune_mass", 7.96103855e-11, u(1e-11, 1e-10)), ("jup_orb_elements", 0.05, elements),
                                                              ("sat_orb_elements", 0.5, const(None)), ("model", "setIII", const("orbel")), ("coefficients", False, const(True)), nm("phys_ephem_gp")], 0),
        ("gp_signals", "WidebandTimingModel", [("dmefac", U(pmin=0.1, pmax=10.0), par(0.5, 2)), ("log10_dmequad", U(pmin=-7.0, pmax=0.0), const(None)), ("dmjump", U(pmin=-0.01, pmax=0.01), par(-0.1, 0.1)), sel,
                                               ("dmjump_selection", none, const(half)), ("dmjump_ref", None, const("t1")), nm("wideband_timing_model")], 0),
        ("deterministic_signals", "Deterministic", [("waveform", REQ, wave), sel, nm("")], 1),
        ("deterministic_signals", "PhysicalEphemerisSignal", sat + [("jup_orb_elements", True, par(-0.1, 0.1, 6)), ("sat_orb_elements", False, const(True)), ("model", "setIII", const("orbel-v2")),
                                                                    ("use_epoch_toas", True, const(False)), nm("")], 0),
    ]


def observe(cls, qs, seed, name):
    """Everything visible of models with this signal."""
    from enterprise.signals import gp_signals as g, parameter as pm, signal_base, white_signals as w

    s = cls
    if name != "MeasurementNoise":
        s = w.MeasurementNoise(efac=pm.Constant(1.1), name="base") + s
    if "TimingModel" not in name:
        s = s + g.TimingModel(name="tm")
    np.random.seed(seed)
    pta = signal_base.PTA([s(q) for q in qs])
    out = [pta.param_names, [repr(x) for x in pta.params], [[(x.name, x.signal_id, x.signal_type, x.signal_name) for x in m.signals] for m in pta.pulsarmodels]]
    out.append(pta.summary())
    r = np.random.RandomState(seed)
    p = {}
    for x in pta.params:
        if "coefficients" in x.name:
            p[x.name] = 1e-8 * r.randn(x.size)
        else:
            np.random.seed(r.randint(1 << 30))
            p[x.name] = x.sample()
    nums = [np.ravel(p[x.name]) for x in pta.params]
    np.random.seed(seed)
    nums.append(pta.get_lnlikelihood(dict(p)))
    for x in pta.params:
        if "coefficients" not in x.name:
            nums.append(x.get_logpdf(p[x.name]))
    return out, nums


def factories(ctx, rng):
    from enterprise.signals import parameter as pm, selections as se

    table = signals(pm, se)
    mod, name, args, nreq = table[rng.randint(len(table))]
    fn = getattr(module(mod), name)
    if name == "WidebandTimingModel":
        qs = [L.wideband_psr(rng, "J%d" % k, n=rng.randint(10, 18)) for k in range(1)]
    else:
        qs = [P.plain(rng, "J%d" % k, n=rng.randint(10, 20), npar=3, nback=2) for k in range(2 if "Common" in name else 1)]
    vals, isdef = arguments(rng, args, qs[0], 0.3)
    if name == "WidebandTimingModel":  # jumps need a selection
        if isdef["dmjump_selection"]:
            vals["dmjump"], isdef["dmjump"] = None, False
    if name in ("TimingModel", "MarginalizingTimingModel") and vals["use_svd"]:
        vals["normed"], isdef["normed"] = True, True
    if name == "FourierBasisCommonGP":
        if vals["coefficients"] and vals["Tspan"] is None:
            vals["Tspan"], isdef["Tspan"] = 6 * YR, False
    if name == "FourierBasisCommonGP_physicalephem" or name == "PhysicalEphemerisSignal":
        for q in qs:
            q.toas = np.sort(q.toas)
    pos, kw, left, npos = split(ctx, rng, args, vals, isdef, nreq)
    ctx.sig(name, sorted(n for n in isdef if not isdef[n]), left, npos)
    ctx.event("signal")
    ctx.event("factory:" + name)
    seed = rng.randint(1 << 30)
    (o1, n1), (o2, n2) = observe(fn(**vals), qs, seed, name), observe(fn(*pos, **kw), qs, seed, name)
    ctx.ok(o1 == o2, "omitted-is-default", "{} without {} ({} by position) has another inventory".format(name, left, npos), want=str(o1)[:1500], got=str(o2)[:1500])
    ctx.ok(same(n1, n2), "omitted-is-default", "{} without {} ({} by position) has other values".format(name, left, npos), want=str(n1)[:800], got=str(n2)[:800], names=str(o1[0])[:300])


def priors(ctx, rng):
    from enterprise.signals import gp_priors, parameter as pm

    size = ("size", None, i(1, 4))
    table = [(pm.Uniform, [("pmin", REQ, u(-2, -1)), ("pmax", REQ, u(0, 3)), size]), (pm.Normal, [("mu", 0, u(-2, 2)), ("sigma", 1, u(0.5, 3)), size]),
             (pm.TruncNormal, [("mu", 0, u(-1, 1)), ("sigma", 1, u(0.5, 3)), ("pmin", -2, u(-4, -1)), ("pmax", 2, u(1, 4)), size]), (pm.LinearExp, [("pmin", REQ, u(-2, -1)), ("pmax", REQ, u(0, 3)), size]),
             (gp_priors.InvGamma, [("alpha", 1, u(1, 4)), ("gamma", 1, u(0.5, 3)), size])]
    fn, args = table[rng.randint(len(table))]
    nreq = sum(a[1] is REQ for a in args)
    vals, isdef = arguments(rng, args, None)
    pos, kw, left, npos = split(ctx, rng, args, vals, isdef, nreq)
    ctx.sig(fn.__name__, sorted(n for n in isdef if not isdef[n]), left, npos)
    ctx.event("prior")
    a, b = fn(**vals)("x"), fn(*pos, **kw)("x")
    ctx.ok(repr(a) == repr(b), "omitted-is-default", "{!r} against {!r}".format(a, b))
    # the declaration shows the arguments in effect
    shown = repr(a)
    for n, v in vals.items():
        if n != "size":
            ctx.ok(("{}" if fn is gp_priors.InvGamma else n + "={}").format(v) in shown, "declaration-shown", "{} lacks {}={}".format(shown, n, v))
    ctx.ok(fn.__name__ in shown and shown.endswith("[{}]".format(vals["size"]) if vals["size"] else ")"), "declaration-shown", shown)
    s = rng.randint(1 << 30)
    xa, xb = call(s, a.sample), call(s, b.sample)
    ctx.ok(same(xa, xb), "omitted-is-default", "{!r} samples {} and {}".format(a, xa, xb))
    ctx.ok(same(a.get_logpdf(xa), b.get_logpdf(xa)) and same(a.get_pdf(xa), b.get_pdf(xa)), "omitted-is-default", "densities of {!r}".format(a))
    if a.ppf is None:
        ctx.ok(b.ppf is None, "omitted-is-default", "transform of {!r}".format(a))
        return
    uu = rng.rand(vals["size"]) if vals["size"] else rng.rand()
    ctx.ok(same(a.get_ppf(uu), b.get_ppf(uu)), "omitted-is-default", "transform of {!r}".format(a))


def tools(ctx, rng):
    """Model-level calls: likelihood classes, inversion methods, conditional draws."""
    from enterprise.signals import gp_signals as g, parameter as pm, signal_base, utils, white_signals as w, gp_priors as gp

    qs = [P.plain(rng, "J%d" % k, n=rng.randint(10, 20), npar=3) for k in range(2)]
    common = rng.rand() < 0.5
    s = w.MeasurementNoise(efac=pm.Uniform(0.5, 2)) + g.TimingModel() + g.FourierBasisGP(gp.powerlaw(log10_A=pm.Uniform(-16, -13), gamma=pm.Uniform(1, 6)), components=3, combine=False)
    if common:
        s = s + g.FourierBasisCommonGP(gp.powerlaw(log10_A=pm.Constant(-14), gamma=pm.Constant(4)), utils.hd_orf(), components=3, Tspan=5 * YR, combine=False)
    np.random.seed(rng.randint(1 << 30))
    pta = signal_base.PTA([s(q) for q in qs])
    p = pm.sample(pta.params)
    ctx.sig(common)
    ctx.event("tool")
    eq = lambda a, b, what: ctx.ok(same(dense(a), dense(b)), "omitted-is-default", what)
    eq(signal_base.PTA([s(q) for q in qs], lnlikelihood=signal_base.LogLikelihood).get_lnlikelihood(p), signal_base.PTA([s(q) for q in qs]).get_lnlikelihood(p), "PTA()")
    eq(pta.get_lnlikelihood(p, phiinv_method="cliques"), pta.get_lnlikelihood(p), "get_lnlikelihood")
    eq(pta.get_phiinv(p, logdet=False, method="cliques"), pta.get_phiinv(p), "get_phiinv")
    eq(pta.get_phiinv(p, True, "cliques"), pta.get_phiinv(p, logdet=True), "get_phiinv with logdet")
    eq(pta.get_phi(p, cliques=False), pta.get_phi(p), "get_phi")
    ctx.ok(pta.summary(include_params=True, to_stdout=False) == pta.summary(), "omitted-is-default", "summary")
    ctx.ok(pta.summary(False) == pta.summary(include_params=False), "omitted-is-default", "summary")
    seed = rng.randint(1 << 30)
    if not common:
        full = dict(n=1, phiinv_method="cliques", variance=True, common_sparse=False)
        kw = {k: v for k, v in full.items() if rng.rand() < 0.4}
        eq(call(seed, lambda: utils.get_coefficients(pta, p, **full)), call(seed, lambda: utils.get_coefficients(pta, p, **kw)), "get_coefficients with {}".format(sorted(kw)))
    full = dict(phiinv_method="cliques", tm_params=[], psr=None)
    kw = {k: v for k, v in full.items() if rng.rand() < 0.4}
    A, B = utils.ConditionalGP(pta, **full), utils.ConditionalGP(pta, **kw)
    for m in ("sample_coefficients", "sample_processes"):
        eq(call(seed, lambda: getattr(A, m)(p, n=1)), call(seed, lambda: getattr(B, m)(p)), m)
    for m in ("get_mean_coefficients", "get_mean_processes"):
        eq(getattr(A, m)(p), getattr(B, m)(p), m)


def general(ctx, rng):
    """Convenience constructors against the general form written out, with the same options."""
    from enterprise.signals import gp_bases as gb, gp_priors as gp, gp_signals as g, parameter as pm, selections as se, signal_base, utils, white_signals as w

    sel = se.Selection(pick(rng, [se.no_selection, se.by_backend, se.cut_half]))
    co = bool(rng.rand() < 0.3)
    qs = [P.plain(rng, "J%d" % k, n=rng.randint(10, 20), npar=3, nback=2, sort=True) for k in range(2)]
    kind = pick(rng, ["fourier", "common", "ephem", "physical", "ecorr", "timing", "measurement", "tnequad"])
    nf, T = rng.randint(2, 6), float(rng.uniform(4, 9)) * YR
    spec = lambda c=2: gp.powerlaw(log10_A=pm.Uniform(-16, -13), gamma=pm.Uniform(1, 6), components=c)
    o = {n: other(rng, None) for n, d, other in four("logf", "fmin", "fmax", "modes", "pseed", "pshift") if rng.rand() < 0.35}
    if "pshift" in o and "pseed" not in o and rng.rand() < 0.5:
        del o["pshift"]
    orf = pick(rng, [utils.hd_orf, utils.dipole_orf, utils.monopole_orf])
    common = False
    if kind == "fourier":
        A = g.FourierBasisGP(spec(), coefficients=co, components=nf, selection=sel, Tspan=T, name="x", **o)
        B = g.BasisGP(spec(), gb.createfourierdesignmatrix_red(nmodes=nf, Tspan=T, **o), coefficients=co, selection=sel, name="x")
    elif kind == "common":
        common, A = True, g.FourierBasisCommonGP(spec(), orf(), coefficients=co, components=nf, Tspan=T, name="x", **o)
        B = g.BasisCommonGP(spec(), gb.createfourierdesignmatrix_red(nmodes=nf, Tspan=T, **o), orf(), coefficients=co, name="x")
    elif kind == "ephem":
        common, A = True, g.FourierBasisCommonGP_ephem(spec(6), nf, T, name="x")
        B = g.BasisCommonGP(spec(6), gb.createfourierdesignmatrix_ephem(nmodes=nf, Tspan=T), utils.monopole_orf(), name="x")
    elif kind == "physical":
        names = ["frame_drift_rate", "d_jupiter_mass", "d_saturn_mass", "d_uranus_mass", "d_neptune_mass", "jup_orb_elements", "sat_orb_elements"]
        o = {n: (None if rng.rand() < 0.3 else 10.0 ** rng.uniform(-11, -9) if "orb" not in n else elements(rng, None)) for n in names if rng.rand() < 0.7}
        if all(o.get(n, 1) is None for n in names):
            o.pop(names[0])
        o["model"] = pick(rng, ["setIII", "orbel", "orbel-v2"])
        common, A = True, g.FourierBasisCommonGP_physicalephem(coefficients=co, name="x", **o)
        B = g.BasisCommonGP(utils.physicalephem_spectrum(), utils.createfourierdesignmatrix_physicalephem(**o), utils.monopole_orf(), coefficients=co, name="x")
    elif kind == "ecorr":
        A = g.EcorrBasisModel(log10_ecorr=pm.Uniform(-8, -6), coefficients=co, selection=sel, name="x")
        B = g.BasisGP(g.ecorr_basis_prior(log10_ecorr=pm.Uniform(-8, -6)), utils.create_quantization_matrix(), coefficients=co, selection=sel, name="x")
    elif kind == "timing":
        o = pick(rng, [{}, dict(use_svd=True), dict(normed=False), dict(normed=True), dict(normed=np.array([2.0, 3.0, 0.5])[: qs[0].Mmat.shape[1]])])
        ex = pick(rng, [None, [1]]) if not isinstance(o.get("normed"), np.ndarray) else None
        A = g.TimingModel(name="x", idx_exclude=ex, **o)
        basis = utils.svd_tm_basis(idx_exclude=ex) if "use_svd" in o else utils.unnormed_tm_basis(idx_exclude=ex) if o.get("normed") is False else utils.normed_tm_basis(
            **({} if o.get("normed", True) is True else {"norm": o["normed"]}), idx_exclude=ex)
        if rng.rand() < 0.5:  # the function that chooses among those
            basis = g.get_timing_model_basis(**o, **({} if ex is None and rng.rand() < 0.7 else {"idx_exclude": ex}))
        B = g.BasisGP(utils.tm_prior(), basis, name=A.signal_id)
        co = False
    elif kind == "measurement":
        o = {"log10_t2equad": pm.Uniform(-8, -6)} if rng.rand() < 0.6 else {}
        A = w.MeasurementNoise(efac=pm.Uniform(0.8, 1.3), selection=sel, name="x", **o)
        B = w.WhiteNoise(w.combined_ndiag(efac=pm.Uniform(0.8, 1.3), **o) if o else w.efac_ndiag(efac=pm.Uniform(0.8, 1.3)), selection=sel, name="x")
    else:
        A = w.TNEquadNoise(log10_tnequad=pm.Uniform(-8, -6), selection=sel, name="x")
        B = w.WhiteNoise(w.tnequad_ndiag(log10_tnequad=pm.Uniform(-8, -6)), selection=sel, name="x")
    qs = qs if common else qs[:1]
    base = g.TimingModel(name="tm") if kind != "timing" else None
    if kind != "measurement":
        base = w.MeasurementNoise(efac=pm.Constant(1.1), name="base") if base is None else base + w.MeasurementNoise(efac=pm.Constant(1.1), name="base")
    np.random.seed(5)
    pa = signal_base.PTA([(base + A)(q) for q in qs])
    np.random.seed(5)
    pb = signal_base.PTA([(base + B)(q) for q in qs])
    ctx.sig(kind, sorted(o), co)
    ctx.event("general")
    ctx.event("general:" + kind)
    if not ctx.ok(pa.param_names == pb.param_names and [repr(x) for x in pa.params] == [repr(x) for x in pb.params], "general-form", "{}: {} and {}".format(kind, pa.params, pb.params)):
        return
    p = {x.name: (1e-9 * rng.randn(x.size) if "coefficients" in x.name else x.sample()) for x in pa.params}
    va, vb = call(3, lambda: pa.get_lnlikelihood(p)), call(3, lambda: pb.get_lnlikelihood(p))
    ctx.close(va, vb, "general-form", rtol=1e-10, atol=1e-7, kind=kind, options=sorted(o))
    ba, bb = call(3, lambda: pa.get_basis(p)), call(3, lambda: pb.get_basis(p))
    ctx.ok(same([x for x in ba if x is not None], [x for x in bb if x is not None]), "general-form", "bases of {} with {}".format(kind, sorted(o)))
    fa, fb = dense(pa.get_phi(p)), dense(pb.get_phi(p))
    ctx.ok(len(flat(fa)) == len(flat(fb)) and all(np.allclose(x, y, rtol=1e-12, atol=0) if x.dtype.kind == "f" else True for x, y in zip(flat(fa), flat(fb))), "general-form", "priors of {}".format(kind))


def dense(x):
    if isinstance(x, (list, tuple)):
        return [dense(y) for y in x]
    if isinstance(x, dict):
        return {k: dense(v) for k, v in x.items()}
    return x.toarray() if hasattr(x, "toarray") else x


SCENARIOS = {"kernels": (kernels, 150, 2000), "factories": (factories, 500, 6000), "priors": (priors, 150, 1500), "tools": (tools, 80, 800), "general": (general, 250, 3000)}
