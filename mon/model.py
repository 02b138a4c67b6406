"""Model specifications.

Every component knows (a) how to build the enterprise signal and (b) what the signal means:
parameter names, noise matrix, (basis, prior) blocks, delays.  Part (b) uses `ref` only.
"""
import itertools

import numpy as np

from . import ref

YR = ref.YR


def sel_obj(kind):
    from enterprise.signals import selections
    from enterprise.signals.selections import Selection

    fn = {
        None: selections.no_selection,
        "backend": selections.by_backend,
        "half": selections.cut_half,
        "band": selections.by_band,
        "telescope": selections.by_telescope,
    }.get(kind)
    if kind == "overlap":

        def overlap(toas):
            i = np.arange(len(toas))
            return {"a": i % 2 == 0, "b": i % 3 == 0}

        fn = overlap
    if isinstance(kind, tuple):
        fn = sel_fn(kind)
    return Selection(fn)


def sel_fn(kind):
    """Library (or user) selection function for a tuple kind; `ref.masks` states its meaning."""
    from enterprise.signals import selections as s

    name, arg = kind[0], kind[1:]
    if name == "freqband":
        return s.by_freq_band(None if arg[0] is None else {k: [lo, hi] for k, lo, hi in arg[0]})
    if name == "frontend":
        return s.by_frontend
    if name == "ng":
        return s.nanograv_backends
    if name == "index":
        return s.by_index(arg[0], list(arg[1]) if len(arg) < 3 or arg[2] == "list" else np.array(arg[1], int))
    if name == "custom":
        return s.custom_backends(list(arg[0]) if isinstance(arg[0], tuple) else arg[0])
    if name == "cdict":
        a = arg[0]
        if isinstance(a, tuple):
            a = {k: (list(v) if isinstance(v, tuple) else v) for k, v in a}
        elif isinstance(a, frozenset):
            a = sorted(a)
        return s.custom_backends_dict(a)
    if name == "user":
        lo = arg[0]

        def early_low(toas, freqs, residuals):
            return {"hi": freqs >= lo, "lo": freqs < lo}

        return early_low
    raise KeyError(kind)


def join(*a):
    return "_".join([x for x in a if x])


class PS(object):
    """One keyword parameter: free (class), shared (named instance), const, cinst (named constant) or raw value."""

    def __init__(self, kw, lo, hi, mode="free", size=None, inst=None, value=None):
        self.kw, self.lo, self.hi, self.mode, self.size, self.inst, self.value = kw, lo, hi, mode, size, inst, value
        self._i = None

    def obj(self):
        from enterprise.signals import parameter

        if self.mode == "free":
            return parameter.Uniform(self.lo, self.hi, size=self.size)
        if self.mode == "shared":
            if self._i is None:
                self._i = parameter.Uniform(self.lo, self.hi, size=self.size)(self.inst)
            return self._i
        if self.mode == "const":
            return parameter.Constant(self.value)
        if self.mode == "cinst":
            return parameter.Constant(self.value)(self.inst)
        return self.value

    def name(self, prefix):
        return self.inst if self.mode in ("shared", "cinst") else join(prefix, self.kw)

    def free(self):
        return self.mode in ("free", "shared")

    def get(self, p, prefix):
        n = self.name(prefix)
        if self.mode == "raw":
            return self.value
        return p[n] if n in p else self.value

    def draw(self, rng):
        v = rng.uniform(self.lo, self.hi, self.size)
        return v if self.size else float(v)

    def mutate(self, rng, shared_prob=0.15, const_prob=0.15, tag=""):
        u = rng.rand()
        if u < shared_prob:
            self.mode, self.inst = "shared", "shr_{}{}".format(self.kw, tag)
        elif u < shared_prob + const_prob and self.mode == "free":
            self.mode, self.value = "const", self.draw(rng)
        return self

    def __repr__(self):
        return "{}:{}".format(self.kw, self.mode)


class Comp(object):
    kind = "?"
    sel = None
    common = False
    ps = ()

    def prefixes(self, psr):
        """(key, parameter-name prefix) for every selection key."""
        raise NotImplementedError

    def params(self, psr):
        out = []
        for key, pre in self.prefixes(psr):
            for s in self.ps:
                if s.free():
                    out.append((s.name(pre), s))
        return out

    def consts(self, psr):
        return [(s.name(pre), s) for key, pre in self.prefixes(psr) for s in self.ps if s.mode in ("const", "cinst")]

    def masks(self, psr):
        return ref.masks(self.sel, psr)

    def N(self, psr, p):
        return 0.0

    def blocks(self, psr, p):
        """list of (label, F, Phi[matrix or vector])."""
        return []

    def delay(self, psr, p):
        return 0.0

    def tm(self, psr):
        return None

    def desc(self):
        return "{}({}{})".format(self.kind, self.sel or "", ",".join(map(repr, self.ps)))


# ------------------------------------------------------------------ white noise
class MN(Comp):
    kind = "MN"

    def __init__(self, sel=None, t2=False, name=""):
        self.sel, self.name = sel, name
        self.ps = [PS("efac", 0.6, 1.8)] + ([PS("log10_t2equad", -8.5, -5.7)] if t2 else [])

    def build(self):
        from enterprise.signals import white_signals as w

        kw = {s.kw: s.obj() for s in self.ps}
        return w.MeasurementNoise(selection=sel_obj(self.sel), name=self.name, **kw)

    def prefixes(self, psr):
        return [(k, join(psr.name, self.name, k)) for k in sorted(self.masks(psr))]

    def N(self, psr, p):
        d = np.zeros(len(psr.toas))
        m = self.masks(psr)
        for k, pre in self.prefixes(psr):
            e = self.ps[0].get(p, pre)
            v = psr.toaerrs**2
            if len(self.ps) > 1:
                v = v + 10.0 ** (2 * self.ps[1].get(p, pre))
            d[m[k]] += (e**2 * v)[m[k]]
        return np.diag(d)


class TNEQ(Comp):
    kind = "TNEQ"

    def __init__(self, sel=None, name=""):
        self.sel, self.name = sel, name
        self.ps = [PS("log10_tnequad", -9, -5.7)]

    def build(self):
        from enterprise.signals import white_signals as w

        return w.TNEquadNoise(log10_tnequad=self.ps[0].obj(), selection=sel_obj(self.sel), name=self.name)

    prefixes = MN.prefixes

    def N(self, psr, p):
        d = np.zeros(len(psr.toas))
        m = self.masks(psr)
        for k, pre in self.prefixes(psr):
            d[m[k]] += 10.0 ** (2 * self.ps[0].get(p, pre))
        return np.diag(d)


class EC(Comp):
    kind = "EC"

    def __init__(self, sel=None, method="fast-sherman-morrison", name=""):
        self.sel, self.method, self.name = sel, method, name
        self.ps = [PS("log10_ecorr", -9, -5.7)]

    def build(self):
        from enterprise.signals import white_signals as w

        return w.EcorrKernelNoise(log10_ecorr=self.ps[0].obj(), selection=sel_obj(self.sel), method=self.method, name=self.name)

    def prefixes(self, psr):
        return [(k, join(psr.name, k)) for k in sorted(self.masks(psr))]

    def N(self, psr, p):
        n = len(psr.toas)
        K = np.zeros((n, n))
        m = self.masks(psr)
        for k, pre in self.prefixes(psr):
            idx = np.flatnonzero(m[k])
            for g in ref.epochs(psr.toas[idx]):
                K[np.ix_(idx[g], idx[g])] += 10.0 ** (2 * self.ps[0].get(p, pre))
        return K

    def desc(self):
        return Comp.desc(self) + self.method


# ------------------------------------------------------------------ basis GPs
class GP(Comp):
    """BasisGP-like: subclasses define basis_ref(psr, mask, p, prefix) -> F, labels and prior_ref(labels, p, prefix)."""

    combine = True
    coefficients = False

    def prefixes(self, psr):
        return [(k, join(psr.name, self.name, k)) for k in sorted(self.masks(psr))]

    def blocks(self, psr, p):
        out = []
        m = self.masks(psr)
        for k, pre in self.prefixes(psr):
            F, lab = self.basis_ref(psr, m[k], p, pre)
            G = np.zeros((len(psr.toas), F.shape[1]))
            G[m[k]] = F
            out.append((join(self.name, k), G, self.prior_ref(lab, p, pre)))
        return out


def spectrum_obj(kind, ps):
    from enterprise.signals import gp_priors as g

    kw = {s.kw: s.obj() for s in ps}
    fn = {"pl": g.powerlaw, "to": g.turnover, "fs": g.free_spectrum, "tk": g.turnover_knee, "bp": g.broken_powerlaw,
          "tp": g.t_process}[kind]
    return fn(**kw)


def spectrum_ps(kind, nf):
    A, G = PS("log10_A", -15.0, -12.8), PS("gamma", 1.0, 6.0)
    if kind == "pl":
        return [A, G]
    if kind == "to":
        return [A, G, PS("lf0", -9.0, -8.0), PS("kappa", 1, 5), PS("beta", 0.2, 1.0)]
    if kind == "fs":
        return [PS("log10_rho", -8.0, -5.5, size=nf)]
    if kind == "tk":
        return [A, G, PS("lfb", -9, -8), PS("lfk", -8.2, -7.2), PS("kappa", 1, 5), PS("delta", 0.1, 2)]
    if kind == "bp":
        return [A, G, PS("delta", 0, 2), PS("log10_fb", -9, -7.5), PS("kappa", 0.1, 0.6)]
    if kind == "tp":
        return [A, G, PS("alphas", 0.2, 3, size=nf)]
    raise KeyError(kind)


def spectrum_ref(kind, ps, lab, p, pre):
    v = {s.kw: s.get(p, pre) for s in ps}
    if kind == "pl":
        return ref.powerlaw(lab, 10 ** v["log10_A"], v["gamma"])
    if kind == "to":
        return ref.turnover(lab, 10 ** v["log10_A"], v["gamma"], v["lf0"], v["kappa"], v["beta"])
    if kind == "fs":
        return ref.free(v["log10_rho"])
    if kind == "tk":
        return ref.turnover_knee(lab, 10 ** v["log10_A"], v["gamma"], v["lfb"], v["lfk"], v["kappa"], v["delta"])
    if kind == "bp":
        return ref.broken(lab, 10 ** v["log10_A"], v["gamma"], v["delta"], v["log10_fb"], v["kappa"])
    if kind == "tp":
        return ref.powerlaw(lab, 10 ** v["log10_A"], v["gamma"]) * ref.rep(v["alphas"])
    raise KeyError(kind)


class RN(GP):
    """FourierBasisGP."""

    kind = "RN"

    def __init__(self, nf=5, spec="pl", sel=None, T=None, modes=None, logf=False, fmin=None, fmax=None, combine=True,
                 name="red_noise", coefficients=False):
        self.nf, self.spec, self.sel, self.T, self.modes, self.combine, self.name = nf, spec, sel, T, modes, combine, name
        self.logf, self.fmin, self.fmax = logf, fmin, fmax
        self.coefficients = coefficients
        if modes is not None:
            self.nf = nf = len(modes)
        self.ps = spectrum_ps(spec, nf)

    def build(self):
        from enterprise.signals import gp_signals as g

        return g.FourierBasisGP(spectrum_obj(self.spec, self.ps), coefficients=self.coefficients, combine=self.combine,
                                components=self.nf, selection=sel_obj(self.sel), Tspan=self.T, modes=self.modes, logf=self.logf,
                                fmin=self.fmin, fmax=self.fmax, name=self.name)

    def basis_ref(self, psr, mask, p, pre):
        t = psr.toas[mask]
        T = self.T if self.T is not None else t.max() - t.min()
        f = ref.freqs(self.nf, T, self.logf, self.fmin, self.fmax, self.modes)
        return ref.fourier(t, f), ref.rep(f)

    def prior_ref(self, lab, p, pre):
        return spectrum_ref(self.spec, self.ps, lab, p, pre)

    def desc(self):
        return "{}[{},{},{},m={},T={},c={}]".format(Comp.desc(self), self.spec, self.nf, self.sel, self.modes is not None,
                                                   self.T is not None, self.combine)


class CHROM(GP):
    """BasisGP with a DM or chromatic basis; `idx` may vary (basis with parameters)."""

    kind = "CHROM"

    def __init__(self, nf=4, spec="pl", sel=None, T=None, vary=False, dm=False, combine=True, name="chrom", coefficients=False):
        self.nf, self.spec, self.sel, self.T, self.vary, self.dm, self.combine, self.name = nf, spec, sel, T, vary, dm, combine, name
        self.coefficients = coefficients
        self.ps = spectrum_ps(spec, nf)
        self.nspec = len(self.ps)
        # `vary`: True/"both" the index, "T"/"both" the span (so that the labels vary with the basis)
        self.idx = PS("idx", 1.5, 5.0) if vary in (True, "both") else PS("idx", 1.5, 5.0, mode="raw", value=4)
        self.span = PS("Tspan", 4 * YR, 9 * YR) if vary in ("T", "both") else None
        if not dm:
            self.ps = self.ps + [self.idx]
        if self.span is not None:
            self.ps = self.ps + [self.span]

    def build(self):
        from enterprise.signals import gp_signals as g, utils

        spec = spectrum_obj(self.spec, self.ps[: self.nspec])
        if self.dm:
            basis = utils.createfourierdesignmatrix_dm(nmodes=self.nf, Tspan=self.T if self.span is None else self.span.obj())
        else:
            basis = utils.createfourierdesignmatrix_chromatic(nmodes=self.nf, Tspan=self.T if self.span is None else self.span.obj(),
                                                              idx=self.idx.obj())
        return g.BasisGP(spec, basis, coefficients=self.coefficients, combine=self.combine, selection=sel_obj(self.sel), name=self.name)

    def basis_ref(self, psr, mask, p, pre):
        t = psr.toas[mask]
        T = self.T if self.T is not None else t.max() - t.min()
        if self.span is not None:
            T = self.span.get(p, pre)
        f = ref.freqs(self.nf, T)
        x = 2 if self.dm else self.idx.get(p, pre)
        return ref.fourier(t, f) * ((1400.0 / psr.freqs[mask]) ** x)[:, None], ref.rep(f)

    def prior_ref(self, lab, p, pre):
        return spectrum_ref(self.spec, self.ps[: self.nspec], lab, p, pre)

    def desc(self):
        return "{}[dm={},v={},c={}]".format(Comp.desc(self), self.dm, self.vary, self.combine)


class ECB(GP):
    """EcorrBasisModel."""

    kind = "ECB"

    def __init__(self, sel=None, name="basis_ecorr", coefficients=False):
        self.sel, self.name, self.coefficients = sel, name, coefficients
        self.ps = [PS("log10_ecorr", -9, -5.7)]

    def build(self):
        from enterprise.signals import gp_signals as g

        return g.EcorrBasisModel(log10_ecorr=self.ps[0].obj(), selection=sel_obj(self.sel), name=self.name, coefficients=self.coefficients)

    def basis_ref(self, psr, mask, p, pre):
        t = psr.toas[mask]
        gs = ref.epochs(t)
        U = np.zeros((len(t), len(gs)))
        for i, g in enumerate(gs):
            U[g, i] = 1.0
        return U, np.ones(len(gs))

    def prior_ref(self, lab, p, pre):
        return lab * 10.0 ** (2 * self.ps[0].get(p, pre))


def se_kernel_ref(nodes, log10_sigma, log10_lam, dense=True):
    d = (nodes[:, None] - nodes[None, :]) / (10.0**log10_lam * 86400.0)
    return 10.0 ** (2 * log10_sigma) * (np.exp(-0.5 * d**2) + 1e-4 * np.eye(len(nodes)))


def _enterprise_fns():
    from enterprise.signals.parameter import function

    @function
    def interp_basis(toas, dt=200 * 86400.0):
        x = np.arange(toas.min(), toas.max() + dt, dt)
        M = np.zeros((len(toas), len(x)))
        for i in range(len(x)):
            M[:, i] = np.clip(1 - np.abs(toas - x[i]) / dt, 0, None)
        keep = M.sum(axis=0) != 0
        return M[:, keep], x[keep]

    @function
    def se_kernel(nodes, log10_sigma=-7, log10_lam=2.5):
        return se_kernel_ref(nodes, log10_sigma, log10_lam)

    return interp_basis, se_kernel


class DENSE(GP):
    """BasisGP with a dense prior covariance (squared exponential on an interpolation basis)."""

    kind = "DENSE"

    def __init__(self, dt=250 * 86400.0, sel=None, combine=True, name="se", coefficients=False):
        self.dt, self.sel, self.combine, self.name, self.coefficients = dt, sel, combine, name, coefficients
        self.ps = [PS("log10_sigma", -7.5, -5.8), PS("log10_lam", 2.0, 2.8)]

    def build(self):
        from enterprise.signals import gp_signals as g

        b, k = _enterprise_fns()
        return g.BasisGP(k(**{s.kw: s.obj() for s in self.ps}), b(dt=self.dt), combine=self.combine,
                         selection=sel_obj(self.sel), name=self.name, coefficients=self.coefficients)

    def basis_ref(self, psr, mask, p, pre):
        t = psr.toas[mask]
        x = np.arange(t.min(), t.max() + self.dt, self.dt)
        M = np.array([[max(0.0, 1 - abs(ti - xi) / self.dt) for xi in x] for ti in t])
        keep = M.sum(axis=0) != 0
        return M[:, keep], x[keep]

    def prior_ref(self, lab, p, pre):
        return se_kernel_ref(lab, self.ps[0].get(p, pre), self.ps[1].get(p, pre))


# ------------------------------------------------------------------ timing model
class TM(Comp):
    kind = "TM"

    def __init__(self, form="normed", idx_exclude=None, marg=False, name=None):
        self.form, self.idx, self.marg = form, idx_exclude, marg
        self.name = name

    def build(self):
        from enterprise.signals import gp_signals as g

        kw = {"normed": dict(use_svd=False, normed=True), "unnormed": dict(use_svd=False, normed=False),
              "svd": dict(use_svd=True, normed=True)}[self.form]
        if self.name:
            kw["name"] = self.name
        if self.marg:
            return g.MarginalizingTimingModel(**kw)
        return g.TimingModel(idx_exclude=self.idx, **kw)

    def prefixes(self, psr):
        return []

    def tm(self, psr):
        M = psr.Mmat
        if self.idx:
            M = M[:, [i for i in range(M.shape[1]) if i not in self.idx]]
        if self.form == "unnormed":
            return M
        if self.form == "normed":
            return M / np.sqrt(np.sum(M**2, axis=0))
        q, _ = np.linalg.qr(M)
        return q  # same column space and M M^T as the SVD factor u

    def desc(self):
        return "TM({},{},{})".format(self.form, self.idx, self.marg)


# ------------------------------------------------------------------ deterministic
class BWM(Comp):
    kind = "BWM"

    def __init__(self, sel=None, name="bwm"):
        self.sel, self.name = sel, name
        self.ps = [PS("log10_h", -14, -12.5), PS("cos_gwtheta", -0.95, 0.95), PS("gwphi", 0, 6.28), PS("gwpol", 0, 3.14),
                   PS("t0", 53100, 54500)]

    def build(self):
        from enterprise.signals import deterministic_signals as d, utils

        return d.Deterministic(utils.bwm_delay(**{s.kw: s.obj() for s in self.ps}), selection=sel_obj(self.sel), name=self.name)

    def prefixes(self, psr):
        return [(k, join(psr.name, self.name, k)) for k in sorted(self.masks(psr))]

    def delay(self, psr, p):
        d = np.zeros(len(psr.toas))
        m = self.masks(psr)
        for k, pre in self.prefixes(psr):
            v = [s.get(p, pre) for s in self.ps]
            d[m[k]] = ref.bwm(psr.toas[m[k]], psr.pos, *v)
        return d


def _sine_fn():
    from enterprise.signals.parameter import function

    @function
    def sine(toas, freqs, log10_amp=-6, log10_f=-8, phase=0.0):
        return 10.0**log10_amp * np.sin(2 * np.pi * toas * 10.0**log10_f + phase) * (1400.0 / freqs)

    return sine


class SINE(Comp):
    kind = "SINE"

    def __init__(self, sel=None, name="sine"):
        self.sel, self.name = sel, name
        self.ps = [PS("log10_amp", -7, -5.5), PS("log10_f", -8.5, -7.5), PS("phase", 0, 6.28)]

    def build(self):
        from enterprise.signals import deterministic_signals as d

        return d.Deterministic(_sine_fn()(**{s.kw: s.obj() for s in self.ps}), selection=sel_obj(self.sel), name=self.name)

    prefixes = BWM.prefixes

    def delay(self, psr, p):
        d = np.zeros(len(psr.toas))
        m = self.masks(psr)
        for k, pre in self.prefixes(psr):
            a, f, ph = [s.get(p, pre) for s in self.ps]
            d[m[k]] = (10.0**a * np.sin(2 * np.pi * psr.toas * 10.0**f + ph) * (1400.0 / psr.freqs))[m[k]]
        return d


# ------------------------------------------------------------------ common processes
class CGP(Comp):
    """FourierBasisCommonGP (basis='red') or BasisCommonGP with a chromatic / dense basis."""

    kind = "CGP"
    common = True

    def __init__(self, nf=4, spec="pl", orf="hd", T=5 * YR, modes=None, combine=True, basis="red", vary=False, name="gw"):
        self.nf, self.spec, self.orf, self.T, self.modes, self.combine, self.basis, self.vary, self.name = (
            nf, spec, orf, T, modes, combine, basis, vary, name)
        if modes is not None:
            self.nf = nf = len(modes)
        if basis == "dense":
            self.ps = [PS("log10_sigma", -7.5, -5.8), PS("log10_lam", 2.0, 2.8)]
        else:
            self.ps = spectrum_ps(spec, nf)
        self.bps = [PS("idx", 1.5, 4.5)] if (basis == "chrom" and vary) else []
        self.ops = [PS("rho", 0.1, 0.6)] if orf == "user" else []

    def build(self):
        from enterprise.signals import gp_signals as g, utils

        if self.orf == "user":
            orf = _user_orf()(rho=self.ops[0].obj())
        else:
            orf = {"hd": utils.hd_orf, "dipole": utils.dipole_orf, "mono": utils.monopole_orf}[self.orf]()
        if self.basis == "red":
            return g.FourierBasisCommonGP(spectrum_obj(self.spec, self.ps), orf, components=self.nf,
                                          Tspan=None if getattr(self, "autospan", False) else self.T, modes=self.modes,
                                          combine=self.combine, name=self.name)
        if self.basis == "chrom":
            b = utils.createfourierdesignmatrix_chromatic(nmodes=self.nf, Tspan=self.T, idx=self.bps[0].obj() if self.vary else 2)
            return g.BasisCommonGP(spectrum_obj(self.spec, self.ps), b, orf, combine=self.combine, name=self.name)
        nodes = self.nodes()
        b, k = _fixed_nodes_basis(nodes), _enterprise_fns()[1]
        return g.BasisCommonGP(k(**{s.kw: s.obj() for s in self.ps}), b(), orf, combine=self.combine, name=self.name)

    def nodes(self):
        return 52900 * 86400.0 + np.arange(self.nf + 1) * (5.6 * YR / self.nf)

    def prefixes(self, psr):
        return [("", self.name)]

    def params(self, psr):
        out = Comp.params(self, psr)
        out += [(s.name(join(psr.name, self.name)), s) for s in self.bps if s.free()]
        out += [(s.name(self.name), s) for s in self.ops if s.free()]
        return out

    def consts(self, psr):
        out = Comp.consts(self, psr)
        out += [(s.name(join(psr.name, self.name)), s) for s in self.bps if not s.free()]
        out += [(s.name(self.name), s) for s in self.ops if not s.free()]
        return out

    def cblock(self, psr, p):
        """F and the prior without ORF (vector or matrix)."""
        if self.basis == "dense":
            x = self.nodes()
            dt = x[1] - x[0]
            F = np.clip(1 - np.abs(psr.toas[:, None] - x[None, :]) / dt, 0, None)
            return F, se_kernel_ref(x, *[s.get(p, self.name) for s in self.ps])
        f = ref.freqs(self.nf, self.T, modes=self.modes)
        F = ref.fourier(psr.toas, f)
        if self.basis == "chrom":
            x = self.bps[0].get(p, join(psr.name, self.name)) if self.vary else 2
            F = F * ((1400.0 / psr.freqs) ** x)[:, None]
        return F, spectrum_ref(self.spec, self.ps, ref.rep(f), p, self.name)

    def corr(self, p1, p2, p):
        same = p1 is p2 or np.array_equal(p1.pos, p2.pos)
        if self.orf == "user":
            return 1.0 if same else self.ops[0].get(p, self.name) * float(np.exp(np.dot(p1.pos, p2.pos) - 1))
        return {"hd": ref.hd, "dipole": ref.dipole, "mono": ref.monopole}[self.orf](p1.pos, p2.pos, same)

    def desc(self):
        return "{}[{},{},{},{},c={}]".format(Comp.desc(self), self.spec, self.nf, self.orf, self.basis, self.combine)


def _user_orf():
    from enterprise.signals.parameter import function

    @function
    def user_orf(pos1, pos2, rho=0.3):
        return 1.0 if np.all(pos1 == pos2) else rho * float(np.exp(np.dot(pos1, pos2) - 1))

    return user_orf


def _fixed_nodes_basis(nodes):
    from enterprise.signals.parameter import function

    @function
    def nodes_basis(toas):
        dt = nodes[1] - nodes[0]
        return np.clip(1 - np.abs(toas[:, None] - nodes[None, :]) / dt, 0, None), nodes

    return nodes_basis


# ------------------------------------------------------------------ a whole model
class Model(object):
    """comps: list of components for each pulsar (same list object may be shared between pulsars)."""

    def __init__(self, psrs, comps):
        self.psrs = psrs
        self.comps = comps if isinstance(comps[0], list) else [comps for _ in psrs]
        self._built = {}

    def cls(self, comps):
        key = tuple(id(c) for c in comps)
        if key not in self._built:
            s = None
            for c in comps:
                b = self.sig(c)
                s = b if s is None else s + b
            if len(comps) == 1:
                from enterprise.signals import signal_base

                s = signal_base.SignalCollection([s])
            self._built[key] = s
        return self._built[key]

    def sig(self, c):
        if ("sig", id(c)) not in self._built:
            self._built[("sig", id(c))] = c.build()
        return self._built[("sig", id(c))]

    def pta(self, fresh=True, **kw):
        from enterprise.signals import signal_base

        if fresh:
            self._built = {}
            for c in set(itertools.chain(*self.comps)):
                for s in getattr(c, "ps", ()):
                    s._i = None
        return signal_base.PTA([self.cls(c)(psr) for psr, c in zip(self.psrs, self.comps)], **kw)

    def params(self):
        """expected varying parameters: {name: PS}"""
        out = {}
        for psr, comps in zip(self.psrs, self.comps):
            for c in comps:
                for n, s in c.params(psr):
                    out.setdefault(n, s)
        return out

    def consts(self):
        out = {}
        for psr, comps in zip(self.psrs, self.comps):
            for c in comps:
                for n, s in c.consts(psr):
                    out.setdefault(n, s)
        return out

    def draw(self, rng):
        return {n: s.draw(rng) for n, s in sorted(self.params().items())}

    def desc(self):
        return [[c.desc() for c in comps] for comps in self.comps]

    # reference quantities -------------------------------------------------
    def N(self, i, p):
        n = len(self.psrs[i].toas)
        K = np.zeros((n, n))
        for c in self.comps[i]:
            K = K + c.N(self.psrs[i], p)
        return K

    def res(self, i, p):
        r = np.array(self.psrs[i].residuals, float)
        for c in self.comps[i]:
            r = r - c.delay(self.psrs[i], p)
        return r

    def K(self, i, p, own=True):
        """covariance without timing model (common signals enter with their auto-correlation)."""
        K = self.N(i, p)
        psr = self.psrs[i]
        for c in self.comps[i]:
            for _, F, phi in c.blocks(psr, p):
                K = K + (np.dot(F * phi, F.T) if np.ndim(phi) == 1 else F @ phi @ F.T)
            if c.common:
                F, phi = c.cblock(psr, p)
                K = K + c.corr(psr, psr, p) * (np.dot(F * phi, F.T) if np.ndim(phi) == 1 else F @ phi @ F.T)
        return K

    def conditioning(self, i, p):
        """smallest eigenvalue of the scaled T^T N^-1 T + Phi^-1 (1 if there is no basis)."""
        psr = self.psrs[i]
        Ts, Ps = [], []
        bl = [(F, phi) for c in self.comps[i] for _, F, phi in c.blocks(psr, p)]
        bl += [c.cblock(psr, p) for c in self.comps[i] if c.common]
        if self.tm(i) is not None:
            bl.append((self.tm(i), np.full(self.tm(i).shape[1], 1e40)))
        for F, phi in bl:
            if F.shape[1]:
                Ts.append(F)
                Ps.append(np.diag(1.0 / phi) if np.ndim(phi) == 1 else np.linalg.inv(phi))
        if not Ts:
            return 1.0
        T = np.concatenate(Ts, axis=1)
        import scipy.linalg as sl

        S = T.T @ np.linalg.solve(self.N(i, p), T) + sl.block_diag(*Ps)
        d = np.sqrt(np.diag(S))
        return float(np.linalg.eigvalsh(S / np.outer(d, d))[0])

    def tm(self, i):
        ms = [c.tm(self.psrs[i]) for c in self.comps[i]]
        ms = [m for m in ms if m is not None]
        return ms[0] if ms else None

    def dense(self, p):
        """covariance (no timing model) and residuals of all pulsars, with the offsets of each."""
        n = [len(q.toas) for q in self.psrs]
        off = np.concatenate([[0], np.cumsum(n)])
        K = np.zeros((off[-1], off[-1]))
        r = np.concatenate([self.res(i, p) for i in range(len(self.psrs))])
        for i in range(len(self.psrs)):
            K[off[i]:off[i + 1], off[i]:off[i + 1]] = self.K(i, p)
        for i, j in itertools.combinations(range(len(self.psrs)), 2):
            for c in self.comps[i]:
                if c.common and c in self.comps[j]:
                    F1, phi = c.cblock(self.psrs[i], p)
                    F2, _ = c.cblock(self.psrs[j], p)
                    X = c.corr(self.psrs[i], self.psrs[j], p) * (np.dot(F1 * phi, F2.T) if np.ndim(phi) == 1 else F1 @ phi @ F2.T)
                    K[off[i]:off[i + 1], off[j]:off[j + 1]] += X
                    K[off[j]:off[j + 1], off[i]:off[i + 1]] += X.T
        return K, r, off

    def lnl(self, p):
        """Joint log density (reference)."""
        com = {c for comps in self.comps for c in comps if c.common}
        if not com or len(self.psrs) == 1:
            return sum(ref.lnpdf_tm(self.K(i, p), self.tm(i), self.res(i, p)) for i in range(len(self.psrs)))
        K, r, off = self.dense(p)
        tms = [self.tm(i) for i in range(len(self.psrs))]
        ncol = sum(0 if t is None else t.shape[1] for t in tms)
        M = np.zeros((off[-1], ncol))
        k = 0
        for i, t in enumerate(tms):
            if t is not None:
                M[off[i]:off[i + 1], k:k + t.shape[1]] = t
                k += t.shape[1]
        return ref.lnpdf_tm(K, M if ncol else None, r)


# ------------------------------------------------------------------ random specifications
SELS = [None, None, "backend", "half", "band"]
SPECS = ["pl", "pl", "to", "fs", "tk", "bp", "tp"]
METHODS = ["fast-sherman-morrison", "sherman-morrison", "sparse", "block"]


def pick(rng, xs):
    return xs[rng.randint(0, len(xs))]


def random_white(rng, ecorr=True):
    out = [MN(pick(rng, SELS + ["telescope"]), t2=rng.rand() < 0.5, name=pick(rng, ["", "", "wn"]))]
    if rng.rand() < 0.35:
        out.append(TNEQ(pick(rng, SELS)))
    if ecorr and rng.rand() < 0.6:
        out.append(EC(pick(rng, SELS), pick(rng, METHODS)))
    return out


def fix_spans(psrs, comps, T):
    """A basis without explicit span is undefined on selections with one epoch: give those a span."""
    for c in comps:
        if getattr(c, "T", 1) is None:
            for q in psrs:
                for k, m in ref.masks(c.sel, q).items():
                    t = q.toas[m]
                    if len(t) < 2 or t.max() - t.min() < 30 * 86400.0:
                        c.T = T
        if c.kind == "DENSE" and c.sel is not None:
            for q in psrs:
                if any(m.sum() == 0 for m in ref.masks(c.sel, q).values()):
                    c.sel = None
    return comps


def varying(rng, prob=0.5):
    """what varies in a basis: nothing, the chromatic index, the span, or both."""
    return pick(rng, [True, True, "T", "both"]) if rng.rand() < prob else False


def random_gps(rng, T, n=None, dense=True, vary=True):
    out = []
    n = rng.randint(0, 4) if n is None else n
    Ts = [None, T, 1.3 * T]
    for i in range(n):
        u = rng.rand()
        nm = pick(rng, ["a", "b", "gp", "red_noise"]) + str(i)
        comb = bool(rng.rand() < 0.6)
        if u < 0.45:
            modes = None
            kw = {}
            v = rng.rand()
            if v < 0.15:
                modes = np.sort(rng.uniform(1.0 / T, 8.0 / T, 4))
            elif v < 0.25:
                kw = dict(logf=True)
            elif v < 0.35:
                kw = dict(fmin=0.5 / T, fmax=6.0 / T)
            out.append(RN(rng.randint(1, 7), pick(rng, SPECS), pick(rng, SELS), pick(rng, Ts), modes=modes, combine=comb, name=nm, **kw))
        elif u < 0.7:
            out.append(CHROM(rng.randint(2, 5), pick(rng, ["pl", "fs"]), pick(rng, [None, "backend", "half"]), pick(rng, Ts),
                             vary=vary and varying(rng), dm=rng.rand() < 0.3, combine=comb, name=nm))
        elif u < 0.85:
            out.append(ECB(pick(rng, SELS), name=nm))
        elif dense:
            out.append(DENSE(rng.uniform(120, 400) * 86400, pick(rng, [None, "half"]), combine=comb, name=nm))
    return out


_count = [0]


def vary_params(rng, comps, shared=0.12, const=0.12):
    """Turn some parameters into shared instances / constants. Vector parameters are left alone; basis ecorr and the like keep classes."""
    for ci, c in enumerate(comps):
        for s in c.ps:
            if s.mode == "free" and s.size is None and rng.rand() < shared + const:
                if rng.rand() < shared / (shared + const):
                    _count[0] += 1
                    s.mode, s.inst = "shared", "shr{}_{}_{}".format(ci, s.kw, _count[0])
                else:
                    s.mode, s.value = "const", s.draw(rng)
    return comps


def random_model(rng, psrs, tm=True, det=True, common=0, dense=True, per_psr=False, marg=False, vary=True, mix=True):
    T = max(max(q.toas) for q in psrs) - min(min(q.toas) for q in psrs)
    _count[0] = 0

    def one():
        comps = random_white(rng) + random_gps(rng, T, dense=dense, vary=vary)
        if det and rng.rand() < 0.3:
            comps.append(SINE(pick(rng, [None, "half", "backend"])))
        if det and rng.rand() < 0.2:
            comps.append(BWM())
        if tm and rng.rand() < 0.8:
            comps.append(TM(pick(rng, ["normed", "unnormed", "svd"]), marg=bool(marg and rng.rand() < 0.3)))
        fix_spans(psrs, comps, T)
        if mix:
            vary_params(rng, comps)
        return comps

    lists = [one() for _ in psrs] if per_psr else None
    shared = None if per_psr else one()
    com = []
    for k in range(common):
        b = pick(rng, ["red", "red", "red", "chrom", "dense"] if dense else ["red", "chrom"])
        orfs = ["hd", "user"] if b == "dense" else ["hd", "hd", "dipole", "mono", "user"]  # dense x nearly singular ORF is ill-conditioned
        com.append(CGP(rng.randint(2, 5), pick(rng, ["pl", "fs", "to"]), pick(rng, orfs), T=T,
                       combine=bool(rng.rand() < 0.7), basis=b, vary=vary and rng.rand() < 0.5, name="gw" + str(k)))
    out = []
    for i in range(len(psrs)):
        comps = list(lists[i] if per_psr else shared) + com
        if not any(c.kind in ("RN", "CHROM", "ECB", "DENSE", "TM", "CGP") for c in comps):
            comps.append(RN(3, name="fallback"))
        order = rng.permutation(len(comps)) if per_psr or i == 0 else order  # noqa: F821
        out.append([comps[j] for j in order])
    return Model(psrs, out)
