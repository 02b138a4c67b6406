"""Random prior declarations with reference densities (used by C07 and C08)."""
import numpy as np
import scipy.stats as st

from .model import pick


DEFAULTS = {"Normal": {"mu": 0.0, "sigma": 1.0}, "TruncNormal": {"mu": 0.0, "sigma": 1.0, "pmin": -2.0, "pmax": 2.0}, "InvGamma": {"alpha": 1.0, "gamma": 1.0}}


class Decl(object):
    """kind, arguments; an argument is ('num', value) or ('hyp', kw-mode, lo, hi, name or None)."""

    def __init__(self, rng, name, kind=None, hyper=True, size="any", arrays=True):
        self.name = name
        self.kind = kind or pick(rng, ["Uniform", "Normal", "TruncNormal", "LinearExp", "InvGamma", "User", "UserLog", "NormalCov"])
        self.size = (None if rng.rand() < 0.55 else rng.randint(1, 5) if rng.rand() < 0.93 else rng.randint(6, 90)) if size == "any" else size
        self.args = {}
        vec = arrays and self.size is not None and rng.rand() < 0.5 and self.kind not in ("User", "UserLog", "NormalCov")
        self.vec = vec

        def num(lo, hi):
            return rng.uniform(lo, hi, self.size) if vec else float(rng.uniform(lo, hi))

        k = self.kind
        if k in ("Uniform", "User", "UserLog"):
            s = 10.0 ** rng.randint(-13, 10) if k == "Uniform" and rng.rand() < 0.3 else 1.0
            self.args = {"pmin": s * num(-3, -1), "pmax": s * num(0.5, 4)}
        elif k == "LinearExp":
            o = rng.uniform(-18, 2)
            self.args = {"pmin": o + num(-3, -1), "pmax": o + num(0, 1.5)}
        elif k == "Normal":
            s = 10.0 ** rng.randint(-12, 10) if rng.rand() < 0.3 else 1.0
            self.args = {"mu": s * num(-2, 2), "sigma": s * num(0.3, 2)}
        elif k == "NormalCov":
            self.size = self.size or rng.randint(2, 4)
            L = np.tril(rng.uniform(-0.4, 0.4, (self.size, self.size)), -1) + np.diag(rng.uniform(0.5, 1.5, self.size))
            self.args = {"mu": rng.randn(self.size), "sigma": L @ L.T}
        elif k == "TruncNormal":
            a = num(-3, -1)
            self.args = {"mu": a + num(-0.5, 3), "sigma": num(0.4, 2), "pmin": a, "pmax": a + num(1.5, 4)}
        elif k == "InvGamma":
            self.args = {"alpha": num(1.0, 4), "gamma": num(0.5, 3)}
        # documented defaults, left out of the declaration
        self.omit = []
        if self.kind in DEFAULTS and not vec and rng.rand() < 0.3:
            dflt = DEFAULTS[self.kind]
            self.omit = [a for a in sorted(dflt) if rng.rand() < 0.6] if self.kind != "TruncNormal" else sorted(dflt)
            for a in self.omit:
                self.args[a] = dflt[a]
        if k in ("User", "UserLog"):
            self.args["peak"] = float(self.args["pmin"] + rng.uniform(0.25, 0.75) * (self.args["pmax"] - self.args["pmin"]))
        self.mode, self.hyp = {}, {}
        if hyper and not vec and k != "NormalCov":
            for kw in sorted(self.args):
                if rng.rand() < 0.3 and kw != "peak" and kw not in self.omit:
                    self.mode[kw] = pick(rng, ["cls", "inst", "const", "cinst", "func"])

    def width(self, kw):
        v = abs(self.args[kw])
        w = 0.1 * max(abs(self.args["pmax"] - self.args["pmin"]), 0) if "pmin" in self.args else 0.1 * min(
            x for x in [abs(self.args.get("sigma", np.inf)), abs(self.args.get("gamma", np.inf)), 1.0] if np.isfinite(x))
        return w if "pmin" in self.args or kw == "mu" else 0.1 * v

    def build(self):
        """enterprise Parameter instance (named)."""
        from enterprise.signals import gp_priors, parameter as pm

        kw = {}
        for a, v in self.args.items():
            if a in self.omit:
                continue
            m = self.mode.get(a)
            if m is None:
                kw[a] = v
            elif m in ("const", "cinst"):
                kw[a] = pm.Constant(v) if m == "const" else pm.Constant(v)("c_" + self.name + a)
            elif m == "func":
                n = "{}_{}_shift".format(self.name, a)
                self.hyp[a] = (n, 0.0, self.width(a))
                kw[a] = _shifter()(base=v, shift=pm.Uniform(0, self.width(a)))
            else:
                n = "{}_{}".format(self.name, a) if m == "cls" else "inst_{}_{}".format(self.name, a)
                w = self.width(a)
                self.hyp[a] = (n, v, v + w)
                c = pm.Uniform(v, v + w)
                kw[a] = c if m == "cls" else c(n)
        k = self.kind
        if k == "Uniform":
            c = pm.Uniform(size=self.size, **kw)
        elif k == "LinearExp":
            c = pm.LinearExp(size=self.size, **kw)
        elif k in ("Normal", "NormalCov"):
            c = pm.Normal(size=self.size, **kw)
        elif k == "TruncNormal":
            c = pm.TruncNormal(size=self.size, **kw)
        elif k == "InvGamma":
            c = gp_priors.InvGamma(size=self.size, **kw)
        else:
            pr, lpr, ppf = pm.Function(tri_pdf, **kw), pm.Function(tri_logpdf, **kw), pm.Function(tri_ppf, **kw)
            c = pm.UserParameter(prior=pr if k == "User" else None, logprior=lpr if k == "UserLog" else None, sampler=tri_sample, ppf=ppf,
                                 size=self.size)
        return c(self.name)

    def hypernames(self):
        return {n: (lo, hi) for n, lo, hi in self.hyp.values()}

    def resolve(self, p):
        out = dict(self.args)
        for a, (n, lo, hi) in self.hyp.items():
            out[a] = p[n] + (self.args[a] if self.mode[a] == "func" else 0.0)
        return out

    # element-wise reference ------------------------------------------------
    def logpdf(self, x, p):
        """log density of the whole parameter (sum over elements)."""
        a = self.resolve(p)
        if self.kind == "NormalCov":
            return float(st.multivariate_normal(a["mu"], a["sigma"]).logpdf(x))
        n = self.size or 1
        x = np.ravel(x)
        out = 0.0
        for i in range(n):
            out += self.elem_logpdf(x[i], {k: (float(np.ravel(v)[i]) if np.ndim(v) else float(v)) for k, v in a.items()})
        return float(out)

    def elem_logpdf(self, x, a):
        k = self.kind
        with np.errstate(divide="ignore"):
            if k == "Uniform":
                return -np.log(a["pmax"] - a["pmin"]) if a["pmin"] <= x <= a["pmax"] else -np.inf
            if k == "Normal":
                return -0.5 * ((x - a["mu"]) / a["sigma"]) ** 2 - np.log(a["sigma"]) - 0.5 * np.log(2 * np.pi)
            if k == "TruncNormal":
                if not a["pmin"] < x < a["pmax"]:
                    return -np.inf
                z = st.norm.cdf((a["pmax"] - a["mu"]) / a["sigma"]) - st.norm.cdf((a["pmin"] - a["mu"]) / a["sigma"])
                return -0.5 * ((x - a["mu"]) / a["sigma"]) ** 2 - np.log(a["sigma"] * z) - 0.5 * np.log(2 * np.pi)
            if k == "LinearExp":
                if not a["pmin"] <= x <= a["pmax"]:
                    return -np.inf
                return np.log(np.log(10)) + x * np.log(10) - np.log(10.0 ** a["pmax"] - 10.0 ** a["pmin"])
            if k == "InvGamma":
                from scipy.special import gammaln

                if x <= 0:
                    return -np.inf
                return a["alpha"] * np.log(a["gamma"]) - gammaln(a["alpha"]) - (a["alpha"] + 1) * np.log(x) - a["gamma"] / x
            v = tri_pdf(x, a["pmin"], a["pmax"], a["peak"])
            return float(np.log(v))

    def elem(self, p, i):
        return {k: (float(np.ravel(v)[i]) if np.ndim(v) and np.size(v) > 1 else float(np.ravel(v)[0])) for k, v in self.resolve(p).items()}

    def support(self, p, i=0):
        a = self.elem(p, i)
        if "pmin" in a:
            return a["pmin"], a["pmax"]
        if self.kind == "InvGamma":
            return 0.0, np.inf
        return -np.inf, np.inf

    def ppf(self, u, p, i=0):
        a = self.elem(p, i)
        k = self.kind
        if k == "Uniform":
            return a["pmin"] + u * (a["pmax"] - a["pmin"])
        if k == "Normal":
            return a["mu"] + a["sigma"] * st.norm.ppf(u)
        if k == "TruncNormal":
            lo, hi = st.norm.cdf((a["pmin"] - a["mu"]) / a["sigma"]), st.norm.cdf((a["pmax"] - a["mu"]) / a["sigma"])
            return a["mu"] + a["sigma"] * st.norm.ppf(lo + u * (hi - lo))
        if k == "LinearExp":
            return np.log10(10.0 ** a["pmin"] + u * (10.0 ** a["pmax"] - 10.0 ** a["pmin"]))
        if k == "InvGamma":
            return a["gamma"] / st.gamma.ppf(1 - u, a["alpha"])
        return tri_ppf(u, a["pmin"], a["pmax"], a["peak"])

    def cdf(self, x, p, i=0):
        a = self.elem(p, i)
        k = self.kind
        if k == "Uniform":
            return (x - a["pmin"]) / (a["pmax"] - a["pmin"])
        if k == "Normal":
            return st.norm.cdf((x - a["mu"]) / a["sigma"])
        if k == "TruncNormal":
            lo, hi = st.norm.cdf((a["pmin"] - a["mu"]) / a["sigma"]), st.norm.cdf((a["pmax"] - a["mu"]) / a["sigma"])
            return (st.norm.cdf((x - a["mu"]) / a["sigma"]) - lo) / (hi - lo)
        if k == "LinearExp":
            return (10.0**x - 10.0 ** a["pmin"]) / (10.0 ** a["pmax"] - 10.0 ** a["pmin"])
        if k == "InvGamma":
            return st.gamma.sf(a["gamma"] / x, a["alpha"])
        return tri_cdf(x, a["pmin"], a["pmax"], a["peak"])

    has_ppf = property(lambda self: self.kind in ("Uniform", "Normal", "LinearExp", "User", "UserLog"))

    def typical(self, rng, p):
        """a value inside the support."""
        if self.kind == "NormalCov":
            return rng.multivariate_normal(self.args["mu"], self.args["sigma"])
        v = np.array([self.ppf(rng.uniform(0.02, 0.98), p, i) for i in range(self.size or 1)])
        return v if self.size else float(v[0])

    def desc(self):
        return (self.kind, self.size, self.vec, sorted(self.mode.items()))


def tri_pdf(value, pmin=0, pmax=1, peak=0.5):
    """triangular density."""
    value = np.asarray(value, dtype=float)
    up = 2 * (value - pmin) / ((pmax - pmin) * (peak - pmin))
    dn = 2 * (pmax - value) / ((pmax - pmin) * (pmax - peak))
    return np.where((value < pmin) | (value > pmax), 0.0, np.where(value < peak, up, dn))


def tri_logpdf(value, pmin=0, pmax=1, peak=0.5):
    with np.errstate(divide="ignore"):
        return np.log(tri_pdf(value, pmin, pmax, peak))


def tri_cdf(x, pmin, pmax, peak):
    x = np.asarray(x, dtype=float)
    return np.where(x < peak, (x - pmin) ** 2 / ((pmax - pmin) * (peak - pmin)), 1 - (pmax - x) ** 2 / ((pmax - pmin) * (pmax - peak)))


def tri_ppf(value, pmin=0, pmax=1, peak=0.5):
    value = np.asarray(value, dtype=float)
    f = (peak - pmin) / (pmax - pmin)
    return np.where(value < f, pmin + np.sqrt(value * (pmax - pmin) * (peak - pmin)), pmax - np.sqrt((1 - value) * (pmax - pmin) * (pmax - peak)))


def tri_sample(pmin=0, pmax=1, peak=0.5, size=None):
    return np.random.triangular(pmin, peak, pmax, size=size)


def _shifter():
    from enterprise.signals.parameter import function

    @function
    def shifted(base=None, shift=0.0, unused=None):
        return base + shift

    from enterprise.signals.parameter import Function

    def shifted2(base=0.0, shift=0.0):
        return base + shift

    return lambda **kw: Function(shifted2, **kw)
