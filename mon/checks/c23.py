"""C23: epoch quantisation."""
import numpy as np

from .. import model as M, psr as P, ref
from . import c01

PROP = "C23"
RULE = ("direct cases: TOA sequences (sorted, reversed, shuffled, tied, spaced exactly at / just inside / just outside dt, chained, huge or integer or negative, empty, single) x dt x nmin, the matrix and both index forms against a greedy "
        "reference and against the defining constraints, order and shift relations; signal cases: the ECORR basis, kernel (every method) and epoch-averaged ephemeris delay on unsorted pulsars with selections, "
        "their coupling pattern against the reference epochs of the selected TOAs; distinct = distinct (sequence, dt, nmin) content")
ASSUMPTIONS = ["TOAs are finite and dt is positive", "slices are only asked of matrices whose epochs have at least one TOA"]
REQUIRE = {"quantise": 2000, "indices": 4000, "coupling": 150, "boundary": 300}


def sequence(rng, dt):
    n = M.pick(rng, [0, 1, 2, 3, rng.randint(4, 12), rng.randint(4, 60), rng.randint(50, 400)])
    step = dt if dt > 0 else 1.0
    c = rng.randint(0, 8)
    base = M.pick(rng, [0.0, 4.6e9, 53000 * 86400.0, -1e6, 1e3])
    if c == 0:
        t = base + rng.uniform(0, n * step, n)
    elif c == 1:  # clusters
        t = base + rng.randint(0, max(1, n // 3) + 1, n) * step * 50 + rng.uniform(0, 1.6 * step, n)
    elif c == 2:  # exact multiples of dt/4: many exact boundaries
        t = np.floor(base) + rng.randint(0, 3 * n + 1, n) * (step / 4.0)
    elif c == 3:  # chain: every gap below dt although the whole span is far larger
        t = base + np.cumsum(rng.uniform(0.3, 0.95, n) * step)
    elif c == 4:  # one ulp around the boundary
        t = np.repeat(np.floor(base) + np.arange((n + 1) // 2) * 100.0 * step, 2)[:n].astype(float)
        k = np.arange(n) % 2 == 1
        t[k] += step
        w = rng.randint(-1, 2, n)
        t = np.where(k & (w > 0), np.nextafter(t, np.inf), np.where(k & (w < 0), np.nextafter(t, -np.inf), t))
    elif c == 5:  # all tied
        t = np.full(n, base)
    elif c == 6:
        t = (int(base) + rng.randint(0, 5 * n + 1, n)).astype(int)
    else:  # heavy ties between separate epochs
        t = base + M.pick(rng, [1.0, 10.0, 1e4]) * step * rng.randint(0, n + 1, n)
    o = rng.randint(0, 4)
    if o == 0:
        t = np.sort(t)
    elif o == 1:
        t = np.sort(t)[::-1].copy()
    else:
        t = t[rng.permutation(n)]
    return t


def check(ctx, t, dt, nmin, U, w, key=""):
    """U against the reference and, independently, against the defining constraints."""
    n = len(t)
    eps = ref.epochs(t, dt, nmin)
    want = np.zeros((n, len(eps)))
    for j, e in enumerate(eps):
        want[e, j] = 1.0
    d = dict(toas=t, dt=dt, nmin=nmin)
    if not ctx.ok(U.shape == want.shape, "epoch-count" + key, "{} expected {}".format(U.shape, want.shape), **d):
        return None
    ctx.same(np.asarray(U, float), want, "quantise" + key, "matrix differs from the greedy partition", **d)
    ctx.ok(np.array_equal(w, np.ones(len(eps))), "weights" + key, repr(w), **d)
    # constraints
    ctx.ok(np.all((U == 0) | (U == 1)) and np.all(U.sum(axis=1) <= 1), "disjoint" + key, "a TOA is in two epochs", **d)
    ctx.ok(np.all(U.sum(axis=0) >= max(nmin, 1)), "nmin" + key, "epoch too small", **d)
    first = [t[U[:, j] > 0].min() for j in range(U.shape[1])]
    ctx.ok(all(a < b or (dt == 0 and a <= b) for a, b in zip(first, first[1:])), "time-order" + key, "epochs are not in time order", **d)
    for j, f in enumerate(first):
        ctx.ok(dt == 0 or t[U[:, j] > 0].max() - f < dt, "span" + key, "epoch too long", **d)
    for a, b in zip(first, first[1:]):
        ctx.ok(b - a >= dt, "separate" + key, "epochs closer than dt", **d)
    if nmin <= 1:
        ctx.ok(np.all(U.sum(axis=1) == 1), "cover" + key, "a TOA is in no epoch", **d)
    return eps


def indices(ctx, U, eps, **d):
    from enterprise.signals import utils

    n = U.shape[0]
    for as_slice in (False, True):
        ctx.event("indices")
        got = utils.quant2ind(U, as_slice=as_slice) if as_slice or len(eps) % 2 else utils.quant2ind(U)
        if not ctx.ok(len(got) == len(eps), "index-count", "{} lists for {} epochs".format(len(got), len(eps)), **d):
            continue
        for g, e in zip(got, eps):
            sel = np.arange(n)[g]
            ctx.ok(np.array_equal(sel, e), "indices", "selects {} instead of {}".format(sel, e), slices=as_slice, **d)
            contiguous = e[-1] - e[0] + 1 == len(e)
            ctx.ok(isinstance(g, slice) == bool(as_slice and contiguous), "index-form", repr(g), slices=as_slice, **d)
            ctx.ok(np.array_equal(utils.indices_from_slice(g), e), "indices-from-slice", "{} for {}".format(utils.indices_from_slice(g), g), **d)


def direct(ctx, rng):
    from enterprise.signals import utils

    for _ in range(10):
        dt = M.pick(rng, [1, 1.0, 10.0, 0.25, 86400.0, 3.7, 1000, 0.001, 30 * 86400, 3.2e7])
        nmin = M.pick(rng, [1, 2, 2, 3, 5, 0])
        t = sequence(rng, float(dt))
        if rng.rand() < 0.2:  # columns of an inflated pulsar cannot be written
            t.flags.writeable = False
        elif rng.rand() < 0.2:
            t = np.repeat(t, 2)[::2]
        t_in = t.copy()
        ctx.sig(t.tobytes(), dt, nmin)
        ctx.event("quantise")
        kw = {}
        if dt != 1 or rng.rand() < 0.5:
            kw["dt"] = dt
        if nmin != 2 or rng.rand() < 0.5:
            kw["nmin"] = nmin
        U, w = utils.create_quantization_matrix(t, **kw)
        ctx.ok(np.array_equal(t, t_in), "input-untouched")
        s = np.sort(t)
        if dt > 0 and np.any(np.diff(s) == dt):
            ctx.event("boundary")
        eps = check(ctx, t, dt, nmin, U, w)
        if eps is None:
            continue
        indices(ctx, U, eps, toas=t, dt=dt, nmin=nmin)
        if dt == 0 or len(t) == 0:
            continue
        # order of the TOAs: rows follow their TOA
        perm = rng.permutation(len(t))
        V, _ = utils.create_quantization_matrix(t[perm], dt=dt, nmin=nmin)
        ctx.ok(V.shape == U.shape and np.array_equal(V, U[perm]), "order-independent", "a permutation changed the epochs", toas=t, dt=dt, nmin=nmin)
        # nested: larger nmin only drops epochs
        V, _ = utils.create_quantization_matrix(t, dt=dt, nmin=1)
        keep = V.sum(axis=0) >= nmin
        ctx.ok(np.array_equal(V[:, keep], U), "nmin-only-drops", toas=t, dt=dt, nmin=nmin)


def ecorr_psr(rng):
    q = c01.psr(rng, lo=6, hi=60)
    if rng.rand() < 0.4:  # exact boundaries and chains
        n = len(q.toas)
        q.toas = (53000 * 86400.0 + rng.randint(0, 2 * n, n) * 0.5 + rng.randint(0, 3, n) * 1e7)[rng.permutation(n)]
    return q


def coupling(ctx, rng):
    """The signals that use epochs couple exactly the TOAs of one epoch of one selection."""
    from enterprise.signals import gp_signals as g, parameter as pm, signal_base as sb, white_signals as w

    q = ecorr_psr(rng)
    sel = M.pick(rng, [None, "backend", "half", "band", "telescope"])
    mk = M.pick(rng, ["basis"] + M.METHODS)
    ctx.sig(mk, sel, q.toas.tobytes())
    masks = ref.masks(sel, q)
    n = len(q.toas)
    want = np.zeros((n, n))
    sizes = {}
    cols = []
    for k in sorted(masks):
        idx = np.flatnonzero(masks[k])
        eps = ref.epochs(q.toas[idx], 1.0, 2)
        sizes[k] = len(eps)
        for e in eps:
            v = np.zeros(n)
            v[idx[e]] = 1
            cols.append(v)
    val = {}
    j = 0
    for i, k in enumerate(sorted(masks)):
        val[k] = -6.0 - 0.3 * i
        for _ in range(sizes[k]):
            want += 10.0 ** (2 * val[k]) * np.outer(cols[j], cols[j])
            j += 1
    ctx.event("coupling")
    if mk == "basis":
        s = sb.SignalCollection([g.EcorrBasisModel(log10_ecorr=pm.Uniform(-9, -5), selection=M.sel_obj(sel))])(q)
        p = {x.name: val[next(k for k in val if "basis_ecorr_" + (k + "_" if k else "") + "log10" in x.name)] for x in s.params}
        F = s.get_basis(p)
        if not cols:
            ctx.ok(F is None or F.shape[1] == 0, "coupling-none", repr(F))
            return
        ctx.same(np.asarray(F), np.array(cols).T, "coupling-basis", "basis columns are not the epochs")
        phi = s.get_phi(p)
        ctx.close(F @ np.diag(phi) @ F.T, want, "coupling", rtol=1e-10, method=mk, sel=sel)
        return
    s = (w.MeasurementNoise(efac=pm.Constant(1.0)) + w.EcorrKernelNoise(log10_ecorr=pm.Uniform(-9, -5), selection=M.sel_obj(sel), method=mk))(q)
    p = {}
    for x in s.params:
        mid = x.name[len(q.name):-len("log10_ecorr")].strip("_")
        p[x.name] = val[mid]
    ctx.ok(len(p) == len(masks), "coupling-params", repr(sorted(p)))
    N = s.get_ndiag(p)
    X = rng.randn(n, 3)
    full = want + np.diag(q.toaerrs**2)
    inv = np.linalg.inv(full)
    got = np.asarray(N.solve(X[:, 0], left_array=X))
    sc = np.abs(X).T @ np.abs(inv) @ np.abs(X[:, 0])
    ctx.close(got, X.T @ inv @ X[:, 0], "coupling", rtol=1e-8, scale=float(np.max(sc)), method=mk, sel=sel)
    # the quadratic form of one epoch's indicator sees that epoch only
    for c in cols[:5]:
        ctx.close(float(N.solve(c, left_array=c)), c @ inv @ c, "coupling-epoch", rtol=1e-8, method=mk, sel=sel)


SCENARIOS = {"direct": (direct, 400, 20000), "coupling": (coupling, 300, 5000)}
