"""C04: noise matrices against the dense matrix."""
import numpy as np
import scipy.linalg as sl

from .. import big, model as M, psr as P, ref
from .c01 import nudge

PROP = "C04"
RULE = ("a case is a pulsar with random epoch structure (unsorted, ties, singleton and interleaved-backend epochs, epochs of exactly 1 s) and random "
        "white-noise components; every method and operand shape is solved and compared with the dense matrix; distinct = components, method and epoch structure")
ASSUMPTIONS = ["ShermanMorrison without left operand on matrices raises NotImplementedError by documentation",
               "selections of ECORR partition the TOAs"]
REQUIRE = {"solve": 2000, "epochs>=2": 200, "no-epoch": 10, "big-toas": 3000}


def epochpsr(rng, n=None):
    """TOAs whose epochs are hostile: spacing close to 1 s, ties, long chains."""
    n = rng.randint(3, 45) if n is None else n
    q = P.plain(rng, n=n, npar=2, cluster=rng.choice([0, 2, 5]), nback=rng.randint(1, 4))
    if rng.rand() < 0.6:
        t, out = 53000 * 86400.0, []
        while len(out) < n:
            u = rng.rand()
            t += rng.choice([0.0, 0.25, 0.5, 0.75, 1.0, 1.25, 2.0]) if u < 0.7 else rng.uniform(3, 5e6)
            out.append(t)
        q.toas = np.array(out)
    if rng.rand() < 0.5:
        q.toas = q.toas[rng.permutation(n)]
    return q


def wide(rng, comps, span=3.0):
    """Parameters over many orders of magnitude."""
    for c in comps:
        for s in c.ps:
            if s.kw == "efac":
                s.lo = 10.0 ** rng.uniform(-span, span)
                s.hi = 3 * s.lo
            else:
                s.lo = rng.uniform(-7 - 2 * span, -7 + 2 * span)
                s.hi = s.lo + 1


def rescale(rng, q, comps):
    """The same problem in other units."""
    e = rng.uniform(-5, 6)
    q.toaerrs = q.toaerrs * 10.0**e
    for c in comps:
        for s in c.ps:
            if s.kw != "efac":
                s.lo, s.hi = s.lo + e, s.hi + e


def vecs(rng, n):
    X = rng.randn(n, rng.randint(1, 5))
    return dict(x=rng.randn(n), y=rng.randn(n), X=X, Z=rng.randn(n, rng.randint(1, 4)))


def check_solve(ctx, nd, K, v, twod=True, **d):
    Ki = np.linalg.inv(K)
    ld = np.linalg.slogdet(K)[1]
    tol = 1e-10 + 2 * np.finfo(float).eps * np.linalg.cond(K)  # both sides are accurate to the conditioning of the matrix
    x, y, X, Z = v["x"], v["y"], v["X"], v["Z"]
    cases = {"x": (x, None), "x.x": (x, x), "y.x": (x, y), "Z.x": (x, Z), "y.X": (X, y), "X.X": (X, X), "Z.X": (X, Z)}
    if twod:
        cases["X"] = (X, None)
    for name, (r, l) in cases.items():
        w = Ki @ r
        if l is not None:
            w = l.T @ w if not (l.ndim == 1 and r.ndim == 2) else r.T @ (Ki @ l)
        ctx.event("solve")
        got = nd.solve(r) if l is None else nd.solve(r, left_array=l)
        sc = np.max(np.abs(Ki)) * np.max(np.abs(r)) * (len(x) * np.max(np.abs(l)) if l is not None else 1)
        ctx.close(np.asarray(got), w, "solve:" + name, rtol=tol, scale=sc, **d)
        got, gl = nd.solve(r, left_array=l, logdet=True)
        ctx.close(np.asarray(got), w, "solve+logdet:" + name, rtol=tol, scale=sc, **d)
        ctx.close(gl, ld, "logdet", rtol=1e-11, atol=1e-9 + tol - 1e-10, scale=abs(ld) + len(x), **d)


def kernel(ctx, rng):
    q = epochpsr(rng)
    comps = [M.MN(M.pick(rng, M.SELS + ["telescope", "overlap"]), t2=rng.rand() < 0.5)]
    if rng.rand() < 0.4:
        comps.append(M.TNEQ(M.pick(rng, M.SELS)))
    ec = M.EC(M.pick(rng, [None, "backend", "half", "band"]), "block", name=M.pick(rng, ["", "e"]))
    if comps[0].sel == "overlap":  # leave no TOA without measurement noise
        comps.append(M.TNEQ(None, name="floor"))
    if rng.rand() < 0.2:
        rescale(rng, q, comps + [ec])
    struct = [[len(g) for g in ref.epochs(q.toas[m])] for m in ref.masks(ec.sel, q).values()]
    ctx.event("epochs>=2" if any(struct) else "no-epoch")
    methods = M.METHODS
    v = vecs(rng, len(q.toas))
    orig = {k: a.copy() for k, a in v.items()}
    p = None
    for meth in methods:
        ec.method = meth
        order = [comps + [ec], [ec] + comps][rng.randint(2)]
        m = M.Model([q], order)
        pta = m.pta()
        for rep in range(3):
            if p is None or rep:
                p = nudge(rng, m, p)
            K = m.N(0, p)
            nd = pta.get_ndiag(p)[0]
            ctx.sig(meth, [c.desc() for c in order], struct)
            check_solve(ctx, nd, K, v, twod="sherman" not in meth, method=meth, comps=[c.desc() for c in order], struct=struct)
            ctx.ok(all(np.array_equal(v[k], orig[k]) for k in v), "operands-unchanged", "solve modified its operands", method=meth)


def large(ctx, rng):
    """Hundreds of TOAs of many systems."""
    q = big.pulsar(rng, n=rng.randint(200, 900), npar=2)
    comps = [M.MN("backend", t2=rng.rand() < 0.6)] + ([M.TNEQ("backend")] if rng.rand() < 0.5 else [])
    ec = M.EC(M.pick(rng, [None, "backend", "backend", "half"]), M.pick(rng, M.METHODS))
    m = M.Model([q], comps + [ec])
    p = m.draw(rng)
    ctx.event("big-toas", len(q.toas))
    ctx.sig(m.desc(), len(q.toas))
    check_solve(ctx, m.pta().get_ndiag(p)[0], m.N(0, p), vecs(rng, len(q.toas)), twod="sherman" not in ec.method, comps=m.desc())


def diagonal(ctx, rng):
    q = epochpsr(rng)
    comps = [M.MN(M.pick(rng, M.SELS + ["telescope"]), t2=rng.rand() < 0.5)] + ([M.TNEQ(M.pick(rng, M.SELS + ["overlap"]))] if rng.rand() < 0.6 else [])
    if rng.rand() < 0.5:
        wide(rng, comps)
        q.toaerrs = q.toaerrs * 10.0 ** rng.uniform(-4, 4)
    M.vary_params(rng, comps)
    m = M.Model([q], comps)
    pta = m.pta()
    v = vecs(rng, len(q.toas))
    p = None
    for _ in range(3):
        p = nudge(rng, m, p)
        K = m.N(0, p)
        nd = pta.get_ndiag(p)[0]
        ctx.sig([c.desc() for c in comps], len(q.toas))
        ctx.close(np.asarray(nd), np.diag(K), "variance", rtol=1e-12)
        check_solve(ctx, nd, K, v, comps=m.desc())


def basis(ctx, rng):
    """EcorrBasisModel is the kernel."""
    q = epochpsr(rng)
    sel = M.pick(rng, [None, "backend", "half", "band"])
    b, e = M.ECB(sel), M.EC(sel, M.pick(rng, M.METHODS))
    mb, me = M.Model([q], [M.MN(), b]), M.Model([q], [M.MN(), e])
    pb, pe = mb.pta(), me.pta()
    x = None
    for _ in range(3):
        x = nudge(rng, me, x)
        y = dict(x)
        for (nb, _), (ne, _) in zip(b.params(q), e.params(q)):
            y[nb] = x[ne]
        T, phi = pb.get_basis(y)[0], pb.get_phi(y)[0]
        ctx.event("basis-equivalence")
        K = np.dot(T * phi, T.T) if T is not None and T.shape[1] else np.zeros((len(q.toas),) * 2)
        want = e.N(q, x)
        ctx.sig(sel, e.method, len(q.toas), np.count_nonzero(want))
        ctx.close(K, want, "basis-kernel", rtol=1e-12)
        ctx.close(float(pb.get_lnlikelihood(y)), me.lnl(x), "basis-lnl", rtol=1e-8, atol=1e-6)
        ctx.close(float(pe.get_lnlikelihood(x)), me.lnl(x), "kernel-lnl", rtol=1e-8, atol=1e-6)


def constants(ctx, rng):
    """Module-level variance functions at given arguments."""
    from enterprise.signals import white_signals as w

    n = rng.randint(1, 20)
    s = 10 ** rng.uniform(-8, -5, n)
    e, q = rng.uniform(0.1, 5), rng.uniform(-9, -5)
    ctx.event("functions")
    ctx.sig(n, e)
    ctx.close(w.efac_ndiag(s, efac=e), (e * s) ** 2, "efac_ndiag", rtol=1e-13)
    ctx.close(w.combined_ndiag(s, efac=e, log10_t2equad=q), e * e * (s * s + (10**q) ** 2), "combined_ndiag", rtol=1e-13)
    ctx.close(w.tnequad_ndiag(s, log10_tnequad=q), np.full(n, (10**q) ** 2), "tnequad_ndiag", rtol=1e-13)
    ctx.raises(NotImplementedError, lambda: w.EquadNoise(), "EquadNoise-removed")
    ctx.raises(TypeError, lambda: w.EcorrKernelNoise(method="cholesky"), "unknown-method")


SCENARIOS = {"kernel": (kernel, 800, 8000), "diagonal": (diagonal, 400, 4000), "basis": (basis, 400, 4000), "functions": (constants, 20, 100), "large": (large, 16, 200)}
