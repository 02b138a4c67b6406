"""C24: assembly and inversion of the coefficient covariance."""
import itertools

import numpy as np
import scipy.sparse as sps

from .. import big, model as M, psr as P, ref
from . import c01

PROP = "C24"
RULE = ("array cases: random models (diagonal and dense priors, combined and separate columns, selections, timing models, 0-3 common signals on random subsets of 1-5 pulsars, every ORF, varying bases), columns of the "
        "code's bases matched with independently built ones, Phi compared block by block; every inversion method in random order and history against Phi itself; kernel cases: random sequences of add/set "
        "(slices, index lists, vectors, matrices) on the block matrix against a plain dense matrix; distinct = distinct model description or operation sequence")
ASSUMPTIONS = ["'partition' may refuse (NotImplementedError) common signals on different columns or subsets of pulsars and dense priors; it has to serve common signals that share all their columns", "scaled Phi with condition number above 1e10 is not inverted (monopole/dipole ORF times dense kernels)"]
REQUIRE = {"phi-block": 2000, "inverse": 500, "method:cliques": 200, "method:sparse": 150, "method:partition": 40, "partition-common": 60, "partition-several": 20, "partition-refused": 20, "kernel": 300, "cross-blocks": 300, "dense-common": 10}


def dense(x):
    if sps.issparse(x):
        return np.asarray(x.todense())
    x = np.asarray(x)
    return np.diag(x) if x.ndim == 1 else x


def blocks(m, i, p):
    """[(component, columns, prior)] of pulsar i, timing model included; common ones with auto-correlation."""
    q = m.psrs[i]
    out = []
    for c in m.comps[i]:
        if c.kind == "TM":
            if not c.marg:
                t = c.tm(q)
                out.append((c, t, np.diag(np.full(t.shape[1], 1e40))))
        elif c.common:
            F, phi = c.cblock(q, p)
            out.append((c, F, (np.diag(phi) if np.ndim(phi) == 1 else phi) * c.corr(q, q, p)))
        else:
            for _, F, phi in c.blocks(q, p):
                out.append((c, F, np.diag(phi) if np.ndim(phi) == 1 else phi))
    return [b for b in out if b[1].shape[1]]


def find(cols, v):
    """position of the first known column equal to v"""
    for a, u in enumerate(cols):
        if np.max(np.abs(u - v)) <= 1e-9 * max(np.max(np.abs(u)), np.max(np.abs(v))):
            return a
    return None


def unique(bl):
    """distinct columns and, for each block, the position of its columns."""
    cols, pos = [], []
    for _, F, _ in bl:
        ix = []
        for k in range(F.shape[1]):
            a = find(cols, F[:, k])
            if a is None:
                cols.append(F[:, k])
                a = len(cols) - 1
            ix.append(a)
        pos.append(ix)
    return cols, pos


def assign(ctx, T, cols, desc):
    """matrix that adds the code's columns onto the distinct ones."""
    A = np.zeros((T.shape[1], len(cols)))
    for k in range(T.shape[1]):
        a = find(cols, T[:, k])
        if not ctx.ok(a is not None, "column-known", "basis column {} belongs to no signal".format(k), model=desc):
            return None
        A[k, a] = 1
    ctx.ok(np.all(A.sum(axis=0) >= 1), "column-missing", "a signal's column is missing", model=desc)
    return A


def expected(m, p):
    """distinct columns per pulsar and Phi on them: {(i, j): matrix}"""
    bl = [blocks(m, i, p) for i in range(len(m.psrs))]
    un = [unique(b) for b in bl]
    out = {}
    for i in range(len(m.psrs)):
        n = len(un[i][0])
        X = np.zeros((n, n))
        for (c, F, phi), ix in zip(bl[i], un[i][1]):
            np.add.at(X, np.ix_(ix, ix), phi)
        out[i, i] = X
    for i, j in itertools.combinations(range(len(m.psrs)), 2):
        X = np.zeros((len(un[i][0]), len(un[j][0])))
        for c in m.comps[i]:
            if c.common and c in m.comps[j]:
                a = [k for k, b in enumerate(bl[i]) if b[0] is c][0]
                b = [k for k, b in enumerate(bl[j]) if b[0] is c][0]
                _, phi = c.cblock(m.psrs[i], p)
                np.add.at(X, np.ix_(un[i][1][a], un[j][1][b]), (np.diag(phi) if np.ndim(phi) == 1 else phi) * c.corr(m.psrs[i], m.psrs[j], p))
        out[i, j], out[j, i] = X, X.T
    return [u[0] for u in un], out


def correlated(m):
    n = {}
    for cs in m.comps:
        for c in cs:
            if c.common:
                n[c] = n.get(c, 0) + 1
    return [c for c in n if n[c] > 1]


def inverse(ctx, Phi, got, key, desc, method):
    X, ld = got
    X, Phi = dense(X), dense(Phi)
    if not ctx.ok(X.shape == Phi.shape, "inverse-shape", "{} {}".format(X.shape, Phi.shape)):
        return
    if Phi.size == 0:
        ctx.ok(float(ld) == 0, key + "-empty", repr(ld))
        return
    d = np.sqrt(np.diag(Phi))
    S = Phi / np.outer(d, d)
    w = np.linalg.eigvalsh(S)
    cond = w[-1] / max(w[0], 1e-300)
    if w[0] <= 0 or cond > 1e10:
        ctx.event("ill-conditioned-phi")
        return
    ctx.event("inverse")
    ctx.event("method:" + method)
    n = len(d)
    Y = X * np.outer(d, d)
    ctx.close(Y @ S, np.eye(n), key, rtol=0, atol=1e-13 * cond * n + 1e-11, msg=method, model=desc)
    ctx.close(Y, Y.T, key + "-symmetric", rtol=1e-13 * cond * n + 1e-11, msg=method, model=desc)
    ctx.close(float(ld), float(np.sum(np.log(w)) + 2 * np.sum(np.log(d))), key + "-logdet", rtol=0, atol=1e-13 * cond * n + 1e-9 * n, msg=method, model=desc)


def parts(phi, sizes):
    """(i, j) blocks of the full matrix, pulsars without columns included."""
    off = np.concatenate([[0], np.cumsum(sizes)]).astype(int)
    return lambda i, j: phi[off[i]:off[i + 1], off[j]:off[j + 1]]


def study(ctx, rng, m, points=3):
    desc = m.desc()
    com = correlated(m)
    ctx.sig(desc, [len(q.toas) for q in m.psrs])
    if any(c.basis == "dense" for c in com):
        ctx.event("dense-common")
    pta = m.pta()
    # 'partition' may refuse common signals with different columns or dense priors, but only those
    dn = any(c.kind == "FDENSE" for cs in m.comps for c in cs) or any(c.basis == "dense" for c in com)
    must = not dn and (len(com) == 1 or all(c.combine and c.basis == "red" and not c.vary and (c.nf, c.T, c.modes) == (com[0].nf, com[0].T, com[0].modes)
                                            and [c in cs for cs in m.comps] == [com[0] in cs for cs in m.comps] for c in com))
    methods = ["cliques", "sparse", "partition"]
    pts = [m.draw(rng) for _ in range(points)]
    for t in range(2 * points):
        p = pts[rng.randint(points)]
        if rng.rand() < 0.3:  # disturb the order: inversions in between
            try:
                pta.get_phiinv(pts[rng.randint(points)], logdet=bool(rng.rand() < 0.5), method=M.pick(rng, methods))
            except (NotImplementedError, np.linalg.LinAlgError):
                pass
        Ts = pta.get_basis(p)
        phi = pta.get_phi(p, cliques=True) if rng.rand() < 0.3 else pta.get_phi(p)
        cols, want = expected(m, p)
        ctx.ok(isinstance(phi, list) != bool(com), "phi-kind", "list for {} correlated signals".format(len(com)))
        sizes = [0 if T is None else T.shape[1] for T in Ts]
        As = [assign(ctx, T, c, desc) if T is not None else np.zeros((0, len(c))) for T, c in zip(Ts, cols)]
        if any(a is None for a in As):
            return
        if isinstance(phi, list):
            get = {(i, i): (np.zeros((0, 0)) if f is None else dense(f)) for i, f in enumerate(phi)}
        else:
            phi = dense(phi)
            if not ctx.ok(phi.shape == (sum(sizes),) * 2, "phi-shape", "{} for {}".format(phi.shape, sizes)):
                return
            ctx.ok(np.array_equal(phi, phi.T), "phi-symmetric", "not symmetric", model=desc)
            b = parts(phi, sizes)
            get = {(i, j): b(i, j) for i in range(len(sizes)) for j in range(len(sizes))}
        for (i, j), g in get.items():
            if not ctx.ok(g.shape == (sizes[i], sizes[j]), "phi-shape", "{} for {}".format(g.shape, sizes)):
                return
            w = want[i, j]
            if w.size == 0:
                continue
            s = np.sqrt(np.outer(np.diag(want[i, i]), np.diag(want[j, j])))
            ctx.event("phi-block")
            if i != j and np.any(w):
                ctx.event("cross-blocks")
            ctx.close((As[i].T @ g @ As[j]) / s, w / s, "phi-block" if i == j else "phi-cross", rtol=0, atol=1e-9, msg="pulsars {} {}".format(i, j), model=desc, params=p)
        for meth in [methods[k] for k in rng.permutation(len(methods))]:
            try:
                got = pta.get_phiinv(p, logdet=True, method=meth)
            except NotImplementedError as e:
                ctx.ok(meth == "partition" and not must, "partition-refused", repr(e), model=desc)
                ctx.event("partition-refused")
                continue
            if com and meth == "partition":
                ctx.event("partition-common")
                if len(com) > 1:
                    ctx.event("partition-several")
            nold = pta.get_phiinv(p, logdet=False, method=meth)
            if isinstance(phi, list):
                ctx.ok(len(got) == len(phi), "inverse-list")
                for f, gt, nl in zip(phi, got, nold):
                    if f is None:
                        ctx.ok(gt is None and nl is None, "inverse-none", repr(gt))
                        continue
                    inverse(ctx, f, gt, "inverse", desc, meth)
                    ctx.close(dense(nl), dense(gt[0]), "inverse-without-logdet", rtol=1e-12)
            else:
                inverse(ctx, phi, got, "inverse", desc, meth)
                ctx.close(dense(nold), dense(got[0]), "inverse-without-logdet", rtol=1e-9, msg=meth)
        # per pulsar
        for sc, i in zip(pta.pulsarmodels, range(len(sizes))):
            f = sc.get_phi(p)
            if f is None:
                ctx.ok(sizes[i] == 0, "pulsar-phi-none")
                continue
            g = get[i, i]
            ctx.close(dense(f), g, "pulsar-phi", rtol=1e-12)
            inverse(ctx, f, f.inv(logdet=True), "pulsar-inverse", desc, "kernel")
            ctx.close(dense(sc.get_phiinv(p)), dense(f.inv()), "pulsar-phiinv", rtol=1e-9, model=desc)
        ctx.raises(NotImplementedError, lambda: pta.get_phiinv(p, method="no such method"), "unknown-method")


def _fdense():
    from enterprise.signals.parameter import function

    @function
    def banded(f, log10_amp=-6, rho=0.5):
        s = 10**log10_amp * (f / f[0]) ** -1.5
        k = np.arange(len(f))
        return np.outer(s, s) * rho ** np.abs(k[:, None] - k[None, :])

    return banded


class FDENSE(M.GP):
    """Fourier basis with correlated coefficients: a dense prior on columns that other signals may share."""

    kind = "FDENSE"

    def __init__(self, nf, T, sel=None, combine=True, name="fd", off=0):
        self.nf, self.T, self.sel, self.combine, self.name, self.off = nf, T, sel, combine, name, off
        self.ps = [M.PS("log10_amp", -8, -6), M.PS("rho", -0.8, 0.8)]

    def build(self):
        from enterprise.signals import gp_signals as g, utils

        kw = dict(modes=self.modes()) if self.off is not None else dict(nmodes=self.nf)
        b = utils.createfourierdesignmatrix_red(Tspan=self.T, **kw)
        return g.BasisGP(_fdense()(**{s.kw: s.obj() for s in self.ps}), b, selection=M.sel_obj(self.sel), combine=self.combine, name=self.name)

    def modes(self):
        return np.arange(self.off + 1, self.off + self.nf + 1) / self.T

    def basis_ref(self, psr, mask, p, pre):
        f = ref.freqs(self.nf, self.T) if self.off is None else self.modes()
        return ref.fourier(psr.toas[mask], f), ref.rep(f)

    def prior_ref(self, lab, p, pre):
        s = 10 ** self.ps[0].get(p, pre) * (lab / lab[0]) ** -1.5
        rho = self.ps[1].get(p, pre)
        return np.array([[s[i] * s[j] * rho ** abs(i - j) for j in range(len(s))] for i in range(len(s))])


def fixtm(m):
    for cs in m.comps:
        for c in cs:
            if c.kind == "TM" and c.form == "svd":
                c.form = "normed"
            if c.kind == "TM":
                c.marg = bool(c.marg)
    return m


def psrs(rng, n):
    return [P.plain(rng, "J%04d" % k, n=rng.randint(6, 16), npar=rng.randint(1, 4), cluster=rng.choice([0, 2.5]), sort=rng.rand() < 0.7) for k in range(n)]


def array(ctx, rng):
    qs = psrs(rng, rng.randint(1, 5))
    m = fixtm(M.random_model(rng, qs, common=rng.randint(0, 4), per_psr=rng.rand() < 0.5, det=False, marg=True))
    study(ctx, rng, m)


def overlap(ctx, rng):
    """Several common signals on random subsets of pulsars, sharing columns with each other and with
    each pulsar's own signals, next to dense priors."""
    qs = psrs(rng, rng.randint(2, 6))
    T = 5 * M.YR
    com = []
    for k in range(rng.randint(1, 5)):
        b = M.pick(rng, ["red", "red", "red", "chrom", "dense"])
        orfs = ["hd", "user"] if b == "dense" else ["hd", "dipole", "mono", "user"]
        com.append(M.CGP(rng.randint(2, 5), M.pick(rng, ["pl", "fs"]), M.pick(rng, orfs), T=T, combine=bool(rng.rand() < 0.8), basis=b, vary=rng.rand() < 0.3, name="gw%d" % k))
    comps = []
    prob = M.pick(rng, [0.75, 0.4, 1.0])
    fd = M.pick(rng, [0.0, 0.4])
    for i in range(len(qs)):
        cs = [M.MN()]
        if rng.rand() < fd:
            for k in range(rng.randint(1, 5)):
                off = M.pick(rng, [None, rng.randint(0, 5), rng.randint(0, 5)])
                cs.append(FDENSE(rng.randint(1, 4), T, M.pick(rng, [None, None, None, "half"]), bool(rng.rand() < 0.85), "fd%d" % k, off))
        for k in range(rng.randint(0, 3)):
            cs.append(M.RN(rng.randint(1, 6), M.pick(rng, ["pl", "fs"]), M.pick(rng, [None, None, "backend"]), T, combine=bool(rng.rand() < 0.8), name="r%d" % k))
        if rng.rand() < 0.3:
            cs.append(M.CHROM(3, "pl", None, T, vary=False, name="ch"))
        if rng.rand() < 0.35:
            cs.append(M.DENSE(rng.uniform(300, 500) * 86400, M.pick(rng, [None, "half"]), name="se"))
        if rng.rand() < 0.4:
            cs.append(M.TM(M.pick(rng, ["normed", "unnormed"])))
        cs += [c for c in com if rng.rand() < prob]
        cs = [cs[k] for k in rng.permutation(len(cs))]
        M.fix_spans([qs[i]], cs, T)
        comps.append(cs)
    if not any(c.kind not in ("MN",) for cs in comps for c in cs):
        comps[0].append(com[0])
    study(ctx, rng, M.Model(qs, comps))


def partition(ctx, rng):
    qs = psrs(rng, rng.randint(2, 6))
    T = 5 * M.YR
    ng = M.pick(rng, [1, 1, 2, 3])
    nf = rng.randint(1, 6)
    comb = bool(rng.rand() < 0.7) or ng > 1
    gws = [M.CGP(nf, M.pick(rng, ["pl", "fs", "to"]), M.pick(rng, ["hd", "dipole", "mono", "user"]), T=T, combine=comb, name="gw%d" % k) for k in range(ng)]
    inn = [rng.rand() < 0.8 for _ in qs]
    inn[0] = inn[1] = True
    comps = []
    for i in range(len(qs)):
        cs = [M.MN()] + (gws if inn[i] else [])
        for k in range(rng.randint(0, 3)):
            cs.append(M.RN(rng.randint(1, 7), M.pick(rng, ["pl", "fs"]), M.pick(rng, [None, None, "backend"]), T, combine=bool(rng.rand() < 0.8), name="r%d" % k))
        if rng.rand() < 0.4:
            cs.append(M.TM(M.pick(rng, ["normed", "unnormed"])))
        comps.append([cs[k] for k in rng.permutation(len(cs))])
    study(ctx, rng, M.Model(qs, comps))


def merged(rng):
    """Dense priors of several pulsars, wider than the common signals that tie them together: the
    coupling is transitive."""
    qs = psrs(rng, rng.randint(3, 6))
    T = 5 * M.YR
    com = [M.CGP(rng.randint(1, 3), M.pick(rng, ["pl", "fs"]), M.pick(rng, ["hd", "user"]), T=T, name="gw%d" % k) for k in range(rng.randint(1, 3))]
    comps = []
    for i in range(len(qs)):
        cs = [M.MN()]
        if rng.rand() < 0.85:
            cs.append(FDENSE(rng.randint(2, 6), T, None, True, "fd", rng.randint(0, 2)))
        if rng.rand() < 0.4:
            cs.append(FDENSE(rng.randint(2, 5), T, None, True, "fe", rng.randint(0, 4)))
        if rng.rand() < 0.4:
            cs.append(M.RN(rng.randint(1, 6), "pl", None, T, name="r"))
        if rng.rand() < 0.3:
            cs.append(M.TM("normed"))
        cs += [c for c in com if rng.rand() < 0.9]
        comps.append([cs[k] for k in rng.permutation(len(cs))])
    comps[0].append(com[0]) if com[0] not in comps[0] else None
    comps[1].append(com[0]) if com[0] not in comps[1] else None
    return M.Model(qs, comps)


def merge(ctx, rng):
    study(ctx, rng, merged(rng), points=2)


def many(ctx, rng):
    """Ten to twenty-five pulsars."""
    m = big.array(rng)
    ctx.event("big-array", len(m.psrs))
    study(ctx, rng, fixtm(m), points=1)


def kernel(ctx, rng):
    """Sequences of additions of blocks against a dense matrix."""
    from enterprise.signals import utils

    n = rng.randint(2, 24)
    K = utils.KernelMatrix(n)
    base = 10.0 ** rng.uniform(-2, 2, n)
    D = np.zeros((n, n))
    ops = []
    if rng.rand() < 0.5:
        K = K.set(base, slice(0, n))
    else:
        K = K.add(base, np.arange(n))
    D += np.diag(base)
    for _ in range(rng.randint(0, 9)):
        size = rng.randint(1, min(n, 6) + 1)
        if rng.rand() < 0.5:
            a = rng.randint(0, n - size + 1)
            idx = slice(a, a + size)
            ii = np.arange(a, a + size)
        else:
            ii = rng.permutation(n)[:size]
            idx = ii.copy()
        u = rng.rand()
        if u < 0.35:
            v = 10.0 ** rng.uniform(-2, 2, size)
            K = K.add(v, idx)
            D[ii, ii] += v
            ops.append(("add1", size))
        elif u < 0.85 or np.any(D[ii] - np.diag(np.diag(D))[ii]):
            A = rng.randn(size, size + 2) * 10.0 ** rng.uniform(-1, 1, size)[:, None]
            B = A @ A.T
            K = K.add(B, idx)
            D[np.ix_(ii, ii)] += B
            ops.append(("add2", size))
        elif u < 0.95:  # overwrite uncoupled diagonal elements
            v = 10.0 ** rng.uniform(-2, 2, size)
            K = K.set(v, idx)
            D[ii, ii] = v
            ops.append(("set1", size))
        else:  # overwrite indices that nothing else is coupled with
            A = rng.randn(size, size + 2)
            B = A @ A.T + np.eye(size)
            K = K.set(B, idx)
            D[np.ix_(ii, ii)] = B
            ops.append(("set2", size))
        ctx.event("kernel")
        ctx.close(dense(K), D, "kernel", rtol=1e-12, ops=ops)
    ctx.sig(n, ops)
    if K.ndim == 1:
        ctx.event("stayed-diagonal")
    inverse(ctx, D, K.inv(logdet=True), "kernel-inverse", ops, "kernel")
    ctx.close(dense(K.inv()), dense(K.inv(logdet=True)[0]), "kernel-inverse-without-logdet", rtol=1e-12)
    ctx.close(dense(K), D, "kernel-unchanged", rtol=1e-12)


SCENARIOS = {"array": (array, 120, 3000), "overlap": (overlap, 150, 4000), "partition": (partition, 90, 2000), "merge": (merge, 60, 1500), "kernel": (kernel, 250, 8000), "many": (many, 8, 150)}
