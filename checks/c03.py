"""Stein thinning: every selection minimises the documented regularised objective.

A symbolic table stands for any Stein kernel on any dataset; the score's Jacobian is symbolic too.
"""

from checks.common import *  # noqa: F403
from checks.c01 import common
from jaxsmt.harness import Scenario

from coreax.kernels import SquaredExponentialKernel, SteinKernel
from coreax.score_matching import KernelDensityMatching
from coreax.solvers import SteinThinning

FUNCS = ["coreax.solvers.SteinThinning.reduce", "coreax.solvers.SteinThinning.refine",
         "coreax.solvers.coresubset._greedy_kernel_selection", "coreax.score_matching.convert_stein_kernel",
         "coreax.kernels.SteinKernel.compute_elementwise", "coreax.kernels.ScalarValuedKernel.compute_mean"]
ASSUMPTIONS = ["exact real arithmetic in place of float32", "the Stein kernel is symmetric",
               "jax.scipy.stats.gaussian_kde is run concretely, on fixed points"]


def oracle(B, K, lap, lp, lam, idx, n, unique, start, flags, replaced=None):
    cur = list(start)
    for t, chosen in enumerate(idx):
        others = [c for s, c in enumerate(cur) if c is not None and s != t]
        banned = set(others) if unique else set()
        cand = [c for c in range(n) if flags[c] and c not in banned]
        B.true(f"step {t} picks an admissible point", chosen in cand or not cand)
        if not cand:
            return

        def obj(c):
            return K[c, c] + lap[c] - B.const(float((t + 1) * lam * lp[c])) + 2 * osum(K[c, o] for o in others)

        for c in cand:
            if c != chosen:
                B.le(f"step {t}: objective(chosen) <= objective({c})", obj(chosen), obj(c), tol=Fraction(1, 10**4))
        if t < len(cur):
            cur[t] = chosen
        else:
            cur.append(chosen)


def thin(n, m, unique=True, regularise=True, lam=None, w=None, bs=None, init=None, initw=None, d=1, jac=True, bw=None,
         sup=False, tier="quick"):
    wn = np.ones(n) if w is None else np.array(w, float)
    flags = [x > 0 for x in wn]

    def f(B):
        K = B.symmetric("K", n, lo=-8, hi=8)
        pts = index_points(n, d)
        if d > 1:
            pts[:, 1:] = np.array([[(3 * i * i + 2 * q + i) % 5 / 2 for q in range(d - 1)] for i in range(n)])
        J = oarr(np.full((n, d, d), B.const(0)))
        if jac:
            for i in range(n if d == 1 else 1):
                J[i] = B.reals(f"J{i}", (d, d), lo=-2, hi=2)

        def code(K, J, x, w):
            k = TableStein(SquaredExponentialKernel(), TableScore(jnp.zeros((n, d)), J), K)
            s = SteinThinning(m, k, unique=unique, regularise=regularise, regulariser_lambda=lam, block_size=bs,
                              kde_bw_method=bw)
            data = SupervisedData(x, x, w) if sup else Data(x, w)
            if init is None:
                c, _ = s.reduce(data)
            else:
                c0 = Coresubset(Data(jnp.array(init, jnp.int32), jnp.array(initw, jnp.float32)), data)
                c, _ = s.refine(c0)
            return c.unweighted_indices, c.indices.weights

        idx, cw = B.run(code, K, J, pts, wn.astype(np.float32))
        idx = common(B, idx, n, m, unique, flags)
        B.eq("coreset weights are uniform", cw, oarr([B.const(1)] * m))
        if regularise:
            lp = kde_logpdf(pts, wn, pts, None if bw is None else float(bw))
            size = m if init is None else len(init)
            la = lam if lam is not None else 1 / size
            lap = [osum(B.max(J[i, q, q], B.const(0)) for q in range(d)) if jac else B.const(0) for i in range(n)]
        else:
            lp, la, lap = np.zeros(n), 0.0, [B.const(0)] * n
        start = [] if init is None else [i if v > 0 else None for i, v in zip(init, initw)]
        oracle(B, K, lap, lp, la, idx, n, unique, start, flags)

    nm = (f"thin n={n} m={m} unique={unique} regularise={regularise} lambda={lam} w={w} block={bs} init={init} "
          f"initw={initw} d={d} jac={jac} bw={bw} sup={sup}")
    return Scenario(nm, f, f"n={n}, m={m}, any symmetric Stein Gram matrix and score Jacobian", FUNCS, tier=tier,
                    weight=n**m)


def integrated(n, m, matching, w=None, tier="quick"):
    """The Stein kernel is built by the solver from a base kernel and a score function."""
    wn = np.ones(n) if w is None else np.array(w, float)

    def f(B):
        # symmetric one-dimensional jets: gx[i, j] = gy[j, i]
        k = B.symmetric("k", n, lo=-4, hi=4)
        dv = B.symmetric("dv", n, lo=-4, hi=4)
        gx = B.reals("gx", (n, n, 1), lo=-4, hi=4)
        gy = np.empty((n, n, 1), dtype=object)
        for i in range(n):
            for j in range(n):
                gy[i, j, 0] = gx[j, i, 0]
        pts = points(n)

        def code(k, gx, gy, dv, x, w):
            base = JetKernel(k, gx, gy, dv)
            score = TableScore(jnp.array([[0.5], [-1.0], [2.0], [1.0]])[:n], jnp.zeros((n, 1, 1)))
            kern = {"stein": lambda: SteinKernel(base, score), "default": lambda: base, "match": lambda: base,
                    "override": lambda: SteinKernel(base, score)}[matching]()
            sm = KernelDensityMatching(0.8) if matching in ("match", "override") else None
            s = SteinThinning(m, kern, score_matching=sm, regularise=False)
            c, _ = s.reduce(Data(x, w))
            return c.unweighted_indices

        idx = B.run(code, k, gx, gy, dv, pts, wn.astype(np.float32))
        flags = [x > 0 for x in wn]
        idx = common(B, idx, n, m, True, flags)
        if matching == "stein":
            s = [0.5, -1.0, 2.0, 1.0][:n]
        else:
            ls = 1.0 if matching == "default" else 0.8
            p = wn / wn.sum()
            s = []
            for i in range(n):
                e = np.exp(-(pts[i, 0] - pts[:, 0]) ** 2 / (2 * ls**2)) * p
                s.append(float((e * -(pts[i, 0] - pts[:, 0]) / ls**2).sum() / e.sum()))
        s = [B.const(v) for v in s]
        K = {(i, j): dv[i, j] + gx[i, j, 0] * s[j] + gy[i, j, 0] * s[i] + k[i, j] * s[i] * s[j]
             for i in range(n) for j in range(n)}
        oracle(B, K, [B.const(0)] * n, np.zeros(n), 0, idx, n, True, [], flags)

    return Scenario(f"built Stein kernel n={n} m={m} score={matching} w={w}", f,
                    f"n={n}, m={m}, any symmetric base kernel with its derivatives", FUNCS, tier=tier, weight=n**m)


def wide(n, high, tier="quick"):
    """Many points, of which those in ``high`` have the smallest diagonal."""

    def f(B):
        v = {i: B.real(f"v[{i}]", ">0", lo=Fraction(1, 4), hi=Fraction(7, 8)) for i in high}
        for i in high:
            B.assume(B.lt(v[i], 1))
        K = np.full((n, n), B.const(0), dtype=object)
        for i in range(n):
            K[i, i] = v.get(i, B.const(1))

        def code(K, x):
            k = TableStein(SquaredExponentialKernel(), TableScore(jnp.zeros((n, 1)), jnp.zeros((n, 1, 1))), K)
            return SteinThinning(len(high), k, regularise=False).reduce(Data(x))[0].unweighted_indices

        idx = common(B, B.run(code, K, points(n)), n, len(high), True, [True] * n)
        B.true("the smallest entries are selected", sorted(idx) == sorted(high))
        for a, b in zip(idx, idx[1:]):
            B.le("the smallest comes first", v.get(a, 1), v.get(b, 1))

    return Scenario(f"wide n={n} high={high}", f, f"{n} points, diagonal Stein Gram matrix with {len(high)} smaller entries", FUNCS,
                    tier=tier)


def scenarios():
    T = "thorough"
    return [
        wide(300, [290, 130]), wide(300, [299, 3, 256]),
        thin(3, 2), thin(4, 2, jac=False), thin(4, 3, regularise=False), thin(4, 2, unique=False, jac=False),
        thin(3, 3, unique=False, regularise=False), thin(3, 2, lam=0.25, bs=2), thin(3, 2, lam=0.0, jac=False),
        thin(4, 2, w=[1, 0, 2, 1], jac=False), thin(4, 2, w=[0, 3, 1, 2], regularise=False, unique=False),
        thin(3, 1, d=2), thin(3, 2, d=2, bw=0.5, jac=False), thin(5, 2, jac=False, bs=(2, 3), regularise=False),
        thin(4, 2, init=[2, 0], initw=[1, 1], jac=False), thin(4, 2, init=[3], initw=[1], regularise=False),
        thin(4, 2, init=[1, 3, 0], initw=[1, 1, 1], regularise=False),
        thin(4, 2, init=[1, 1], initw=[1, 1], unique=False, regularise=False),
        thin(4, 2, init=[2, 0], initw=[3, 0.5], regularise=False), thin(4, 3, init=[2, 1, 0], initw=[2, 0, 0.5], jac=False),
        thin(3, 2, sup=True, jac=False),
        integrated(3, 2, "stein"), integrated(3, 2, "default"), integrated(3, 2, "match", w=[1, 3, 2]),
        integrated(3, 2, "override"), integrated(3, 2, "default", w=[1, 0, 2]),
        thin(5, 3, tier=T, jac=False), thin(6, 3, tier=T, regularise=False), thin(4, 3, tier=T),
        thin(5, 3, init=[4, 1, 2], initw=[1, 1, 1], tier=T, jac=False), integrated(4, 3, "default", tier=T),
    ]
