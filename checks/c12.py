"""AMCMD: the documented average squared distance of conditional mean embeddings."""

from checks.common import *  # noqa: F403
from checks.c10 import check_root
from jaxsmt.harness import Scenario

from coreax.metrics import AMCMD

FUNCS = ["coreax.metrics.AMCMD.compute", "coreax.metrics.AMCMD.__check_init__"]
ASSUMPTIONS = ["exact real arithmetic in place of float32", "the kernels are symmetric",
               "LU solves are exact linear solves", "the regularised feature Gram matrices are positive definite"]


def inv_apply(B, A, b):
    """A^-1 b for a matrix of size one or two (Cramer)."""
    n = len(A)
    if n == 1:
        return [B.div(b[0], A[0][0])]
    det = A[0][0] * A[1][1] - A[0][1] * A[1][0]
    return [B.div(A[1][1] * b[0] - A[0][1] * b[1], det), B.div(A[0][0] * b[1] - A[1][0] * b[0], det)]


def amcmd(n, m, q, lam="sym", tier="quick", weighting=True, wts=False, **o):
    """q weighting points; weighting=False uses the reference features."""
    N = n + m + (q if weighting else 0)

    def f(B):
        K = B.symmetric("K", N, lo=-1, hi=1)
        R = B.symmetric("R", n + m, lo=-1, hi=1)
        l = B.real("l", ">0", Fraction(1, 8), 1) if lam == "sym" else B.const(lam)
        # the diagonal dominates: the regularised Gram matrices are safely invertible
        for i in range(n + m):
            B.assume(B.lt(Fraction(1, 2), K[i, i]))
            for j in range(i + 1, n + m):
                B.assume(B.and_(B.lt(K[i, j], Fraction(1, 4)), B.lt(Fraction(-1, 4), K[i, j])),
                         "feature Gram matrices are diagonally dominant")

        def code(K, R, l):
            p = jnp.arange(N, dtype=jnp.float32)[:, None]
            a = SupervisedData(p[:n], p[:n], jnp.arange(1.0, n + 1) if wts else None)
            b = SupervisedData(p[n:n + m], p[n:n + m], jnp.arange(1.0, m + 1) if wts else None)
            am = AMCMD(TableKernel(K), TableKernel(R), 1.0 if lam == "sym" else lam)
            if lam == "sym":
                am = eqx.tree_at(lambda t: t.regularisation_parameter, am, l)
            kw = {"weighting_data": Data(p[n + m:])} if weighting else {}
            return am.compute(a, b, **kw)

        r = B.run(code, K, R, np.array(l, dtype=object))
        ws = range(n + m, N) if weighting else range(n)
        A1 = [[K[i, j] + (l if i == j else 0) for j in range(n)] for i in range(n)]
        A2 = [[K[n + i, n + j] + (l if i == j else 0) for j in range(m)] for i in range(m)]
        tot = 0
        for x in ws:
            c1 = inv_apply(B, A1, [K[i, x] for i in range(n)])
            c2 = inv_apply(B, A2, [K[n + i, x] for i in range(m)])
            c = c1 + [-v for v in c2]
            tot = tot + osum(c[i] * c[j] * R[i, j] for i in range(n + m) for j in range(n + m))
        check_root(B, "AMCMD", r, B.div(tot, B.const(len(list(ws)))))

    return Scenario(f"amcmd n={n} m={m} q={q} lambda={lam} weighting={weighting} weights={wts}", f,
                    f"{n} and {m} supervised points, {q} weighting points, any kernels", FUNCS, tier=tier, **o)


def refuse():
    def f(B):
        i = B.pick(3)
        v = [-1.0, -1e-6, 0.0][i]

        def go():
            try:
                AMCMD(TableKernel(jnp.eye(1)), TableKernel(jnp.eye(1)), v)
            except ValueError:
                return True
            return False

        B.true(f"regularisation parameter {v}", go() == (v < 0))

    return Scenario("negative regularisation is refused", f, "three values", FUNCS, validate=0)


def same(n, q, tier="quick"):
    """Zero between a dataset and a reordering of itself."""

    def f(B):
        K = B.symmetric("K", n + q, lo=-1, hi=1)
        R = B.symmetric("R", n, lo=-1, hi=1)
        for i in range(n):
            B.assume(B.lt(Fraction(1, 2), K[i, i]))
            for j in range(i + 1, n):
                B.assume(B.and_(B.lt(K[i, j], Fraction(1, 4)), B.lt(Fraction(-1, 4), K[i, j])))

        def code(K, R):
            p = jnp.arange(n + q, dtype=jnp.float32)[:, None]
            a = SupervisedData(p[:n], p[:n])
            b = SupervisedData(p[:n][::-1], p[:n][::-1])
            return AMCMD(TableKernel(K), TableKernel(R), 0.5).compute(a, b, weighting_data=Data(p[n:]))

        r = B.run(code, K, R)
        B.eq("distance to a reordering", r, B.const(0), tol=5e-2)

    return Scenario(f"amcmd of a reordering n={n} q={q}", f, f"{n} points", FUNCS, tier=tier)


def scenarios():
    T = "thorough"
    return [amcmd(1, 1, 1), amcmd(2, 1, 1), amcmd(1, 2, 2, lam=0.5), amcmd(2, 2, 1, lam=0.5, tier=T), amcmd(2, 1, 0, weighting=False, lam=0.5),
            amcmd(1, 1, 3), amcmd(2, 1, 2, lam=0.5, wts=True), refuse(), same(2, 1), amcmd(2, 2, 2, tier=T), amcmd(1, 2, 2, tier=T)]
