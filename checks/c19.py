"""SBQ weights: the solution of the regularised kernel system, hence the unconstrained MMD optimum."""

from checks.c10 import weights
from checks.common import *  # noqa: F403
from jaxsmt.harness import Scenario

from coreax.coreset import Coresubset, PseudoCoreset
from coreax.weights import SBQWeightsOptimiser

FUNCS = ["coreax.weights.SBQWeightsOptimiser.solve", "coreax.weights._prepare_kernel_system",
         "coreax.kernels.ScalarValuedKernel.compute_mean", "coreax.coreset.Coresubset.solve_weights",
         "coreax.coreset.PseudoCoreset.solve_weights"]
ASSUMPTIONS = ["exact real arithmetic in place of float32", "LAPACK's LU is exact",
               "the Gram matrix of the coreset is positive definite (smallest pivot at least 1/8)"]


def sbq(n, core, wx=None, wc=None, bs=None, unroll=1, eps=None, via=None, cc=None, tier="quick", **o):
    """cc: concrete Gram matrix of the coreset. core: indices (into n dataset points and any further points) of the coreset."""
    m = len(core)
    N = max([n, *[c + 1 for c in core]])

    def f(B):
        K = B.symmetric("K", N, lo=-4, hi=4)
        if cc is not None:
            for a in range(m):
                for b in range(m):
                    K[core[a], core[b]] = B.const(Fraction(cc[a][b]))
        for i in set(core) if cc is None else ():
            B.assume(B.le_(B.const(Fraction(1, 2)), K[i, i]))
        # positive definite: Schur complements bounded below
        if m >= 2 and cc is None:
            B.assume(B.le_(B.const(Fraction(1, 8)), K[core[0], core[0]] * K[core[1], core[1]] - K[core[0], core[1]] * K[core[0], core[1]]))
        ax, px = weights(B, "wx", n, wx)
        ac, _ = weights(B, "wc", m, wc)

        def code(K, ax, ac):
            x = Data(jnp.arange(n, dtype=jnp.float32)[:, None], ax)
            y = Data(jnp.array(core, jnp.float32)[:, None], ac)
            s = SBQWeightsOptimiser(TableKernel(K))
            kw = {} if eps is None else {"epsilon": eps}
            if via == "coresubset":
                return Coresubset(Data(jnp.array(core, jnp.int32), ac), x).solve_weights(
                    s, block_size=bs, unroll=unroll, **kw).points.weights
            if via == "pseudo":
                return PseudoCoreset(y, x).solve_weights(s, block_size=bs, unroll=unroll, **kw).points.weights
            if via == "array":
                return s.solve(x.data, y.data, block_size=bs, unroll=unroll, **kw)
            return s.solve(x, y, block_size=bs, unroll=unroll, **kw)

        w = B.run(code, K, ax, ac)
        B.true("one weight per coreset point", np.shape(w) == (m,))
        e = B.const(np.float32(1e-10 if eps is None else eps))
        for a in range(m):
            lhs = osum(K[core[a], core[b]] * w[b] for b in range(m)) + e * w[a]
            rhs = osum(px[i] * K[i, core[a]] for i in range(n))
            B.eq(f"row {a} of the kernel system", lhs, rhs)

    return Scenario(f"sbq n={n} core={core} wx={wx} wc={wc} block={bs} unroll={unroll} eps={eps} via={via} gram={cc}", f,
                    f"{n} points, coreset of {m}, any positive definite kernel", FUNCS, tier=tier, **o)


G3 = ((2, 1, 0), (1, 3, -1), (0, -1, 2))
H3 = ((1, 2, 0), (2, 8, 1), (0, 1, 1))
G4 = ((1, 0, 2, 1), (0, 2, 1, 0), (2, 1, 9, 1), (1, 0, 1, 3))


def scenarios():
    return [
        sbq(2, [0]), sbq(3, [2], wx="sym"), sbq(3, [3], wx=(1, 2, 5)), sbq(3, [1], wx="sym", wc="sym", via="coresubset"),
        sbq(3, [0, 2]), sbq(3, [2, 0], wx="sym"), sbq(3, [0, 2], wx=(0, 1, 3), bs=2), sbq(4, [1, 3], wx=(1, 2, 3, 4), bs=3, unroll=2),
        sbq(3, [3, 4]), sbq(3, [3, 1], wx=(3, 1, 2), bs=1, via="pseudo"), sbq(3, [0, 1], wx=(1, 2, 2), wc=(5, 1), via="coresubset"),
        sbq(3, [0, 1], via="array"), sbq(3, [1, 2], eps=0.5, wx="sym"), sbq(3, [2], eps=2.0, via="pseudo"),
        sbq(3, [0, 2], wx="sym", bs=(2, 1), unroll=(1, True)), sbq(5, [4, 0], bs=2, unroll=True, wx=(1, 0, 2, 0, 4)),
        sbq(5, [0, 1, 3], wx=(1, 2, 3, 4, 0), cc=G3, bs=2), sbq(3, [0, 1, 2], wx="sym", cc=H3),
        sbq(4, [4, 5, 6], cc=H3, via="pseudo"), sbq(5, [3, 0, 2, 4], wx="sym", cc=G4, via="coresubset"),
        sbq(6, [1, 4], wx="sym", bs=4, tier="thorough", weight=3),
    ]
