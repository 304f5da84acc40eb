"""Kernel density score matching: the gradient of the log of the (weighted) Gaussian kernel density estimate."""

from checks.common import *  # noqa: F403
from jaxsmt.harness import Scenario

from coreax.kernels import SquaredExponentialKernel
from coreax.score_matching import KernelDensityMatching

FUNCS = ["coreax.score_matching.KernelDensityMatching.__init__", "coreax.score_matching.KernelDensityMatching.match",
         "coreax.kernels.SquaredExponentialKernel.grad_x_elementwise", "coreax.kernels.ScalarValuedKernel.compute_mean"]
ASSUMPTIONS = ["exact real arithmetic in place of float32"]


def score(n, m, d, ls="sym", w=None, form="rows", tier="quick", **o):
    """n data points, m evaluation points."""

    def f(B):
        x = B.reals("x", (n, d), lo=-2, hi=2)
        y = B.reals("y", (m, d), lo=-2, hi=2)
        l = B.real("l", ">0", Fraction(1, 2), 2) if ls == "sym" else B.const(ls)
        if w == "sym":
            wv = B.reals("w", n, ">0", Fraction(1, 8), 8)
        else:
            wv = oarr([B.const(v) for v in (w or [1] * n)])

        def code(x, y, l, w):
            with array_fields(SquaredExponentialKernel):
                k = KernelDensityMatching(l if ls == "sym" else ls)
            data = x if w_none else Data(x, w)
            fn = k.match(data)
            if form == "rows":
                return fn(y)
            if form == "vector":
                return jnp.stack([fn(v) for v in y])
            return jnp.stack([jnp.ravel(fn(v[0])) for v in y])  # scalars

        w_none = w is None
        out = B.run(code, x, y, np.array(l, dtype=object), wv, eager=ls == "sym")
        pos = [j for j in range(n) if w == "sym" or w is None or w[j] > 0]
        ref = []
        for i in range(m):
            es = {j: B.exp(B.div(-osum((y[i, q] - x[j, q]) * (y[i, q] - x[j, q]) for q in range(d)), 2 * l * l)) * wv[j]
                  for j in pos}
            den = osum(es.values())
            ref.append([B.div(osum(es[j] * (x[j, q] - y[i, q]) for j in pos), den * l * l) for q in range(d)])
        B.eq("score", out, oarr(ref))

    return Scenario(f"score n={n} m={m} d={d} length={ls} w={w} form={form}", f,
                    f"any {n} data points, {m} evaluation points, d={d}", FUNCS, tier=tier, **o)


def scenarios():
    T = "thorough"
    return [
        score(1, 1, 1), score(2, 1, 1), score(2, 2, 1, ls=0.8), score(2, 1, 2), score(3, 1, 1, ls=1.5),
        score(2, 1, 1, w="sym"), score(3, 1, 1, ls=0.8, w=[1, 0, 3]), score(2, 1, 2, ls=0.8, w="sym"),
        score(2, 2, 2, ls=0.8, form="vector"), score(2, 2, 1, ls=0.8, form="scalar"),
        score(2, 1, 1, ls=0.8, w=[2, 2], form="vector"), score(3, 2, 2, ls=0.8, tier=T), score(3, 2, 1, w="sym", tier=T),
        score(4, 1, 1, ls=1.0, tier=T), score(2, 1, 3, tier=T),
    ]
