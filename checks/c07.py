"""Compress++: valid distinct indices of the requested size for every draw, incompatible parameters refused."""

from checks.c06 import pd
from checks.common import *  # noqa: F403
from jaxsmt.harness import Scenario

from coreax.solvers import CompressPlusPlus, KernelThinning

FUNCS = ["coreax.solvers.CompressPlusPlus.reduce", "coreax.solvers.KernelThinning.reduce"]
ASSUMPTIONS = ["exact real arithmetic in place of float32",
               "jax.random's uniform draws may take any value in [0, 1) and, unless stated, its permutations any order"]


def solver(m, g, key, K):
    return CompressPlusPlus(coreset_size=m, g=g, random_key=key, kernel=TableKernel(K), delta=0.25, sqrt_kernel=TableKernel(K))


def whole(n, m, g, seed, wx=None, sup=False, real=False, ref=True, tier="quick", **o):
    K = np.array(pd(n, seed), np.float32)

    def code(K, k):
        x = jnp.arange(n, dtype=jnp.float32)[:, None]
        w = None if wx is None else jnp.array(wx, jnp.float32)
        d = SupervisedData(x, -x, w) if sup else Data(x, w)
        c, st = solver(m, g, k, jnp.asarray(K)).reduce(d)
        assert st is None
        return c.unweighted_indices, c.points.data, c.points.weights, c.pre_coreset_data.data, c.pre_coreset_data.weights

    def reference(K, k):
        """Quarters compressed and halved bottom-up, then thinned, all by kernel thinning."""
        x = jnp.arange(n, dtype=jnp.float32)[:, None]
        d = Data(x, None if wx is None else jnp.array(wx, jnp.float32))
        T = TableKernel(jnp.asarray(K))

        def thin(ix, size):
            s = KernelThinning(coreset_size=size, random_key=k, kernel=T, delta=0.25, sqrt_kernel=T)
            return ix[s.reduce(d[ix])[0].unweighted_indices]

        def compress(ix):
            if len(ix) == 4**g:
                return ix
            qs = len(ix) // 4
            parts = [compress(ix[a * qs:(a + 1) * qs]) for a in range(4)]
            ix = jnp.concatenate(parts)
            return thin(ix, len(ix) // 2)

        eff = 1
        while 4 * eff <= n:
            eff *= 4
        return thin(compress(jax.random.choice(k, n, shape=(eff,), replace=False)), m)

    def f(B):
        k = B.key()
        idx, pts, w, pre, pw = B.run(code, K, k)
        idx = [int(i) for i in np.asarray(idx).reshape(-1)]
        B.true("requested size", len(idx) == m)
        B.true("indices within the dataset", all(0 <= i < n for i in idx))
        B.true("indices are distinct", len(set(idx)) == m)
        B.eq("points are the indexed rows", pts, oarr([[B.const(i)] for i in idx]))
        B.eq("unit weights", w, oarr([B.const(1)] * m))
        B.eq("original data", pre, oarr([[B.const(i)] for i in range(n)]))
        B.eq("original weights", pw, oarr([B.const(1 if wx is None else wx[i]) for i in range(n)]))
        if ref:
            r = B.run(reference, K, k, tag="reference")
            B.true("the recursion of kernel thinning", [int(i) for i in np.asarray(r).reshape(-1)] == idx)

    return Scenario(f"compress++ n={n} m={m} g={g} weights={wx} supervised={sup} kernel={seed} shuffles fixed={real}", f,
                    f"{n} points, one kernel, every draw" + (" except shuffles" if real else ""), FUNCS, tier=tier,
                    validate=0, real_bits=real, **o)


def compatible(n, tier="quick"):
    """Exactly the documented combinations of g and size are accepted."""

    def f(B):
        g = B.pick(5) - 1
        m = 1 + B.pick(n + 2)

        def code(x):
            return refused(lambda: jax.eval_shape(
                lambda k: solver(m, g, k, jnp.eye(n)).reduce(Data(jnp.zeros((n, 1))))[0].unweighted_indices,
                jax.random.key(0)), ValueError)

        q = 0
        while 4 ** (q + 1) <= n:
            q += 1
        ok = m <= n and 0 <= g <= q and m <= 2 ** (g + q)
        if ok and g != 0 and m not in (1, 2 ** (g + q)):
            return  # tracing the accepted case once per g is enough
        r = B.run(code, np.zeros(1, np.float32))
        B.eq(f"g={g} size={m} n={n}", r, oarr(B.const(0 if ok else 1)))

    return Scenario(f"compatible parameters n={n}", f, "every g in -1..3 and size up to n + 2", FUNCS, tier=tier, validate=0)


def scenarios():
    return [
        whole(4, 2, 0, 1), whole(4, 1, 0, 2), whole(4, 3, 1, 3), whole(4, 4, 1, 4), whole(5, 2, 0, 5, real=True),
        whole(5, 2, 1, 6, (1, 2, 3, 4, 5), real=True), whole(5, 2, 1, 6, (1, 2, 3, 4, 5), ref=False, tier="thorough", weight=9), whole(4, 2, 0, 7, sup=True), whole(2, 1, 0, 8), whole(3, 1, 0, 9),
        whole(1, 1, 0, 10),
        whole(16, 3, 0, 11, real=True, weight=9, max_paths=4000), whole(17, 4, 1, 12, real=True, ref=False, weight=8, max_paths=4000),
        whole(18, 2, 0, 13, wx=tuple(range(18)), sup=True, real=True, weight=8, tier="thorough"),
        whole(16, 7, 1, 14, real=True, tier="thorough", weight=9),
        compatible(4), compatible(5), compatible(16),
    ]
