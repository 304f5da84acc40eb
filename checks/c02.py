"""Random sampling: valid, distinct, correctly distributed indices for every draw."""

from checks.common import *  # noqa: F403
from jaxsmt.harness import Scenario

from coreax.solvers import RandomSample

FUNCS = ["coreax.solvers.RandomSample.reduce", "coreax.coreset.Coresubset", "coreax.data.Data"]
ASSUMPTIONS = [
    "exact real arithmetic in place of float32",
    "jax.random's gumbel, uniform, integer and permutation primitives have their documented law and, in the "
    "encoding, may return any value of their range",
]


def indices(a):
    return [int(i) for i in np.asarray(a).reshape(-1)]


def unweighted(n, m, unique, tier="quick"):
    def code(x, k):
        c, st = RandomSample(m, random_key=k, unique=unique).reduce(Data(x))
        assert st is None
        return c.unweighted_indices, c.points.data, c.points.weights

    x = points(n)

    def f(B):
        idx, pts, w = B.run(code, x, B.key())
        idx = indices(idx)
        B.true("requested size", len(idx) == m)
        B.true("indices within the dataset", all(0 <= i < n for i in idx))
        if unique:
            B.true("indices are distinct", len(set(idx)) == m)
        B.eq("points are the indexed rows", pts, np.array([[B.const(i)] for i in idx], dtype=object))
        B.eq("unit weights", w, np.array([B.const(1)] * m, dtype=object))
        B.tally(tuple(idx))

    total = 1
    for t in range(m):
        total *= (n - t) if unique else n

    def final(tally):
        if len(tally) != total or any(p != Fraction(1, total) for p in tally.values()):
            return f"the {total} ordered samples are equally likely (got {len(tally)} outcomes)"
        return None

    def final_replay(cb):
        s = cb._samples(jax.jit(jax.vmap(lambda k: code(jnp.asarray(x), k)[0])))
        code_ = sum(s[:, t].astype(int) * n**t for t in range(m))
        want = {}
        import itertools

        for tup in itertools.product(range(n), repeat=m):
            if not unique or len(set(tup)) == m:
                want[sum(v * n**t for t, v in enumerate(tup))] = 1 / total
        cb._freq("ordered sample", code_, want)

    return Scenario(f"uniform n={n} m={m} unique={unique}", f, f"n={n}, m={m}, every outcome of the draws", FUNCS,
                    tier=tier, final=final, final_replay=final_replay)


def weighted(n, m, unique, zero=(), tier="quick"):
    def f(B):
        w = B.reals("w", n, sgn=">0", lo=Fraction(1, 8), hi=8)
        for z in zero:
            w[z] = B.const(0)

        def code(x, w, k):
            c, _ = RandomSample(m, random_key=k, unique=unique, weighted=True).reduce(Data(x, w))
            return c.unweighted_indices

        def sampler(keys):
            wc = jnp.asarray(np.array([float(v) for v in w], np.float32))
            return jax.jit(jax.vmap(lambda k: code(jnp.asarray(points(n)), wc, k)))(keys)

        idx = indices(B.run(code, points(n), w, B.key()))
        B.true("requested size", len(idx) == m)
        B.true("indices within the dataset", all(0 <= i < n for i in idx))
        if unique:
            B.true("indices are distinct", len(set(idx)) == m)
        B.true("no zero-weighted point is drawn", all(i not in zero for i in idx))
        tot = osum(list(w))
        if unique:
            steps = [(0, {j: w[j] for j in range(n) if j not in idx[:t] and j not in zero}) for t in range(m)]
            B.gumbel_law("sampling without replacement", idx, steps, sampler)
        else:
            B.interval_law("sampling with replacement", idx, [x / tot for x in w], sampler)

    return Scenario(f"weighted n={n} m={m} unique={unique} zero={zero}", f,
                    f"n={n}, m={m}, any positive weights, every outcome of the draws", FUNCS, tier=tier)


def oversize(n, m):
    def f(B):
        w = B.reals("w", n, sgn=">0")

        def code(x, w, k):
            out = []
            for kw in ({}, {"weighted": True}):
                try:
                    RandomSample(m, random_key=k, unique=True, **kw).reduce(Data(x, w))
                    out.append(0)
                except ValueError:
                    out.append(1)
            return tuple(jnp.asarray(o) for o in out)

        a, b = B.run(code, points(n), w, B.key())
        B.true("too large a coreset is refused", int(a) == 1)
        B.true("too large a weighted coreset is refused", int(b) == 1)

    return Scenario(f"oversize n={n} m={m}", f, f"n={n} < m={m}, any weights", FUNCS)


def ignores_weights(n, m):
    """Unless asked to, the sampler does not look at the weights."""

    def f(B):
        w = B.reals("w", n, sgn=">0")
        k = B.key()

        def code(x, w, k):
            s = RandomSample(m, random_key=k)
            return s.reduce(Data(x, w))[0].unweighted_indices, s.reduce(Data(x))[0].unweighted_indices

        a, b = B.run(code, points(n), w, k)
        B.true("same sample with and without weights", indices(a) == indices(b))

    return Scenario(f"weights ignored n={n} m={m}", f, f"n={n}, m={m}, any positive weights", FUNCS)


def supervised(n, m):
    def f(B):
        y = B.reals("y", (n, 2))
        w = B.reals("w", n, sgn=">0")

        def code(x, y, w, k):
            c, _ = RandomSample(m, random_key=k).reduce(SupervisedData(x, y, w))
            return c.unweighted_indices, c.points.data, c.points.supervision, c.pre_coreset_data.weights

        idx, p, s, pw = B.run(code, points(n), y, w, B.key())
        idx = indices(idx)
        B.true("distinct valid indices", len(set(idx)) == m and all(0 <= i < n for i in idx))
        B.eq("points", p, np.array([[B.const(i)] for i in idx], dtype=object))
        B.eq("supervision follows the points", s, y[idx])
        B.eq("pre-coreset weights kept", pw, w)

    return Scenario(f"supervised n={n} m={m}", f, f"n={n}, m={m}, any supervision and weights", FUNCS)


def scenarios():
    return [
        unweighted(4, 2, True), unweighted(3, 3, True), unweighted(4, 2, False), unweighted(3, 3, False),
        unweighted(1, 1, True), unweighted(5, 1, True),
        weighted(3, 2, True), weighted(4, 2, True, (1,)), weighted(3, 3, True), weighted(3, 1, False),
        weighted(3, 2, False), weighted(4, 1, False, (2,)), weighted(4, 1, False, (0,)),
        oversize(2, 3), oversize(3, 5), ignores_weights(4, 2), supervised(4, 2),
        unweighted(5, 3, True, "thorough"), unweighted(4, 3, False, "thorough"),
        weighted(4, 3, True, (), "thorough"), weighted(5, 2, True, (0, 4), "thorough"),
        weighted(4, 2, False, (3,), "thorough"),
    ]
