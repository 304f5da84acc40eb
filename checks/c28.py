"""Utilities the solvers and kernels are built from: distances, pairwise evaluation, padding, thresholds, batches."""

from checks.common import *  # noqa: F403
from jaxsmt.harness import Scenario

from coreax.kernels import median_heuristic
from coreax.util import (
    apply_negative_precision_threshold,
    difference,
    pairwise,
    sample_batch_indices,
    squared_distance,
    tree_leaves_repeat,
    tree_zero_pad_leading_axis,
)

FUNCS = ["coreax.util.pairwise", "coreax.util.squared_distance", "coreax.util.difference",
         "coreax.util.tree_zero_pad_leading_axis", "coreax.util.tree_leaves_repeat",
         "coreax.util.apply_negative_precision_threshold", "coreax.util.sample_batch_indices",
         "coreax.kernels.median_heuristic"]
ASSUMPTIONS = ["exact real arithmetic in place of float32",
               "jax.random.permutation returns any permutation, each equally likely"]


def sq(x, y):
    return osum((a - b) * (a - b) for a, b in zip(x, y))


def dist(sx, sy):
    def f(B):
        x, y = B.reals("x", sx), B.reals("y", sy)
        s, d, t = B.run(lambda x, y: (squared_distance(x, y), difference(x, y), squared_distance(y, x)), x, y)
        X, Y = np.atleast_1d(x), np.atleast_1d(y)
        n = max(len(X), len(Y))
        X, Y = [X[i % len(X)] for i in range(n)], [Y[i % len(Y)] for i in range(n)]
        B.eq("squared distance", s, oarr(sq(X, Y)))
        B.eq("squared distance is symmetric", t, oarr(sq(X, Y)))
        B.eq("difference", d, oarr([a - b for a, b in zip(X, Y)]))

    return Scenario(f"distance {sx} {sy}", f, "any vectors", FUNCS)


def pairs(sx, sy, vec):
    """vec: the function is vector valued."""

    def f(B):
        x, y = B.reals("x", sx), B.reals("y", sy)
        fn = (lambda a, b: 2 * a - b * b) if vec else (lambda a, b: jnp.sum(a * a * 3 - b))
        r = B.run(lambda x, y: pairwise(fn)(x, y), x, y)
        X, Y = np.atleast_2d(x), np.atleast_2d(y)
        want = np.empty((len(X), len(Y)) + ((X.shape[1],) if vec else ()), object)
        for i in range(len(X)):
            for j in range(len(Y)):
                if vec:
                    for k in range(X.shape[1]):
                        want[i, j, k] = 2 * X[i, k] - Y[j, k] * Y[j, k]
                else:
                    want[i, j] = osum(3 * X[i, k] * X[i, k] - Y[j, k] for k in range(X.shape[1]))
        B.eq("every pair, first argument along rows", r, want)

    return Scenario(f"pairwise {sx} {sy} vector valued={vec}", f, "any points", FUNCS)


def pad(n, k, d=2):
    def f(B):
        x, w = B.reals("x", (n, d)), B.reals("w", n)

        def code(x, w):
            t = tree_zero_pad_leading_axis({"a": Data(x, w), "b": "keep", "c": [w, 3]}, k)
            assert t["b"] == "keep" and t["c"][1] == 3
            return t["a"].data, t["a"].weights, t["c"][0], x

        r = B.run(code, x, w)
        z = B.const(0)
        B.eq("padded points", r[0], oarr([list(x[i]) if i < n else [z] * d for i in range(n + k)]).reshape(n + k, d))
        B.eq("padded weights", r[1], oarr([w[i] if i < n else z for i in range(n + k)]))
        B.eq("padded vector", r[2], oarr([w[i] if i < n else z for i in range(n + k)]))

    return Scenario(f"padding n={n} by {k}", f, f"any {n} points", FUNCS)


def pad_negative():
    def f(B):
        x = B.reals("x", (3, 1))
        B.eq("a negative width is refused",
             B.run(lambda x: refused(lambda: tree_zero_pad_leading_axis(x, -1), ValueError), x), oarr(B.const(1)))

    return Scenario("padding by a negative width", f, "any points", FUNCS)


def threshold(t):
    def f(B):
        x = B.real("x", lo=-4, hi=4)
        r = B.run(lambda x: apply_negative_precision_threshold(x) if t is None else apply_negative_precision_threshold(x, t),
                  oarr(x)).item()
        th = B.const(np.float32(abs(1e-8 if t is None else t)))
        if B.decide(B.and_(B.lt(-th, x), B.lt(x, B.const(0)))):
            B.eq("small negative values become zero", r, B.const(0))
        else:
            B.eq("other values are unchanged", r, x)

    return Scenario(f"threshold {t}", f, "any value in [-4, 4]", FUNCS)


def leaves(n, length):
    """None counts as a leaf; the last leaf is repeated up to the length."""

    def f(B):
        x = [None if B.pick(2) else B.real(f"x{i}") for i in range(n)]
        vals = oarr([v for v in x if v is not None])

        def code(v):
            it = iter(range(n))
            t, k = [], 0
            for i in it:
                t.append(None if x[i] is None else v[k])
                k += x[i] is not None
            r = tree_leaves_repeat((t[0], tuple(t[1:])) if n > 1 else t[0], length)
            return [jnp.array(-1.0) if q is None else q for q in r], [jnp.array(q is None) for q in r]

        if len(vals) == 0:
            vals = np.zeros(0, np.float32)
        r, isnone = B.run(code, vals)
        want = x + [x[-1]] * max(0, length - n)
        B.true("number of leaves", len(r) == len(want))
        for i, (a, b) in enumerate(zip(r, want)):
            B.true(f"leaf {i} is None exactly when expected", bool(isnone[i]) == (b is None))
            if b is not None:
                B.eq(f"leaf {i}", a, oarr(b))

    return Scenario(f"leaves n={n} length={length}", f, "any leaves, None included", FUNCS)


def batches(n, size, num, tier="quick"):
    def code(k):
        return sample_batch_indices(k, n, size, num)

    def f(B):
        r = np.asarray(B.run(code, B.key()))
        B.true("shape", r.shape == (num, size))
        rows = [[int(i) for i in row] for row in r]
        B.true("indices within range", all(0 <= i < n for row in rows for i in row))
        B.true("no index twice in a batch", all(len(set(row)) == size for row in rows))
        B.tally(tuple(map(tuple, rows)))

    per = 1
    for t in range(size):
        per *= n - t
    total = per**num

    def final(tally):
        if len(tally) != total or any(p != Fraction(1, total) for p in tally.values()):
            return f"the {total} outcomes are equally likely (got {len(tally)})"
        return None

    def final_replay(cb):
        import itertools

        s = cb._samples(jax.jit(jax.vmap(code)))
        flat = s.reshape(len(s), -1)
        c = sum(flat[:, t].astype(int) * n**t for t in range(num * size))
        want = {}
        for rows in itertools.product(itertools.permutations(range(n), size), repeat=num):
            want[sum(v * n**t for t, v in enumerate(v for row in rows for v in row))] = 1 / total
        cb._freq("batches", c, want)

    return Scenario(f"batches max_index={n} size={size} number={num}", f, "every outcome of the draws", FUNCS, tier=tier,
                    final=final, final_replay=final_replay)


def batches_refused(n, size):
    def f(B):
        x = B.reals("x", 1)
        r = B.run(lambda x: refused(lambda: sample_batch_indices(jax.random.key(0), n, size, 1), ValueError), x)
        B.eq("refused", r, oarr(B.const(1)))

    return Scenario(f"batches refused max_index={n} size={size}", f, "", FUNCS)


def median(n, d, tier="quick", **o):
    def f(B):
        x = B.reals("x", (n, d) if d else n, lo=-4, hi=4)
        r = B.run(median_heuristic, x).item()
        X = np.asarray(x, object).reshape(n, -1)
        ds = [sq(X[i], X[j]) for i in range(n) for j in range(i + 1, n)]
        B.le("not negative", B.const(0), r)
        v = 2 * r * r
        # v is the median of ds, stated by counting
        k = len(ds)
        if k % 2:
            t = 2e-3 * (1 + abs(v)) if not B.sym else 0
            B.true("is one of the squared distances", B.or_(*[B.and_(B.le_(a, v + t), B.le_(v, a + t)) for a in ds]))
        h = (k + 1) // 2
        import itertools
        eps = 0 if B.sym else 4e-3 * (1 + abs(v))
        if k % 2:
            B.true("half of the squared distances are at most it",
                   B.or_(*[B.and_(*[B.le_(a, v + eps) for a in c]) for c in itertools.combinations(ds, h)]))
            B.true("half of the squared distances are at least it",
                   B.or_(*[B.and_(*[B.le_(v, a + eps) for a in c]) for c in itertools.combinations(ds, h)]))

    return Scenario(f"median heuristic n={n} d={d}", f, f"any {n} points", FUNCS, tier=tier, **o)


def median_two(d):
    def f(B):
        x = B.reals("x", (2, d), lo=-4, hi=4)
        r = B.run(median_heuristic, x).item()
        B.eq("two points", 2 * r * r, sq(x[0], x[1]))
        B.le("not negative", B.const(0), r)

    return Scenario(f"median heuristic of two points d={d}", f, "any two points", FUNCS)


def scenarios():
    out = [dist(s, t) for s, t in (((1,), (1,)), ((3,), (3,)), ((), ()), ((), (1,)), ((2,), (2,)))]
    for s, t in (((2, 2), (3, 2)), ((1, 2), (2, 2)), ((2,), (3, 2)), ((), ()), ((3, 1), (1, 1)), ((2,), (2,))):
        out += [pairs(s, t, False), pairs(s, t, True)]
    out += [pad(n, k) for n, k in ((2, 0), (2, 1), (1, 3), (3, 2))] + [pad_negative()]
    out += [threshold(t) for t in (None, 0.5, -0.5, 1.0, 0.0)]
    out += [leaves(n, k) for n, k in ((1, 2), (2, 2), (2, 4), (3, 2), (3, 3), (3, 5), (1, 1))]
    out += [batches(3, 2, 1), batches(3, 3, 1), batches(2, 1, 2), batches(3, 1, 2), batches(3, 0, 1), batches(4, 2, 1),
            batches(3, 2, 2, "thorough"), batches_refused(2, 3), batches_refused(0, 1), batches_refused(3, -1)]
    out += [median_two(1), median_two(2), median(3, 1), median(3, 0), median(3, 2, "thorough")]
    return out
