"""Kernel thinning: halving partitions the data by the published randomised rule; the best candidate is refined."""

import math

from checks.common import *  # noqa: F403
from jaxsmt.harness import Scenario

from coreax.metrics import MMD
from coreax.solvers import KernelHerding, KernelThinning

FUNCS = ["coreax.solvers.KernelThinning.reduce", "coreax.solvers.KernelThinning.kt_half",
         "coreax.solvers.KernelThinning.kt_half_recursive", "coreax.solvers.KernelThinning.kt_choose",
         "coreax.solvers.KernelThinning.kt_refine", "coreax.solvers.KernelThinning.get_baseline_coreset"]
ASSUMPTIONS = ["exact real arithmetic in place of float32",
               "jax.random's uniform draws may take any value in [0, 1) and its permutations any order"]


def solver(m, key, table, sqrt_table=None, delta=0.25):
    return KernelThinning(coreset_size=m, random_key=key, kernel=TableKernel(table), delta=delta,
                          sqrt_kernel=TableKernel(table if sqrt_table is None else sqrt_table))


def gram(B, n, concrete=None):
    if concrete is not None:
        return np.array(concrete, np.float32)
    return B.symmetric("K", n, lo=-4, hi=4)


class Float:
    """Reference formulas in double precision, for concrete kernels."""

    def __init__(self, B):
        self.sym, self.step_law = B.sym, B.step_law

    const, sqrt, max, min = map(staticmethod, (float, math.sqrt, max, min))

    @staticmethod
    def div(a, b):
        return a / b


def half(n, delta=0.25, concrete=None, dup=(), weighted=False, sup=False, law=True, tier="quick", **o):
    """n points; dup: pairs (2i, 2i+1) that coincide."""
    h = n // 2

    def code(K, k):
        x = jnp.arange(n, dtype=jnp.float32)[:, None]
        w = jnp.arange(n, dtype=jnp.float32) if weighted else None
        d = SupervisedData(x, x, w) if sup else Data(x, w)
        K = jnp.asarray(K)
        a, b = solver(max(h, 1), k, jnp.eye(n), K, delta).kt_half(d)
        return a.unweighted_indices, b.unweighted_indices, a.points.data, b.points.data

    def f(B):
        K = gram(B, n, concrete)
        for i in range(h):
            p, q = 2 * i, 2 * i + 1
            if i in dup:
                for j in range(n):
                    K[q, j] = K[j, q] = K[p, j]
                K[q, q] = K[p, p]
            elif concrete is None:
                B.assume(B.le_(B.const(Fraction(1, 4)), K[p, p] + K[q, q] - 2 * K[p, q]))
        ia, ib, pa, pb = B.run(code, K, B.key())
        ia, ib = [int(i) for i in ia], [int(i) for i in ib]
        B.true("sizes", len(ia) == h and len(ib) == h)
        for i in range(h):
            B.true(f"pair {i} is split between the halves", {ia[i], ib[i]} == {2 * i, 2 * i + 1})
        B.eq("points of the first half", pa, oarr([[B.const(i)] for i in ia]).reshape(h, 1))
        B.eq("points of the second half", pb, oarr([[B.const(i)] for i in ib]).reshape(h, 1))
        if not law:
            return
        c = B.const(np.float32(math.sqrt(2 * math.log(2 / delta))))
        if concrete is not None:
            B = Float(B)
            K = K.astype(float)
        sig = B.const(0)
        probs = []
        half_ = B.const(Fraction(1, 2))
        for i in range(h):
            x, y = 2 * i, 2 * i + 1
            b2 = K[x, x] + K[y, y] - 2 * K[x, y]
            if i in dup:
                ps = half_
            else:
                b = B.sqrt(b2)
                a = B.max(b * sig * c, b2)
                t = b2 * (1 + B.div((b2 - 2 * a) * sig * sig, a * a))
                al = osum(K[s, x] - K[s, y] for s in range(2 * i)) - 2 * osum(K[s, x] - K[s, y] for s in ia[:i])
                ps = B.min(B.const(1), B.max(B.const(0), half_ * (1 - B.div(al, a))))
                sig = B.sqrt(sig * sig + B.max(t, B.const(0)))
            probs.append(ps if ia[i] == y else 1 - ps)
        sampler = None
        if not B.sym:
            Kc = jnp.asarray(np.array([[float(v) for v in r] for r in K], np.float32))
            sampler = jax.jit(jax.vmap(lambda k: code(Kc, k)[0]))
        B.step_law("swap", ia, probs, tol=0 if concrete is None else 1e-4, sampler=sampler)

    return Scenario(f"halving n={n} delta={delta} concrete={concrete is not None} coincident={dup} weighted={weighted} "
                    f"supervised={sup} law={law}", f, f"{n} points, every kernel and draw", FUNCS, tier=tier, **o)


def recursive(n, m, concrete, sup=False, tier="quick", **o):
    """reduce's halving: candidates partition the clipped data."""

    def code(K, k):
        x = jnp.arange(n, dtype=jnp.float32)[:, None]
        d = SupervisedData(x, x) if sup else Data(x)
        s = solver(m, k, jnp.asarray(K))
        r = 0
        while m * 2 ** (r + 1) <= n:
            r += 1
        parts = s.kt_half_recursive(d[: m * 2**r], r, d)
        return ([p.unweighted_indices for p in parts], [p.points.data for p in parts],
                [p.pre_coreset_data.data for p in parts])

    def f(B):
        K = gram(B, n, concrete)
        idx, pts, pre = B.run(code, K, B.key())
        idx = [[int(i) for i in np.asarray(p).reshape(-1)] for p in idx]
        r = 0
        while m * 2 ** (r + 1) <= n:
            r += 1
        B.true("number of candidates", len(idx) == 2**r)
        B.true("each candidate has the requested size", all(len(p) == m for p in idx))
        B.true("candidates partition the clipped data", sorted(i for p in idx for i in p) == list(range(m * 2**r)))
        for p, q, a in zip(idx, pts, pre):
            B.eq("points of a candidate", q, oarr([[B.const(i)] for i in p]))
            B.eq("original data of a candidate", a, oarr([[B.const(i)] for i in range(n)]))

    return Scenario(f"recursive halving n={n} m={m} supervised={sup}", f, f"{n} points, one kernel, every draw", FUNCS,
                    tier=tier, validate=0, **o)


def choose(n, cands, wx=None, tier="quick", **o):
    """The chosen candidate has the least MMD to the whole (weighted) dataset."""

    def code(K, k):
        x = jnp.arange(n, dtype=jnp.float32)[:, None]
        d = Data(x, None if wx is None else jnp.array(wx, jnp.float32))
        cs = [Coresubset(Data(jnp.array(c, jnp.int32)), d) for c in cands]
        return solver(len(cands[0]), k, K).kt_choose(cs, d)

    def f(B):
        K = B.symmetric("K", n, lo=-4, hi=4)
        r = [int(i) for i in np.asarray(B.run(code, K, B.key())).reshape(-1)]
        B.true("one of the candidates", tuple(r) in [tuple(c) for c in cands])
        tot = sum(Fraction(v) for v in wx) if wx else n
        p = [B.const(Fraction(wx[i]) / tot if wx else Fraction(1, n)) for i in range(n)]

        def q(c):
            m = len(c)
            return B.max(B.const(0), osum(p[i] * p[j] * K[i, j] for i in range(n) for j in range(n))
                         + osum(K[i, j] for i in c for j in c) / (m * m)
                         - 2 * osum(p[i] * K[i, j] for i in range(n) for j in c) / m)

        for c in cands:
            B.le(f"no worse than {c}", q(r), q(c))

    return Scenario(f"choice n={n} candidates={cands} weights={wx}", f, f"{n} points, any kernel", FUNCS, tier=tier, **o)


def whole(n, m, concrete, wx=None, sup=False, tier="quick", **o):
    """reduce = refinement of the best of the halving's candidates and a random baseline."""

    def make(k, K):
        x = jnp.arange(n, dtype=jnp.float32)[:, None]
        w = None if wx is None else jnp.array(wx, jnp.float32)
        d = SupervisedData(x, x, w) if sup else Data(x, w)
        return d, solver(m, k, jnp.asarray(K))

    def code(K, k):
        d, s = make(k, K)
        c, st = s.reduce(d)
        assert st is None
        return c.unweighted_indices, c.points.data, c.points.weights, c.pre_coreset_data.data

    def parts(K, k):
        d, s = make(k, K)
        r = 0
        while m * 2 ** (r + 1) <= n:
            r += 1
        cs = [*s.kt_half_recursive(d[: m * 2**r], r, d), s.get_baseline_coreset(d, m)]
        met = MMD(TableKernel(jnp.asarray(K)))
        vals = jnp.stack([met.compute(d, c.points) for c in cs])
        ref = [KernelHerding(m, TableKernel(jnp.asarray(K))).refine(c)[0].unweighted_indices for c in cs]
        return vals, jnp.stack(ref), jnp.stack([c.unweighted_indices for c in cs])

    def f(B):
        K = gram(B, n, concrete)
        k = B.key()
        idx, pts, w, pre = B.run(code, K, k)
        idx = [int(i) for i in np.asarray(idx).reshape(-1)]
        B.true("requested size", len(idx) == m)
        B.true("indices within the dataset", all(0 <= i < n for i in idx))
        B.true("indices are distinct", len(set(idx)) == m)
        B.eq("points are the indexed rows", pts, oarr([[B.const(i)] for i in idx]))
        B.eq("unit weights", w, oarr([B.const(1)] * m))
        B.eq("original data", pre, oarr([[B.const(i)] for i in range(n)]))
        vals, ref, base = B.run(parts, K, k, tag="parts")
        b = [int(i) for i in base[-1]]
        B.true("the baseline is a sample without replacement", len(set(b)) == m and all(0 <= i < n for i in b))
        low = [float(v) for v in vals]
        best = [t for t in range(len(low)) if low[t] <= min(low) + 1e-6]
        B.true("refinement of the best candidate", idx in [[int(i) for i in ref[t]] for t in best])

    return Scenario(f"reduce n={n} m={m} weights={wx} supervised={sup}", f,
                    f"{n} points, one kernel, every draw", FUNCS, tier=tier, validate=0, **o)


def rounds(lo, hi, tier="quick"):
    """The data are halved as often as the requested size allows."""

    def f(B):
        n = lo + B.pick(hi - lo + 1)
        m = 1 + B.pick(n)
        log = []

        class Count(KernelThinning):
            def kt_half(self, dataset):
                h = len(dataset) // 2
                log.append(len(dataset))
                return (Coresubset(Data(2 * jnp.arange(h)), dataset), Coresubset(Data(2 * jnp.arange(h) + 1), dataset))

        def code(K, k):
            log.clear()
            s = Count(coreset_size=m, random_key=k, kernel=TableKernel(K), delta=0.1, sqrt_kernel=TableKernel(K))
            c, _ = s.reduce(Data(jnp.arange(n, dtype=jnp.float32)[:, None]))
            return c.unweighted_indices

        # only the shape of the recursion is examined: tracing the code is enough
        jax.eval_shape(code, jax.ShapeDtypeStruct((n, n), np.float32), jax.random.key(0))
        r = 0
        while m * 2 ** (r + 1) <= n:
            r += 1
        B.true(f"{r} rounds of halving for {n} points and size {m}",
               sorted(log, reverse=True) == [m * 2 ** (r - t) for t in range(r) for _ in range(2**t)])

    return Scenario(f"rounds of halving n={lo}..{hi}", f, f"every size up to n, n in {lo}..{hi}", FUNCS, tier=tier, validate=0)


def refuse(n, m):
    def f(B):
        x = B.reals("x", (n, 1))
        r = B.run(lambda x: refused(lambda: solver(m, jax.random.key(0), jnp.eye(n)).reduce(Data(x)), ValueError), x)
        B.eq("refused", r, oarr(B.const(1)))

    return Scenario(f"refuse n={n} m={m}", f, "any data", FUNCS)


def pd(n, seed):
    r = np.random.default_rng(seed)
    a = r.integers(-2, 3, (n, n))
    return (a @ a.T + np.eye(n, dtype=int)).tolist()


def scenarios():
    return [
        half(2), half(4, weight=5), half(4, delta=0.5, weighted=True, weight=5), half(4, concrete=pd(4, 1), sup=True),
        half(4, concrete=pd(4, 2), weighted=True), half(6, concrete=pd(6, 3)), half(8, concrete=pd(8, 4), delta=0.01),
        half(4, dup=(0,), weight=5), half(4, dup=(1,), weight=5), half(6, concrete=pd(6, 5), dup=(1,)),
        half(10, concrete=pd(10, 6), tier="thorough", weight=6),
        half(6, tier="thorough", weight=9, prove_ms=60000),
        recursive(4, 1, pd(4, 7)), recursive(5, 2, pd(5, 8)), recursive(8, 2, pd(8, 9), weight=4), recursive(7, 1, pd(7, 10)),
        recursive(3, 2, pd(3, 11)), recursive(6, 1, pd(6, 12), True),
        choose(3, [(0,), (1,)]), choose(3, [(0, 1), (2, 0), (1, 2)], (1, 2, 5)), choose(4, [(3, 1), (0, 2), (0, 1)], weight=4),
        whole(4, 2, pd(4, 13), weight=4), whole(4, 1, pd(4, 14), weight=3), whole(5, 2, pd(5, 15), (1, 2, 3, 4, 5), weight=4),
        whole(3, 2, pd(3, 16), sup=True), whole(3, 3, pd(3, 17)), whole(2, 1, pd(2, 18), (0, 3)),
        whole(6, 3, pd(6, 19), tier="thorough", weight=9),
        rounds(1, 8), rounds(26, 26), rounds(28, 28), rounds(9, 33, "thorough"), refuse(2, 3), refuse(1, 2),
    ]
