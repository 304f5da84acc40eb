"""Zero-weighted points have no influence: padding a dataset never changes what the solvers and scores return."""

from checks.common import *  # noqa: F403
from jaxsmt.harness import Scenario

from coreax.kernels import SquaredExponentialKernel
from coreax.metrics import KSD
from coreax.score_matching import KernelDensityMatching
from coreax.solvers import KernelHerding, SteinThinning

FUNCS = ["coreax.solvers.KernelHerding.reduce", "coreax.solvers.KernelHerding.refine", "coreax.solvers.SteinThinning.reduce",
         "coreax.solvers.SteinThinning.refine", "coreax.solvers.coresubset._greedy_kernel_selection",
         "coreax.kernels.ScalarValuedKernel.gramian_row_mean", "coreax.score_matching.KernelDensityMatching.match",
         "coreax.score_matching.convert_stein_kernel", "coreax.metrics.KSD.compute"]
ASSUMPTIONS = ["exact real arithmetic in place of float32", "the kernel is symmetric"]


def merged(n, p, where):
    """Positions of the n real and p padding points; point numbers n.. are padding."""
    if where == "end":
        return list(range(n + p))
    if where == "start":
        return [*range(n, n + p), *range(n)]
    out = list(range(n))
    for q in range(p):
        out.insert(1 + 2 * q, n + q)
    return out


def same(B, idx, pidx, order, n):
    idx, pidx = ([int(i) for i in np.asarray(v).reshape(-1)] for v in (idx, pidx))
    B.true(f"padded indices lie in the dataset: {pidx}", all(0 <= i < len(order) for i in pidx))
    got = [order[i] for i in pidx]
    B.true(f"the padded dataset gives the same coreset: {got} and {idx}", got == idx)


def select(kind, n, p, m, where="end", unique=True, w="sym", bs=None, refine=None, regularise=False, tier="quick", **o):
    order = merged(n, p, where)

    def f(B):
        K = B.symmetric("K", n + p, lo=-8, hi=8)
        if w == "sym":
            wv = B.reals("w", n, ">0", lo=Fraction(1, 8), hi=8)
        else:
            wv = oarr([B.const(v) for v in w])
        wp = oarr([wv[i] if i < n else B.const(0) for i in order])

        def code(K, wv, wp):
            a = Data(jnp.arange(n, dtype=jnp.float32)[:, None], wv)
            b = Data(jnp.array(order, jnp.float32)[:, None], wp)
            if kind == "herding":
                s = KernelHerding(m, TableKernel(K), unique=unique, block_size=bs)
            else:
                N = n + p
                k = TableStein(SquaredExponentialKernel(), TableScore(jnp.zeros((N, 1)), jnp.zeros((N, 1, 1))), K)
                s = SteinThinning(m, k, unique=unique, regularise=regularise, block_size=bs)
            if refine is None:
                ra, rb = s.reduce(a), s.reduce(b)
            else:
                ca = Coresubset(Data(jnp.array(refine, jnp.int32)), a)
                cb = Coresubset(Data(jnp.array([order.index(i) for i in refine], jnp.int32)), b)
                ra, rb = s.refine(ca), s.refine(cb)
            st = (ra[1].gramian_row_mean, rb[1].gramian_row_mean) if kind == "herding" else (jnp.zeros(n), jnp.zeros(n + p))
            return ra[0].unweighted_indices, rb[0].unweighted_indices, *st

        sym = w == "sym"
        i, j, s, t = B.run(code, K, wv if sym else np.array(w, np.float32),
                           wp if sym else np.array([w[i] if i < n else 0 for i in order], np.float32))
        same(B, i, j, order, n)
        if kind == "herding":
            B.eq("mean similarity to the dataset", oarr([t[order.index(q)] for q in range(n)]), s)

    return Scenario(f"{kind} n={n} padding={p} at {where} m={m} unique={unique} w={w} block={bs} refine={refine} "
                    f"regularise={regularise}", f, f"any kernel on {n} points and {p} padding points", FUNCS, tier=tier, **o)


def kde(n, p, d, where="end", w=True, tier="quick", **o):
    order = merged(n, p, where)

    def f(B):
        x = B.reals("x", (n + p, d), lo=-2, hi=2)
        y = B.reals("y", (1, d), lo=-2, hi=2)
        wv = B.reals("w", n, ">0", Fraction(1, 8), 8)
        wp = oarr([wv[i] if i < n else B.const(0) for i in order])

        def code(x, y, wv, wp):
            s = KernelDensityMatching(0.75)
            a = s.match(Data(x[:n], wv))
            b = s.match(Data(x[jnp.array(order)], wp))
            return a(y), b(y)

        a, b = B.run(code, x, y, wv, wp)
        B.eq("score", b, a)

    return Scenario(f"score n={n} padding={p} at {where} d={d}", f, f"any {n} points and {p} padding points", FUNCS, tier=tier, **o)


def ksd(n, p, m, where="end", regularise=False, laplace=False, tier="quick", **o):
    """Padding of the comparison data."""
    order = merged(n, p, where)

    def f(B):
        K = B.symmetric("K", n + p, lo=-4, hi=4)
        J = B.reals("J", (n + p, 1, 1), lo=-2, hi=2)
        wv = B.reals("w", n, ">0", Fraction(1, 8), 8)
        wp = oarr([wv[i] if i < n else B.const(0) for i in order])

        def code(K, J, wv, wp):
            k = TableStein(SquaredExponentialKernel(), TableScore(jnp.zeros((n + p, 1)), J), K)
            ref = Data(jnp.arange(n, dtype=jnp.float32)[:, None])
            a = Data(jnp.arange(n, dtype=jnp.float32)[:, None], wv)
            b = Data(jnp.array(order, jnp.float32)[:, None], wp)
            s = KSD(k)
            kw = {"laplace_correct": laplace, "regularise": regularise}
            return s.compute(ref, a, **kw), s.compute(ref, b, **kw)

        a, b = B.run(code, K, J, wv, wp)
        B.eq("squared discrepancy", b * b, a * a)

    return Scenario(f"ksd n={n} padding={p} at {where} laplace={laplace}", f, f"any Stein kernel on {n} points, {p} padding points",
                    FUNCS, tier=tier, **o)


def scenarios():
    T = "thorough"
    W = [1, 2, 0.5, 1.5, 1]
    out = [select("herding", 3, 1, 2), select("herding", 3, 2, 2, "start"), select("herding", 3, 1, 2, "between", unique=False),
           select("herding", 4, 2, 2, w=W[:4], bs=3), select("herding", 3, 2, 2, refine=[2, 0], w=W[:3]),
           select("herding", 3, 1, 3, w=W[:3]), select("herding", 4, 1, 2, refine=[1, 3], unique=False, w=W[:4], where="start"),
           select("stein", 3, 1, 2, w=W[:3]), select("stein", 4, 2, 2, "between", w=W[:4], unique=False),
           select("stein", 3, 2, 2, "start", w=W[:3], bs=2), select("stein", 3, 1, 2, w=W[:3], refine=[1, 0]),
           select("stein", 3, 1, 2, "between", w=W[:3], regularise=True),
           select("stein", 4, 2, 2, w=W[:4], regularise=True, refine=[0, 2]),
           kde(2, 1, 1), kde(2, 1, 2, "start"), kde(2, 2, 1, "between"), ksd(2, 1, 1), ksd(3, 2, 1, "between")
           ]
    out += [select("herding", 4, 2, 3, "between", tier=T), select("herding", 5, 3, 2, w=W, bs=4, tier=T),
            select("stein", 5, 3, 2, "start", w=W, tier=T), select("stein", 4, 1, 3, w=W[:4], regularise=True, tier=T),
            kde(3, 2, 2, tier=T), ksd(4, 2, 1, tier=T)]
    return out
