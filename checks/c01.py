"""Kernel herding: greedy optimality, index validity, refinement, cached state.

A symbolic Gram table stands for any (symmetric) kernel on any dataset with n points.
"""

from checks.common import *  # noqa: F403
from jaxsmt.harness import Scenario

from coreax.solvers import KernelHerding
from coreax.solvers.coresubset import HerdingState

FUNCS = [
    "coreax.solvers.KernelHerding.reduce", "coreax.solvers.KernelHerding.refine",
    "coreax.solvers.KernelHerding.reduce_iterative",
    "coreax.solvers.coresubset._greedy_kernel_selection",
    "coreax.kernels.ScalarValuedKernel.gramian_row_mean", "coreax.kernels.ScalarValuedKernel.compute_mean",
    "coreax.kernels.ScalarValuedKernel.compute", "coreax.coreset.Coresubset", "coreax.data.Data",
]
ASSUMPTIONS = ["exact real arithmetic in place of float32", "the kernel is symmetric"]


def herd_oracle(B, G, wn, n, idx, unique, init, w, label=""):
    """idx: the returned indices; init: list of (index or None) being replaced in turn."""
    mean = [osum(wn[j] * G[i, j] for j in range(n)) for i in range(n)]
    cur = list(init)
    for t, chosen in enumerate(idx):
        # members other than the element being replaced
        others = [c for s, c in enumerate(cur) if c is not None and s != t]
        size = len(others) + 1
        banned = set(others) if unique else set()
        cand = [c for c in range(n) if w[c] is not False and c not in banned]
        B.true(f"{label}step {t} picks an admissible point", chosen in cand or not cand)
        if not cand:
            return mean
        obj = lambda c: mean[c] - osum(G[c, o] for o in others) / size  # noqa: B023
        for c in cand:
            if c != chosen:
                B.le(f"{label}step {t}: objective({c}) <= objective(chosen)", obj(c), obj(chosen))
        if t < len(cur):
            cur[t] = chosen
        else:
            cur.append(chosen)
    return mean


def weights_of(B, n, kind):
    """(array for the code, normalised exact weights, positivity flags)."""
    if kind == "unit":
        return np.ones(n, np.float32), [B.const(1) / n] * n, [True] * n
    w = B.reals("w", n, sgn=">0", lo=Fraction(1, 8), hi=8)
    flags = [True] * n
    if isinstance(kind, tuple):
        for z in kind:
            w[z] = B.const(0)
            flags[z] = False
    tot = osum(list(w))
    return w, [x / tot if f else B.const(0) for x, f in zip(w, flags)], flags


def common(B, idx, n, m, unique, flags):
    idx = [int(i) for i in np.asarray(idx).reshape(-1)]
    B.true("the coreset has the requested size", len(idx) == m)
    B.true("every index is within the dataset", all(0 <= i < n for i in idx))
    if unique:
        B.true("indices are distinct", len(set(idx)) == len(idx))
    B.true("no zero-weighted point is selected", all(flags[i] for i in idx))
    return idx


def reduce_scen(n, m, unique, bs=None, unroll=1, wk="unit", cached=False, tier="quick", sup=False):
    def f(B):
        G = B.symmetric("G", n)
        w, wn, flags = weights_of(B, n, wk)

        def code(G, x, w):
            s = KernelHerding(m, kernel=TableKernel(G), unique=unique, block_size=bs, unroll=unroll)
            d = SupervisedData(x, x + 1.0, w) if sup else Data(x, w)
            c, st = s.reduce(d)
            if cached:
                c2, st2 = s.reduce(d, st)
                return c.unweighted_indices, st.gramian_row_mean, c2.unweighted_indices, st2.gramian_row_mean
            return c.unweighted_indices, st.gramian_row_mean, c.points.data, c.pre_coreset_data.data

        out = B.run(code, G, points(n), w)
        idx = common(B, out[0], n, m, unique, flags)
        mean = herd_oracle(B, G, wn, n, idx, unique, [], flags)
        B.eq("cached state is the weighted Gramian row-mean", out[1], np.array(mean, dtype=object))
        if cached:
            B.true("reusing the state gives the same coreset", [int(i) for i in np.asarray(out[2]).ravel()] == idx)
            B.eq("state unchanged by reuse", out[3], np.array(mean, dtype=object))
        else:
            B.eq("coreset points are the indexed data", out[2], np.array([[B.const(i)] for i in idx], dtype=object))
            B.eq("pre-coreset data is the dataset", out[3], np.array([[B.const(i)] for i in range(n)], dtype=object))

    nm = f"reduce n={n} m={m} unique={unique} block={bs} unroll={unroll} w={wk} cached={cached} sup={sup}"
    return Scenario(nm, f, f"n={n} points, m={m} selections, any symmetric Gram matrix, weights {wk}", FUNCS,
                    tier=tier, weight=n**m)


def refine_scen(n, m, init, initw, unique, tier="quick", cached=False):
    """Refine an initial coresubset with the given indices; m is the solver's size. Weight None: any positive value."""

    def f(B):
        G = B.symmetric("G", n)
        iw = oarr([B.real(f"iw[{i}]", ">0", lo=Fraction(1, 4), hi=4) if v is None else B.const(v) for i, v in enumerate(initw)])

        def code(G, x, iw):
            s = KernelHerding(m, kernel=TableKernel(G), unique=unique)
            d = Data(x)
            c0 = Coresubset(Data(jnp.array(init, jnp.int32), iw), d)
            st0 = HerdingState(s.kernel.gramian_row_mean(d)) if cached else None
            c, st = s.refine(c0, st0)
            return c.unweighted_indices, c.indices.weights, st.gramian_row_mean

        out = B.run(code, G, points(n), iw)
        idx = common(B, out[0], n, m, unique, [True] * n)
        start = [i if wi is None or wi > 0 else None for i, wi in zip(init, initw)]
        mean = herd_oracle(B, G, [B.const(1) / n] * n, n, idx, unique, start, [True] * n, "refine ")
        B.eq("weights of the refined coreset are uniform", out[1], np.array([B.const(1)] * m, dtype=object))
        B.eq("state", out[2], np.array(mean, dtype=object))

    nm = f"refine n={n} m={m} init={init} initw={initw} unique={unique} cached={cached}"
    return Scenario(nm, f, f"n={n}, size {m}, initial indices {init} with weights {initw}", FUNCS, tier=tier,
                    weight=n**m)


def iterative_scen(n, m, its, unique, tier="quick"):
    """reduce_iterative equals repeated refinement (each pass greedy)."""

    def f(B):
        G = B.symmetric("G", n)

        def code(G, x):
            s = KernelHerding(m, kernel=TableKernel(G), unique=unique)
            c, st = s.reduce_iterative(Data(x), num_iterations=its)
            outs = [c.unweighted_indices, st.gramian_row_mean]
            c1, st1 = s.reduce(Data(x))
            for _ in range(its - 1):
                c1, st1 = s.refine(c1, st1)
            return (*outs, c1.unweighted_indices)

        a, rm, b = B.run(code, G, points(n))
        a = common(B, a, n, m, unique, [True] * n)
        B.true("iterative reduction is repeated refinement", a == [int(i) for i in np.asarray(b).ravel()])
        B.eq("state", rm, np.array([osum(G[i, j] for j in range(n)) / n for i in range(n)], dtype=object))

    return Scenario(f"reduce_iterative n={n} m={m} its={its} unique={unique}", f,
                    f"n={n}, m={m}, {its} refinement passes", FUNCS, tier=tier, weight=n ** (m + 1))


def prob_scen(n, m, unique, wk="unit", iterative=0, tier="quick"):
    """Probabilistic selection: valid, distinct, never zero-weighted, for every draw."""

    def f(B):
        G = B.symmetric("G", n)
        w, wn, flags = weights_of(B, n, wk)
        key = B.key()

        def code(G, x, w, k):
            s = KernelHerding(m, kernel=TableKernel(G), unique=unique, probabilistic=True, temperature=0.5,
                              random_key=k)
            if iterative:
                c, _ = s.reduce_iterative(Data(x, w), num_iterations=iterative,
                                          t_schedule=jnp.linspace(1.0, 0.5, iterative))
            else:
                c, _ = s.reduce(Data(x, w))
            return c.unweighted_indices

        idx = B.run(code, G, points(n), w, key)
        common(B, idx, n, m, unique, flags)

    return Scenario(f"probabilistic n={n} m={m} unique={unique} w={wk} iterative={iterative}", f,
                    f"n={n}, m={m}, any Gram matrix, any outcome of the categorical draws", FUNCS, tier=tier,
                    weight=n**m)


def wide_scen(n, high, bs=None, unique=True, refine=False, tier="quick"):
    """Many points, of which those in ``high`` (any order) have the largest similarity to the data."""
    m = len(high)

    def f(B):
        v = {i: B.real(f"v[{i}]", ">0", lo=2, hi=4) for i in high}
        for i in high:
            B.assume(B.lt(1, v[i]))
        G = np.full((n, n), B.const(0), dtype=object)
        for i in range(n):
            G[i, i] = v.get(i, B.const(1))

        def code(G, x):
            s, d = KernelHerding(m, kernel=TableKernel(G), unique=unique, block_size=bs), Data(x)
            c = s.refine(Coresubset(Data(jnp.arange(m)), d))[0] if refine else s.reduce(d)[0]
            return c.unweighted_indices

        idx = common(B, B.run(code, G, points(n)), n, m, True, [True] * n)
        B.true("the most similar points are selected", sorted(idx) == sorted(high))
        if not refine:
            for a, b in zip(idx, idx[1:]):
                B.le("the most similar point comes first", v.get(b, 1), v.get(a, 1))

    return Scenario(f"wide n={n} high={high} block={bs} unique={unique} refine={refine}", f,
                    f"{n} points, Gram matrix diagonal, of which {m} entries (at {high}) are larger than the others", FUNCS, tier=tier)


def scenarios():
    T = "thorough"
    return [
        reduce_scen(4, 3, True, bs=None),
        reduce_scen(4, 3, False, bs=3),
        reduce_scen(5, 2, True, bs=2, unroll=2),
        reduce_scen(5, 2, False, bs=(2, None)),
        reduce_scen(4, 2, True, wk="sym", bs=3),
        reduce_scen(4, 2, False, wk=(1,), bs=2),
        reduce_scen(5, 2, True, wk=(0, 3)),
        reduce_scen(4, 2, True, cached=True, bs=2),
        reduce_scen(3, 3, True, sup=True),
        reduce_scen(1, 1, True),
        reduce_scen(6, 1, True, bs=4),
        refine_scen(4, 2, [2, 0], [1, 1], True),
        refine_scen(4, 2, [3, 3], [1, 1], False, cached=True),
        refine_scen(4, 3, [1, 3], [1, 1], True),
        refine_scen(5, 3, [4], [1], True),
        refine_scen(4, 2, [3, 1, 0], [1, 1, 1], True),
        refine_scen(4, 2, [2, 0], [0, 0], False),
        refine_scen(4, 2, [2, 0], [None, None], True),
        refine_scen(4, 2, [2, 0], [0, None], True),
        refine_scen(4, 3, [1, 3], [None, None], False),
        iterative_scen(3, 2, 2, True),
        iterative_scen(4, 2, 3, True),
        iterative_scen(3, 2, 2, False),
        wide_scen(300, [290, 130]), wide_scen(300, [299, 7, 256], bs=128), wide_scen(300, [280, 140], bs=97, refine=True),
        prob_scen(3, 2, True),
        prob_scen(3, 2, False, wk=(1,)),
        prob_scen(4, 2, True, wk=(0,)),
        prob_scen(3, 2, True, iterative=2),
        reduce_scen(6, 3, True, tier=T),
        reduce_scen(5, 4, True, bs=3, tier=T),
        reduce_scen(7, 2, False, bs=4, tier=T),
        reduce_scen(5, 3, True, wk="sym", tier=T),
        refine_scen(6, 3, [5, 1, 2], [1, 1, 1], True, tier=T),
        iterative_scen(4, 3, 3, True, tier=T),
        prob_scen(4, 3, True, wk="sym", tier=T),
    ]
