"""MapReduce: every data point takes part once, padding never does, and indices lead back to the original dataset."""

import itertools

from checks.common import *  # noqa: F403
from jaxsmt.harness import Scenario

from coreax.coreset import PseudoCoreset
from coreax.kernels import SquaredExponentialKernel
from coreax.solvers import KernelHerding, MapReduce, RandomSample, SteinThinning
from coreax.solvers.base import ExplicitSizeSolver, PaddingInvariantSolver

FUNCS = ["coreax.solvers.composite.MapReduce.reduce", "coreax.solvers.composite._jit_tree",
         "coreax.solvers.composite.MapReduce.__check_init__", "coreax.util.tree_zero_pad_leading_axis"]
ASSUMPTIONS = ["exact real arithmetic in place of float32",
               "the space-partitioning tree returns one of several fixed orders of the points (tree_type is a parameter of "
               "MapReduce); the property does not depend on which"]


class Largest(ExplicitSizeSolver, PaddingInvariantSolver):
    """The points with the largest first coordinate, among those with weight: partitioning cannot change the answer."""

    pseudo: bool = False

    def reduce(self, dataset, solver_state=None):
        score = jnp.where(dataset.weights > 0, dataset.data[:, 0], -jnp.inf)
        _, idx = jax.lax.top_k(score, self.coreset_size)
        if self.pseudo:
            return PseudoCoreset(Data(dataset.data[idx]), dataset), None
        return Coresubset(Data(idx), dataset), None


def tree_type(order):
    class Tree:
        def __init__(self, data, leaf_size=40, sample_weight=None):
            n = len(data)
            self.perm = np.array(ORDERS[order](n))

        def get_arrays(self):
            return None, self.perm, None, None

    return Tree


ORDERS = [lambda n: list(range(n)), lambda n: list(range(n))[::-1], lambda n: [*range(0, n, 2), *range(1, n, 2)],
          lambda n: [(3 * i + n // 2) % n for i in range(n)] if n % 3 else [(i + n // 2) % n for i in range(n)]]


def top(n, leaf, m, zeros=(), supervised=False, pseudo=False, weighted=True, orders=4, gap=True, tier="quick", **o):
    """gap: the winners are known in advance (any m of the n points), the rest lie below them."""

    def f(B):
        alive = [i for i in range(n) if i not in zeros]
        sets = list(itertools.combinations(alive, m))
        best = sets[B.pick(len(sets))] if gap else None
        order = B.pick(orders)
        x = B.reals("x", (n, 1), lo=-4, hi=4)
        w = oarr([B.const(0) if i in zeros else B.real(f"w[{i}]", ">0", lo=Fraction(1, 4), hi=4) for i in range(n)])
        cut = B.real("cut", lo=-4, hi=4)
        if gap:
            for i in alive:
                B.assume(B.lt(cut, x[i, 0]) if i in best else B.lt(x[i, 0], cut))
        y = oarr([[B.const(10 + i)] for i in range(n)])

        def code(x, y, w):
            ws = w if weighted else None
            data = SupervisedData(x, y, ws) if supervised else Data(x, ws)
            s = MapReduce(Largest(m, pseudo=pseudo), leaf_size=leaf, tree_type=tree_type(order))
            c, state = s.reduce(data)
            p = c.pre_coreset_data
            idx = jnp.zeros(m, jnp.int32) if pseudo else c.unweighted_indices
            return (idx, c.points.data, c.points.weights, p.data, p.weights,
                    c.points.supervision if supervised else jnp.zeros((m, 1)))

        idx, pts, cw, pd, pw, ys = B.run(code, x, y, w)
        B.eq("the coreset refers to the original points", pd, x)
        B.eq("the coreset refers to the original weights", pw, w if weighted else oarr([B.const(1)] * n))
        B.true("the coreset has the requested size", len(pts) == m)
        if pseudo:
            if gap:
                for i in best:
                    B.true(f"point {i} is among the coreset points", B.or_(*[B.eq_(p[0], x[i, 0]) for p in pts]))
            return
        idx = [int(i) for i in idx]
        B.true(f"indices lie in the dataset: {idx}", all(0 <= i < n for i in idx))
        B.true(f"indices are distinct: {idx}", len(set(idx)) == m)
        B.true(f"no zero-weighted point is selected: {idx}", not set(idx) & set(zeros))
        B.eq("points match the indices", pts, x[idx])
        if supervised:
            B.eq("responses match the indices", ys, y[idx])
        if gap:
            B.true(f"the best points survive every level: {idx} for {best}", set(idx) == set(best))

    return Scenario(f"largest n={n} leaf={leaf} m={m} zeros={list(zeros)}"
                    f"{' supervised' if supervised else ''}{' pseudo' if pseudo else ''}{'' if weighted else ' unweighted'}",
                    f, f"{n} points with any values, leaf size {leaf}, {orders} tree orders", FUNCS, tier=tier, **o)


def herding(n, leaf, m, zeros=(), kind="herding", tier="quick", **o):
    def f(B):
        order = B.pick(3)
        K = B.symmetric("K", n, lo=-4, hi=4)

        def code(K):
            w = jnp.array([0.0 if i in zeros else 1.0 for i in range(n)])
            # the zero-valued padding shares the kernel row of point 0
            data = Data(jnp.arange(n, dtype=jnp.float32)[:, None], w)
            if kind == "herding":
                s = KernelHerding(m, TableKernel(K), unique=True)
            else:
                s = SteinThinning(m, TableStein(SquaredExponentialKernel(), TableScore(jnp.zeros((n, 1)), jnp.zeros((n, 1, 1))), table=K),
                                  regularise=False, unique=True)
            c, _ = MapReduce(s, leaf_size=leaf, tree_type=tree_type(order)).reduce(data)
            return c.unweighted_indices, c.points.data

        idx, pts = B.run(code, K)
        idx = [int(i) for i in idx]
        B.true("the coreset has the requested size", len(idx) == m)
        B.true(f"indices lie in the dataset: {idx}", all(0 <= i < n for i in idx))
        B.true(f"indices are distinct: {idx}", len(set(idx)) == m)
        B.true(f"no zero-weighted point is selected: {idx}", not set(idx) & set(zeros))
        B.eq("points match the indices", pts, oarr([[B.const(i)] for i in idx]))

    return Scenario(f"{kind} n={n} leaf={leaf} m={m} zeros={list(zeros)}", f, f"any kernel on {n} points, leaf size {leaf}",
                    FUNCS, tier=tier, **o)


def small(n, leaf, m):
    """A dataset that fits one leaf is handed to the base solver as it is."""

    def f(B):
        K, w = B.symmetric("K", n, lo=-4, hi=4), B.reals("w", n, ">0", lo=Fraction(1, 4), hi=4)

        def code(K, w):
            data = Data(jnp.arange(n, dtype=jnp.float32)[:, None], w)
            s = KernelHerding(m, TableKernel(K))
            a, sa = MapReduce(s, leaf_size=leaf).reduce(data)
            b, sb = s.reduce(data)
            return a.unweighted_indices, b.unweighted_indices, a.points.weights, b.points.weights

        r = B.run(code, K, w)
        B.true("same selection", [int(i) for i in r[0]] == [int(i) for i in r[1]])
        B.eq("same weights", r[2], r[3])

    return Scenario(f"one leaf n={n} leaf={leaf} m={m}", f, f"any kernel and weights on {n} points", FUNCS)


def refusals():
    class Loose(ExplicitSizeSolver):
        def reduce(self, dataset, solver_state=None):
            raise NotImplementedError

    class Sizeless(PaddingInvariantSolver):
        def reduce(self, dataset, solver_state=None):
            raise NotImplementedError

    def warns(s):
        with warnings.catch_warnings(record=True) as seen:
            warnings.simplefilter("always")
            MapReduce(s, leaf_size=9)
        return jnp.array(float(any("PaddingInvariant" in str(v.message) for v in seen)))

    def f(B):
        def code(x):
            s = Largest(3)
            return jnp.stack([refused(lambda: MapReduce(s, leaf_size=3)), refused(lambda: MapReduce(s, leaf_size=1)),
                              1 - refused(lambda: MapReduce(s, leaf_size=4)), refused(lambda: MapReduce(Sizeless(), leaf_size=4)),
                              warns(Loose(2)), 1 - warns(s)])

        B.eq("refused and accepted", B.run(code, B.reals("x", 1)), oarr([B.const(1)] * 6))

    return Scenario("refusals", f, "leaf sizes around the coreset size", FUNCS, validate=0)


def scenarios():
    out = [refusals(), small(4, 4, 2), small(3, 7, 2), top(5, 3, 1), top(5, 2, 1), top(6, 4, 2, zeros=(0,)),
           top(5, 3, 2), top(7, 3, 2, zeros=(4,)), top(5, 3, 2, supervised=True),
           top(5, 2, 1, pseudo=True), top(6, 3, 1, weighted=False), top(9, 8, 1, orders=2, zeros=(1, 3)),
           top(9, 2, 1, orders=3), top(11, 6, 1, zeros=(0, 10)),
           herding(4, 3, 1), herding(5, 3, 1, zeros=(0,)), herding(4, 3, 2), herding(4, 3, 1, kind="stein")]
    out += [herding(5, 3, 2, tier="thorough", budget=600), herding(5, 2, 1, tier="thorough", budget=600),
            herding(5, 3, 2, kind="stein", tier="thorough", budget=600), top(6, 5, 4, tier="thorough"), top(7, 4, 2, tier="thorough"), top(11, 2, 1, tier="thorough"), top(9, 4, 2, tier="thorough", budget=600),
            top(13, 4, 1, tier="thorough", budget=600)]
    return out
