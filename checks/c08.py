"""Greedy kernel points: each pair selected minimises the documented regression loss; results are valid."""

from checks.c06 import pd
from checks.common import *  # noqa: F403
from jaxsmt.harness import Scenario

from coreax.least_squares import RegularisedLeastSquaresSolver
from coreax.solvers import GreedyKernelPoints
from coreax.solvers.coresubset import GreedyKernelPointsState

FUNCS = ["coreax.solvers.GreedyKernelPoints.reduce", "coreax.solvers.GreedyKernelPoints.refine",
         "coreax.solvers.coresubset._setup_batch_solver", "coreax.solvers.coresubset._greedy_kernel_points_loss",
         "coreax.solvers.coresubset._update_candidate_coresets_and_coreset_indices",
         "coreax.least_squares.RegularisedLeastSquaresSolver.solve_stack"]
ASSUMPTIONS = ["exact real arithmetic in place of float32",
               "the least-squares solver passed in is exact on the active block (Gaussian elimination)",
               "shuffles follow the key unless the scenario says otherwise"]


class Exact(RegularisedLeastSquaresSolver):
    """Gaussian elimination on the block selected by the identity; zero elsewhere."""

    def solve(self, array, regularisation_parameter, target, identity):
        n = array.shape[0]
        active = jnp.diagonal(identity)
        a = array + abs(regularisation_parameter) * identity + jnp.diag(1 - active)
        rows = [[a[i, j] for j in range(n)] + [target[i, k] for k in range(target.shape[1])] for i in range(n)]
        for c in range(n):
            rows[c] = [v / rows[c][c] for v in rows[c]]
            for r in range(n):
                if r != c:
                    rows[r] = [u - rows[r][c] * v for u, v in zip(rows[r], rows[c])]
        return jnp.array([row[n:] for row in rows])


def loss(B, K, y, lam, core, batch):
    """The documented loss without its constant term."""
    m = len(core)
    rows = [[K[i, j] + (lam if a == b else B.const(0)) for b, j in enumerate(core)] + [y[i]] for a, i in enumerate(core)]
    for c in range(m):
        piv = rows[c][c]
        rows[c] = [B.div(v, piv) for v in rows[c]]
        for r in range(m):
            if r != c:
                f = rows[r][c]
                rows[r] = [u - f * v for u, v in zip(rows[r], rows[c])]
    coef = [row[m] for row in rows]
    t = B.const(0)
    for i in batch:
        p = osum(K[i, j] * coef[a] for a, j in enumerate(core))
        t = t + (y[i] - p) * (y[i] - p) - y[i] * y[i]
    return t


def make(m, key, K, lam, unique, cb, lb):
    kw = {} if lam is None else {"regularisation_parameter": lam}
    return GreedyKernelPoints(m, random_key=key, feature_kernel=TableKernel(K), unique=unique, candidate_batch_size=cb,
                              loss_batch_size=lb, least_squares_solver=Exact(), **kw)


def inputs(B, n, K, y):
    if isinstance(K, str):
        # any off-diagonal entries, unequal diagonal
        Ks = B.symmetric("K", n, lo=-4, hi=4)
        for i in range(n):
            Ks[i, i] = B.const(5 + i)
        return Ks, np.array(y, np.float32), Ks, oarr([B.const(Fraction(v)) for v in y])
    Ks = B.symmetric("K", n, lo=-4, hi=4) if K is None else np.array(K, np.float32)
    ys = B.reals("y", n, lo=-4, hi=4) if y is None else np.array(y, np.float32)
    if K is None:
        for i in range(n):
            B.assume(B.le_(B.const(Fraction(1, 2)), Ks[i, i]))
    Ko = Ks if K is None else oarr([[B.const(Fraction(v)) for v in r] for r in K])
    yo = ys if y is None else oarr([B.const(Fraction(v)) for v in y])
    return Ks, ys, Ko, yo


def valid(B, idx, pts, sup, n, m, unique, y):
    B.true("requested size", len(idx) == m)
    B.true("indices within the dataset", all(0 <= i < n for i in idx))
    if unique:
        B.true("indices are distinct", len(set(idx)) == m)
    B.eq("points are the indexed rows", pts, oarr([[B.const(i)] for i in idx]))
    B.eq("responses are the indexed rows", sup, oarr([[y[i]] for i in idx]))


def reduce_(n, m, K=None, y=None, lam=1.0, unique=True, cb=None, lb=None, initial=None, state=False, cap=None, tier="quick", **o):
    """initial: refine this coresubset instead of reducing. cap: candidate batch given but at least n."""
    start = [] if initial is None else list(initial)[:m]

    def code(K, y, k):
        K = jnp.asarray(K)
        d = SupervisedData(jnp.arange(n, dtype=jnp.float32)[:, None], y[:, None])
        s = make(m, k, K, lam, unique, cap if cap else cb, cap if cap else lb)
        st = GreedyKernelPointsState(jnp.pad(K, ((0, 1), (0, 1)))) if state else None
        if initial is None:
            c, st2 = s.reduce(d, st)
        else:
            c, st2 = s.refine(Coresubset(Data(jnp.array(initial, jnp.int32)), d), st)
        p = c.points
        return c.unweighted_indices, p.data, p.supervision, p.weights, st2.feature_gramian

    def f(B):
        Ks, ys, Ko, yo = inputs(B, n, K, y)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            idx, pts, sup, w, g = B.run(code, Ks, ys, B.key())
        idx = [int(i) for i in np.asarray(idx).reshape(-1)]
        valid(B, idx, pts, sup, n, m, unique, yo)
        B.eq("uniform weights", w, oarr([B.const(1)] * m))
        gz = np.full((n + 1, n + 1), B.const(0), dtype=object)
        gz[:n, :n] = Ko
        B.eq("the state is the padded Gram matrix", g, gz)
        lv = B.const(abs(1e-6 if lam is None else lam))
        everything = list(range(n))
        cur = list(start)
        before = list(start)
        for t in range(m):
            fixed = cur[:t] + cur[t + 1:]
            chosen = idx[t]

            def with_(i):
                c = list(cur)
                if t < len(c):
                    c[t] = i
                else:
                    c.append(i)
                return c

            best = loss(B, Ko, yo, lv, with_(chosen), everything)
            for j in range(n):
                if j == chosen or (unique and j in fixed):
                    continue
                B.le(f"step {t}: choosing {chosen} is no worse than {j}", best, loss(B, Ko, yo, lv, with_(j), everything))
            cur = with_(chosen)
        if len(before) == m:
            B.le("refinement does not raise the loss", loss(B, Ko, yo, lv, idx, everything),
                 loss(B, Ko, yo, lv, before, everything))

    what = f"{n} pairs, size {m}, " + ("any kernel" if K is None else "one kernel") + ", " + (
        "any responses" if y is None else "one response vector")
    return Scenario(f"greedy n={n} m={m} kernel={'any' if K is None else K if isinstance(K, str) else 'fixed'} responses={'any' if y is None else y} lambda={lam} "
                    f"unique={unique} initial={initial} state={state} batch size={cap}", f, what, FUNCS, tier=tier, real_bits=True, **o)


def batched(n, m, K, y, cb, lb, unique=True, initial=None, tier="quick", **o):
    """Candidates and loss are batches: every shuffle; results stay valid and refinement does not degrade."""

    def code(K, y, k):
        d = SupervisedData(jnp.arange(n, dtype=jnp.float32)[:, None], y[:, None])
        s = make(m, k, jnp.asarray(K), 1.0, unique, cb, lb)
        if initial is None:
            c, _ = s.reduce(d)
        else:
            c, _ = s.refine(Coresubset(Data(jnp.array(initial, jnp.int32)), d))
        return c.unweighted_indices, c.points.data, c.points.supervision

    def f(B):
        Ks, ys, Ko, yo = inputs(B, n, K, y)
        idx, pts, sup = B.run(code, Ks, ys, B.key())
        idx = [int(i) for i in np.asarray(idx).reshape(-1)]
        valid(B, idx, pts, sup, n, m, unique, yo)
        full = lb is None or lb >= n
        one = B.const(1)
        if initial is not None and len(initial) == m and full:
            B.le("refinement does not raise the loss", loss(B, Ko, yo, one, idx, range(n)),
                 loss(B, Ko, yo, one, list(initial), range(n)))
        if initial is None and full and cb is not None and cb < n:
            # the first pick beats the other candidates of its batch
            mine = loss(B, Ko, yo, one, idx[:1], range(n))
            worse = [B.le_(mine, loss(B, Ko, yo, one, [j], range(n))) for j in range(n) if j != idx[0]]
            import itertools

            B.true("the first pair beats a whole batch", B.or_(*[B.and_(*c) for c in itertools.combinations(worse, cb - 1)])
                   if cb > 1 else True)

    return Scenario(f"batched n={n} m={m} responses={'any' if y is None else y} candidates={cb} loss={lb} unique={unique} "
                    f"initial={initial} fixed shuffles={o.get('real_bits', False)}", f,
                    f"{n} pairs, one kernel, every draw", FUNCS, tier=tier, validate=0, **o)


def scenarios():
    K3, K4 = pd(3, 21), pd(4, 22)
    return [
        reduce_(2, 1), reduce_(3, 1, K=K3), reduce_(3, 2, K=K3, weight=3), reduce_(3, 3, K=K3, weight=3), reduce_(4, 1, K=K4, tier="thorough", weight=3),
        reduce_(4, 2, K=K4, y=(1, -2, 3, 1)), reduce_(4, 3, K=pd(4, 23), y=(2, 1, -1, 3)), reduce_(5, 4, K=pd(5, 24), y=(1, 3, -2, 1, 2)),
        reduce_(2, 2, K="diagonal fixed", y=(1, -2), weight=3), reduce_(3, 1, K="diagonal fixed", y=(1, 2, -1)), reduce_(3, 2, K=K3, unique=False, weight=3),
        reduce_(3, 1, K=K3, lam=-0.5), reduce_(3, 2, K=K3, lam=-0.5, y=(1, 2, 4)), reduce_(3, 2, K=K3, state=True, y=(3, 2, -1)), reduce_(3, 1, K=K3, state=True, lam=None),
        reduce_(3, 2, K=K3, initial=(2, 0), weight=3), reduce_(3, 2, K=K3, initial=(1,), weight=3), reduce_(3, 1, K=K3, initial=(1, 2)),
        reduce_(4, 2, K=K4, initial=(3, 1), y=(1, -2, 3, 1), unique=False), reduce_(3, 2, K=K3, cap=5, y=(1, 2, 4)),
        reduce_(4, 3, K=K4, initial=(3, 1), y=(1, -2, 3, 1)), reduce_(4, 2, K=K4, initial=(0, 1, 2), y=(1, -2, 3, 1)),
        reduce_(4, 2, K=K4, tier="thorough", weight=8), reduce_(3, 2, K="diagonal fixed", y=(1, 2, -1), tier="thorough", weight=9),
        batched(3, 2, K3, (1, 2, -1), 1, None), batched(3, 2, K3, (1, 2, -1), 2, None, initial=(0, 2)),
        batched(3, 3, K3, (1, 2, -1), 1, 1, weight=3, max_paths=60000, real_bits=True), batched(3, 2, K3, (3, 1, -1), 1, None, unique=False),
        batched(3, 1, K3, (1, 2, -1), 2, 1), batched(3, 2, K3, None, 1, None, initial=(1, 2), real_bits=True),
        batched(4, 2, K4, None, 2, None, real_bits=True), batched(3, 1, K3, (1, 2, -1), 2, None), batched(2, 2, pd(2, 25), (1, 3), 1, 1),
        batched(4, 3, K4, (2, 1, -1, 3), 1, 2, real_bits=True), batched(4, 1, K4, (2, 1, -1, 3), 3, None, tier="thorough"),
    ]
