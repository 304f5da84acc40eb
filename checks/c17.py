"""Recombination: an exact quadrature on at most as many points as there are test functions."""

from checks.common import *  # noqa: F403
from jaxsmt.harness import Scenario

from coreax.solvers import CaratheodoryRecombination, TreeRecombination

FUNCS = ["coreax.solvers.recombination.CaratheodoryRecombination.reduce", "coreax.solvers.recombination._push_forward",
         "coreax.solvers.recombination._co_linearize", "coreax.solvers.recombination._resolve_null_basis",
         "coreax.solvers.recombination._resolve_rcond", "coreax.solvers.recombination._coresubset_nodes",
         "coreax.data.Data.normalize", "coreax.coreset.Coresubset"]
ASSUMPTIONS = ["exact real arithmetic in place of float32",
               "the singular value decomposition is a stub: exact rank and an exact basis of the null space (the one the real "
               "decomposition returns, its negation, or unrelated ones); replays use the real decomposition"]


def rank(rows):
    """Rank of a small numeric matrix."""
    return int(np.linalg.matrix_rank(np.array([[float(x) for x in r] for r in rows]))) if len(rows) else 0


def moments(kind):
    """Test functions: name, JAX function, exact function."""
    if kind == "square":
        return (lambda x: jnp.array([x[0], x[0] * x[0]])), (lambda p: [p[0], p[0] * p[0]])
    if kind == "sum":
        return (lambda x: jnp.array([jnp.sum(x)])), (lambda p: [osum(p)])
    return None, list


def recombine(make, n, d, nodes=None, zeros=(), mode="implicit-explicit", tf=None, supervised=False, weights="sym",
              bases=4, tier="quick", label="caratheodory", jit=False, name="", **o):
    """nodes: concrete points (None: symbolic); zeros: indices of zero-weighted points."""
    fn, exact = moments(tf)

    def f(B):
        if nodes is None:
            x = B.reals("x", (n, d), lo=-4, hi=4)
        else:
            x = oarr([[B.const(v) for v in p] for p in nodes]).reshape(n, d)
        if weights == "sym":
            w = oarr([B.const(0) if i in zeros else B.real(f"w[{i}]", ">0", lo=Fraction(1, 16), hi=4) for i in range(n)])
        elif weights is None:
            w = oarr([B.const(1)] * n)
        else:
            # None: symbolic
            w = oarr([B.real(f"w[{i}]", ">0", lo=Fraction(1, 16), hi=4) if v is None else B.const(v)
                      for i, v in enumerate(weights)])

        def code(x, w):
            ws = None if weights is None else w
            data = SupervisedData(x, jnp.arange(n, dtype=jnp.float32)[:, None], ws) if supervised else Data(x, ws)
            s = make(fn, mode)
            c, state = eqx.filter_jit(s.reduce)(data) if jit else s.reduce(data)
            return c.unweighted_indices, c.points.weights, c.points.data

        idx, cw, pts = B.run(code, x if nodes is None else np.array(nodes, np.float32).reshape(n, d),
                             np.array(weights, np.float32) if isinstance(weights, list) and None not in weights else w,
                             eager=mode == "explicit")
        idx = [int(i) for i in np.asarray(idx).reshape(-1)]
        B.true("indices lie in the dataset", all(0 <= i < n for i in idx))
        phi = [[B.const(1), *exact(list(x[i]))] for i in range(n)]
        m = len(phi[0])
        if mode == "implicit-explicit":
            B.true(f"the coreset has min(n, m) points, got {len(idx)}", len(idx) == min(n, m))
        elif mode == "implicit":
            B.true(f"the coreset has n points, got {len(idx)}", len(idx) == n)
        B.eq("the points are those of the dataset", pts, x[idx])
        total = osum(w)
        eps = 2e-5 if not B.sym else 0
        for j, c in enumerate(cw):
            B.le(f"weight {j} is nonnegative", B.const(0), c, tol=eps)
        B.eq("the weights sum to one", oarr(osum(cw)), oarr(B.const(1)))
        for k in range(1, m):
            want = B.div(osum(w[i] * phi[i][k] for i in range(n)), total)
            B.eq(f"the mean of test function {k - 1} is preserved", oarr(osum(c * phi[i][k] for c, i in zip(cw, idx))),
                 oarr(want))
        nz = [j for j, c in enumerate(cw) if not B.decide(B.eq_(c, B.const(0)))]
        B.true(f"at most m points carry weight: {len(nz)}", len(nz) <= m)
        if nodes is not None:
            alive = [i for i in range(n) if i not in zeros and not (isinstance(weights, list) and weights[i] == 0)]
            B.true("at most rank many points carry weight", len(nz) <= rank([phi[i] for i in alive]))
        if mode == "explicit":
            B.true("every point carries weight", len(nz) == len(idx))
        B.true("points carrying weight are distinct", len({idx[j] for j in nz}) == len(nz))
        for j in nz:
            B.true("zero-weighted data stay without weight",
                   B.not_(B.eq_(w[idx[j]], B.const(0))))

    kind = "any" if nodes is None else str([list(p) for p in nodes])
    return Scenario(f"{label} n={n} d={d} nodes={kind} mode={mode} zeros={list(zeros)} tf={tf} w={weights}"
                    f"{' supervised' if supervised else ''}{' jit' if jit else ''}{name}", f,
                    f"{n} points in dimension {d} ({'any' if nodes is None else 'given'}), "
                    f"{'any' if weights == 'sym' else 'given'} weights, {bases} null-space bases",
                    FUNCS, tier=tier, bases=bases, **o)


def caratheodory(*a, rcond=None, **k):
    return recombine(lambda fn, mode: CaratheodoryRecombination(test_functions=fn, mode=mode, rcond=rcond), *a, **k)


def invalid():
    def f(B):
        def code(x):
            return jnp.stack([refused(lambda: CaratheodoryRecombination(mode="both")),
                              refused(lambda: TreeRecombination(mode="")),
                              *[1 - refused(lambda: CaratheodoryRecombination(mode=k))
                                for k in ("implicit", "explicit", "implicit-explicit")]])

        B.eq("modes refused and accepted", B.run(code, B.reals("x", 1)), oarr([B.const(1)] * 5))

    return Scenario("modes", f, "all modes", FUNCS, validate=0)


L4 = [[0], [1], [2], [4]]
L5 = [[0], [1], [3], [4], [6]]
SQ = [[0, 0], [1, 0], [0, 1], [1, 1]]
P5 = [[0, 0], [2, 0], [0, 2], [1, 1], [3, 3]]
MODES = ("implicit-explicit", "implicit", "explicit")


def scenarios():
    out = [invalid(), caratheodory(3, 1, bases=2), caratheodory(3, 1, bases=2, mode="implicit"),
           caratheodory(3, 1, bases=2, mode="explicit"), caratheodory(2, 1, bases=2)]
    for mode in MODES:
        out += [caratheodory(4, 1, L4, mode=mode), caratheodory(4, 2, SQ, mode=mode)]
    out += [caratheodory(4, 1, L4, zeros=(0,)), caratheodory(4, 1, L4, zeros=(3,), mode="implicit"),
            caratheodory(4, 1, L4, zeros=(1, 2), mode="implicit"), caratheodory(4, 1, L4, zeros=(0, 1), mode="explicit"),
            caratheodory(4, 2, SQ, zeros=(1,)),
            caratheodory(4, 1, [[1], [1], [1], [1]]), caratheodory(4, 1, [[1], [1], [2], [2]], mode="explicit"),
            caratheodory(4, 2, [[0, 0], [1, 1], [2, 2], [5, 5]]), caratheodory(2, 2, [[0, 0], [1, 2]]),
            caratheodory(4, 1, L4, tf="square"), caratheodory(4, 2, SQ, tf="sum"),
            caratheodory(4, 1, L4, supervised=True), caratheodory(4, 1, L4, weights=None),
            caratheodory(4, 1, L4, jit=True, mode="implicit"), caratheodory(4, 1, L4, rcond=-1.0, tf="square", name=" rcond=-1"),
            caratheodory(3, 1, zeros=(1,), bases=2)]
    for mode in MODES:
        out += [caratheodory(5, 2, P5, mode=mode, tier="thorough"), caratheodory(5, 1, L5, mode=mode, tier="thorough")]
    out += [caratheodory(5, 1, L5, zeros=(2, 3), tier="thorough"),
            caratheodory(4, 1, bases=2, tier="thorough")]
    return out
