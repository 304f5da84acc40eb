"""Blocked kernel means equal the (weighted) mean of the full kernel matrix."""

from checks.common import *  # noqa: F403
from jaxsmt.harness import Scenario

FUNCS = [
    "coreax.kernels.ScalarValuedKernel.compute_mean", "coreax.kernels.ScalarValuedKernel.gramian_row_mean",
    "coreax.kernels.ScalarValuedKernel.compute", "coreax.kernels.util._block_data_convert",
    "coreax.util.tree_zero_pad_leading_axis", "coreax.util.tree_leaves_repeat", "coreax.util.pairwise",
    "coreax.data.Data.normalize", "coreax.data.as_data",
]
ASSUMPTIONS = ["exact real arithmetic in place of float32", "the kernel is symmetric", "the weights of each operand "
               "are non-negative with a positive sum"]


def wts(B, name, n, kind):
    """(weights for the code or None, normalised weights)."""
    if kind is None:
        return None, [B.const(1) / n] * n
    if kind == "int":
        w = np.arange(1, n + 1).astype(np.int32)
        return w, [B.const(int(x)) / int(w.sum()) for x in w]
    w = B.reals(name, n, sgn=">0", lo=Fraction(1, 8), hi=8)
    if isinstance(kind, tuple):
        for z in kind:
            w[z] = B.const(0)
    t = osum(list(w))
    return w, [x / t for x in w]


def mean_scen(n, m, axis, bs, unroll=1, wx=None, wy=None, tier="quick"):
    def f(B):
        G = B.symmetric("G", n + m)
        wX, nX = wts(B, "wx", n, wx)
        wY, nY = wts(B, "wy", m, wy)
        X, Y = points(n + m)[:n], points(n + m)[n:]

        def code(G, X, Y, *ws):
            ws = list(ws)
            a = Data(X, ws.pop(0)) if wX is not None else X
            b = Data(Y, ws.pop(0)) if wY is not None else Y
            return TableKernel(G).compute_mean(a, b, axis=axis, block_size=bs, unroll=unroll)

        out = B.run(code, G, X, Y, *[w for w in (wX, wY) if w is not None])
        K = lambda i, j: G[i, n + j]  # noqa: E731
        if axis is None:
            ref = np.array(osum(nX[i] * nY[j] * K(i, j) for i in range(n) for j in range(m)), dtype=object)
        elif axis == 0:
            ref = np.array([osum(nX[i] * K(i, j) for i in range(n)) for j in range(m)], dtype=object)
        else:
            ref = np.array([osum(nY[j] * K(i, j) for j in range(m)) for i in range(n)], dtype=object)
        B.eq("mean of the kernel matrix", out, ref)

    return Scenario(f"mean n={n} m={m} axis={axis} block={bs} unroll={unroll} wx={wx} wy={wy}", f,
                    f"{n}x{m} kernel matrix of any values, weights {wx}/{wy}", FUNCS, tier=tier)


def row_scen(n, bs, unroll, w, tier="quick"):
    def f(B):
        G = B.symmetric("G", n)
        W, nW = wts(B, "w", n, w)

        def code(G, X, *ws):
            a = Data(X, ws[0]) if ws else X
            return TableKernel(G).gramian_row_mean(a, block_size=bs, unroll=unroll)

        out = B.run(code, G, points(n), *([W] if W is not None else []))
        B.eq("Gramian row-mean", out,
             np.array([osum(nW[i] * G[i, j] for i in range(n)) for j in range(n)], dtype=object))

    return Scenario(f"gramian_row_mean n={n} block={bs} unroll={unroll} w={w}", f, f"n={n}, any Gram matrix", FUNCS,
                    tier=tier)


def compute_scen(n, m, d):
    """compute() evaluates the elementwise function on every pair, in order."""

    def f(B):
        X, Y = B.reals("x", (n, d)), B.reals("y", (m, d))

        class Asym(ScalarValuedKernel):
            def compute_elementwise(self, x, y):
                x, y = jnp.atleast_1d(x), jnp.atleast_1d(y)
                return x[0] + 2 * y[-1] + 3 * jnp.sum(x * y)

        def code(X, Y):
            k = Asym()
            return k.compute(X, Y), k.compute(X[0], Y[0]), k.compute(X[:, 0][0], Y[0, 0]), k.grad_x(X, Y), k.grad_y(X, Y)

        out = B.run(code, X, Y)
        e = lambda x, y: x[0] + 2 * y[-1] + 3 * osum(a * b for a, b in zip(x, y))  # noqa: E731
        B.eq("pairwise evaluation", out[0], np.array([[e(x, y) for y in Y] for x in X], dtype=object))
        B.eq("vector arguments", out[1], np.array([[e(X[0], Y[0])]], dtype=object))
        B.eq("scalar arguments", out[2], np.array([[e([X[0, 0]], [Y[0, 0]])]], dtype=object))
        B.eq("grad_x", out[3], np.array([[[3 * y[c] + (1 if c == 0 else 0) for c in range(d)] for y in Y] for x in X],
                                        dtype=object))
        B.eq("grad_y", out[4], np.array([[[3 * x[c] + (2 if c == d - 1 else 0) for c in range(d)] for y in Y]
                                         for x in X], dtype=object))

    return Scenario(f"pairwise n={n} m={m} d={d}", f, f"{n} and {m} points in {d} dimensions", FUNCS)


def scenarios():
    out = []
    T = "thorough"
    for axis in (None, 0, 1):
        for bs in (None, 1, 2, 3, 4, 5, 9, (2, 3), (None, 2), (3, None), 0):
            out.append(mean_scen(5, 4, axis, bs))
        for bs in (2, 3, (4, 1)):
            out.append(mean_scen(5, 3, axis, bs, wx="sym", wy="sym"))
            out.append(mean_scen(4, 5, axis, bs, wx=(1,), wy=None, unroll=2))
        out.append(mean_scen(3, 4, axis, 2, wx=None, wy=(0, 2), unroll=(2, 1)))
        out.append(mean_scen(3, 4, axis, 3, wx="int", wy="sym", unroll=True))
        out.append(mean_scen(1, 3, axis, 2))
        out.append(mean_scen(3, 1, axis, 2, wy="int"))
        for n in range(1, 10):
            for bs in range(1, n + 1):
                out.append(mean_scen(n, 7, axis, (bs, 3), wx="int", wy="int", tier=T))
    for bs in (None, 1, 2, 3, 4, (2, 3)):
        out.append(row_scen(5, bs, 1, None))
        out.append(row_scen(4, bs, 2, "sym"))
    for bs in range(1, 9):
        out.append(row_scen(8, bs, 1, "sym", tier=T))
    out += [compute_scen(2, 3, 2), compute_scen(3, 1, 1), compute_scen(1, 2, 3)]
    return out
