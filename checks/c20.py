"""MMD weights: nonnegative, summing to one, and optimal among all such weights whenever the QP solver is exact."""

from checks.c10 import weights
from checks.common import *  # noqa: F403
from jaxsmt.harness import Scenario
from jaxsmt.poly import Unsupported

import jaxopt
from coreax.coreset import Coresubset, PseudoCoreset
from coreax.weights import MMDWeightsOptimiser, solve_qp

FUNCS = ["coreax.weights.solve_qp", "coreax.weights.MMDWeightsOptimiser.solve", "coreax.weights._prepare_kernel_system",
         "coreax.kernels.ScalarValuedKernel.compute_mean", "coreax.coreset.Coresubset.solve_weights"]
ASSUMPTIONS = ["exact real arithmetic in place of float32",
               "jaxopt's OSQP is a stub that returns any point satisfying the Karush-Kuhn-Tucker conditions of the quadratic "
               "program it was given (optimality), or any point at all (simplex); replays use the real OSQP"]


@contextlib.contextmanager
def osqp(seen, primal):
    """Record the program handed to OSQP and answer it with the given point."""

    def run(self, init_params=None, params_obj=None, params_eq=None, params_ineq=None):
        seen.append((params_obj, params_eq, params_ineq))
        x = primal if primal is not None else jnp.ones_like(params_obj[1])
        kkt = types.SimpleNamespace(primal=x, dual_eq=None, dual_ineq=None)
        return types.SimpleNamespace(params=kkt, state=None)

    old = jaxopt.OSQP.run
    jaxopt.OSQP.run = run
    try:
        yield
    finally:
        jaxopt.OSQP.run = old


def qp_code(n, core, bs, unroll, eps, via):
    def call(K, ax, primal, seen, sym):
        x = Data(jnp.arange(n, dtype=jnp.float32)[:, None], ax)
        y = Data(jnp.array(core, jnp.float32)[:, None])
        s = MMDWeightsOptimiser(TableKernel(K))
        kw = {} if eps is None else {"epsilon": eps}
        kw |= {"block_size": bs, "unroll": unroll}
        kw |= {} if sym else {"tol": 1e-6, "maxiter": 20000}
        with osqp(seen, primal) if sym else contextlib.nullcontext():
            if via == "coresubset":
                return Coresubset(Data(jnp.array(core, jnp.int32)), x).solve_weights(s, **kw).points.weights
            if via == "pseudo":
                return PseudoCoreset(y, x).solve_weights(s, **kw).points.weights
            if via == "array":
                return s.solve(x.data, y.data, **kw)
            return s.solve(x, y, **kw)

    return call


def optimal(n, core, cc, wx=None, bs=None, unroll=1, eps=None, via=None, qp=False, tier="quick", **o):
    """cc: Gram matrix of the coreset (None: symbolic, two points)."""
    m = len(core)
    N = max([n, *[c + 1 for c in core]])
    call = qp_code(n, core, bs, unroll, eps, via)

    def f(B):
        K = B.symmetric("K", N, lo=-4, hi=4)
        if cc is not None:
            for a in range(m):
                for b in range(m):
                    K[core[a], core[b]] = B.const(Fraction(cc[a][b]))
        else:
            for i in core:
                B.assume(B.le_(B.const(Fraction(1, 2)), K[i, i]))
            B.assume(B.le_(B.const(Fraction(1, 8)),
                           K[core[0], core[0]] * K[core[1], core[1]] - K[core[0], core[1]] * K[core[0], core[1]]))
        ax, px = weights(B, "wx", n, wx)
        z = [osum(px[i] * K[i, c] for i in range(n)) for c in core]
        e = B.const(np.float32(1e-10 if eps is None else eps))
        if qp:
            # solve_qp itself
            Kc = oarr([[K[a, b] for b in core] for a in core])
            zz = oarr(z)
            args = (Kc, zz)

            def go(A, v, primal, seen):
                with osqp(seen, primal) if B.sym else contextlib.nullcontext():
                    return solve_qp(A, v, **({} if B.sym else {"tol": 1e-6, "maxiter": 20000}))

            e = B.const(0)
        else:
            args = (K, ax)

            def go(K, ax, primal, seen):
                return call(K, ax, primal, seen, B.sym)

        if B.sym:
            def record(*a):
                seen = []
                go(*a, None, seen)
                if len(seen) != 1 or seen[0][0] is None:
                    raise Unsupported("the weights are not found by one call of OSQP")
                obj, eq, ineq = seen[0]
                eq = eq if eq is not None else (jnp.zeros((0, m)), jnp.zeros(0))
                ineq = ineq if ineq is not None else (jnp.zeros((0, m)), jnp.zeros(0))
                return (*obj, *eq, *ineq)

            Q, c, A, b, G, h = (oarr(v) for v in B.run(record, *args, tag="record"))
            c = c.reshape(-1)
            s = B.reals("s", m)
            nu = B.reals("nu", len(b))
            mu = B.reals("mu", len(h))
            for r in range(len(b)):
                B.assume(B.eq_(dot(A[r], s), b[r]))
            for r in range(len(h)):
                v = h[r] - dot(G[r], s)
                B.assume(B.le_(B.const(0), v))
                B.assume(B.le_(B.const(0), mu[r]))
                B.assume(B.or_(B.eq_(mu[r], B.const(0)), B.eq_(v, B.const(0))))
            for j in range(m):
                B.assume(B.eq_(osum(Q[j, i] * s[i] for i in range(m)) + c[j] + osum(A[r, j] * nu[r] for r in range(len(b)))
                               + osum(G[r, j] * mu[r] for r in range(len(h))), B.const(0)))
            w = B.run(lambda *a: go(*a[:-1], a[-1], []), *args, s, tag="solve")
        else:
            w = B.run(lambda *a: go(*a, None, []), *args, eager=True)
        w = list(w)
        B.true("one weight per coreset point", len(w) == m)
        for j in range(m):
            B.le(f"weight {j} is not negative", B.const(0), w[j])
        B.eq("weights sum to one", osum(w), B.const(1), tol=1e-3)
        grad = [osum(K[core[j], core[i]] * w[i] for i in range(m)) + e * w[j] - z[j] for j in range(m)]
        for j in range(m):
            B.le(f"moving weight to point {j} does not lower the discrepancy", dot(grad, w), grad[j],
                 tol=0 if B.sym else 2e-2)

    return Scenario(f"optimal n={n} core={core} gram={cc} wx={wx} block={bs} unroll={unroll} eps={eps} via={via} qp={qp}", f,
                    f"{n} points, coreset of {m}, exact QP solution", FUNCS, tier=tier, validate=0, **o)


def simplex(m, signed, tier="quick"):
    """Whatever OSQP returns (one positive entry at least), the weights lie on the simplex and keep its proportions."""

    def f(B):
        K = B.symmetric("K", m, lo=-4, hi=4)
        z = B.reals("z", m, lo=-4, hi=4)
        s = B.reals("s", m, lo=-2, hi=2) if signed else B.reals("s", m, ">0", Fraction(1, 8), 2)
        B.assume(B.or_(*[B.le_(B.const(Fraction(1, 8)), v) for v in s]))

        def code(K, z, s):
            with osqp([], s):
                return solve_qp(K, z)

        w = B.run(code, K, z, s)
        tot = osum(B.max(B.const(0), v) for v in s)
        for j in range(m):
            B.le(f"weight {j} is not negative", B.const(0), w[j])
            B.eq(f"weight {j} keeps its proportion", w[j] * tot, B.max(B.const(0), s[j]))
        B.eq("weights sum to one", osum(list(w)), B.const(1))

    return Scenario(f"simplex m={m} signed={signed}", f, f"{m} coreset points, any QP answer", FUNCS, tier=tier)


def refuse(kind):
    def f(B):
        x = B.reals("x", (3, 1))

        def code(x):
            s = SupervisedData(x, x)
            d = Data(x)
            a, b = {"dataset": (s, d), "coreset": (d, s), "both": (s, s)}[kind]
            from coreax.kernels import LinearKernel
            return refused(lambda: MMDWeightsOptimiser(LinearKernel()).solve(a, b), ValueError)

        B.eq("supervised data are refused", B.run(code, x), oarr(B.const(1)))

    return Scenario(f"refuse supervised {kind}", f, "any data", FUNCS)


G2 = ((2, 1), (1, 3))
H2 = ((1, 2), (2, 8))
G3 = ((2, 1, 0), (1, 3, -1), (0, -1, 2))


def scenarios():
    return [
        optimal(3, [0, 2], G2), optimal(3, [0, 2], H2, wx=(1, 2, 5)), optimal(3, [0, 1], H2, wx=(1, 0, 3), bs=2, via="coresubset"),
        optimal(3, [3, 4], H2, bs=2, unroll=2), optimal(2, [2, 1], G2, wx=(3, 1), via="pseudo"), optimal(3, [1, 2], H2, via="array"),
        optimal(3, [0, 2], G2, eps=0.5), optimal(3, [0, 2], H2, qp=True), optimal(2, [0, 1], None, qp=True),
        optimal(2, [0, 1], None, wx=(1, 3)), optimal(4, [0, 1, 3], G3, wx=(1, 2, 3, 4)), optimal(3, [0, 1, 2], G3, qp=True),
        optimal(3, [3, 4], None, tier="thorough"), optimal(3, [0, 2], G2, wx="sym", tier="thorough"),
        simplex(2, True), simplex(3, True), simplex(1, True), simplex(3, False), simplex(4, True, "thorough"),
        refuse("dataset"), refuse("coreset"), refuse("both"),
    ]
