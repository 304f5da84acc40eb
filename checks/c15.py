"""Kernel algebra: +, * and ** of kernels have the values and derivatives of sums, products and powers.

The operands are arbitrary kernels: symbolic tables of values and derivatives.
"""

from checks.common import *  # noqa: F403
from jaxsmt.harness import Scenario

from coreax import kernels as ck
from coreax.kernels import base as kb

FUNCS = [f"coreax.kernels.{c}.{m}" for c in ("AdditiveKernel", "ProductKernel", "PowerKernel") for m in (
    "compute_elementwise", "grad_x_elementwise", "grad_y_elementwise", "divergence_x_grad_y_elementwise")] + [
    "coreax.kernels.ScalarValuedKernel.__add__", "coreax.kernels.ScalarValuedKernel.__radd__",
    "coreax.kernels.ScalarValuedKernel.__mul__", "coreax.kernels.ScalarValuedKernel.__rmul__",
    "coreax.kernels.ScalarValuedKernel.__pow__", "coreax.kernels.base._Constant"]
ASSUMPTIONS = ["exact real arithmetic in place of float32"]


class Jet:
    """Value, gradients and divergence of one kernel at one pair of points."""

    def __init__(self, k, gx, gy, dv):
        self.k, self.gx, self.gy, self.dv = k, list(gx), list(gy), dv

    def __add__(self, o):
        return Jet(self.k + o.k, [a + b for a, b in zip(self.gx, o.gx)], [a + b for a, b in zip(self.gy, o.gy)],
                   self.dv + o.dv)

    def __mul__(self, o):
        return Jet(self.k * o.k, [a * o.k + b * self.k for a, b in zip(self.gx, o.gx)],
                   [a * o.k + b * self.k for a, b in zip(self.gy, o.gy)],
                   self.dv * o.k + o.dv * self.k + dot(self.gx, o.gy) + dot(self.gy, o.gx))


def jets(t, i, j):
    return Jet(t[0][i, j], t[1][i, j], t[2][i, j], t[3][i, j])


def const(B, c, d):
    z = B.const(0)
    return Jet(B.const(c), [z] * d, [z] * d, z)


def power(B, a, p, d):
    r = const(B, 1, d)
    for _ in range(p):
        r = r * a
    return r


def expr(name, build, oracle, nk, n=1, m=1, d=2, tier="quick", **o):
    """build(kernels) -> composite kernel; oracle(B, jets, d) -> Jet."""

    def f(B):
        ts = [jet_tables(B, f"k{q}", n, m, d) for q in range(nk)]
        flat = [t for tt in ts for t in tt]

        def code(x, y, *fl):
            ks = [JetKernel(*fl[4 * q: 4 * q + 4]) for q in range(nk)]
            k = build(ks)
            return k.compute(x, y), k.grad_x(x, y), k.grad_y(x, y), k.divergence_x_grad_y(x, y)

        out = B.run(code, index_points(n, d), index_points(m, d), *flat, eager=True)
        ref = [[oracle(B, [jets(t, i, j) for t in ts], d) for j in range(m)] for i in range(n)]
        B.eq("value", out[0], oarr([[r.k for r in row] for row in ref]))
        B.eq("gradient in the first argument", out[1], oarr([[r.gx for r in row] for row in ref]))
        B.eq("gradient in the second argument", out[2], oarr([[r.gy for r in row] for row in ref]))
        B.eq("divergence", out[3], oarr([[r.dv for r in row] for row in ref]))

    return Scenario(f"{name} {n}x{m} d={d}", f, f"any kernels (value and derivative tables) at {n}x{m} points, d={d}",
                    FUNCS, tier=tier, **o)


def documented(name, build, ref, d=1, tier="quick"):
    """Composites of the library's own kernels against the formula (values only)."""

    def f(B):
        x = B.reals("x", d, lo=-2, hi=2)
        y = B.reals("y", d, lo=-2, hi=2)

        def code(x, y):
            k = build()
            r = lambda a, b: ref(a, b)  # noqa: E731
            gx, gy = jax.grad(r, 0), jax.grad(r, 1)
            return (k.compute_elementwise(x, y), k.grad_x_elementwise(x, y), k.grad_y_elementwise(x, y),
                    k.divergence_x_grad_y_elementwise(x, y),
                    r(x, y), gx(x, y), gy(x, y), jnp.trace(jax.jacfwd(gy, 0)(x, y)))

        o = B.run(code, x, y)
        for i, t in enumerate(("value", "gradient in the first argument", "gradient in the second argument",
                               "divergence")):
            B.eq(t, o[i], o[4 + i])

    return Scenario(f"library kernels {name} d={d}", f, f"any two points in [-2,2]^{d}", FUNCS, tier=tier)


def validation():
    k = ck.LinearKernel()

    def refused(fn, exc):
        def g():
            try:
                fn()
            except exc:
                return True
            return False

        return g

    cases = [
        ("k + -1", refused(lambda: k + -1, ValueError)), ("-0.5 * k", refused(lambda: -0.5 * k, ValueError)),
        ("k ** 0", refused(lambda: k**0, ValueError)), ("k ** -1", refused(lambda: k**-1, ValueError)),
        ("k ** 1.5", refused(lambda: k**1.5, ValueError)), ("k + 'a'", refused(lambda: k + "a", ValueError)),
        ("k * 'a'", refused(lambda: k * "a", ValueError)), ("k ** 2.0", refused(lambda: k**2.0, ValueError)),
        ("AdditiveKernel(k, 1)", refused(lambda: ck.AdditiveKernel(k, 1), TypeError)),
        ("ProductKernel(1, k)", refused(lambda: ck.ProductKernel(1, k), TypeError)),
        ("PowerKernel(1, 2)", refused(lambda: ck.PowerKernel(1, 2), TypeError)),
        ("k + 0", lambda: not refused(lambda: k + 0, ValueError)()),
        ("k * 0", lambda: not refused(lambda: k * 0, ValueError)()),
        ("k ** 1", lambda: not refused(lambda: k**1, ValueError)()),
    ]

    def f(B):
        i = B.pick(len(cases))
        B.true(f"operands are validated: {cases[i][0]}", bool(cases[i][1]()))

    return Scenario("operand validation", f, f"{len(cases)} operand choices", FUNCS, validate=0)


def scenarios():
    T = "thorough"
    sqe = lambda l, o: (lambda x, y: o * jnp.exp(-jnp.sum((x - y) ** 2) / (2 * l**2)))  # noqa: E731
    lin = lambda o, c: (lambda x, y: o * jnp.sum(x * y) + c)  # noqa: E731
    return [
        expr("k0 + k1", lambda k: k[0] + k[1], lambda B, j, d: j[0] + j[1], 2, n=2, m=2),
        expr("k0 * k1", lambda k: k[0] * k[1], lambda B, j, d: j[0] * j[1], 2, n=1, m=2, prove_ms=60000),
        expr("k0 * k0", lambda k: k[0] * k[0], lambda B, j, d: j[0] * j[0], 1, n=2, m=2),
        expr("k0 + 3", lambda k: k[0] + 3, lambda B, j, d: j[0] + const(B, 3, d), 1, n=2, m=1),
        expr("2.5 + k0", lambda k: 2.5 + k[0], lambda B, j, d: j[0] + const(B, 2.5, d), 1),
        expr("k0 * 3", lambda k: k[0] * 3, lambda B, j, d: j[0] * const(B, 3, d), 1, n=1, m=2),
        expr("0.5 * k0", lambda k: 0.5 * k[0], lambda B, j, d: j[0] * const(B, 0.5, d), 1),
        expr("0 * k0", lambda k: 0 * k[0], lambda B, j, d: j[0] * const(B, 0, d), 1),
        *[expr(f"k0 ** {p}", lambda k, p=p: k[0] ** p, lambda B, j, d, p=p: power(B, j[0], p, d), 1, n=1, m=2)
          for p in (1, 2, 3, 4, 5)],
        expr("k0 ** 6", lambda k: k[0] ** 6, lambda B, j, d: power(B, j[0], 6, d), 1, tier=T),
        expr("k0 ** 9", lambda k: k[0] ** 9, lambda B, j, d: power(B, j[0], 9, d), 1, tier=T, d=3),
        expr("(k0 + k1) * k0", lambda k: (k[0] + k[1]) * k[0], lambda B, j, d: (j[0] + j[1]) * j[0], 2),
        expr("k0 * k1 + k2", lambda k: k[0] * k[1] + k[2], lambda B, j, d: j[0] * j[1] + j[2], 3),
        expr("(k0 + 2) ** 3", lambda k: (k[0] + 2) ** 3, lambda B, j, d: power(B, j[0] + const(B, 2, d), 3, d), 1),
        expr("(k0 * k1) ** 2", lambda k: (k[0] * k[1]) ** 2, lambda B, j, d: power(B, j[0] * j[1], 2, d), 2),
        expr("k0 ** 2 * k0 ** 2", lambda k: k[0] ** 2 * k[0] ** 2, lambda B, j, d: power(B, j[0], 4, d), 1),
        expr("(k0 ** 2) ** 3", lambda k: (k[0] ** 2) ** 3, lambda B, j, d: power(B, j[0], 6, d), 1, d=1),
        expr("k0 * k1 d=1", lambda k: k[0] * k[1], lambda B, j, d: j[0] * j[1], 2, d=1),
        expr("k0 * k1 d=3", lambda k: k[0] * k[1], lambda B, j, d: j[0] * j[1], 2, d=3, tier=T),
        documented("linear * squared exponential", lambda: ck.LinearKernel(1.5, 0.5) * ck.SquaredExponentialKernel(0.8, 2.0),
                   lambda x, y: lin(1.5, 0.5)(x, y) * sqe(0.8, 2.0)(x, y), d=2),
        documented("two squared exponentials differing in scale",
                   lambda: ck.SquaredExponentialKernel(0.8, 1.0) * ck.SquaredExponentialKernel(0.8, 2.0),
                   lambda x, y: sqe(0.8, 1.0)(x, y) * sqe(0.8, 2.0)(x, y), d=2),
        documented("linear ** 3 + 1", lambda: ck.LinearKernel(1.5, 0.5) ** 3 + 1,
                   lambda x, y: lin(1.5, 0.5)(x, y) ** 3 + 1, d=2),
        documented("squared exponential ** 2 * 3", lambda: ck.SquaredExponentialKernel(0.8, 1.5) ** 2 * 3,
                   lambda x, y: 3 * sqe(0.8, 1.5)(x, y) ** 2, d=1),
        validation(),
    ]
