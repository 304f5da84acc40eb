"""Kernel derivatives: gradients and divergence are those of the documented kernel."""

from checks.kernels import *  # noqa: F403
from jaxsmt.harness import Scenario

_M = ("grad_x_elementwise", "grad_y_elementwise", "divergence_x_grad_y_elementwise")
FUNCS = [f"coreax.kernels.{k}.{m}" for k in (
    "LinearKernel", "PolynomialKernel", "ExponentialKernel", "LaplacianKernel", "SquaredExponentialKernel",
    "PCIMQKernel", "RationalQuadraticKernel", "MaternKernel", "PeriodicKernel", "PoissonKernel") for m in _M] + [
    "coreax.kernels.ScalarValuedKernel.grad_x", "coreax.kernels.ScalarValuedKernel.grad_y",
    "coreax.kernels.ScalarValuedKernel.divergence_x_grad_y"]
ASSUMPTIONS = ["exact real arithmetic in place of float32",
               "the derivative rules of JAX's automatic differentiation (the reference differentiates the documented "
               "formula)"]


def derivs(ref):
    gx = jax.grad(ref, argnums=0)
    gy = jax.grad(ref, argnums=1)

    def div(x, y):
        return jnp.trace(jax.jacfwd(gy, argnums=0)(x, y))

    return gx, gy, div


def deriv(s, d, sym_h=True, tier="quick", unit=False, only=None, **o):
    """unit: output scale one; only: which of the three derivatives to assert."""

    def f(B):
        h = hyper_reals(B, s) if sym_h else None
        if unit:
            h[s.hyper.index("output_scale")] = B.const(1)
        x, y = pair(B, s, d)

        def code(x, y, *h):
            k = build(s, list(h[0]) if h else None)
            return (k.grad_x_elementwise(x, y), k.grad_y_elementwise(x, y), k.divergence_x_grad_y_elementwise(x, y))

        def ref(x, y, *h):
            hv = dict(zip(s.hyper, h[0])) if h else {n: getattr(s.make(), n) for n in s.hyper}
            gx, gy, dv = derivs(lambda a, b: s.ref(hv, a, b))
            return gx(x, y), gy(x, y), dv(x, y)

        hh = [h] if sym_h else []
        a = B.run(code, x, y, *hh)
        r = B.run(ref, x, y, *hh)
        if only != "divergence":
            B.eq("gradient in the first argument", a[0], r[0])
            B.eq("gradient in the second argument", a[1], r[1])
        if only != "gradients":
            B.eq("divergence", a[2], r[2])

    return Scenario(f"derivatives {s.name} d={d} symbolic hyperparameters={sym_h}"
                    + (" unit output scale" if unit else "") + (f" {only}" if only else ""), f,
                    f"dimension {d}, any two points in [-3,3]^d" + (", any hyperparameters in [1/4,4]" if sym_h else ""),
                    FUNCS, tier=tier, **o)


def at_equal(s, d, tier="quick"):
    """Differentiable kernels have the right derivatives at equal points too."""

    def f(B):
        h = hyper_reals(B, s)
        x = B.reals("x", d, lo=-3, hi=3)

        def code(x, h):
            k = build(s, list(h))
            return (k.grad_x_elementwise(x, x), k.grad_y_elementwise(x, x), k.divergence_x_grad_y_elementwise(x, x))

        def ref(x, h):
            hv = dict(zip(s.hyper, h))
            gx, gy, dv = derivs(lambda a, b: s.ref(hv, a, b))
            return gx(x, x), gy(x, x), dv(x, x)

        a = B.run(code, x, h)
        if s.name.startswith("matern"):
            # limits of the closed form: zero gradient, divergence d * rho^2 (2p+1) / ((2p-1) lambda^2)
            p = int(s.name.split()[1])
            l, o = h
            r = (np.array([B.const(0)] * d, dtype=object),) * 2 + (
                B.div(B.const(d * (2 * p + 1)) * o * o, B.const(2 * p - 1) * l * l),)
        else:
            r = B.run(ref, x, h)
        B.eq("gradient in the first argument", a[0], r[0])
        B.eq("gradient in the second argument", a[1], r[1])
        B.eq("divergence", a[2], r[2])

    return Scenario(f"equal points {s.name} d={d}", f, f"dimension {d}, any point and hyperparameters", FUNCS, tier=tier)


def pairwise_shapes(s, n, m, d, tier="quick"):
    """The array forms hold the pointwise derivatives, for every row and column."""

    def f(B):
        x = B.reals("x", (n, d), lo=-3, hi=3)
        y = B.reals("y", (m, d), lo=-3, hi=3)

        def code(x, y):
            k = s.make()
            e = [[(k.grad_x_elementwise(x[i], y[j]), k.grad_y_elementwise(x[i], y[j]),
                   k.divergence_x_grad_y_elementwise(x[i], y[j])) for j in range(m)] for i in range(n)]
            ref = [jnp.stack([jnp.stack([e[i][j][q] for j in range(m)]) for i in range(n)]) for q in range(3)]
            return (k.grad_x(x, y), k.grad_y(x, y), k.divergence_x_grad_y(x, y), *ref)

        o = B.run(code, x, y)
        for q, nm in enumerate(("grad_x", "grad_y", "divergence")):
            B.eq(nm + " array", o[q], o[3 + q])

    return Scenario(f"arrays {s.name} {n}x{m} d={d}", f, f"{n} and {m} points of dimension {d}", FUNCS, tier=tier)


def scenarios():
    out = []
    per = SPECS["periodic"]
    out += [deriv(per, 1, only="gradients"), deriv(per, 2, sym_h=False, only="gradients"), deriv(per, 1, unit=True),
            deriv(per, 2, only="gradients"), deriv(per, 2, unit=True, tier="thorough"),
            # a recorded finding: the divergence is wrong unless the output scale is one
            deriv(per, 1, sym_h=False, only="divergence")]
    for s in SPECS.values():
        if s is per:
            continue
        heavy = s.name in ("matern 3",)
        o = {"double": True} if s.name.startswith("matern") else {}
        out.append(deriv(s, s.d, sym_h=not heavy, weight=3, **o))
        if s.d > 1:
            out.append(deriv(s, 1, weight=2, **o))
            out.append(deriv(s, 3, tier="thorough", **o))
        out.append(deriv(s, s.d, sym_h=False, **o) if not heavy else deriv(s, s.d, sym_h=True, tier="thorough", **o))
        if not s.apart and not s.generic:
            out.append(at_equal(s, 2))
    out += [at_equal(SPECS["poisson"], 1), at_equal(SPECS["matern 1"], 2), at_equal(SPECS["matern 2"], 1)]
    for n in ("linear", "polynomial 3", "squared exponential", "pcimq", "rational quadratic 2.0"):
        out.append(pairwise_shapes(SPECS[n], 2, 3, 2))
    return out
