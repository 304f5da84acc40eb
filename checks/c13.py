"""Kernel values: the documented formula, symmetry, range and diagonal of every kernel."""

from checks.kernels import *  # noqa: F403
from jaxsmt.harness import Scenario

FUNCS = [f"coreax.kernels.{k}.compute_elementwise" for k in (
    "LinearKernel", "PolynomialKernel", "ExponentialKernel", "LaplacianKernel", "SquaredExponentialKernel",
    "PCIMQKernel", "RationalQuadraticKernel", "MaternKernel", "PeriodicKernel", "PoissonKernel",
    "LocallyPeriodicKernel")] + ["coreax.kernels.ScalarValuedKernel.compute"]
ASSUMPTIONS = ["exact real arithmetic in place of float32"]


def formula(s, d=None, sym_h=True, tier="quick"):
    d = d or s.d

    def f(B):
        h = hyper_reals(B, s) if sym_h else None
        x, y = pair(B, s, d, apart=False) if not s.generic else pair(B, s, d)

        def code(x, y, *h):
            k = build(s, list(h[0]) if h else None)
            hv = dict(zip(s.hyper, h[0])) if h else {n: getattr(k, n) for n in s.hyper}
            return (k.compute_elementwise(x, y), k.compute_elementwise(y, x), k.compute(x, y),
                    k.compute(jnp.stack([x, y]), jnp.stack([y, x, x])), s.ref(hv, x, y), s.ref(hv, x, x))

        a, b, c, m, r, rxx = B.run(code, x, y, *([h] if sym_h else []))
        B.eq("value is the documented formula", a, r)
        B.eq("symmetric", a, b)
        B.eq("compute on two points", c, np.array([[r.item()]], dtype=object))
        B.eq("Gram entries", m[0][:2], np.array([r.item(), rxx.item()], dtype=object))
        B.eq("Gram entries, repeated column", m[:, 1], m[:, 2])
        B.eq("Gram entries are symmetric", m[1, 1], r)

    return Scenario(f"formula {s.name} d={d} symbolic hyperparameters={sym_h}", f,
                    f"dimension {d}, any two points in [-3,3]^d" + (", any hyperparameters in [1/4,4]" if sym_h else ""),
                    FUNCS, tier=tier)


def bounds(s, d, tier="quick"):
    """0 < k(x,y) <= k(x,x) = k(y,y) for the stationary kernels (and their declared scale)."""

    def f(B):
        h = hyper_reals(B, s)
        x, y = pair(B, s, d, apart=False) if not s.generic else pair(B, s, d)
        names = dict(zip(s.hyper, h))

        def code(x, y, h):
            k = build(s, list(h))
            return k.compute_elementwise(x, y), k.compute_elementwise(x, x)

        a, dx = B.run(code, x, y, h)
        a, dx = a.item(), dx.item()
        want = names["output_scale"]
        if s.name.startswith("matern"):
            want = want * want
        if s.name == "poisson":
            want = B.div(want, (1 - names["index"]) * (1 - names["index"]))
        B.eq("value at equal points is the output scale", dx, want)
        B.true("positive", B.lt(0, a))
        B.le("bounded by the value at equal points", a, want)

    return Scenario(f"range {s.name} d={d}", f, f"dimension {d}, any points and hyperparameters", FUNCS, tier=tier)


def locally_periodic(d):
    def f(B):
        x, y = B.reals("x", d, lo=-3, hi=3), B.reals("y", d, lo=-3, hi=3)

        def code(x, y):
            k = ck.LocallyPeriodicKernel(0.7, 1.5, 1.25, 0.6, 2.5)
            p = {"length_scale": 0.7, "output_scale": 1.5, "periodicity": 1.25}
            e = {"length_scale": 0.6, "output_scale": 2.5}
            return (k.compute_elementwise(x, y), k.compute_elementwise(y, x),
                    SPECS["periodic"].ref(p, x, y) * SPECS["squared exponential"].ref(e, x, y))

        a, b, r = B.run(code, x, y)
        B.eq("product of the two kernels", a, r)
        B.eq("symmetric", a, b)

    return Scenario(f"locally periodic d={d}", f, f"dimension {d}, any two points, fixed hyperparameters", FUNCS)


def shift_invariant(s, d):
    def f(B):
        h = hyper_reals(B, s)
        x, y = pair(B, s, d, apart=False) if not s.generic else pair(B, s, d)
        t = B.reals("t", d)

        def code(x, y, t, h):
            k = build(s, list(h))
            return k.compute_elementwise(x, y), k.compute_elementwise(x + t, y + t)

        a, b = B.run(code, x, y, t, h)
        B.eq("shift invariant", a, b)

    return Scenario(f"shift {s.name} d={d}", f, f"dimension {d}, any points, shift and hyperparameters", FUNCS)


def refusals():
    """Invalid hyperparameters are refused, valid ones accepted."""
    K = ck
    bad = [
        lambda: K.LinearKernel(0.0), lambda: K.LinearKernel(-1.0), lambda: K.LinearKernel(1.0, -0.5),
        lambda: K.PolynomialKernel(-1.0), lambda: K.PolynomialKernel(0.0), lambda: K.PolynomialKernel(1.0, -1.0),
        lambda: K.PolynomialKernel(degree=1), lambda: K.PolynomialKernel(degree=2.5), lambda: K.PolynomialKernel(degree=-2),
        lambda: K.PoissonKernel(0.0), lambda: K.PoissonKernel(1.0), lambda: K.PoissonKernel(-0.1),
        lambda: K.PoissonKernel(1.5), lambda: K.PoissonKernel(0.5, 0.0),
        lambda: K.MaternKernel(degree=-1), lambda: K.MaternKernel(degree=1.5),
        lambda: K.RationalQuadraticKernel(relative_weighting=-0.5),
    ]
    good = [
        lambda: K.LinearKernel(0.1, 0.0), lambda: K.PolynomialKernel(0.1, 0.0, 2), lambda: K.PoissonKernel(0.01),
        lambda: K.PoissonKernel(0.99), lambda: K.MaternKernel(degree=0), lambda: K.RationalQuadraticKernel(0.1, 0.1, 0.1),
    ]
    for c in (K.ExponentialKernel, K.LaplacianKernel, K.SquaredExponentialKernel, K.PCIMQKernel,
              K.RationalQuadraticKernel, K.MaternKernel, K.PeriodicKernel):
        for v in (0.0, -1.0):
            bad += [lambda c=c, v=v: c(length_scale=v), lambda c=c, v=v: c(output_scale=v)]
        good += [lambda c=c: c(length_scale=0.01, output_scale=0.01)]

    def f(B):
        z = B.real("z")
        i = B.pick(len(bad) + len(good))
        mk = (bad + good)[i]

        def code(z):
            try:
                mk()
                return jnp.asarray(0) + 0 * z.astype(jnp.int32) if False else jnp.asarray(0)
            except ValueError:
                return jnp.asarray(1)

        r = B.run(code, np.array(z, dtype=object))
        B.true(f"case {i}: {'refused' if i < len(bad) else 'accepted'}", int(r) == (1 if i < len(bad) else 0))

    return Scenario("hyperparameter validation", f, f"{len(bad)} invalid and {len(good)} valid settings", FUNCS,
                    validate=0)


def sqrt_kernel(d, tier="quick"):
    """Square-root kernel of the squared exponential: Definition 5 of the cited paper, per dimension.

    Integral over R^d of ks(x,z) ks(y,z) dz = k(x,y): with ks = c exp(-|.|^2/(2 a^2)) the
    integral is c^2 (pi a^2)^(d/2) exp(-|x-y|^2 / (4 a^2)).
    """

    def f(B):
        l = B.real("l", ">0", Fraction(1, 4), 4)
        o = B.real("o", ">0", Fraction(1, 4), 4)

        def code(l, o):
            with array_fields(ck.SquaredExponentialKernel):
                k = ck.SquaredExponentialKernel(l, o).get_sqrt_kernel(d)
                return jnp.asarray(k.length_scale), jnp.asarray(k.output_scale)

        a, c = B.run(code, np.array(l, dtype=object), np.array(o, dtype=object), eager=True)
        a, c = a.item(), c.item()
        B.eq("length scale", 2 * a * a, l * l)
        pi = B.const(Fraction(np.pi))
        lhs = c * c * c * c * B.pow(pi * a * a, d)
        B.eq("output scale (fourth power)", lhs, o * o)

    return Scenario(f"square-root kernel d={d}", f, f"dimension {d}, any hyperparameters", FUNCS, tier=tier)


def scenarios():
    out = [refusals(), sqrt_kernel(1), sqrt_kernel(2), sqrt_kernel(3), sqrt_kernel(5), locally_periodic(1), locally_periodic(2)]
    for s in SPECS.values():
        out.append(formula(s))
        out.append(formula(s, sym_h=False))
        if s.d != 1:
            out.append(formula(s, d=1))
            out.append(formula(s, d=3, tier="thorough"))
    for n in ("exponential", "laplacian", "squared exponential", "pcimq", "rational quadratic 1.0", "matern 0", "matern 1", "periodic", "poisson"):
        if n != "matern 1":
            out.append(bounds(SPECS[n], 1))
        if n != "poisson":
            out.append(bounds(SPECS[n], 2, "thorough"))
            out.append(shift_invariant(SPECS[n], 2))
    return out
