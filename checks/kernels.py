"""The documented kernels: constructor, symbolic hyperparameters, reference formula."""

from math import factorial

from checks.common import *  # noqa: F403

from coreax import kernels as ck


def sq(x, y):
    return jnp.sum((x - y) * (x - y))


def nrm(x, y):
    return jnp.sqrt(sq(x, y))


def matern_ref(p):
    def ref(h, x, y):
        r = jnp.sqrt(2.0 * p + 1.0) * nrm(x, y) / h["length_scale"]
        s = 0.0
        for i in range(p + 1):
            s = s + factorial(p + i) / (factorial(i) * factorial(p - i)) * (2 * r) ** (p - i)
        return h["output_scale"] ** 2 * jnp.exp(-r) * factorial(p) / factorial(2 * p) * s

    return ref


class Spec:
    def __init__(self, name, make, hyper, ref, d=2, apart=False, generic=False, static=None):
        self.name, self.make, self.hyper, self.ref = name, make, hyper, ref
        self.d, self.apart, self.generic = d, apart, generic


def rq_ref(alpha):
    return lambda h, x, y: h["output_scale"] * (1 + sq(x, y) / (2 * alpha * h["length_scale"] ** 2)) ** (-alpha)


LO = ("length_scale", "output_scale")
SPECS = {}


def spec(name, make, hyper, ref, **k):
    SPECS[name] = Spec(name, make, hyper, ref, **k)


spec("linear", lambda: ck.LinearKernel(1.5, 0.5), ("output_scale", "constant"),
     lambda h, x, y: h["output_scale"] * jnp.sum(x * y) + h["constant"])
for _p in (2, 3, 4):
    spec(f"polynomial {_p}", lambda p=_p: ck.PolynomialKernel(1.5, 0.5, p), ("output_scale", "constant"),
         lambda h, x, y, p=_p: h["output_scale"] * (jnp.sum(x * y) + h["constant"]) ** p)
spec("exponential", lambda: ck.ExponentialKernel(0.7, 1.5), LO,
     lambda h, x, y: h["output_scale"] * jnp.exp(-nrm(x, y) / (2 * h["length_scale"] ** 2)), apart=True)
spec("laplacian", lambda: ck.LaplacianKernel(0.7, 1.5), LO,
     lambda h, x, y: h["output_scale"] * jnp.exp(-jnp.sum(jnp.abs(x - y)) / (2 * h["length_scale"] ** 2)),
     generic=True)
spec("squared exponential", lambda: ck.SquaredExponentialKernel(0.7, 1.5), LO,
     lambda h, x, y: h["output_scale"] * jnp.exp(-sq(x, y) / (2 * h["length_scale"] ** 2)))
spec("pcimq", lambda: ck.PCIMQKernel(0.7, 1.5), LO,
     lambda h, x, y: h["output_scale"] / jnp.sqrt(1 + sq(x, y) / (2 * h["length_scale"] ** 2)))
for _a in (0.5, 1.0, 1.5, 2.0, 3.0):
    spec(f"rational quadratic {_a}", lambda a=_a: ck.RationalQuadraticKernel(0.7, 1.5, a), LO, rq_ref(_a))
spec("rational quadratic any", lambda: ck.RationalQuadraticKernel(0.7, 1.5, 1.25), (*LO, "relative_weighting"),
     lambda h, x, y: h["output_scale"] * (1 + sq(x, y) / (2 * h["relative_weighting"] * h["length_scale"] ** 2))
     ** (-h["relative_weighting"]))
for _p in (0, 1, 2, 3):
    spec(f"matern {_p}", lambda p=_p: ck.MaternKernel(0.7, 1.5, p), LO, matern_ref(_p), apart=True)
spec("periodic", lambda: ck.PeriodicKernel(0.7, 1.5, 1.25), ("length_scale", "output_scale", "periodicity"),
     lambda h, x, y: h["output_scale"] * jnp.exp(
         -2 * jnp.sin(jnp.pi * nrm(x, y) / h["periodicity"]) ** 2 / h["length_scale"] ** 2), apart=True)
spec("poisson", lambda: ck.PoissonKernel(0.5, 1.5), ("index", "output_scale"),
     lambda h, x, y: h["output_scale"] / (1 - 2 * h["index"] * jnp.cos(jnp.abs(jnp.sum(x - y))) + h["index"] ** 2), d=1, apart=True)


def build(spec_, hv):
    """The kernel with (possibly traced) hyperparameter values."""
    k = spec_.make()
    if hv is None:
        return k
    return eqx.tree_at(lambda m: [getattr(m, n) for n in spec_.hyper], k, list(hv))


def hyper_reals(B, s):
    out = []
    for n in s.hyper:
        lo, hi = (Fraction(1, 10), Fraction(9, 10)) if n == "index" else (Fraction(1, 4), 4)
        if n == "constant":
            lo = 0
        out.append(B.real(n, ">0" if n != "constant" else ">=0", lo, hi))
    return np.array(out, dtype=object)


def pair(B, s, d, apart=None):
    x = B.reals("x", d, lo=-3, hi=3)
    y = B.reals("y", d, lo=-3, hi=3)
    if s.generic:
        for i in range(d):
            B.assume(B.not_(B.le_(B.abs(x[i] - y[i]), Fraction(1, 50))), "the points differ in every coordinate")
    elif apart if apart is not None else s.apart:
        B.assume(B.lt(Fraction(1, 100), osum((x[i] - y[i]) * (x[i] - y[i]) for i in range(d))),
                 "the two points are distinct (the kernel is not differentiable at equal points)")
    return x, y
