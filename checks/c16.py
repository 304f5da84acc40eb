"""Stein kernel: the documented combination of base kernel, derivatives and score, for any of them."""

from checks.kernels import *  # noqa: F403
from jaxsmt.harness import Scenario

from coreax.kernels import SteinKernel
from coreax.score_matching import ScoreMatching, convert_stein_kernel

FUNCS = ["coreax.kernels.SteinKernel.compute_elementwise", "coreax.kernels.ScalarValuedKernel.compute",
         "coreax.score_matching.convert_stein_kernel"]
ASSUMPTIONS = ["exact real arithmetic in place of float32"]


def stein_value(t, s1, s2, i, j):
    k, gx, gy, dv = t
    return dv[i, j] + dot(gx[i, j], s2[j]) + dot(gy[i, j], s1[i]) + k[i, j] * dot(s1[i], s2[j])


def tables(n, d, tier="quick"):
    def f(B):
        t = jet_tables(B, "k", n, n, d)
        s = B.reals("s", (n, d), lo=-3, hi=3)

        def code(x, s, *t):
            k = SteinKernel(JetKernel(*t), TableScore(s, jnp.zeros((n, d, d))))
            return k.compute(x, x)

        out = B.run(code, index_points(n, d), s, *t)
        B.eq("Stein kernel", out, oarr([[stein_value(t, s, s, i, j) for j in range(n)] for i in range(n)]))

    return Scenario(f"any base kernel and score n={n} d={d}", f, f"any value and derivative tables at {n}x{n} points, d={d}",
                    FUNCS, tier=tier)


def concrete_base(name, d, tier="quick", **o):
    """A library kernel and the affine score of any Gaussian."""
    s = SPECS[name]

    def f(B):
        x, y = pair(B, s, d)
        mu = B.reals("mu", d, lo=-2, hi=2)
        pr = B.real("precision", ">0", Fraction(1, 4), 4)

        def code(x, y, mu, pr):
            k = SteinKernel(s.make(), lambda z: -pr * (z - mu))
            hv = {n: getattr(s.make(), n) for n in s.hyper}
            ref = lambda a, b: s.ref(hv, a, b)  # noqa: E731
            sc = lambda z: -pr * (z - mu)  # noqa: E731
            gx, gy = jax.grad(ref, 0), jax.grad(ref, 1)
            r = (jnp.trace(jax.jacfwd(gy, 0)(x, y)) + gy(x, y) @ sc(x) + gx(x, y) @ sc(y)
                 + ref(x, y) * (sc(x) @ sc(y)))
            return k.compute_elementwise(x, y), k.compute_elementwise(y, x), r

        a, b, r = B.run(code, x, y, mu, np.array(pr, dtype=object))
        B.eq("Stein kernel", a, r)
        B.eq("symmetric", b, r)

    return Scenario(f"Gaussian score, {name} d={d}", f, f"any two points and any isotropic Gaussian, d={d}", FUNCS,
                    tier=tier, **o)


def conversion(case, d=1, tier="quick"):
    """Which kernel and score the conversion uses."""
    n = 3

    def f(B):
        t = jet_tables(B, "k", n, n, d)
        s = B.reals("s", (n, d), lo=-3, hi=3)
        m = B.reals("m", (n, d), lo=-3, hi=3)

        def code(x, s, m, *t):
            class Given(ScoreMatching):
                def match(self, x):
                    return TableScore(m, jnp.zeros((n, d, d)))

            base = JetKernel(*t)
            given = Given() if "match" in case else None
            kern = SteinKernel(base, TableScore(s, jnp.zeros((n, d, d)))) if "stein" in case else base
            data = Data(x, jnp.array([1.0, 2.0, 3.0])) if "data" in case else x
            return convert_stein_kernel(data, kern, given).compute(x, x)

        out = B.run(code, index_points(n, d), s, m, *t)
        sc = m if "match" in case else s
        B.eq("the converted kernel", out, oarr([[stein_value(t, sc, sc, i, j) for j in range(n)] for i in range(n)]))

    return Scenario(f"conversion {case} d={d}", f, "any base kernel and score tables at 3x3 points", FUNCS, tier=tier)


def default_length(name):
    """Without score matching the kernel density estimate uses the kernel's own length scale (or one)."""

    def f(B):
        x = B.reals("x", (2, 1), lo=-2, hi=2)
        y = B.reals("y", 1, lo=-2, hi=2)

        def code(x, y):
            k = SPECS[name].make()
            ls = getattr(k, "length_scale", 1.0)
            c = convert_stein_kernel(x, k, None)

            def logp(z):
                return jnp.log(jnp.mean(jnp.exp(-jnp.sum((z - x) ** 2, axis=1) / (2 * ls**2))))

            return c.score_function(y), jax.grad(logp)(y)

        a, r = B.run(code, x, y)
        B.eq("score of the kernel density estimate", a, r)

    return Scenario(f"default score {name}", f, "two data points, any evaluation point, d=1", FUNCS)


def nested(d=1):
    """A Stein kernel may wrap any base kernel, including a composite."""

    def f(B):
        t1, t2 = jet_tables(B, "a", 2, 2, d), jet_tables(B, "b", 2, 2, d)
        s = B.reals("s", (2, d), lo=-3, hi=3)

        def code(x, s, *t):
            k = SteinKernel(JetKernel(*t[:4]) + JetKernel(*t[4:]), TableScore(s, jnp.zeros((2, d, d))))
            return k.compute(x, x)

        out = B.run(code, index_points(2, d), s, *t1, *t2)
        B.eq("Stein kernel of a sum", out, oarr([[stein_value(t1, s, s, i, j) + stein_value(t2, s, s, i, j)
                                                  for j in range(2)] for i in range(2)]))

    return Scenario("Stein kernel of a sum", f, "any two base kernels", FUNCS)


def scenarios():
    T = "thorough"
    return [
        tables(2, 1), tables(2, 2), tables(3, 3), tables(4, 2, T),
        *[concrete_base(n, d) for n in ("squared exponential", "pcimq", "linear", "polynomial 3",
                                        "rational quadratic 1.5") for d in (1, 2)],
        concrete_base("poisson", 1), concrete_base("exponential", 2), concrete_base("squared exponential", 3, T),
        conversion("stein"), conversion("stein match"), conversion("plain match"), conversion("stein match data"),
        conversion("plain match data", d=2), default_length("squared exponential"), default_length("pcimq"),
        default_length("linear"), nested(), tables(1, 3),
    ]
