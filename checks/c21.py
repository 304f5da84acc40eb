"""Datasets: points, responses and weights stay paired through construction, indexing and normalisation."""

from checks.common import *  # noqa: F403
from jaxsmt.harness import Scenario

from coreax.data import as_supervised_data

FUNCS = ["coreax.data.Data", "coreax.data.SupervisedData", "coreax.data._atleast_2d_consistent",
         "coreax.data.Data.__getitem__", "coreax.data.Data.normalize", "coreax.data.Data.__jax_array__",
         "coreax.data.as_data", "coreax.data.as_supervised_data"]
ASSUMPTIONS = ["exact real arithmetic in place of float32"]


def wts(B, n, kind):
    """Weights argument for the code (None: omitted) and the expected vector."""
    if kind == "none":
        return np.zeros(0, np.float32), [B.const(1)] * n
    if kind == "scalar":
        w = B.real("w", lo=-4, hi=4)
        return oarr(w), [w] * n
    w = B.reals("w", n, lo=-4, hi=4)
    return w, list(w)


def arg(w, kind):
    return None if kind == "none" else w


def build(shape, kind, sup=None, tier="quick"):
    """shape of the data argument; sup: shape of the supervision."""
    full = shape if len(shape) >= 2 else ((shape[0], 1) if len(shape) == 1 else (1, 1))
    fsup = None if sup is None else (sup if len(sup) == 2 else ((sup[0], 1) if len(sup) == 1 else (1, 1)))
    n = full[0]

    def f(B):
        x = B.reals("x", shape)
        y = B.reals("y", sup if sup is not None else (1,))
        w, want = wts(B, n, kind)

        def code(x, y, w):
            if sup is None:
                d = Data(x, arg(w, kind))
                e = as_data(d)
                assert e is d or isinstance(e, Data)
            else:
                d = SupervisedData(x, y, arg(w, kind))
                e = as_supervised_data(d)
            g = d[jnp.arange(n)]
            return (d.data, d.weights, jnp.asarray(d), jnp.array([len(d), *d.shape]),
                    e.data, e.weights, g.data, g.weights, d.supervision if sup is not None else jnp.zeros(0))

        r = B.run(code, x, y, w)
        xd = np.asarray(x, object).reshape(full)
        B.eq("points", r[0], xd)
        B.eq("weights", r[1], oarr(want))
        B.true("length and shape", [int(i) for i in r[3]] == [n, *full])
        B.eq("points after conversion", r[4], xd)
        B.eq("weights after conversion", r[5], oarr(want))
        B.eq("points indexed by everything", r[6], xd)
        B.eq("weights indexed by everything", r[7], oarr(want))
        if sup is None:
            B.eq("as array", r[2], xd)
        else:
            ys = np.asarray(y, object).reshape(fsup)
            B.eq("responses", r[8], ys)
            B.eq("as array", r[2], np.concatenate([xd, ys], axis=1))

    return Scenario(f"build {shape} weights={kind} supervision={sup}", f, f"any data of shape {shape}", FUNCS, tier=tier)


def raw(n, d, p):
    """Raw arrays are converted to unit-weighted datasets."""

    def f(B):
        x, y = B.reals("x", (n, d)), B.reals("y", (n, p))

        def code(x, y):
            a, b = as_data(x), as_supervised_data((x, y))
            return a.data, a.weights, b.data, b.supervision, b.weights

        r = B.run(code, x, y)
        one = oarr([B.const(1)] * n)
        B.eq("points", r[0], x)
        B.eq("unit weights", r[1], one)
        B.eq("points of the pair", r[2], x)
        B.eq("responses of the pair", r[3], y)
        B.eq("unit weights of the pair", r[4], one)

    return Scenario(f"raw arrays n={n} d={d} p={p}", f, f"{n} points", FUNCS)


INDEX = {"int": 1, "negative": -1, "slice": slice(1, 3), "step": slice(None, None, 2), "reverse": slice(None, None, -1),
         "array": np.array([2, 0, 2]), "column": np.array([[1, 3], [0, 0]]), "mask": np.array([True, False, False, True]),
         "none": slice(0, 0), "negatives": np.array([-1, -4])}


def index(kind, sup, tier="quick"):
    n, d, p = 4, 2, 2
    key = INDEX[kind]

    def f(B):
        x, y, w = B.reals("x", (n, d)), B.reals("y", (n, p)), B.reals("w", n)

        def code(x, y, w):
            a = SupervisedData(x, y, w) if sup else Data(x, w)
            g = a[key]
            assert type(g) is type(a)
            return g.data, g.weights, g.supervision if sup else jnp.zeros(0), a.data, a.weights

        r = B.run(code, x, y, w)
        B.eq("indexed points", r[0], np.asarray(x[key], object))
        B.eq("indexed weights", r[1], np.asarray(w[key], object))
        if sup:
            B.eq("indexed responses", r[2], np.asarray(y[key], object))
        B.eq("original points", r[3], x)
        B.eq("original weights", r[4], w)

    return Scenario(f"index {kind} supervised={sup}", f, "4 points, any values", FUNCS, tier=tier)


def picked(n, m, sup):
    """Index by an array whose entries the solver chooses."""

    def f(B):
        x, y, w = B.reals("x", (n, 1)), B.reals("y", (n, 1)), B.reals("w", n)
        idx = [B.pick(n) for _ in range(m)]

        def code(x, y, w):
            a = SupervisedData(x, y, w) if sup else Data(x, w)
            g = a[jnp.array(idx)]
            return g.data, g.weights, g.supervision if sup else jnp.zeros(0)

        r = B.run(code, x, y, w)
        B.eq("indexed points", r[0], x[idx])
        B.eq("indexed weights", r[1], w[idx])
        if sup:
            B.eq("indexed responses", r[2], y[idx])

    return Scenario(f"index by any {m} of {n} supervised={sup}", f, f"every index array of length {m} into {n} points",
                    FUNCS, validate=1)


def normal(n, kind, sup, preserve, zeros=(), signed=False, tier="quick"):
    """kind: weights symbolic; zeros: positions of zero weights."""

    def f(B):
        x, y = B.reals("x", (n, 1)), B.reals("y", (n, 1))
        if kind == "none":
            w = [B.const(1)] * n
            wa = np.zeros(0, np.float32)
        elif kind == "scalar":
            s = B.real("w", ">0", Fraction(1, 8), 8)
            w, wa = [s] * n, oarr(s)
        else:
            w = [B.const(0) if i in zeros else B.real(f"w{i}", None if signed else ">0", -4 if signed else Fraction(1, 8), 4)
                 for i in range(n)]
            wa = oarr(w)
            if signed:
                B.assume(B.le_(B.const(Fraction(1, 4)), B.abs(osum(w))))

        def code(x, y, w):
            a = SupervisedData(x, y, arg(w, kind)) if sup else Data(x, arg(w, kind))
            g = a.normalize(preserve_zeros=preserve) if preserve is not None else a.normalize()
            h = g.normalize()
            assert type(g) is type(a)
            return g.data, g.weights, g.supervision if sup else jnp.zeros(0), a.weights, h.weights

        r = B.run(code, x, y, wa)
        tot = osum(w)
        B.eq("normalised weights", oarr([v * tot for v in r[1]]), oarr(w))
        B.eq("normalised weights sum to one", osum(list(r[1])), B.const(1))
        B.eq("normalising again changes nothing", r[4], r[1])
        B.eq("points", r[0], x)
        if sup:
            B.eq("responses", r[2], y)
        B.eq("the original is not changed", r[3], oarr(w))

    return Scenario(f"normalise n={n} weights={kind} supervised={sup} preserve={preserve} zeros={zeros} signed={signed}", f,
                    f"{n} points, any weights with nonzero sum", FUNCS, tier=tier)


def zero_weights(n, sup):
    """All weights zero: kept at zero when asked for."""

    def f(B):
        x = B.reals("x", (n, 1))

        def code(x):
            a = SupervisedData(x, x, jnp.zeros(n)) if sup else Data(x, 0.0)
            g = a.normalize(preserve_zeros=True)
            return g.data, g.weights

        r = B.run(code, x)
        B.eq("weights stay zero", r[1], oarr([B.const(0)] * n))
        B.eq("points", r[0], x)

    return Scenario(f"all-zero weights n={n} supervised={sup}", f, f"{n} points", FUNCS)


def refuse(name, fn):
    def f(B):
        x = B.reals("x", (3, 2))
        r = B.run(lambda x: refused(lambda: fn(x), ValueError, TypeError), x)
        B.eq("refused", r, oarr(B.const(1)))

    return Scenario(f"refuse {name}", f, "any data", FUNCS)


def scenarios():
    out = []
    for kind in ("none", "scalar", "vector"):
        for shape, sup in [((3, 2), None), ((3,), None), ((), None), ((1, 3), None), ((2, 2, 2), None), ((3, 2), (3, 1)),
                           ((3,), (3, 2)), ((2,), (2,)), ((), ()), ((1, 2), (1,))]:
            out.append(build(shape, kind, sup))
        for sup in (False, True):
            for pres in (None, False, True):
                out.append(normal(3, kind, sup, pres))
    for k in INDEX:
        out += [index(k, False), index(k, True)]
    out += [raw(3, 2, 1), raw(1, 1, 2), picked(3, 2, False), picked(3, 2, True)]
    out += [normal(3, "vector", False, True, (1,)), normal(3, "vector", True, False, (0, 2)),
            normal(3, "vector", False, None, (), True), normal(2, "vector", True, True, (), True),
            zero_weights(3, False), zero_weights(2, True)]
    out += [refuse("responses fewer than points", lambda x: SupervisedData(x, x[:2])),
            refuse("responses more than points", lambda x: SupervisedData(x[:2], x)),
            refuse("one response for several points", lambda x: SupervisedData(x, x[:1])),
            refuse("too few weights", lambda x: Data(x, x[:2, 0])),
            refuse("too many weights", lambda x: Data(x[:2], x[:, 0])),
            refuse("too few weights supervised", lambda x: SupervisedData(x, x, x[:2, 0]))]
    return out
