"""Maximum mean discrepancies (MMD, JMMD): the documented weighted expectation, for any kernels and weights."""

from checks.common import *  # noqa: F403
from jaxsmt.harness import Scenario

from coreax.coreset import Coresubset, PseudoCoreset
from coreax.metrics import JMMD, MMD

FUNCS = ["coreax.metrics.MMD.compute", "coreax.metrics.JMMD.compute", "coreax.kernels.ScalarValuedKernel.compute_mean",
         "coreax.data.Data.normalize", "coreax.coreset.AbstractCoreset.compute_metric"]
ASSUMPTIONS = ["exact real arithmetic in place of float32", "the kernels are symmetric"]


def weights(B, name, n, kind):
    """Array for the code and exact normalised weights."""
    if kind is None:
        return np.ones(n, np.float32), [B.const(1) / n] * n
    if kind == "sym":
        w = B.reals(name, n, ">0", Fraction(1, 8), 8)
        t = osum(list(w))
        return w, [B.div(v, t) for v in w]
    w = [Fraction(v) for v in kind]
    return np.array(kind, np.float32), [B.const(v / sum(w)) for v in w]


def bilinear(a, K, b, ia, ib):
    return osum(a[i] * b[j] * K[ia[i], ib[j]] for i in range(len(ia)) for j in range(len(ib)))


def check_root(B, label, r, q):
    """r = sqrt(max(0, q)), stated without a square root."""
    r = r.item() if hasattr(r, "item") else r
    B.le(label + " is not negative", B.const(0), r)
    B.eq(label, r * r, B.max(B.const(0), q))


def mmd(n, m, wx=None, wy=None, bs=None, unroll=1, share=0, via=None, tier="quick", **o):
    """share: how many points of y coincide with points of x."""
    N = n + m - share
    ix = list(range(n))
    iy = list(range(n - share, N))

    def f(B):
        K = B.symmetric("K", N, lo=-4, hi=4)
        ax, px = weights(B, "wx", n, wx)
        ay, py = weights(B, "wy", m, wy)

        def code(K, ax, ay):
            x = Data(jnp.array(ix, jnp.float32)[:, None], ax)
            y = Data(jnp.array(iy, jnp.float32)[:, None], ay)
            mt = MMD(TableKernel(K))
            if via == "coresubset":
                idx = Data(jnp.array([ix.index(i) for i in iy], jnp.int32), ay)
                return Coresubset(idx, x).compute_metric(mt, block_size=bs, unroll=unroll)
            if via == "pseudo":
                return PseudoCoreset(y, x).compute_metric(mt, block_size=bs, unroll=unroll)
            return mt.compute(x, y, block_size=bs, unroll=unroll)

        r = B.run(code, K, ax, ay)
        q = bilinear(px, K, px, ix, ix) + bilinear(py, K, py, iy, iy) - 2 * bilinear(px, K, py, ix, iy)
        check_root(B, "MMD", r, q)

    return Scenario(f"mmd n={n} m={m} wx={wx} wy={wy} block={bs} unroll={unroll} share={share} via={via}", f,
                    f"{n} and {m} points, any symmetric kernel", FUNCS, tier=tier, **o)


def mmd_self(n, w, perm, tier="quick"):
    """Zero between a dataset and a reordering of itself, symmetric in its arguments."""

    def f(B):
        K = B.symmetric("K", n, lo=-4, hi=4)
        a, p = weights(B, "w", n, w)

        def code(K, a):
            x = Data(jnp.arange(n, dtype=jnp.float32)[:, None], a)
            y = Data(jnp.array(perm, jnp.float32)[:, None], 3.0 * a[jnp.array(perm)])
            z = Data(jnp.array(perm[:2], jnp.float32)[:, None])
            m = MMD(TableKernel(K))
            return m.compute(x, y), m.compute(x, z), m.compute(z, x, block_size=2)

        s, u, v = B.run(code, K, a)
        B.eq("distance to a reordered, rescaled copy", s, B.const(0), tol=5e-2)
        B.eq("symmetric, squared", u * u, v * v)

    return Scenario(f"mmd of a reordering n={n} w={w} perm={perm}", f, f"{n} points, any symmetric kernel", FUNCS,
                    tier=tier)


def jmmd(n, m, wx=None, wy=None, share=0, tier="quick", **o):
    N = n + m - share
    ix, iy = list(range(n)), list(range(n - share, N))

    def f(B):
        K = B.symmetric("K", N, lo=-3, hi=3)
        R = B.symmetric("R", N, lo=-3, hi=3)
        ax, px = weights(B, "wx", n, wx)
        ay, py = weights(B, "wy", m, wy)

        def code(K, R, ax, ay):
            px = jnp.array(ix, jnp.float32)[:, None]
            py = jnp.array(iy, jnp.float32)[:, None]
            # the responses are numbered in the opposite order, so that they cannot be confused with the features
            x = SupervisedData(px, N - 1 - px, ax)
            y = SupervisedData(py, N - 1 - py, ay)
            return JMMD(TableKernel(K), TableKernel(R)).compute(x, y)

        r = B.run(code, K, R, ax, ay)
        H = {(i, j): K[i, j] * R[N - 1 - i, N - 1 - j] for i in range(N) for j in range(N)}
        q = bilinear(px, H, px, ix, ix) + bilinear(py, H, py, iy, iy) - 2 * bilinear(px, H, py, ix, iy)
        check_root(B, "JMMD", r, q)

    return Scenario(f"jmmd n={n} m={m} wx={wx} wy={wy} share={share}", f,
                    f"{n} and {m} supervised points, any symmetric kernels", FUNCS, tier=tier, **o)


def scenarios():
    T = "thorough"
    return [
        mmd(2, 2), mmd(3, 2, bs=2), mmd(1, 1), mmd(4, 2, bs=(3, 1)), mmd(3, 3, bs=2, unroll=(2, 3), share=1),
        mmd(3, 2, wx="sym"), mmd(2, 3, wy="sym", bs=2), mmd(3, 2, wx=[1, 0, 2], wy=[3, 1], bs=2), mmd(2, 2, "sym", "sym"),
        mmd(3, 2, wx=[1, 2, 5], share=2, via="coresubset"), mmd(3, 2, wx=[1, 2, 5], wy=[2, 1], share=2, via="coresubset", bs=2),
        mmd(3, 2, wx=[1, 0, 2], wy=[1, 2], via="pseudo"), mmd(3, 5, bs=(2, 4)), mmd(5, 3, bs=(2, None)), mmd(5, 3, bs=100),
        mmd(4, 3, wx=[1, 2, 0, 3], wy=[0, 2, 1], bs=(1, 2), unroll=(True, 1)),
        mmd_self(3, None, [2, 0, 1]), mmd_self(3, "sym", [1, 2, 0]), mmd_self(4, [1, 0, 2, 2], [3, 1, 0, 2]),
        jmmd(2, 2), jmmd(3, 2, wx="sym"), jmmd(2, 3, wx=[1, 0], wy=[1, 2, 3]), jmmd(3, 2, share=2, wy="sym"), jmmd(1, 2),
        mmd(4, 4, "sym", "sym", bs=3, tier=T), mmd(6, 5, bs=(4, 3), tier=T), jmmd(4, 4, "sym", [1, 2, 3, 4], tier=T),
    ]
