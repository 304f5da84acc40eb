"""Kernel Stein discrepancy: the documented mean, Laplace correction and entropic regularisation."""

from checks.common import *  # noqa: F403
from checks.c10 import bilinear, check_root, weights
from jaxsmt.harness import Scenario

from coreax.kernels import SquaredExponentialKernel, SteinKernel
from coreax.metrics import KSD
from coreax.score_matching import KernelDensityMatching

FUNCS = ["coreax.metrics.KSD.compute", "coreax.score_matching.convert_stein_kernel",
         "coreax.kernels.SteinKernel.compute_elementwise", "coreax.kernels.ScalarValuedKernel.compute_mean"]
ASSUMPTIONS = ["exact real arithmetic in place of float32",
               "jax.scipy.stats.gaussian_kde is run concretely, on fixed points"]


def ksd(m, wy=None, laplace=False, regularise=False, bs=None, unroll=1, d=1, wref=None, base="length", sup=False, nref=4,
        tier="quick"):
    """m comparison points; any Stein Gram matrix on them; the score's Jacobian is symbolic."""

    def f(B):
        K = B.symmetric("K", m, lo=-4, hi=4)
        J = oarr(np.full((m, d, d), B.const(0)))
        if laplace:
            for i in range(m if d == 1 else 1):
                J[i] = B.reals(f"J{i}", (d, d), lo=-2, hi=2)
        ay, py = weights(B, "wy", m, wy)
        ref = np.array([[(7 * i * i + 3 * q * i + i) % 5 / 2 + 0.1 * q for q in range(d)] for i in range(nref)], np.float32)
        wr = np.ones(nref) if wref is None else np.array(wref, float)
        yp = index_points(m, d)

        def code(K, J, ay):
            b = SquaredExponentialKernel(0.7) if base == "length" else TableKernel(K)
            k = TableStein(b, TableScore(jnp.zeros((m, d)), J), K)
            x = SupervisedData(ref, ref, jnp.array(wr, jnp.float32)) if sup else Data(ref, jnp.array(wr, jnp.float32))
            y = SupervisedData(yp, yp, ay) if sup else Data(yp, ay)
            return KSD(k).compute(x, y, laplace_correct=laplace, regularise=regularise, block_size=bs, unroll=unroll)

        r = B.run(code, K, J, ay)
        q = bilinear(py, K, py, range(m), range(m))
        if laplace:
            q = q + osum(B.max(J[i, a, a], B.const(0)) for i in range(m) for a in range(d)) / (m * m)
        if regularise:
            lp = kde_logpdf(ref, wr, yp, float(np.float32(0.7)) if base == "length" else None)
            q = q - B.const(Fraction(float(lp.mean() / m)))
        check_root_tol(B, "KSD", r, q)

    return Scenario(f"ksd m={m} wy={wy} laplace={laplace} regularise={regularise} block={bs} unroll={unroll} d={d} "
                    f"wref={wref} base={base} sup={sup}", f, f"{m} points, any symmetric Stein Gram matrix", FUNCS, tier=tier)


def check_root_tol(B, label, r, q):
    """r = sqrt(max(0, q)) up to the rounding of literal constants."""
    r = r.item() if hasattr(r, "item") else r
    B.le(label + " is not negative", B.const(0), r)
    t = Fraction(1, 10**4)
    B.le(label + " squared is at most the formula", r * r, B.max(B.const(0), q), tol=t)
    B.le(label + " squared is at least the formula", B.max(B.const(0), q), r * r, tol=t)


def built(m, matching, tier="quick", **o):
    """The Stein kernel is built from any base kernel and a score estimated from the reference data."""

    def f(B):
        k = B.symmetric("k", m, lo=-3, hi=3)
        dv = B.symmetric("dv", m, lo=-3, hi=3)
        gx = B.reals("gx", (m, m, 1), lo=-3, hi=3)
        gy = oarr([[[gx[j, i, 0]] for j in range(m)] for i in range(m)])
        ref = np.array([[0.0], [1.5], [3.0]], np.float32)

        def code(k, gx, gy, dv):
            base = JetKernel(k, gx, gy, dv)
            score = TableScore(jnp.array([[0.5], [-1.0], [2.0]])[:m], jnp.zeros((m, 1, 1)))
            kern = SteinKernel(base, score) if matching in ("stein", "override") else base
            sm = KernelDensityMatching(0.8) if matching in ("override", "match") else None
            return KSD(kern, score_matching=sm).compute(Data(ref), Data(points(m)))

        r = B.run(code, k, gx, gy, dv)
        if matching == "stein":
            s = [0.5, -1.0, 2.0][:m]
        else:
            ls = 1.0 if matching == "default" else 0.8
            s = []
            for i in range(m):
                e = np.exp(-(i - ref[:, 0].astype(float)) ** 2 / (2 * ls**2))
                s.append(float((e * (ref[:, 0] - i) / ls**2).sum() / e.sum()))
        s = [B.const(Fraction(v)) for v in s]
        q = osum(dv[i, j] + gx[i, j, 0] * s[j] + gy[i, j, 0] * s[i] + k[i, j] * s[i] * s[j]
                 for i in range(m) for j in range(m)) / (m * m)
        check_root_tol(B, "KSD", r, q)

    return Scenario(f"built Stein kernel m={m} score={matching}", f, f"{m} points, any symmetric base kernel", FUNCS,
                    tier=tier, **o)


def scenarios():
    T = "thorough"
    return [
        ksd(2), ksd(3, bs=2), ksd(3, wy="sym"), ksd(4, wy=[1, 0, 2, 1], bs=3, unroll=2), ksd(1),
        ksd(2, laplace=True), ksd(3, laplace=True, bs=2), ksd(2, laplace=True, d=2), ksd(3, regularise=True),
        ksd(3, regularise=True, base="none"), ksd(2, regularise=True, wref=[1, 2, 0, 3]), ksd(2, laplace=True, regularise=True),
        ksd(2, regularise=True, d=2), ksd(2, sup=True, regularise=True), ksd(2, wy=[1, 3], laplace=True, regularise=True),
        built(2, "stein"), built(2, "default"), built(2, "match"), built(2, "override"),
        ksd(5, bs=(2, 3), tier=T), ksd(4, wy="sym", laplace=True, tier=T), built(3, "default", tier=T),
    ]
