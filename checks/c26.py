"""Approximate kernels: a least-squares fit of the exact row-means at some of the points, and nothing else is changed."""

import itertools

from checks.common import *  # noqa: F403
from jaxsmt.harness import Scenario

from coreax.approximation import ANNchorApproximateKernel, MonteCarloApproximateKernel, NystromApproximateKernel

FUNCS = ["coreax.approximation.MonteCarloApproximateKernel.gramian_row_mean",
         "coreax.approximation.NystromApproximateKernel.gramian_row_mean",
         "coreax.approximation.ANNchorApproximateKernel.gramian_row_mean", "coreax.approximation._random_least_squares",
         "coreax.approximation._random_indices", "coreax.approximation.ApproximateKernel",
         "coreax.kernels.ScalarValuedKernel.compute_mean", "coreax.kernels.ScalarValuedKernel.compute"]
ASSUMPTIONS = ["exact real arithmetic in place of float32", "lstsq returns the exact minimal-norm least-squares solution",
               "the kernel is symmetric and positive on the data, and the systems it gives have full rank"]
KINDS = {"monte carlo": MonteCarloApproximateKernel, "nystrom": NystromApproximateKernel, "annchor": ANNchorApproximateKernel}


def det(M):
    if len(M) == 1:
        return M[0][0]
    return osum(((-1) ** j) * M[0][j] * det([[*r[:j], *r[j + 1:]] for r in M[1:]]) for j in range(len(M)))


def inverse_times(B, M, v):
    """Cramer's rule."""
    d = det(M)
    n = len(M)
    return [B.div(det([[v[i] if c == j else M[i][c] for c in range(n)] for i in range(n)]), d) for j in range(n)]


def fit(B, K, F, T, mean):
    """Values at every point of the minimal-norm least-squares fit with features F to the means at T."""
    n = K.shape[0]
    A = [[K[i, j] for j in F] for i in T]
    y = [mean[i] for i in T]
    if len(F) <= len(T):
        if len(F) == len(T):
            c = inverse_times(B, A, y)
        else:
            M = [[osum(r[a] * r[b] for r in A) for b in range(len(F))] for a in range(len(F))]
            c = inverse_times(B, M, [osum(A[i][a] * y[i] for i in range(len(T))) for a in range(len(F))])
    else:
        M = [[osum(A[a][k] * A[b][k] for k in range(len(F))) for b in range(len(T))] for a in range(len(T))]
        z = inverse_times(B, M, y)
        c = [osum(A[i][k] * z[i] for i in range(len(T))) for k in range(len(F))]
    return oarr([osum(K[i, j] * c[k] for k, j in enumerate(F)) for i in range(n)])


def gram(B, n, free=None, seed=0):
    """Symmetric and positive; all entries symbolic, or those listed in a fixed well-conditioned matrix."""
    if free is None:
        return B.symmetric("K", n, ">0", lo=Fraction(1, 8), hi=2)
    rng = np.random.default_rng(seed)
    C = rng.integers(1, 9, (n, n))
    G = oarr([[B.const(Fraction(int(C[min(i, j), max(i, j)]), 16)) if i != j else B.const(1) for j in range(n)] for i in range(n)])
    for i, j in free:
        v = B.real(f"K[{i},{j}]", ">0", lo=Fraction(1, 8), hi=2)
        G[i, j] = G[j, i] = v
    return G


def full_rank(B, K, pairs):
    """The systems in play are well conditioned."""
    for F, T in pairs:
        k = min(len(F), len(T))
        if k == 1:
            continue
        A = [[K[i, j] for j in F] for i in T]
        if len(F) == len(T):
            d = det(A)
        elif len(F) < len(T):
            d = det([[osum(r[a] * r[b] for r in A) for b in range(k)] for a in range(k)])
        else:
            d = det([[osum(A[a][c] * A[b][c] for c in range(len(F))) for b in range(k)] for a in range(k)])
        B.assume(B.le_(B.const(Fraction(1, 256)), d * d), "the systems have full rank")


def approximate(kind, n, k, t, free=None, as_data=False, seed=0, tier="quick", **o):
    """k features and t training points."""
    subs = lambda m: list(itertools.combinations(range(n), m))  # noqa: E731
    if kind == "monte carlo":
        pairs = [(F, T) for F in subs(k) for T in subs(t)]
    elif kind == "nystrom":
        pairs = [(F, T) for F in subs(k) for T in subs(t) if set(F) <= set(T) or set(T) <= set(F)]
    else:
        pairs = [((0, *F), T) for F in itertools.product(range(n), repeat=k - 1) for T in subs(t)
                 if len({0, *F}) == k]

    def f(B):
        K = gram(B, n, free, seed)
        w = B.reals("w", n, ">0", lo=Fraction(1, 4), hi=4)
        if kind == "annchor":
            for i in range(n):
                K[i, i] = B.const(1)
                for j in range(i):
                    B.assume(B.lt(K[i, j], B.const(Fraction(15, 16))), "every point is most similar to itself")
        full_rank(B, K, pairs)
        mean = [osum(K[i, j] for j in range(n)) / n for i in range(n)]

        def code(K, x, w, key):
            q = KINDS[kind](TableKernel(K), key, num_kernel_points=k + 1 if kind == "monte carlo" else k, num_train_points=t)
            return q.gramian_row_mean(Data(x, w) if as_data else x, block_size=2)

        got = B.run(code, K, points(n), w, B.key())
        B.true("one value per point", got.shape == (n,))
        if k == t == n:
            B.eq("all points used: the exact row-mean", got, oarr(mean), tol=2e-3)
            return
        conds = []
        for F, T in pairs:
            same = B.same(got, fit(B, K, F, T, mean), tol=5e-3)
            if same is False:
                continue
            c = same
            if kind == "annchor":
                for s in range(1, k):
                    top = []
                    for i in range(n):
                        m = K[i, F[0]]
                        for a in F[1:s]:
                            m = B.max(m, K[i, a])
                        top.append(m)
                    c = B.and_(c, *[B.le_(top[F[s]], top[i] if not hasattr(B, "collect") else top[i] + 1e-6) for i in range(n)])
            conds.append((same is True, c))
        if any(s for s, _ in conds):
            conds = [c for c in conds if c[0]]
        B.true("the least-squares fit to the exact row-means at the training points", B.or_(*[c for _, c in conds]))

    return Scenario(f"{kind} n={n} features={k} train={t} free={free} data={as_data}", f,
                    f"any positive kernel on {n} points ({'all' if free is None else len(free)} values symbolic), {k} features, "
                    f"{t} training points, every draw", FUNCS, tier=tier, **o)


def passthrough(kind, d=2):
    """Values and derivatives are those of the base kernel."""

    def f(B):
        tabs = jet_tables(B, "b", 2, 2, d)

        def code(k, gx, gy, dv, x, key):
            q = KINDS[kind](JetKernel(k, gx, gy, dv), key, 1, 1)
            return q.compute(x, x), q.grad_x(x, x), q.grad_y(x, x), q.divergence_x_grad_y(x, x), q.compute_mean(x, x)

        out = B.run(code, *tabs, index_points(2, d), B.key())
        for name, got, want in zip(("values", "gradients in x", "gradients in y", "divergence"), out, tabs):
            B.eq(name, got, want)
        B.eq("mean", out[4], osum(tabs[0].reshape(-1)) / 4)

    return Scenario(f"{kind} keeps the base kernel", f, "any base kernel and derivatives at two points", FUNCS)


def refusals():
    def f(B):
        def code(x):
            key, k, p = jax.random.key(0), TableKernel(jnp.eye(3)), jnp.arange(3.0)[:, None]
            out = []
            for c in KINDS.values():
                for a, b in ((0, 1), (-1, 1), (1, 0), (1, -2)):
                    out.append(refused(lambda c=c, a=a, b=b: c(k, key, a, b)))
                out.append(refused(lambda c=c: c(k, key, 2, 4).gramian_row_mean(p)))
                out.append(1 - refused(lambda c=c: c(k, key, 3, 3).gramian_row_mean(p)))
            out.append(refused(lambda: NystromApproximateKernel(k, key, 4, 2).gramian_row_mean(p)))
            out.append(refused(lambda: MonteCarloApproximateKernel(k, key, 5, 2).gramian_row_mean(p)))
            return jnp.stack(out)

        B.eq("refused and accepted", B.run(code, B.reals("x", 1)), oarr([B.const(1)] * 20))

    return Scenario("refusals", f, "invalid settings", FUNCS, validate=0)


def scenarios():
    T = "thorough"
    out = [refusals(), *[passthrough(k) for k in KINDS]]
    for kind in KINDS:
        out += [approximate(kind, 3, 1, 1), approximate(kind, 3, 1, 2, as_data=True), approximate(kind, 3, 2, 2, free=[(0, 1), (0, 2), (1, 1)]), approximate(kind, 3, 3, 3),
                approximate(kind, 3, 2, 3, free=[(0, 1), (2, 2)]), approximate(kind, 3, 2, 1),
                approximate(kind, 2, 2, 2, as_data=True), approximate(kind, 2, 1, 2), approximate(kind, 1, 1, 1)]
    out += [approximate("annchor", 4, 3, 4, free=[(1, 2)], seed=7),
            approximate("annchor", 4, 3, 3, free=[(1, 3)], seed=7), approximate("annchor", 4, 2, 2, free=[(0, 1), (0, 2)], seed=7),
            approximate("annchor", 3, 2, 2)]
    for kind in KINDS:
        out += [approximate(kind, 4, 2, 2, free=[(0, 1), (2, 3)], seed=7, tier=T, budget=700), approximate(kind, 3, 2, 2, tier=T, budget=700), approximate(kind, 3, 2, 3, free=[(0, 1), (0, 2), (2, 2)], tier=T, budget=700),
                approximate(kind, 4, 2, 3, free=[(1, 2)], seed=7, tier=T, budget=700)]
    return out
