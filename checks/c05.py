"""Randomly pivoted Cholesky: pivots follow the residual diagonal of the partial Cholesky factorisation."""

from checks.common import *  # noqa: F403
from jaxsmt.harness import Scenario

from coreax.solvers import RPCholesky
from coreax.solvers.coresubset import RPCholeskyState

FUNCS = ["coreax.solvers.RPCholesky.reduce", "coreax.kernels.ScalarValuedKernel.compute", "coreax.coreset.Coresubset"]
ASSUMPTIONS = [
    "exact real arithmetic in place of float32",
    "the kernel is symmetric and (where stated) positive semi-definite: its principal minors are positive",
    "jax.random gumbel noise may take any finite values in the encoding, and has its documented law",
]


def minors(B, G, n, upto):
    import itertools

    for k in range(2, upto + 1):
        for s in itertools.combinations(range(n), k):
            B.assume(B.lt(0, det([[G[i, j] for j in s] for i in s])), f"principal minors up to size {upto} are positive")


def det(M):
    if len(M) == 1:
        return M[0][0]
    return osum(((-1) ** j) * M[0][j] * det([r[:j] + r[j + 1:] for r in M[1:]]) for j in range(len(M)))


def residual(B, G, n, sel):
    """Diagonal of G - G[:,S] G[S,S]^-1 G[S,:], as determinant ratios."""
    if not sel:
        return [G[i, i] for i in range(n)]
    d = det([[G[i, j] for j in sel] for i in sel])
    out = []
    for i in range(n):
        if i in sel:
            out.append(B.const(0))
            continue
        s = [*sel, i]
        out.append(B.div(det([[G[a, b] for b in s] for a in s]), d))
    return out


def valid(B, idx, n, m):
    idx = [int(i) for i in np.asarray(idx).reshape(-1)]
    B.true("requested size", len(idx) == m)
    B.true("indices within the dataset", all(0 <= i < n for i in idx))
    B.true("indices are distinct", len(set(idx)) == m)
    return idx


def generic(n, m, unique=True, state=False, sup=False, tier="quick", law=True, family=None, **o):
    """Positive-definite Gram matrix: law of every pivot and the final residual."""

    def f(B):
        if family is None:
            G = B.symmetric("G", n)
            for i in range(n):
                B.assume(B.lt(Fraction(1, 10), G[i, i]), "the Gram diagonal is positive")
            minors(B, G, n, min(m + 1, n))
        else:
            # one-parameter family of positive-definite Gram matrices
            s = B.real("s", ">0", Fraction(1, 4), 1)
            rng = np.random.default_rng(family)
            C = rng.integers(1, 4, (n, n)) * rng.choice([-1, 1], (n, n))
            C = np.triu(C, 1) + np.triu(C, 1).T
            top = int(np.ceil(1.0 - np.linalg.eigvalsh(C)[0]))  # positive definite for every s <= 1
            G = np.empty((n, n), dtype=object)
            for i in range(n):
                for j in range(i, n):
                    G[i, j] = G[j, i] = s * int(C[i, j]) if i != j else B.const(top)

        def code(G, x, k):
            s = RPCholesky(m, random_key=k, kernel=TableKernel(G), unique=unique)
            d = SupervisedData(x, x) if sup else Data(x)
            st = RPCholeskyState(jnp.diag(G)) if state else None
            c, st = s.reduce(d, st)
            return c.unweighted_indices, st.gramian_diagonal

        def sampler(keys):
            g = jnp.asarray(np.array([[float(v) for v in r] for r in G], np.float32))
            return jax.jit(jax.vmap(lambda k: code(g, jnp.asarray(points(n)), k)[0]))(keys)

        idx, diag = B.run(code, G, points(n), B.key())
        idx = valid(B, idx, n, m)
        rs = [residual(B, G, n, idx[:t]) for t in range(m + 1)]
        B.eq("the state is the residual diagonal", diag, np.array(rs[m], dtype=object), tol=5e-4)
        if law:
            steps = [(t, {j: rs[t][j] for j in range(n) if j not in idx[:t]}) for t in range(m)]
            B.gumbel_law("pivot law", idx, steps, sampler)

    return Scenario(f"pd n={n} m={m} unique={unique} state={state} sup={sup} law={law} family={family}", f,
                    f"n={n}, m={m}, any positive-definite Gram matrix, every draw", FUNCS, tier=tier, weight=n**m * 3, **o)


def low_rank(n, m, tier="quick"):
    """Rank-one Gram matrix: the factorisation is exhausted after one pivot."""

    def f(B):
        v = B.reals("v", n, sgn=">0", lo=Fraction(1, 4), hi=4)
        G = np.array([[v[i] * v[j] for j in range(n)] for i in range(n)], dtype=object)

        def code(G, x, k):
            s = RPCholesky(m, random_key=k, kernel=TableKernel(G))
            return s.reduce(Data(x))[0].unweighted_indices

        idx = B.run(code, G, points(n), B.key())
        valid(B, idx, n, m)

    return Scenario(f"rank one n={n} m={m}", f, f"n={n}, m={m}, any rank-one Gram matrix, every draw", FUNCS, tier=tier,
                    weight=n**m)


def exhausted(n, m, tier="quick"):
    """Coinciding points (exact arithmetic): every pivot is uniform over the points not yet chosen."""
    G = np.ones((n, n), np.float32)

    def f(B):
        def code(G, x, k):
            return RPCholesky(m, random_key=k, kernel=TableKernel(G)).reduce(Data(x))[0].unweighted_indices

        def sampler(keys):
            return jax.jit(jax.vmap(lambda k: code(jnp.asarray(G), jnp.asarray(points(n)), k)))(keys)

        idx = valid(B, B.run(code, G, points(n), B.key()), n, m)
        steps = [(t, {j: B.const(1) for j in range(n) if j not in idx[:t]}) for t in range(m)]
        B.gumbel_law("uniform fallback", idx, steps, sampler)

    return Scenario(f"exhausted n={n} m={m}", f, f"n={n}, m={m}, coinciding points, every draw", FUNCS, tier=tier, weight=n**m)


def duplicates(n, m, tier="quick"):
    """Block of identical points: residual of a copy vanishes and it is not picked while others remain."""

    def f(B):
        a, b, c = B.real("a", ">0", Fraction(1, 4), 4), B.real("b", ">0", Fraction(1, 4), 4), B.real("c", None, -4, 4)
        B.assume(B.lt(c * c + Fraction(1, 10), a * b), "two distinct positions, positive definite")
        grp = [0] * (n - 2) + [1, 1]
        vals = {(0, 0): a, (1, 1): b, (0, 1): c, (1, 0): c}
        G = np.array([[vals[grp[i], grp[j]] for j in range(n)] for i in range(n)], dtype=object)

        def code(G, x, k):
            s = RPCholesky(m, random_key=k, kernel=TableKernel(G))
            c, st = s.reduce(Data(x))
            return c.unweighted_indices

        idx = valid(B, B.run(code, G, points(n), B.key()), n, m)
        if m >= 2:
            B.true("the second pivot is a new position", grp[idx[0]] != grp[idx[1]])

    return Scenario(f"duplicates n={n} m={m}", f, f"n={n} points at two positions, m={m}, every draw", FUNCS, tier=tier,
                    weight=n**m)


def joint(n, m, seed, tier="quick"):
    """A fixed Gram matrix: fresh randomness for every pivot; replays compare the law of the whole coreset."""
    A = np.random.default_rng(seed).integers(-2, 3, (n, n)).astype(float)
    G = A @ A.T + np.diag(np.arange(1, n + 1) / 2.0)
    dist = {(): 1.0}
    for _ in range(m):
        nxt = {}
        for cur, p in dist.items():
            sel = list(cur)
            R = G - G[:, sel] @ np.linalg.solve(G[np.ix_(sel, sel)], G[sel, :]) if sel else G
            r = np.array([0.0 if i in sel else R[i, i] for i in range(n)])
            for i in range(n):
                if r[i]:
                    nxt[(*cur, i)] = p * r[i] / r.sum()
        dist = nxt

    def f(B):
        def code(G, x, k):
            return RPCholesky(m, random_key=k, kernel=TableKernel(G)).reduce(Data(x))[0].unweighted_indices

        def sampler(keys):
            return jax.jit(jax.vmap(lambda k: code(jnp.asarray(G, jnp.float32), jnp.asarray(points(n)), k)))(keys)

        valid(B, B.run(code, G.astype(np.float32), points(n), B.key()), n, m)
        B.fresh_draws("pivots", "gumbel", m, sampler, dist)

    return Scenario(f"fresh randomness n={n} m={m}", f, f"n={n}, m={m}, a fixed Gram matrix, every draw", FUNCS, tier=tier)


def wide(n, high, tier="quick"):
    """Many points, of which only those in ``high`` have a non-zero norm."""

    def f(B):
        v = {i: B.real(f"v[{i}]", ">0", lo=Fraction(1, 4), hi=4) for i in high}
        G = np.full((n, n), B.const(0), dtype=object)
        for i in high:
            G[i, i] = v[i]

        def code(G, x, k):
            return RPCholesky(len(high), random_key=k, kernel=TableKernel(G)).reduce(Data(x))[0].unweighted_indices

        idx = valid(B, B.run(code, G, points(n), B.key()), n, len(high))
        B.true("only points with a residual are pivots", sorted(idx) == sorted(high))

    return Scenario(f"wide n={n} high={high}", f, f"{n} points, all but {len(high)} of them of zero norm, every draw", FUNCS, tier=tier)


def scenarios():
    T = "thorough"
    return [
        wide(300, [290, 130]), wide(300, [299, 3, 256]),
        joint(4, 2, 0), joint(3, 3, 1),
        generic(3, 2), generic(3, 2, unique=False), generic(4, 1), generic(4, 2), generic(3, 1, state=True),
        generic(3, 2, state=True), generic(3, 2, sup=True), generic(3, 3, law=False), generic(4, 3, family=0, law=False),
        generic(1, 1), generic(2, 2),
        low_rank(3, 2), low_rank(3, 3), low_rank(4, 2),
        duplicates(4, 3), duplicates(3, 2), exhausted(3, 2), exhausted(4, 2), exhausted(3, 3), exhausted(4, 3),
        generic(5, 2, tier=T), generic(4, 3, family=2, tier=T), generic(5, 3, family=1, law=False, tier=T), low_rank(4, 4, T), duplicates(5, 3, T),
    ]
