"""Regularised least squares: the solvers return the (pseudo-)inverse of the regularised array applied to the targets."""

from checks.common import *  # noqa: F403
from jaxsmt.harness import Scenario

from coreax.least_squares import MinimalEuclideanNormSolver, RandomisedEigendecompositionSolver

FUNCS = ["coreax.least_squares.MinimalEuclideanNormSolver.solve", "coreax.least_squares.RegularisedLeastSquaresSolver.solve_stack",
         "coreax.least_squares.RandomisedEigendecompositionSolver.solve",
         "coreax.least_squares.RandomisedEigendecompositionSolver.randomised_eigendecomposition",
         "coreax.least_squares._gaussian_range_finder", "coreax.least_squares._eigendecomposition_invert"]
ASSUMPTIONS = ["exact real arithmetic in place of float32", "lstsq returns the exact minimal-norm solution (diagonal systems run "
               "through its own steps and cut-off)", "a QR factor of a matrix with full row rank is any orthogonal matrix (n = 2) or "
               "one of several (n = 3), with any signs", "eigh returns exact eigenvectors with ascending eigenvalues"]
EPS = float(np.finfo(np.float32).eps)


def mat(B, X, Y):
    return oarr([[osum(X[i, k] * Y[k, j] for k in range(X.shape[1])) for j in range(Y.shape[1])] for i in range(X.shape[0])])


def eye(B, n, k=None):
    return oarr([[B.const(1 if i == j and i < (n if k is None else k) else 0) for j in range(n)] for i in range(n)])


def ridge(B, n, r):
    return oarr([[B.abs(r) if i == j else B.const(0) for j in range(n)] for i in range(n)])


def det2(M):
    return M[0, 0] * M[1, 1] - M[0, 1] * M[1, 0]


def rotation(B, name):
    """Any two-dimensional rotation by less than a half turn."""
    t = B.real(name, lo=-3, hi=3)
    d = 1 + t * t
    return oarr([[B.div(1 - t * t, d), -B.div(2 * t, d)], [B.div(2 * t, d), B.div(1 - t * t, d)]])


R3 = np.array([[2, 3, 6], [3, -6, 2], [6, 2, -3]])


def basis(B, n):
    if n == 1:
        return eye(B, 1)
    if n == 2:
        return rotation(B, "u")
    return oarr([[B.const(Fraction(int(x), 7)) for x in r] for r in R3])


def from_spectrum(U, lam):
    n, k = U.shape[0], len(lam)
    return oarr([[osum(U[i, a] * lam[a] * U[j, a] for a in range(k)) for j in range(n)] for i in range(n)])


def minimal(n, m, reg="sym", tier="quick", **o):
    """Invertible regularised array: the solution is exact."""

    def f(B):
        A = B.reals("A", (n, n), lo=-3, hi=3)
        r = B.real("r", lo=-3, hi=3) if reg == "sym" else B.const(reg)
        T = B.reals("T", (n, m), lo=-3, hi=3)
        S = A + ridge(B, n, r)
        d = S[0, 0] if n == 1 else det2(S) if n == 2 else osum(
            S[0, j] * det2(np.delete(S[1:], j, axis=1)) * (1 if j != 1 else -1) for j in range(3))
        B.assume(B.le_(B.const(1), d), "the regularised array is invertible (determinant at least one)")
        X = B.run(lambda A, r, T: MinimalEuclideanNormSolver().solve(A, r, T, jnp.eye(n)), A, r, T)
        B.true("shape", X.shape == (n, m))
        B.eq("(A + |r| I) X = T", mat(B, S, X), T, tol=2e-3)

    return Scenario(f"minimal norm n={n} m={m} reg={reg}", f, f"any {n}x{n} array, parameter and {m} targets", FUNCS, tier=tier, **o)


def minimal_block(n, k, tier="quick"):
    """Zero-padded array with a padded identity: the inverse of the block, zero elsewhere."""

    def f(B):
        b = B.symmetric("b", k, lo=-3, hi=3)
        r = B.real("r", lo=-3, hi=3)
        A, T = eye(B, n, 0), eye(B, n, k)
        A[:k, :k] = b
        S = b + ridge(B, k, r)
        if k == 1:
            B.assume(B.le_(B.const(1), S[0, 0]))
        else:
            B.assume(B.le_(B.const(1), det2(S)), "the block is invertible (determinant at least one)")
        X = B.run(lambda A, r, I: MinimalEuclideanNormSolver().solve(A, r, I, I), A, r, T)
        B.eq("block inverse", mat(B, S, X[:k, :k]), eye(B, k), tol=2e-3)
        rest = [X[i, j] for i in range(n) for j in range(n) if i >= k or j >= k]
        B.eq("zero outside the block", oarr(rest), oarr([B.const(0)] * len(rest)))

    return Scenario(f"minimal norm block n={n} k={k}", f, f"any symmetric {k}x{k} block of a {n}x{n} array", FUNCS, tier=tier)


def minimal_singular(tier="quick"):
    """A rank-one array without regularisation: least squares of minimal norm."""

    def f(B):
        u, v = B.reals("u", 2, lo=-3, hi=3), B.reals("v", 2, lo=-3, hi=3)
        B.assume(B.le_(B.const(1), u[0] * u[0] + u[1] * u[1]), "the array is not zero")
        B.assume(B.le_(B.const(1), v[0] * v[0] + v[1] * v[1]))
        A = oarr([[u[i] * v[j] for j in range(2)] for i in range(2)])
        T = B.reals("T", (2, 2), lo=-3, hi=3)
        X = B.run(lambda A, T: MinimalEuclideanNormSolver(rcond=1e-3).solve(A, 0.0, T, jnp.eye(2)), A, T)
        q = B.div(B.const(1), osum(u * u) * osum(v * v))
        W = oarr([[q * v[i] * osum(u[k] * T[k, j] for k in range(2)) for j in range(2)] for i in range(2)])
        B.eq("pseudo-inverse", X, W, tol=2e-3)

    return Scenario("minimal norm of a rank-one array", f, "any 2x2 array of rank one", FUNCS, tier=tier)


def cutoff(kind, n, rcond, tier="quick", **o):
    """Diagonal arrays: exactly the entries below the cut-off are treated as zero."""

    def f(B):
        d = B.reals("d", n, ">=0", lo=0, hi=8)
        r = B.real("r", lo=-2, hi=2)
        T = B.reals("T", (n, 1), lo=-3, hi=3)
        A = oarr([[d[i] if i == j else B.const(0) for j in range(n)] for i in range(n)])
        rc = EPS * n if rcond is None else EPS if rcond == -1 else rcond
        s = [x + B.abs(r) for x in d]
        B.assume(B.or_(*[B.lt(B.const(Fraction(1, 4)), x) for x in s]))
        top = s[0]
        for x in s[1:]:
            top = B.max(top, x)
        cut = B.const(np.float32(rc)) * top
        for x in s:  # stay clear of the boundary and of tiny values: rounding decides there
            if rcond in (None, -1):
                B.assume(B.or_(B.eq_(x, B.const(0)), B.le_(B.const(Fraction(1, 8)), x)))
            else:
                B.assume(B.or_(B.le_(x * 101, cut * 100), B.le_(cut * 100, x * 99)))
        if kind == "randomised":
            B.spectrum(eye(B, n), s)

        def code(A, r, T, k):
            sol = MinimalEuclideanNormSolver(rcond) if kind == "minimal" else RandomisedEigendecompositionSolver(k, rcond=rcond)
            return sol.solve(A, r, T, jnp.eye(n))

        X = B.run(code, A, r, T, B.key())
        for i in range(n):
            if B.decide(B.lt(s[i], cut) if rcond not in (None, -1) else B.eq_(s[i], B.const(0))):
                B.eq("cut off", X[i], oarr([B.const(0)]), tol=2e-3)
            else:
                B.eq("inverted", X[i], oarr([B.div(T[i, 0], s[i])]), tol=2e-3)

    return Scenario(f"cut-off {kind} n={n} rcond={rcond}", f, f"any {n}x{n} diagonal array", FUNCS, tier=tier, **o)


def stack(kind, tier="quick", axes=None, **o):
    """A stack of systems is solved one by one."""

    def f(B):
        n = 2
        if kind == "minimal":
            A = oarr([[[B.const(3), B.real("a", lo=-1, hi=1)], [B.real("b", lo=-1, hi=1), B.const(2)]], [[B.const(2), B.const(-1)], [B.real("c", lo=-1, hi=1), B.const(4)]]])
        else:
            A = oarr([[[B.real("a", lo=1, hi=3), B.const(0)], [B.const(0), B.real("b", lo=1, hi=3)]], [[B.real("c", lo=1, hi=3), B.const(0)], [B.const(0), B.const(4)]]])
            B.spectrum(eye(B, n))
        r = B.real("r", lo=-3, hi=3) if axes is None else B.reals("r", 2, lo=-3, hi=3)
        T = B.reals("T", (2, n, 1), lo=-3, hi=3)

        def code(A, r, T, k):
            s = MinimalEuclideanNormSolver() if kind == "minimal" else RandomisedEigendecompositionSolver(k, 2, 0)
            kw = {} if axes is None else {"in_axes": axes}
            return s.solve_stack(A, r, T, jnp.eye(n), **kw)

        X = B.run(code, A, r, T, B.key())
        for q in range(2):
            rr = r if axes is None else r[q]
            B.eq(f"system {q}", mat(B, A[q] + ridge(B, n, rr), X[q]), T[q], tol=2e-3)

    return Scenario(f"stack {kind} axes={axes}", f, "two 2x2 arrays", FUNCS, tier=tier, **o)


def randomised(n, over, its, reg="sym", k=None, tier="quick", **o):
    """Enough random columns: the exact inverse (of the block of size k), whatever the random draws."""
    k = n if k is None else k

    def f(B):
        U = basis(B, k)
        lam = B.reals("l", k, ">0", lo=1, hi=6)
        for a, b in zip(lam, lam[1:]):
            B.assume(B.le_(a, b), "eigenvalues are listed in ascending order")
        r = B.real("r", lo=-3, hi=3) if reg == "sym" else B.const(reg)
        A = eye(B, n, 0)
        A[:k, :k] = from_spectrum(U, lam)
        V = eye(B, n)
        V[:k, :k] = U
        T = B.reals("T", (n, 1), lo=-2, hi=2) if k == n else eye(B, n, k)
        tot = [x + B.abs(r) for x in lam]
        B.spectrum(V, [*tot, *lam])

        def code(A, r, T, I, key):
            return RandomisedEigendecompositionSolver(key, over, its).solve(A, r, T, I)

        X = B.run(code, A, r, T, eye(B, n, k), B.key())
        inv = from_spectrum(V[:, :k], [B.div(B.const(1), x) for x in tot])
        B.eq("inverse of the regularised array", X, mat(B, inv, T), tol=5e-3)

    return Scenario(f"randomised n={n} columns={over} iterations={its} reg={reg} block={k}", f,
                    f"any positive definite {k}x{k} array (eigenvectors fixed for 3)", FUNCS, tier=tier, prove_ms=60000, **o)


def low_rank(n, rank, its=1, over=None, tier="quick", **o):
    """As many random columns as the rank: the pseudo-inverse."""
    over = rank if over is None else over

    def f(B):
        U = basis(B, n)
        lam = B.reals("l", rank, ">0", lo=1, hi=6)
        for a, b in zip(lam, lam[1:]):
            B.assume(B.le_(a, b))
        A = from_spectrum(U[:, :rank], lam)
        T = B.reals("T", (n, 1), lo=-2, hi=2)
        B.spectrum(U, lam)
        X = B.run(lambda A, T, key: RandomisedEigendecompositionSolver(key, over, its).solve(A, 0.0, T, jnp.eye(n)), A, T, B.key())
        inv = from_spectrum(U[:, :rank], [B.div(B.const(1), x) for x in lam])
        B.eq("pseudo-inverse", X, mat(B, inv, T), tol=5e-3)

    return Scenario(f"randomised n={n} rank={rank} columns={over} iterations={its}", f, f"any {n}x{n} array of rank {rank}",
                    FUNCS, tier=tier, prove_ms=60000, **o)


def decomposition(n, over, rank=None, tier="quick"):
    rank = n if rank is None else rank

    def f(B):
        U = basis(B, n)
        lam = B.reals("l", rank, ">0", lo=1, hi=6)
        for a, b in zip(lam, lam[1:]):
            B.assume(B.le_(a, b))
        A = from_spectrum(U[:, :rank], lam)
        B.spectrum(U, lam)

        def code(A, key):
            l, V = RandomisedEigendecompositionSolver(key, over).randomised_eigendecomposition(A)
            return l, V @ jnp.diag(l) @ V.T, V.T @ V

        l, R, O = B.run(code, A, B.key())
        k = min(n, over)
        B.eq("eigenvectors and eigenvalues give the array", R, A, tol=5e-3)
        B.eq("orthonormal", O, eye(B, k), tol=2e-3)
        B.eq("eigenvalues", l, oarr([B.const(0)] * (k - rank) + list(lam)), tol=5e-3)

    return Scenario(f"decomposition n={n} columns={over} rank={rank}", f, f"any positive {n}x{n} array of rank {rank}", FUNCS, tier=tier)


def refusals():
    def f(B):
        def code(x):
            k = jax.random.key(0)
            R = RandomisedEigendecompositionSolver
            sq = jnp.eye(3)
            return jnp.stack([
                refused(lambda: R(k, 0)), refused(lambda: R(k, -1)), refused(lambda: R(k, 2.0)), refused(lambda: R(k, 2, -1)),
                refused(lambda: R(k, 2, 1.0)), refused(lambda: R(k, 2, 1, -2)), refused(lambda: R(k, 2, 1, -0.5)),
                1 - refused(lambda: R(k, 1, 0, -1)), 1 - refused(lambda: R(k, 1, 0, 0)),
                refused(lambda: R(k, 2).solve(sq[:2], 1e-3, sq[:2], 1.0)),
                refused(lambda: R(k, 2).randomised_eigendecomposition(sq[:, :2])),
                refused(lambda: R(k, 2).randomised_eigendecomposition(sq[0])),
                refused(lambda: R(k, 2).randomised_eigendecomposition(sq[None]))])

        B.eq("refused and accepted", B.run(code, B.reals("x", 1)), oarr([B.const(1)] * 13))

    return Scenario("refusals", f, "invalid settings and arrays", FUNCS, validate=0)


def scenarios():
    T = "thorough"
    return [refusals(), minimal(1, 1), minimal(2, 1), minimal(2, 2), minimal(2, 1, reg=0.0), minimal(2, 1, reg=-0.5), minimal_block(3, 2),
            minimal_block(2, 1), minimal_singular(), cutoff("minimal", 2, None), cutoff("minimal", 2, -1), cutoff("minimal", 2, 0.25),
            cutoff("randomised", 2, None), cutoff("randomised", 2, -1), cutoff("randomised", 2, 0.25), stack("minimal"),
            stack("minimal", axes=(0, 0, 0, None)), stack("randomised"), randomised(1, 3, 1), randomised(2, 2, 0),
            randomised(2, 25, 1), randomised(2, 3, 2, reg=0.0), randomised(3, 25, 1), randomised(3, 4, 0, k=2, reg=0.5),
            low_rank(2, 1), low_rank(2, 1, its=0), low_rank(3, 1), low_rank(3, 2, its=2), low_rank(2, 1, over=25),
            decomposition(2, 2), decomposition(2, 1, rank=1), decomposition(3, 25, rank=2),
            minimal(3, 1, tier=T), minimal(3, 1, reg=0.25, tier=T), minimal_block(4, 2, tier=T), cutoff("minimal", 3, 0.25, tier=T), cutoff("minimal", 3, None, tier=T),
            cutoff("randomised", 3, 0.1, tier=T), randomised(3, 3, 2, reg="sym", tier=T), low_rank(3, 2, its=1, over=25, tier=T),
            low_rank(3, 2, its=3, tier=T)]
