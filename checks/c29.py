"""Probabilistic herding: every draw follows the softmax of the herding objective at the given temperature."""

from checks.common import *  # noqa: F403
from jaxsmt.harness import Scenario

from coreax.benchmark_util import IterativeKernelHerding
from coreax.solvers import KernelHerding

FUNCS = ["coreax.benchmark_util.IterativeKernelHerding.reduce", "coreax.solvers.KernelHerding.reduce", "coreax.solvers.KernelHerding.refine", "coreax.solvers.KernelHerding.reduce_iterative",
         "coreax.solvers.coresubset._greedy_kernel_selection"]
ASSUMPTIONS = ["exact real arithmetic in place of float32", "the kernel is symmetric",
               "jax.random gumbel noise may take any finite values in the encoding, and has its documented law"]


def law(n, m, unique=True, temp="sym", w=None, init=None, its=0, cls=False, tier="quick", **o):
    """its > 0: reduce_iterative with a temperature schedule, observing the last pass over a coreset of one point."""
    wn = [1] * n if w is None else w

    def f(B):
        K = B.symmetric("K", n, lo=-2, hi=2)
        T = B.reals("T", max(its, 1), ">0", lo=Fraction(1, 2), hi=2) if temp == "sym" else oarr([B.const(v) for v in temp])

        def code(K, x, T, key):
            s = KernelHerding(m, kernel=TableKernel(K), unique=unique, probabilistic=True, random_key=key,
                              temperature=T[0] if not its else 1.0)
            d = Data(x, jnp.array(wn, jnp.float32))
            if cls:
                s = IterativeKernelHerding(m, kernel=TableKernel(K), unique=unique, probabilistic=True, random_key=key,
                                           num_iterations=its, t_schedule=T)
                c, _ = s.reduce(d)
            elif its:
                c, _ = s.reduce_iterative(d, num_iterations=its, t_schedule=T)
            elif init is None:
                c, _ = s.reduce(d)
            else:
                c, _ = s.refine(Coresubset(Data(jnp.array(init, jnp.int32)), d))
            return c.unweighted_indices

        def sampler(keys):
            Kc = jnp.asarray(np.array([[float(v) for v in r] for r in K], np.float32))
            Tc = jnp.asarray(np.array([float(v) for v in T], np.float32))
            return jax.jit(jax.vmap(lambda k: code(Kc, jnp.asarray(points(n)), Tc, k)))(keys)

        idx = [int(i) for i in np.asarray(B.run(code, K, points(n), T, B.key())).reshape(-1)]
        B.true("requested size, within the dataset", len(idx) == m and all(0 <= i < n and wn[i] > 0 for i in idx))
        tot = sum(wn)
        mean = [osum(wn[j] * K[i, j] for j in range(n)) / tot for i in range(n)]
        steps, cur = [], [] if init is None else list(init)
        for t in range(m):
            others = [c for s, c in enumerate(cur) if s != t]
            cand = [c for c in range(n) if wn[c] > 0 and not (unique and c in others)]
            B.true(f"step {t} picks an admissible point", idx[t] in cand)
            obj = {c: mean[c] - osum(K[c, o] for o in others) / (len(others) + 1) for c in cand}
            temp_t = T[-1] if its else T[0]
            steps.append((t + m * max(its - 1, 0), {c: B.exp(B.div(v, temp_t)) for c, v in obj.items()}))
            if t < len(cur):
                cur[t] = idx[t]
            else:
                cur.append(idx[t])
        B.gumbel_law("softmax", idx, steps, sampler)

    return Scenario(f"softmax n={n} m={m} unique={unique} T={temp} w={w} init={init} its={its} class={cls}", f,
                    f"any Gram matrix on {n} points, any temperature, every draw", FUNCS, tier=tier, weight=n**m, **o)


def chain(n, m, its, seed, tier="quick"):
    """Repeated refinement: fresh randomness in every pass; replays compare the law of the final coreset."""
    rng = np.random.default_rng(seed)
    C = rng.integers(-4, 5, (n, n)) / 2.0
    C = np.triu(C) + np.triu(C, 1).T
    temps = [1.0, 0.5, 0.25][:its]
    mean = C.mean(axis=1)

    def outcomes(cur, t, T):
        """(probability, coreset) after position t is replaced (or filled)."""
        others = [c for s, c in enumerate(cur) if s != t]
        cand = [c for c in range(n) if c not in others]
        v = np.array([mean[c] - sum(C[c, o] for o in others) / (len(others) + 1) for c in cand]) / T
        p = np.exp(v - v.max())
        for c, q in zip(cand, p / p.sum()):
            new = list(cur)
            if t < len(new):
                new[t] = c
            else:
                new.append(c)
            yield q, tuple(new)

    dist = {(): 1.0}
    for T in temps:
        for t in range(m):
            nxt = {}
            for cur, p in dist.items():
                for q, new in outcomes(cur, t, T):
                    nxt[new] = nxt.get(new, 0) + p * q
            dist = nxt

    def f(B):
        def code(K, x, key):
            s = KernelHerding(m, kernel=TableKernel(K), probabilistic=True, random_key=key)
            return s.reduce_iterative(Data(x), num_iterations=its, t_schedule=jnp.array(temps))[0].unweighted_indices

        def sampler(keys):
            return jax.jit(jax.vmap(lambda k: code(jnp.asarray(C, jnp.float32), jnp.asarray(points(n)), k)))(keys)

        idx = [int(i) for i in np.asarray(B.run(code, C.astype(np.float32), points(n), B.key())).reshape(-1)]
        B.true("distinct members", len(set(idx)) == m and all(0 <= i < n for i in idx))
        B.fresh_draws("passes", "gumbel", m * its, sampler, dist)

    return Scenario(f"fresh randomness n={n} m={m} its={its}", f, f"{its} passes over {m} of {n} points, every draw", FUNCS, tier=tier)


def scenarios():
    T = "thorough"
    return [law(3, 1), law(3, 2), law(3, 2, unique=False), law(4, 2, temp=[0.5]), law(3, 2, w=[1, 0, 2]), law(3, 2, init=[2, 0]),
            law(3, 2, init=[1, 1], unique=False), law(3, 1, its=1), law(3, 1, its=2), law(3, 1, its=3, temp=[2.0, 1.0, 0.5]),
            law(4, 1, its=2, w=[1, 2, 0, 1]), law(3, 1, its=2, cls=True), law(3, 1, its=3, cls=True, temp=[2.0, 1.0, 0.5]), chain(3, 2, 2, 0), chain(4, 2, 2, 3), law(4, 3, tier=T), law(5, 2, tier=T), law(4, 2, init=[3, 0], tier=T)]
