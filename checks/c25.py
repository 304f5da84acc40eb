"""Sliced score matching: training follows the gradient of the documented objective."""

from checks.common import *  # noqa: F403
from jaxsmt.harness import Scenario

import itertools

import optax
from jaxsmt.poly import Unsupported
from coreax.score_matching import SlicedScoreMatching

FUNCS = ["coreax.score_matching.SlicedScoreMatching.match", "coreax.score_matching.SlicedScoreMatching._train_step",
         "coreax.score_matching.SlicedScoreMatching._loss", "coreax.networks.ScoreNetwork",
         "coreax.networks.create_train_state"]
ASSUMPTIONS = ["exact real arithmetic in place of float32", "training of several steps and batches: an affine score network, whose "
               "initial parameters are arbitrary for one data point, those of one random key (as is the batch) for several",
               "hidden layers: at most two units per layer, one data point and one step; larger networks are outside the bound",
               "optimisers that show the gradient (plain descent; a probe that outputs one entry of the gradient); optax's own "
               "optimisers are trusted"]


@contextlib.contextmanager
def normals(shape, value):
    """Normal samples of the given shape take the given value."""
    old = jax.random.normal

    def normal(key, shp=(), *a, **k):
        return value if tuple(shp) == shape else old(key, shp, *a, **k)

    jax.random.normal = normal
    try:
        yield
    finally:
        jax.random.normal = old


def descend(n, d, batch, m=1, analytic=False, noise=0, sigma=1.0, gamma=0.5, epochs=1, lr=0.25, tier="quick", **o):
    """n data points of dimension d, m random vectors each; noise: number of noise models (0: unconditioned)."""
    assert (batch, d) != (d, d) and (batch, d) != (n, d) or not noise

    def f(B):
        x = B.reals("x", (n, d), lo=-2, hi=2)
        V = B.reals("v", (n, m, d), lo=-2, hi=2)
        Z = B.reals("z", (batch, d), lo=-2, hi=2) if noise else np.zeros((batch, d), np.float32)
        y = np.concatenate([np.zeros((1, d)), np.eye(d)]).astype(np.float32)
        key = jax.random.key(3) if n > 1 else B.key()

        def code(x, V, Z, key):
            def match(epochs):
                s = SlicedScoreMatching(key, lambda k, s, t: V, noise_conditioning=bool(noise), use_analytic=analytic,
                                        num_random_vectors=m, num_epochs=epochs, batch_size=batch, hidden_dims=(),
                                        optimiser=optax.sgd(lr), num_noise_models=max(noise, 1), sigma=sigma, gamma=gamma)
                return jnp.stack([s.match(x)(p) for p in jnp.asarray(y)])

            with normals((batch, d), Z) if noise else contextlib.nullcontext():
                return tuple(match(e) for e in range(epochs + 1))

        outs = B.run(code, x, V, Z, key)
        for e in range(epochs):
            # affine score before and after: s(p) = b + W p
            b, W = outs[e][0], [[outs[e][1 + j][i] - outs[e][0][i] for j in range(d)] for i in range(d)]
            b2, W2 = outs[e + 1][0], [[outs[e + 1][1 + j][i] - outs[e + 1][0][i] for j in range(d)] for i in range(d)]

            def grads(batch_idx):
                gb, gW = [B.const(0)] * d, [[B.const(0)] * d for _ in range(d)]
                levels = [(B.const(np.float32(sigma)) * B.const(np.float32(gamma)) ** i) for i in range(noise)] or [None]
                for s in levels:
                    scale = B.const(Fraction(1, batch * m)) * (1 if s is None else s * s)
                    for r, i in enumerate(batch_idx):
                        p = [x[i, q] + (0 if s is None else s * Z[r, q]) for q in range(d)]
                        sc = [osum(W[a][q] * p[q] for q in range(d)) + b[a] for a in range(d)]
                        for v in V[i]:
                            vs = dot(v, sc)
                            for a in range(d):
                                g = sc[a] if analytic else vs * v[a]
                                gb[a] = gb[a] + scale * g
                                for q in range(d):
                                    gW[a][q] = gW[a][q] + scale * (v[a] * v[q] + g * p[q])
                return gb, gW

            step = B.const(np.float32(lr))
            # the objective is a mean over a batch drawn from the data: some batch explains the step
            choices = [[0] * batch] if n == 1 else list(np.ndindex(*[n] * batch))
            if len(choices) == 1:
                gb, gW = grads(choices[0])
                B.eq(f"epoch {e}: offset follows the gradient", oarr(list(b2)), oarr([b[a] - step * gb[a] for a in range(d)]))
                B.eq(f"epoch {e}: slope follows the gradient", oarr(W2),
                     oarr([[W[a][q] - step * gW[a][q] for q in range(d)] for a in range(d)]))
            else:
                ok = []
                for c in choices:
                    gb, gW = grads(c)
                    ds = [b2[a] - b[a] + step * gb[a] for a in range(d)]
                    ds += [W2[a][q] - W[a][q] + step * gW[a][q] for a in range(d) for q in range(d)]
                    tiny = B.const(Fraction(1, 500))
                    ok.append(B.and_(*[B.and_(B.le_(-1 * tiny, v), B.le_(v, tiny)) for v in ds]))
                B.true(f"epoch {e}: the step follows the gradient of the objective on some batch of the data", B.or_(*ok))

    return Scenario(f"descend n={n} d={d} batch={batch} vectors={m} analytic={analytic} noise={noise} sigma={sigma} "
                    f"gamma={gamma} epochs={epochs} lr={lr}", f, f"any {n} data points and {m} random vectors each, d={d}",
                    FUNCS, tier=tier, real_bits=n > 1, **o)


@contextlib.contextmanager
def initial(leaves):
    """Networks start from the given parameters: a list of (kernel, bias), one pair per layer in order."""
    import flax.linen as nn
    old, order = nn.Module.init, []

    def init(self, *a, **k):
        tree = old(self, *a, **k)
        params = tree["params"]
        for names in [list(params), *itertools.permutations(params)]:
            if all(sorted(params[m]) == ["bias", "kernel"] for m in names) and [
                    tuple(params[m][s].shape for s in ("kernel", "bias")) for m in names] == [(k.shape, b.shape) for k, b in leaves]:
                order[:] = names
                return {**tree, "params": {m: {"kernel": k, "bias": b} for m, (k, b) in zip(names, leaves)}}
        raise Unsupported("the network does not keep one kernel and one bias per layer")

    nn.Module.init = init
    try:
        yield order
    finally:
        nn.Module.init = old


def softplus(B, z):
    return B.max(z, B.const(0)) + B.log(B.const(1) + B.exp(-1 * B.abs(z)))


def forward(d, hidden, points=1, tier="quick", **o):
    """The untrained score is the documented network: affine layers with softplus activations in between."""
    def f(B):
        x, p = B.reals("x", (1, d), lo=-2, hi=2), B.reals("p", (points, d), lo=-2, hi=2)
        dims = [d, *hidden, d]
        ws = [(B.reals(f"w{i}", (a, b), lo=-2, hi=2), B.reals(f"b{i}", (b,), lo=-2, hi=2))
              for i, (a, b) in enumerate(zip(dims, dims[1:]))]

        def code(x, p, *flat):
            pairs = list(zip(flat[::2], flat[1::2]))
            with initial(pairs):
                s = SlicedScoreMatching(jax.random.key(0), jax.random.rademacher, num_epochs=0, hidden_dims=hidden,
                                        optimiser=optax.sgd(0.5))
                score = s.match(x)
                return score(p) if points > 1 else score(p[0])[None]

        got = B.run(code, x, p, *[a for w in ws for a in w])
        want = []
        for r in range(points):
            h = list(p[r])
            for i, (w, b) in enumerate(ws):
                h = [osum(h[q] * w[q, j] for q in range(len(h))) + b[j] for j in range(w.shape[1])]
                if i < len(ws) - 1:
                    h = [softplus(B, z) for z in h]
            want.append(h)
        B.eq("score of each point", got, oarr(want))

    return Scenario(f"network d={d} hidden={hidden} points={points}", f, f"any weights and biases of a network with hidden layers {hidden}, "
                    f"any {points} points, d={d}", FUNCS, tier=tier, **o)


def hidden_gradient(d, h, m, analytic, sign, tier="quick", **o):
    """One hidden layer: the gradient handed to the optimiser is that of the objective, one data point."""
    def f(B):
        x, V = B.reals("x", (1, d), lo=-2, hi=2), B.reals("v", (1, m, d), lo=-2, hi=2)
        w1, b1 = B.reals("w1", (d, h), lo=-2, hi=2), B.reals("b1", (h,), lo=-2, hi=2)
        w2, b2 = B.reals("w2", (h, d), lo=-2, hi=2), B.reals("b2", (d,), lo=-2, hi=2)
        z = [osum(x[0, q] * w1[q, j] for q in range(d)) + b1[j] for j in range(h)]
        for j in range(h):
            B.assume(B.lt(B.const(0), z[j]) if sign[j] > 0 else B.lt(z[j], B.const(0)))

        def code(x, V, w1, b1, w2, b2):
            def probe(pick):
                # an optimiser that moves the network to the constant score showing one entry of the gradient
                def update(grads, state, params=None):
                    flat, tree = jax.tree_util.tree_flatten(params)
                    g = pick(grads)
                    new = [jnp.zeros_like(a) for a in flat]
                    new = jax.tree_util.tree_unflatten(tree, new)
                    last = order[-1]
                    new[last]["bias"] = jnp.full_like(new[last]["bias"], 1.0) * g
                    return jax.tree_util.tree_map(lambda a, b: a - b, new, params), state

                opt = optax.GradientTransformation(lambda params: optax.EmptyState(), update)
                s = SlicedScoreMatching(jax.random.key(0), lambda k, s, t: V, noise_conditioning=False, use_analytic=analytic,
                                        num_random_vectors=m, num_epochs=1, batch_size=1, hidden_dims=(h,), optimiser=opt)
                return s.match(x)(jnp.zeros(d))[0]

            with initial([(w1, b1), (w2, b2)]) as order:
                first = lambda g: g[order[0]]
                second = lambda g: g[order[1]]
                out = [probe(lambda g, q=q, j=j: first(g)["kernel"][q, j]) for q in range(d) for j in range(h)]
                out += [probe(lambda g, j=j: first(g)["bias"][j]) for j in range(h)]
                out += [probe(lambda g, q=q, j=j: second(g)["kernel"][j, q]) for j in range(h) for q in range(d)]
                out += [probe(lambda g, q=q: second(g)["bias"][q]) for q in range(d)]
                return jnp.stack(out)

        got = B.run(code, x, V, w1, b1, w2, b2)
        one, half = B.const(1), B.const(Fraction(1, m))
        sp = [softplus(B, v) for v in z]
        e = [B.exp(-1 * B.abs(v)) for v in z]
        sg = [B.div(one, one + e[j]) if sign[j] > 0 else B.div(e[j], one + e[j]) for j in range(h)]
        dsg = [sg[j] * (one - sg[j]) for j in range(h)]
        sc = [osum(sp[j] * w2[j, a] for j in range(h)) + b2[a] for a in range(d)]
        g1, gb1 = [[B.const(0)] * h for _ in range(d)], [B.const(0)] * h
        g2, gb2 = [[B.const(0)] * d for _ in range(h)], [B.const(0)] * d
        for v in V[0]:
            vs = dot(v, sc)
            ds = [sc[a] if analytic else vs * v[a] for a in range(d)]  # derivative of the quadratic term in the score
            for j in range(h):
                t = osum(v[q] * w1[q, j] for q in range(d))            # how the pre-activation moves along v
                wv = osum(v[a] * w2[j, a] for a in range(d))
                # objective = sum_j wv_j sg_j t_j + quadratic term
                dz = wv * dsg[j] * t + osum(ds[a] * w2[j, a] for a in range(d)) * sg[j]
                gb1[j] = gb1[j] + half * dz
                for q in range(d):
                    g1[q][j] = g1[q][j] + half * (dz * x[0, q] + wv * sg[j] * v[q])
                for a in range(d):
                    g2[j][a] = g2[j][a] + half * (v[a] * sg[j] * t + ds[a] * sp[j])
            for a in range(d):
                gb2[a] = gb2[a] + half * ds[a]
        want = [g1[q][j] for q in range(d) for j in range(h)] + gb1 + [g2[j][q] for j in range(h) for q in range(d)] + gb2
        B.eq("gradient of the objective", got, oarr(want))

    return Scenario(f"hidden gradient d={d} units={h} vectors={m} analytic={analytic} sign={sign}", f,
                    f"any network with one hidden layer of {h}, any data point and {m} random vectors, d={d}", FUNCS, tier=tier, **o)


def refusals():
    def f(B):
        def code(x):
            def make(**k):
                return lambda: SlicedScoreMatching(jax.random.key(0), jax.random.rademacher, **k)

            bad = [{"num_epochs": -1}, {"batch_size": -2}, {"num_epochs": 1.5}, {"num_random_vectors": 0},
                   {"num_noise_models": 0}, {"num_random_vectors": 1.0}]
            good = [{}, {"num_epochs": 0}, {"batch_size": 1}, {"num_random_vectors": 3}]
            return jnp.stack([refused(make(**k)) for k in bad] + [1 - refused(make(**k)) for k in good])

        B.eq("refused and accepted", B.run(code, B.reals("x", 1)), oarr([B.const(1)] * 10))

    return Scenario("refusals", f, "parameters around their limits", FUNCS, validate=0)


def scenarios():
    T = "thorough"
    return [refusals(), descend(1, 1, 1), descend(1, 2, 1), descend(1, 2, 1, analytic=True), descend(1, 1, 2, m=2),
            descend(1, 2, 3, m=2, analytic=True), descend(1, 1, 2, noise=1, sigma=0.5), descend(1, 2, 3, noise=2, sigma=2.0),
            descend(1, 2, 3, noise=3, sigma=1.0, gamma=0.75, analytic=True), descend(1, 1, 1, epochs=2),
            descend(2, 1, 1), descend(2, 2, 1, analytic=True), descend(2, 1, 2, m=2),
            forward(1, (1,), points=2), forward(2, (2,)), forward(1, (1, 1)), hidden_gradient(1, 1, 1, False, (1,)),
            hidden_gradient(1, 1, 1, False, (-1,)), hidden_gradient(1, 1, 1, True, (1,)), hidden_gradient(2, 1, 2, False, (1,)),
            hidden_gradient(1, 2, 1, True, (1, -1)), hidden_gradient(2, 2, 2, False, (-1, 1), tier=T),
            hidden_gradient(2, 2, 1, True, (1, 1), tier=T), forward(1, (2, 1), tier=T), forward(1, (1, 1, 1), tier=T),
            descend(1, 3, 1, tier=T), descend(1, 2, 1, epochs=2, tier=T), descend(3, 1, 2, m=2, tier=T),
            descend(1, 2, 3, noise=4, m=2, tier=T)]
