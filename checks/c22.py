"""Coresets: the points are the indexed data with the coreset's own weights; weighting and metrics see the right pair."""

from checks.common import *  # noqa: F403
from jaxsmt.harness import Scenario

from coreax.coreset import Coresubset, PseudoCoreset
from coreax.metrics import Metric
from coreax.weights import WeightsOptimiser

FUNCS = ["coreax.coreset.Coresubset", "coreax.coreset.Coresubset.points", "coreax.coreset.Coresubset.build",
         "coreax.coreset.PseudoCoreset", "coreax.coreset.PseudoCoreset.build", "coreax.coreset.AbstractCoreset.compute_metric",
         "coreax.coreset.Coresubset.solve_weights", "coreax.coreset.PseudoCoreset.solve_weights"]
ASSUMPTIONS = ["exact real arithmetic in place of float32"]


class Mix(WeightsOptimiser):
    """Some weights that depend on the points and weights of both arguments, in an asymmetric way."""

    def solve(self, dataset, coreset, epsilon=1e-10, *, scale=1.0):
        return scale * (3 * jnp.sum(dataset.data * dataset.weights[:, None]) + coreset.data[:, 0] * coreset.weights)


class Diff(Metric):
    def compute(self, reference_data, comparison_data, *, scale=1.0):
        return scale * (2 * jnp.sum(reference_data.data * reference_data.weights[:, None])
                        - jnp.sum(comparison_data.data * comparison_data.weights[:, None]))


def subset(n, m, sup, weighted, dataw, form="data", tier="quick"):
    """form: how the indices are given."""

    def f(B):
        x, y = B.reals("x", (n, 2), lo=-4, hi=4), B.reals("y", (n, 1), lo=-4, hi=4)
        dw = B.reals("dw", n, lo=-4, hi=4)
        w = B.reals("w", m, lo=-4, hi=4)
        idx = [B.pick(n) for _ in range(m)]

        def code(x, y, dw, w):
            d = SupervisedData(x, y, dw if dataw else None) if sup else Data(x, dw if dataw else None)
            i = jnp.array(idx, jnp.int32)
            if form == "column":
                i = i[:, None]
            ind = Data(i, w) if weighted else Data(i)
            if form == "build data":
                c = Coresubset.build(ind, d)
            elif form == "build array":
                c = Coresubset.build(i, (x, y) if sup else x)
            else:
                c = Coresubset(ind, d)
            p = c.points
            assert type(p) is type(d)
            q = c.solve_weights(Mix(), scale=2.0)
            assert type(q) is type(c)
            r = q.points
            z = jnp.zeros(0)
            return (p.data, p.weights, p.supervision if sup else z, c.unweighted_indices, jnp.array(len(c)),
                    c.pre_coreset_data.data, c.pre_coreset_data.weights,
                    r.data, r.weights, r.supervision if sup else z, q.pre_coreset_data.data, q.pre_coreset_data.weights,
                    q.unweighted_indices, c.points.weights, c.compute_metric(Diff()), c.compute_metric(Diff(), scale=3.0),
                    c.indices.weights, q.indices.weights)

        r = B.run(code, x, y, dw, w)
        raw = form == "build array"
        one = B.const(1)
        cw = list(w) if weighted and not raw else [one] * m
        pw = list(dw) if dataw and not raw else [one] * n
        B.eq("points are the indexed rows", r[0], x[idx])
        B.eq("points carry the coreset's weights", r[1], oarr(cw))
        if sup:
            B.eq("responses are the indexed rows", r[2], y[idx])
        B.true("indices", [int(i) for i in np.asarray(r[3]).reshape(-1)] == idx)
        B.true("length", int(r[4]) == m)
        B.eq("original data", r[5], x)
        B.eq("original weights", r[6], oarr(pw))
        nw = [2 * (3 * osum((x[i, 0] + x[i, 1]) * pw[i] for i in range(n)) + x[k, 0] * cw[a]) for a, k in enumerate(idx)]
        B.eq("reweighting keeps the points", r[7], x[idx])
        B.eq("reweighting installs the solver's weights", r[8], oarr(nw))
        if sup:
            B.eq("reweighting keeps the responses", r[9], y[idx])
        B.eq("reweighting keeps the original data", r[10], x)
        B.eq("reweighting keeps the original weights", r[11], oarr(pw))
        B.true("reweighting keeps the indices", [int(i) for i in np.asarray(r[12]).reshape(-1)] == idx)
        B.eq("reweighting leaves the first coreset alone", r[13], oarr(cw))
        met = 2 * osum((x[i, 0] + x[i, 1]) * pw[i] for i in range(n)) - osum((x[k, 0] + x[k, 1]) * cw[a] for a, k in enumerate(idx))
        B.eq("metric of original data against points", r[14], oarr(met))
        B.eq("metric with options", r[15], oarr(3 * met))
        B.eq("index weights", r[16], oarr(cw))
        B.eq("index weights after reweighting", r[17], oarr(nw))

    return Scenario(f"coresubset n={n} m={m} supervised={sup} weighted={weighted} data weights={dataw} given as {form}", f,
                    f"{n} points, every index vector of length {m}", FUNCS, tier=tier, validate=1)


def wide(n, idx, sup):
    """Many points; any data."""
    m = len(idx)

    def f(B):
        x, y, w = B.reals("x", (n, 1), lo=-4, hi=4), B.reals("y", (n, 1), lo=-4, hi=4), B.reals("w", m, lo=-4, hi=4)

        def code(x, y, w):
            d = SupervisedData(x, y) if sup else Data(x)
            c = Coresubset(Data(jnp.array(idx, jnp.int32), w), d)
            q = c.solve_weights(Mix())
            return c.points.data, c.points.weights, q.points.data, c.points.supervision if sup else jnp.zeros(0), c.unweighted_indices

        r = B.run(code, x, y, w)
        B.eq("points are the indexed rows", r[0], x[idx])
        B.eq("points carry the coreset's weights", r[1], w)
        B.eq("reweighting keeps the points", r[2], x[idx])
        if sup:
            B.eq("responses are the indexed rows", r[3], y[idx])
        B.true("indices", [int(i) for i in np.asarray(r[4]).reshape(-1)] == idx)

    return Scenario(f"wide n={n} indices={idx} supervised={sup}", f, f"{n} points, indices {idx}", FUNCS, validate=1)


def pseudo(n, m, sup, weighted, dataw, form="data", tier="quick"):
    def f(B):
        x, y, v = B.reals("x", (n, 2), lo=-4, hi=4), B.reals("y", (n, 1), lo=-4, hi=4), B.reals("v", (m, 2), lo=-4, hi=4)
        dw = B.reals("dw", n, lo=-4, hi=4)
        w = B.reals("w", m, lo=-4, hi=4)

        def code(x, y, v, dw, w):
            d = SupervisedData(x, y, dw if dataw else None) if sup else Data(x, dw if dataw else None)
            nodes = Data(v, w) if weighted else Data(v)
            if form == "build data":
                c = PseudoCoreset.build(nodes, d)
            elif form == "build array":
                c = PseudoCoreset.build(v, (x, y) if sup else x)
            else:
                c = PseudoCoreset(nodes, d)
            q = c.solve_weights(Mix(), scale=2.0)
            assert type(q) is type(c)
            o = c.pre_coreset_data
            return (c.points.data, c.points.weights, jnp.array(len(c)), o.data, o.weights, o.supervision if sup else jnp.zeros(0),
                    q.points.data, q.points.weights, q.pre_coreset_data.data, q.pre_coreset_data.weights, c.points.weights,
                    c.compute_metric(Diff(), scale=3.0))

        r = B.run(code, x, y, v, dw, w)
        raw = form == "build array"
        one = B.const(1)
        cw = list(w) if weighted and not raw else [one] * m
        pw = list(dw) if dataw and not raw else [one] * n
        B.eq("points are the nodes", r[0], v)
        B.eq("weights are the nodes'", r[1], oarr(cw))
        B.true("length", int(r[2]) == m)
        B.eq("original data", r[3], x)
        B.eq("original weights", r[4], oarr(pw))
        if sup:
            B.eq("original responses", r[5], y)
        nw = [2 * (3 * osum((x[i, 0] + x[i, 1]) * pw[i] for i in range(n)) + v[a, 0] * cw[a]) for a in range(m)]
        B.eq("reweighting keeps the points", r[6], v)
        B.eq("reweighting installs the solver's weights", r[7], oarr(nw))
        B.eq("reweighting keeps the original data", r[8], x)
        B.eq("reweighting keeps the original weights", r[9], oarr(pw))
        B.eq("reweighting leaves the first coreset alone", r[10], oarr(cw))
        met = 2 * osum((x[i, 0] + x[i, 1]) * pw[i] for i in range(n)) - osum((v[a, 0] + v[a, 1]) * cw[a] for a in range(m))
        B.eq("metric of original data against points", r[11], oarr(3 * met))

    return Scenario(f"pseudocoreset n={n} m={m} supervised={sup} weighted={weighted} data weights={dataw} given as {form}", f,
                    f"{n} points, any {m} nodes", FUNCS, tier=tier, validate=1)


def sizes(n, m, cls, build):
    """A coreset larger than its data is refused, one of at most its size is not."""

    def f(B):
        x = B.reals("x", (n, 1))
        y = B.reals("y", (m, 1))

        def code(x, y):
            i = jnp.zeros(m, jnp.int32)
            a = i if cls is Coresubset else y
            if build:
                return refused(lambda: cls.build(a, x), ValueError)
            return refused(lambda: cls(Data(a), Data(x)), ValueError)

        B.eq("refused exactly when larger than the data", B.run(code, x, y), oarr(B.const(1 if m > n else 0)))

    return Scenario(f"size {cls.__name__} n={n} m={m} build={build}", f, "any data", FUNCS)


def types_refused(cls, which):
    def f(B):
        x = B.reals("x", (3, 1))

        def code(x):
            i = jnp.zeros(2, jnp.int32) if cls is Coresubset else x[:2]
            a, b = (i, Data(x)) if which == "nodes" else (Data(i), x)
            return refused(lambda: cls(a, b), TypeError)

        B.eq("raw arrays are refused by the constructor", B.run(code, x), oarr(B.const(1)))

    return Scenario(f"constructor {cls.__name__} raw {which}", f, "any data", FUNCS)


def scenarios():
    out = []
    for sup in (False, True):
        out.append(wide(400, [399, 130, 0, 255, 256], sup))
        for form in ("data", "column", "build data", "build array"):
            out.append(subset(3, 2, sup, True, True, form))
        for wt, dw in ((False, True), (True, False), (False, False)):
            out.append(subset(3, 2, sup, wt, dw))
        out += [subset(3, 1, sup, True, True), subset(1, 1, sup, True, True), subset(2, 2, sup, True, True, "build data"),
                subset(4, 3, sup, True, True, tier="thorough")]
        for form in ("data", "build data", "build array"):
            out.append(pseudo(3, 2, sup, True, True, form))
        out += [pseudo(3, 1, sup, False, True), pseudo(2, 2, sup, True, False)]
    for cls in (Coresubset, PseudoCoreset):
        for n, m in ((2, 3), (3, 3), (3, 4), (1, 2), (4, 1)):
            out += [sizes(n, m, cls, False), sizes(n, m, cls, True)]
        out += [types_refused(cls, "nodes"), types_refused(cls, "data")]
    return out
