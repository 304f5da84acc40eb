"""Scenario runner: one scenario function serves symbolic search and replay."""

from __future__ import annotations

import json
import math
import os
import time
import traceback
import zlib
from fractions import Fraction

import jax
import jax.numpy as jnp
import numpy as np
import z3

from . import ctx as C
from . import interp as I
from . import poly as P
from . import trace as T
from .ctx import Budget, Ctx, PathAbort, Stats, slack, zand, znot, zor
from .poly import Poly, Unsupported


class CodeRaised(Exception):
    """The code under test raised."""


class Failed(Exception):
    """A concrete assertion failed (replay)."""


CONC_ERRORS = (
    jax.errors.ConcretizationTypeError,
    jax.errors.TracerArrayConversionError,
    jax.errors.TracerBoolConversionError,
    jax.errors.TracerIntegerConversionError,
    jax.errors.NonConcreteBooleanIndexError,
)


class Base:
    sym = False

    def reals(self, name, shape, sgn=None, lo=None, hi=None):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        n = int(np.prod(shape, dtype=int))
        idx = list(np.ndindex(*shape))
        return I.arr(shape, [self.real(f"{name}{list(i) if i else ''}", sgn, lo, hi) for i in idx[:n]])

    def symmetric(self, name, n, sgn=None, lo=None, hi=None):
        out = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(i, n):
                out[i, j] = out[j, i] = self.real(f"{name}[{i},{j}]", sgn, lo, hi)
        return out

    def all(self, xs):
        return zand(list(xs)) if self.sym else all(xs)


class SymB(Base):
    """Symbolic backend (one path)."""

    sym = True

    def __init__(self, scen, ctx: Ctx):
        self.scen, self.ctx = scen, ctx
        self.calls = 0
        self.picks = []
        self.candidates = []
        self.outputs = []
        self.randomised = False
        self.nasserts = 0
        self.closed = []

    # inputs
    def real(self, name, sgn=None, lo=None, hi=None):
        v = P.var(name, sgn)
        self.scen.vars[name] = sgn
        self.scen.bnds[name] = (sgn, lo, hi)
        if lo is not None:
            self.ctx.assume(P.le(P.num(lo), v))
        if hi is not None:
            self.ctx.assume(P.le(v, P.num(hi)))
        return v

    def const(self, x):
        return P.num(x)

    def key(self, i=0):
        self.randomised = True
        return jax.random.key(i)

    def pick(self, n, label=""):
        i = self.ctx.pick(n, label)
        self.picks.append(i)
        return i

    def assume(self, c, text=None):
        self.ctx.assume(c, text)

    def decide(self, c):
        return self.ctx.decide(c)

    # functions usable in oracles
    exp, log, sqrt, sin, cos, abs, max, min, div = map(
        staticmethod, (P.exp, P.log, P.sqrt, P.sin, P.cos, P.absv, P.maximum, P.minimum, P.div)
    )
    pow = staticmethod(P.power)

    def lt(self, a, b):
        return P.lt(a, b)

    def le_(self, a, b):
        return P.le(a, b)

    def eq_(self, a, b):
        return P.eq(a, b)

    def or_(self, *xs):
        return zor(xs)

    def and_(self, *xs):
        return zand(xs)

    def not_(self, x):
        return znot(x)

    # running the code
    def run(self, fn, *args, eager=False, tag=None):
        vals = [a if I.is_key(a) else (np.asarray(a) if not I.is_sym(a) else a) for a in args]
        vals = [v if I.is_key(v) else (v.astype(np.float32) if v.dtype == np.float64 else
                                       v.astype(np.int32) if v.dtype == np.int64 else v) for v in vals]
        self.calls += 1
        if any(I.is_key(v) for v in vals):
            self.randomised = True
        dts = [None if I.is_key(v) else (np.float32 if I.is_sym(v) else v.dtype) for v in vals]
        key = (self.calls, tuple(self.picks), tag, tuple(str(np.shape(v)) + str(d) for v, d in zip(vals, dts)))
        cache = self.scen.jaxprs
        try:
            if not eager and cache.get(key) != "eager":
                if key not in cache:
                    ex = [v if I.is_key(v) else jax.ShapeDtypeStruct(v.shape, d) for v, d in zip(vals, dts)]
                    tree = {}

                    def flat(*a):
                        o = fn(*a)
                        leaves, tree["t"] = jax.tree_util.tree_flatten(o)
                        return leaves

                    try:
                        cj = jax.make_jaxpr(flat)(*ex)
                        cache[key] = (cj, tree["t"])
                    except CONC_ERRORS:
                        cache[key] = "eager"
                if cache[key] != "eager":
                    cj, td = cache[key]
                    outs = I.eval_closed(cj, vals)
                    res = jax.tree_util.tree_unflatten(td, outs)
                    self.outputs.append(outs)
                    return res
            res = T.run_eager(fn, vals, dts)
            self.outputs.append(jax.tree_util.tree_leaves(res))
            return res
        except (Unsupported, PathAbort, Budget, C.z3.Z3Exception):
            raise
        except Exception as e:  # raised by the code under test
            raise CodeRaised(f"{type(e).__name__}: {e}") from e

    # assertions
    def true(self, label, cond):
        self.nasserts += 1
        self._prove(label, znot(cond), [])

    def eq(self, label, a, b, tol=None):
        a, b = np.asarray(a), np.asarray(b)
        if np.shape(a) != np.shape(b):
            self.fail(label + f" shape {np.shape(a)} vs {np.shape(b)}")
            return
        for i in np.ndindex(*a.shape):
            x, y = P.num(a[i]), P.num(b[i])
            lab = label + (str(list(i)) if i else "")
            self.nasserts += 1
            if isinstance(x, float) or isinstance(y, float):
                same = isinstance(x, float) and isinstance(y, float) and (x == y or (x != x and y != y))
                self._prove(lab, False if same else True, [])
                continue
            d = P.sub(x, y)
            if isinstance(x, Fraction) and isinstance(y, Fraction) and abs(d) <= max(abs(x), abs(y)) / 10**5:
                d = P.F0  # two concrete float32 values
            if isinstance(d, Poly) and not P.is_zero(d) and close(d, x, y):
                d = P.F0
            elif d == P.F0 and isinstance(x, Poly):
                # equal normal forms: discharged by the solver at the end of the path
                self.closed.append((x, y))
            neg = znot(P.eq(d, P.F0))
            self._prove(lab, neg, [
                (lambda m, d=d, x=x, y=y: zor([P.lt(P.num(m), d), P.lt(d, -P.num(m))]))])

    def le(self, label, a, b, tol=0):
        """a <= b (up to tol, where literal constants were rounded to float32)."""
        self.nasserts += 1
        a, b = P.num(a), P.add(P.num(b), P.num(tol))
        self._prove(label, znot(P.le(a, b)), [lambda m: P.lt(P.add(b, m), a)])

    def fail(self, label):
        """An assertion that is false on this path."""
        self.nasserts += 1
        self._prove(label, True, [])

    def _prove(self, label, neg, margins):
        st = self.ctx.stats
        if isinstance(neg, bool):
            # the formula is a constant: the solver still has to say whether the path exists
            if not neg:
                st.proved += 1
                return
            neg = z3.BoolVal(True)
        self.ctx.stats.obligations = getattr(self.ctx.stats, "obligations", 0) + 1
        r = self.ctx.check(neg, timeout_ms=self.scen.opts.get("prove_ms", 20000))
        if r == z3.unsat:
            st.proved += 1
            return
        if r == z3.unknown:
            self.scen.unknown.append(label)
        models = []
        if r == z3.sat and self.ctx.model is not None:
            plain = self.ctx.assignment(self.ctx.model)
        else:
            plain = None
        robust = [slack(c, 0.01) for c in self.ctx.constraints]
        box = self.box(8)
        for f in margins:
            for m in (Fraction(1), Fraction(1, 10), Fraction(1, 100)):
                c = f(m)
                if c is False:
                    continue
                mod = self._solve(robust + box + ([] if c is True else [c]))
                if mod is not None:
                    models.append(mod)
                    break
        mod = self._solve(robust + box + [slack(neg, 0.01)])
        if mod is not None:
            models.append(mod)
        for bnd in (8, 1000):
            mod = self._solve(list(self.ctx.constraints) + self.box(bnd) + [neg])
            if mod is not None:
                models.append(mod)
                break
        if plain is not None:
            models.append(plain)
        self.candidates.append((label, models))
        raise FoundCandidate()

    # the law of random draws
    def same(self, a, b, tol=None):
        """The condition that two arrays agree."""
        return zand([P.eq(P.num(x), P.num(y)) for x, y in zip(np.ravel(a), np.ravel(b))])

    def spectrum(self, U, names=()):
        """The columns of U are eigenvectors of the matrices the code decomposes; names may be their eigenvalues."""
        I.SPECTRUM.update(U=np.array([[P.num(x) for x in r] for r in U], dtype=object), names=[P.num(x) for x in names], Q=[])

    def gumbel_law(self, label, idx, steps, sampler=None):
        """idx: indices selected; steps[t] = (draw, {candidate: weight}).

        Step t must select its index with probability proportional to the weights, by
        comparing (gumbel noise + log weight) over the candidates of gumbel draw
        number ``draw``; nothing is asserted if the code samples in another way.
        """
        gs = [d for d in self.ctx.draws if d[0] == "gumbel"]
        self.fresh_draws(label, "gumbel", max(d for d, _ in steps) + 1)
        for t, (draw, wts) in enumerate(steps):
            if draw >= len(gs) or len(gs[draw][2]) <= max(wts):
                self.scen.notes.add("draws are not gumbel-max draws: law not checked")
                return
            g = gs[draw][2]
            c = idx[t]
            for j, w in wts.items():
                if j == c:
                    continue
                self.nasserts += 1
                a = P.add(g[j], P.log(P.num(w)))
                b = P.add(g[c], P.log(P.num(wts[c])))
                self._prove(f"{label}: step {t} prefers {c} to {j} by its weight", P.lt(b, a), [])

    def fresh_draws(self, label, kind, count, sampler=None, law=None):
        """The code draws ``count`` times; no key may be used twice. law: probability of every outcome, for replays."""
        ks = [k for k in self.ctx.all_draws if k[0] == kind]
        self.nasserts += 1
        if len(ks) == count and len(set(ks)) < count:
            self.fail(f"{label}: steps share their random numbers")

    def interval_law(self, label, idx, probs, sampler=None):
        """idx[t] drawn by inverting the t-th uniform: measure at most probs[idx[t]]."""
        us = [d for d in self.ctx.draws if d[0] == "uniform"]
        if not us or len(us[-1][2]) != len(idx):
            self.scen.notes.add("draws are not uniform inversions: law not checked")
            return
        for t, c in enumerate(idx):
            u, u2 = us[-1][2][t], P.var("u:second copy")
            other = [z3.substitute(k, (C.zpoly(u), C.zpoly(u2))) for k in self.ctx.constraints]
            self.nasserts += 1
            gap = P.lt(P.num(probs[c]), P.sub(u, u2))
            self._prove(f"{label}: draw {t} has at most the probability of {c}", zand([*other, gap]), [])

    def step_law(self, label, outcome, probs, tol=0, sampler=None):
        """One uniform draw per step; outcome[t] happened at step t, its probability given the past must be probs[t].

        The set of draws with that outcome is an interval whose length is at most the probability, for each outcome.
        """
        us = [d[2][0] for d in self.ctx.draws if d[0] == "uniform" and len(d[2]) == 1]
        self.fresh_draws(label, "uniform", len(outcome))
        if len(us) != len(outcome):
            self.scen.notes.add("draws are not one uniform per step: law not checked")
            return
        for t, p in enumerate(probs):
            u, u2 = us[t], P.var("u:second copy")
            other = [z3.substitute(k, (C.zpoly(u), C.zpoly(u2))) for k in self.ctx.constraints]
            self.nasserts += 1
            gap = P.lt(P.add(P.num(p), P.num(tol)), P.sub(u, u2))
            self._prove(f"{label}: step {t} has at most the probability of its outcome", zand([*other, gap]), [])

    def tally(self, outcome):
        """Accumulate the probability of this path's (concrete) outcome."""
        d = self.scen.tallies
        d[outcome] = d.get(outcome, P.F0) + self.ctx.prob

    def discharge(self):
        """One query for the equalities whose two sides have the same normal form."""
        if not self.closed:
            return
        neg = z3.Or([C.zterm(x) != C.zterm(y) for x, y in self.closed])
        t0 = time.time()
        s = z3.Solver()
        s.set("timeout", 10000)
        s.add(neg)
        r = s.check()
        self.ctx.stats.queries += 1
        self.ctx.stats.solver_s += time.time() - t0
        if r != z3.unsat:
            raise Unsupported("the normal form and the solver disagree")
        self.ctx.stats.unsat += 1

    def box(self, b):
        out = []
        for i, at in enumerate(P.ATOMS):
            if at is not None and at.kind == "var" and i in C._Z and not at.name.startswith("bits:"):
                v = C._Z[i]
                out.append(z3.And(v <= b, v >= -b))
                if at.sgn == ">0":
                    out.append(v >= 0.05)
        return out

    def _solve(self, cs):
        for s in ([z3.SolverFor("QF_NRA")] if self.ctx.nonlinear else [z3.Solver()]):
            s.set("timeout", 5000)
            s.add(*cs)
            self.ctx.stats.queries += 1
            t0 = time.time()
            r = s.check()
            self.ctx.stats.solver_s += time.time() - t0
            if r == z3.sat:
                return self.ctx.assignment(s.model())
        return None


def close(d, x, y):
    """Coefficient-wise equality up to float32 rounding of literal constants."""
    if not isinstance(d, Poly):
        return False
    scale: dict = {}
    for q in (x, y):
        if isinstance(q, Poly):
            for k, c in q.t.items():
                scale[k] = max(scale.get(k, P.F0), abs(c))
        else:
            scale[P.ONE] = max(scale.get(P.ONE, P.F0), abs(q))
    tol = Fraction(1, 10**5)
    top = max(scale.values())
    return all(abs(c) <= tol * scale.get(k, top / 10) for k, c in d.t.items())


class FoundCandidate(BaseException):
    pass


class ConcB(Base):
    """Concrete backend: the real code on real floats."""

    def __init__(self, scen, values, picks, seed=0, tol=2e-3, collect=False):
        self.scen, self.values, self.picklist, self.seed, self.tol = scen, values, list(picks), seed, tol
        self.calls = 0
        self.picks = []
        self.outputs = []
        self.randomised = False
        self.collect = collect
        self.failures = []

    def real(self, name, sgn=None, lo=None, hi=None):
        v = self.values.get(name)
        if v is None:
            # a variable the path never constrained: any value of its sort
            h = zlib.crc32(name.encode()) % 1000 / 1000.0
            v = 0.25 + h
            if lo is not None and hi is not None:
                v = float(lo) + h * (float(hi) - float(lo))
            elif lo is not None:
                v = float(lo) + h
            elif hi is not None:
                v = float(hi) - h
        return float(np.float32(v))

    def const(self, x):
        return float(x)

    def key(self, i=0):
        self.randomised = True
        return jax.random.key(i + 7919 * self.seed)

    def pick(self, n, label=""):
        i = self.picklist[len(self.picks)] if len(self.picks) < len(self.picklist) else 0
        self.picks.append(i)
        return i

    def assume(self, c, text=None):
        if not bool(c):
            raise PathAbort("assumption false in replay: " + str(text))

    def decide(self, c):
        return bool(c)

    exp = staticmethod(lambda x: math.exp(x) if x < 700 else math.inf)
    log = staticmethod(lambda x: math.log(x) if x > 0 else (-math.inf if x == 0 else math.nan))
    sqrt = staticmethod(lambda x: math.sqrt(x) if x >= 0 else math.nan)
    sin, cos = staticmethod(math.sin), staticmethod(math.cos)
    abs = staticmethod(abs)
    max, min = staticmethod(max), staticmethod(min)
    pow = staticmethod(lambda x, y: x**y)

    @staticmethod
    def div(a, b):
        if b == 0:
            return math.nan if a == 0 else math.copysign(math.inf, a)
        return a / b

    def lt(self, a, b):
        return a < b

    def le_(self, a, b):
        return a <= b

    def eq_(self, a, b):
        return a == b

    def or_(self, *xs):
        return any(xs)

    def and_(self, *xs):
        return all(xs)

    def not_(self, x):
        return not x

    def run(self, fn, *args, eager=False, tag=None):
        self.calls += 1
        vals = []
        for a in args:
            if I.is_key(a):
                self.randomised = True
                vals.append(a)
                continue
            a = np.asarray(a)
            if a.dtype == object:
                a = np.array([float(x) for x in a.reshape(-1)], dtype=np.float32).reshape(a.shape)
            elif a.dtype == np.float64:
                a = a.astype(np.float32)
            elif a.dtype == np.int64:
                a = a.astype(np.int32)
            vals.append(jnp.asarray(a))
        try:
            key = ("j", self.calls, tuple(self.picks), tag)
            if self.seed > 0 and not eager and key in self.scen.jits:
                out = self.scen.jits[key](*vals)
            elif self.seed > 0 and not eager and key not in self.scen.nojit:
                jf = jax.jit(fn)
                try:
                    out = jf(*vals)
                    self.scen.jits[key] = jf
                except CONC_ERRORS:
                    self.scen.nojit.add(key)
                    out = fn(*vals)
            else:
                out = fn(*vals)
        except Exception as e:
            raise CodeRaised(f"{type(e).__name__}: {e}") from e
        leaves, td = jax.tree_util.tree_flatten(out)
        leaves = [np.asarray(x) if not I.is_key(x) else x for x in leaves]
        self.outputs.append(leaves)

        def cv(x):
            if I.is_key(x) or x.dtype.kind in "iub":
                return x
            o = np.empty(x.shape, dtype=object)
            for i in np.ndindex(*x.shape):
                o[i] = float(x[i])
            return o

        return jax.tree_util.tree_unflatten(td, [cv(x) for x in leaves])

    def _bad(self, msg):
        self.failures.append(msg)
        raise Failed(msg)

    def true(self, label, cond):
        if not bool(cond):
            self._bad(label)

    def eq(self, label, a, b, tol=None):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            self._bad(f"{label}: shape {a.shape} vs {b.shape}")
        tol = tol or self.tol
        for i in np.ndindex(*a.shape):
            x, y = float(a[i]), float(b[i])
            lab = label + (str(list(i)) if i else "")
            if math.isnan(x) != math.isnan(y):
                self._bad(f"{lab}: got {x}, expected {y}")
            if math.isnan(x):
                continue
            if math.isinf(x) or math.isinf(y):
                if x != y:
                    self._bad(f"{lab}: got {x}, expected {y}")
                continue
            if abs(x - y) > tol * (1 + abs(x) + abs(y)):
                self._bad(f"{lab}: got {x}, expected {y}")

    def le(self, label, a, b, tol=0):
        a, b = float(a), float(b)
        if not (a <= b + float(tol) + self.tol * (1 + abs(a) + abs(b))):
            self._bad(f"{label}: {a} > {b}")

    def fail(self, label):
        self._bad(label)

    # laws are replayed by frequencies over many keys, at six standard deviations
    def _samples(self, sampler, n=6000):
        k = ("samples", tuple(sorted((k, v) for k, v in self.values.items() if v is not None)))
        if k not in self.scen.jits:
            self.scen.jits[k] = np.asarray(sampler(jax.random.split(jax.random.key(2024), n)))
        return self.scen.jits[k]

    def _freq(self, label, picks, probs):
        n = len(picks)
        if n < 300:
            return
        for c, p in probs.items():
            f = float(np.mean(picks == c))
            p = float(p)
            if abs(f - p) > 6 * math.sqrt(max(p * (1 - p), 1e-4) / n) + 2e-3:
                self._bad(f"{label}: index {c} drawn with frequency {f:.4f} over {n} keys, expected {p:.4f}")

    def same(self, a, b, tol=2e-3):
        a, b = ([float(x) for x in np.ravel(v)] for v in (a, b))
        return all(abs(x - y) <= tol * max(1, abs(x), abs(y)) for x, y in zip(a, b))

    def spectrum(self, U, names=()):
        pass

    def gumbel_law(self, label, idx, steps, sampler=None):
        if sampler is None:
            return
        s = self._samples(sampler)
        for t, (_draw, wts) in enumerate(steps):
            sub = s[np.all(s[:, :t] == np.array(idx[:t]).reshape(1, -1), axis=1)] if t else s
            tot = sum(float(w) for w in wts.values())
            self._freq(f"{label}: step {t}", sub[:, t], {c: float(w) / tot for c, w in wts.items()})

    def fresh_draws(self, label, kind, count, sampler=None, law=None):
        if sampler is None:
            return
        s = self._samples(sampler, 20000)
        for out, p in law.items():
            f = float(np.mean(np.all(s == np.array(out), axis=1)))
            if abs(f - p) > 6 * math.sqrt(max(p * (1 - p), 1e-4) / len(s)) + 2e-3:
                self._bad(f"{label}: outcome {out} has frequency {f:.4f} over {len(s)} keys, expected {p:.4f}")

    def interval_law(self, label, idx, probs, sampler=None):
        if sampler is None:
            return
        s = self._samples(sampler)
        for t in range(len(idx)):
            self._freq(f"{label}: draw {t}", s[:, t], dict(enumerate(probs)))

    def step_law(self, label, outcome, probs, tol=0, sampler=None):
        s = self._samples(sampler, 40000)
        for t, p in enumerate(probs):
            sub = s[np.all(s[:, :t] == np.array(outcome[:t]).reshape(1, -1), axis=1)] if t else s
            self._freq(f"{label}: step {t}", sub[:, t], {outcome[t]: float(p)})

    def tally(self, outcome):
        pass


class Scenario:
    def __init__(self, name, fn, bounds="", funcs=(), tier="quick", **opts):
        self.name, self.fn, self.bounds, self.funcs, self.tier = name, fn, bounds, funcs, tier
        self.opts = opts
        self.fresh()

    def fresh(self):
        self.jaxprs, self.jits, self.nojit, self.vars, self.bnds = {}, {}, set(), {}, {}
        self.unknown = []
        self.notes, self.tallies = set(), {}


def run_scenario(scen: Scenario, tier="quick", seed=1, budget=None):
    """Explore every path; returns a result dict."""
    C.reset()
    scen.fresh()
    I.USED_PRIMS.clear()
    I.DOUBLE[0] = bool(scen.opts.get("double"))
    I.SPECTRUM.update(U=None, names=[], Q=[])
    I.SVD.update(exact=bool(scen.opts.get("bases")), bases=scen.opts.get("bases", 1))
    st = Stats()
    t0 = time.time()
    opts = dict(scen.opts)
    budget = budget or opts.get("budget", 240)
    opts["deadline"] = t0 + budget
    work = [[]]
    res = {
        "scenario": scen.name, "bounds": scen.bounds, "functions": list(scen.funcs),
        "status": "holds", "violations": [], "inconclusive": [], "validated": 0, "mismatch": [],
        "samples": [], "asserts": 0,
    }
    maxpaths = opts.get("max_paths", 20000)
    tried = 0
    b = None
    try:
        while work:
            prefix = work.pop()
            ctx = Ctx(prefix, st, work, opts)
            P.set_ctx(ctx)
            b = SymB(scen, ctx)
            tried += 1
            if tried > maxpaths:
                raise Budget(f"path bound {maxpaths}")
            try:
                try:
                    scen.fn(b)
                except CodeRaised as e:
                    b.candidates.append((f"the code raised {e}", path_models(b)))
                    raise FoundCandidate() from e
                b.discharge()
                st.paths += 1
                res["asserts"] += b.nasserts
                if st.paths <= opts.get("validate", 2) and not b.randomised:
                    validate(scen, b, res)
                elif st.paths == 1:
                    # reachability twin: the end of the harness is reachable
                    r = ctx.check()
                    if r == z3.unsat:
                        res["inconclusive"].append("vacuous: first path is infeasible")
            except PathAbort:
                continue
            except FoundCandidate:
                label, models = b.candidates[-1]
                hit = replay_candidates(scen, label, models, b.picks, b.randomised or opts.get("random", False),
                                        budget=opts.get("replay_s", 90))
                if hit:
                    res["violations"].append(hit)
                    res["status"] = "violated"
                    break
                if label in scen.unknown:
                    res["inconclusive"].append(f"solver unknown: {label}")
                else:
                    res["inconclusive"].append(f"counterexample did not reproduce: {label} "
                                               f"{json.dumps(models[:1], default=str)[:600]}")
                if len(res["inconclusive"]) > 4:
                    break
        fin = opts.get("final")
        if fin and not res["violations"] and not res["inconclusive"]:
            st.proved += 1
            bad = fin(scen.tallies)
            if bad:
                cb = ConcB(scen, {}, [])
                try:
                    opts["final_replay"](cb)
                    res["inconclusive"].append(f"counterexample did not reproduce: {bad}")
                except (Failed, CodeRaised) as e:
                    res["violations"].append({"label": bad, "failed": str(e)[:500], "values": {}, "picks": [],
                                              "seed": 0, "scenario": scen.name})
                    res["status"] = "violated"
        if st.paths == 0 and not res["violations"] and not res["inconclusive"]:
            res["inconclusive"].append("vacuous: no feasible path")
    except Unsupported as e:
        res["inconclusive"].append(f"outside the encoding: {e} @ {_tb(e)}")
    except Budget as e:
        res["inconclusive"].append(f"budget: {e}")
    except Exception as e:  # an error of the harness itself
        res["inconclusive"].append(f"harness error {type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}")
    if res["status"] != "violated" and (res["inconclusive"] or res["mismatch"]):
        res["status"] = "inconclusive"
        hit = fallback(scen, b, opts)
        if hit:
            res["violations"].append(hit)
            res["status"] = "violated"
    d = st.as_dict()
    d["notes"] = sorted(scen.notes)
    d["prims"] = dict(I.USED_PRIMS)
    d["symbolic_steps"] = sum(I.USED_PRIMS.values())
    res["stats"] = d
    res["wall_s"] = time.time() - t0
    return res


def _tb(e):
    tb = traceback.extract_tb(e.__traceback__)
    return " < ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb[-3:])


def fallback(scen, b, opts, trials=8):
    """Undecided: models of the path so far and arbitrary inputs are tried on the real code.

    This can only turn an undecided scenario into a violation shown on the code, never into one that holds.
    """
    models = []
    if b is not None:
        try:
            models = path_models(b)
        except Exception:
            models = []
    rng = np.random.default_rng(1)
    names = dict(scen.bnds)
    for _ in range(trials):
        models.append({k: (float(rng.uniform(-2 if lo is None else max(float(lo), -8), 2 if hi is None else min(float(hi), 8)))
                           if lo is not None and hi is not None else
                           float(rng.uniform(float(lo), float(lo) + 3)) if lo is not None else
                           float(rng.uniform(0.1, 3)) if sgn in (">0", ">=0") else float(rng.uniform(-2, 2)))
                       for k, (sgn, lo, hi) in names.items()})
    try:
        return replay_candidates(scen, "undecided symbolically; the code fails on a solver model or a trial input",
                                 models, b.picks if b is not None else [],
                                 bool(b is not None and b.randomised) or opts.get("random", False),
                                 budget=opts.get("fallback_s", 20), nseeds=30)
    except Exception:
        return None


def path_models(b):
    out = []
    robust = [slack(c, 0.01) for c in b.ctx.constraints]
    for cs in (robust + b.box(8), list(b.ctx.constraints)):
        m = b._solve(cs)
        if m is not None:
            out.append(m)
    return out


def validate(scen, b, res):
    """Push a model of this path through the real code and compare outputs."""
    robust = [slack(c, 0.02) for c in b.ctx.constraints]
    m = None
    for bx in (4, 8):
        m = b._solve(robust + b.box(bx))
        if m is not None:
            break
    if m is None:
        r = b.ctx.check()
        if r == z3.unsat:
            res["inconclusive"].append("vacuous: path constraints unsatisfiable")
        return
    cb = ConcB(scen, m, b.picks)
    try:
        scen.fn(cb)
    except (Failed, CodeRaised) as e:
        res["violations"].append({"label": "a model of a proved path fails on the code (the encoding differs)",
                                  "failed": str(e)[:500], "values": m, "picks": b.picks, "seed": 0,
                                  "scenario": scen.name})
        res["status"] = "violated"
        return
    except PathAbort as e:
        res["mismatch"].append(f"replaying a proved path failed: {e} {json.dumps(m)[:500]}")
        return
    if getattr(b.ctx, "free", False):
        return  # a library result was replaced by an arbitrary admissible one
    env = {n: cb.real(n) if v is None else float(np.float32(v)) for n, v in m.items()}
    ok = True
    for so, co in zip(b.outputs, cb.outputs):
        for s, c in zip(so, co):
            if I.is_key(s) or I.is_key(c):
                continue
            s = np.asarray(s)
            if s.shape != np.shape(c):
                ok = False
                continue
            for i in np.ndindex(*s.shape):
                x = s[i]
                try:
                    if isinstance(x, (bool, np.bool_)):
                        ok &= bool(c[i]) == bool(x)
                    elif I._isbool(x):
                        continue
                    elif isinstance(x, (int, np.integer)):
                        ok &= int(c[i]) == int(x)
                    else:
                        f = P.evalf(x, env)
                        g = float(c[i])
                        if math.isnan(f) or math.isnan(g):
                            ok &= math.isnan(f) == math.isnan(g)
                        elif math.isinf(f) or math.isinf(g):
                            ok &= f == g
                        else:
                            ok &= abs(f - g) <= 5e-3 * (1 + abs(f) + abs(g))
                except (Unsupported, KeyError):
                    continue
    if ok:
        res["validated"] += 1
        if len(res["samples"]) < 2:
            res["samples"].append({"scenario": scen.name, "inputs": {k: env[k] for k in list(env)[:12]},
                                   "outputs": str([np.asarray(c).tolist() if not I.is_key(c) else "key"
                                                   for c in cb.outputs[0]])[:300]})
    else:
        res["mismatch"].append(f"encoding and code differ on {json.dumps(m)[:400]}: "
                               f"{str(b.outputs)[:300]} vs {str(cb.outputs)[:300]}")


def replay_candidates(scen, label, models, picks, randomised, budget=90, nseeds=400):
    t0 = time.time()
    for m in models:
        m = {k: v for k, v in m.items() if not k.startswith(("bits:", "u:", "g:"))}
        for seed in range(nseeds if randomised else 1):
            if time.time() - t0 > budget:
                break
            cb = ConcB(scen, m, picks, seed)
            try:
                scen.fn(cb)
            except PathAbort:
                if not cb.randomised and seed == 0:
                    break
                continue
            except (Failed, CodeRaised) as e:
                return {"label": label, "failed": str(e)[:500], "values": m, "picks": picks, "seed": seed,
                        "scenario": scen.name}
            if not (randomised or cb.randomised):
                break
    return None
