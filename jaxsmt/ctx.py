"""Path contexts: z3 translation, forking decisions, proof queries."""

from __future__ import annotations

import time
from fractions import Fraction

import z3

from . import poly as P
from .poly import ATOMS, EXPS, F0, F1, Poly


class PathAbort(BaseException):
    """The current path is infeasible or cut."""


class Budget(BaseException):
    """The exploration budget ran out (inconclusive)."""


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.unsat = 0
        self.sat = 0
        self.paths = 0
        self.infeasible = 0
        self.decisions = 0
        self.proved = 0
        self.assumes = []
        self.stubs = {}

    def as_dict(self):
        return {k: v for k, v in self.__dict__.items()}


_Z: dict = {}  # z3 vars and expressions, reset per scenario
_ZE: dict = {}
_ATOMSETS: dict = {}


def reset():
    P.reset()
    _Z.clear()
    _ZE.clear()
    _ATOMSETS.clear()


def zq(f: Fraction):
    return z3.RealVal(f"{f.numerator}/{f.denominator}") if f.denominator != 1 else z3.RealVal(f.numerator)


def zatom(i):
    v = _Z.get(i)
    if v is None:
        at = ATOMS[i]
        v = z3.Real(at.name if at.kind == "var" else f"{at.kind}!{i}")
        _Z[i] = v
    return v


def zexp(e):
    k = ("e", e)
    v = _Z.get(k)
    if v is None:
        v = z3.Real(f"exp!{e}")
        _Z[k] = v
    return v


def zpoly(p):
    """z3 term of a polynomial without negative exponents."""
    if isinstance(p, Fraction):
        return zq(p)
    r = _ZE.get(p)
    if r is not None:
        return r
    terms = []
    for (m, e), c in p.t.items():
        fs = []
        if c != 1 or (not m and not e):
            fs.append(zq(c))
        for a, x in m:
            if x < 0:
                raise P.Unsupported("negative exponent reached z3")
            v = zatom(a)
            fs.extend([v] * x)
        if e:
            fs.append(zexp(e))
        t = fs[0]
        for f in fs[1:]:
            t = t * f
        terms.append(t)
    r = z3.Sum(*terms) if len(terms) > 1 else terms[0]
    _ZE[p] = r
    return r


def zterm(p):
    """z3 term of any polynomial; inverse powers are opaque reals."""
    if isinstance(p, Fraction):
        return zq(p)
    terms = []
    for (m, e), c in p.t.items():
        t = zq(c)
        for a, x in m:
            v = zatom(a) if ATOMS[a].kind != "pa" and x > 0 else z3.Real(f"inv!{a}")
            for _ in range(abs(x)):
                t = t * v
        if e:
            t = t * zexp(e)
        terms.append(t)
    return z3.Sum(*terms) if len(terms) > 1 else terms[0]


def atoms_of(p):
    """Atoms (and exp ids) a polynomial's z3 term mentions, with dependencies."""
    if not isinstance(p, Poly):
        return frozenset()
    r = _ATOMSETS.get(p)
    if r is None:
        s = set()
        for (m, e), _c in p.t.items():
            for a, _x in m:
                s.add(a)
            if e:
                s.add(("e", e))
        r = frozenset(s)
        _ATOMSETS[p] = r
    return r


def degree(p):
    if not isinstance(p, Poly):
        return 0
    return max(sum(abs(x) for _a, x in m) + (1 if e else 0) for (m, e) in p.t)


def slack(e, d, pos=True):
    """Strengthen the inequalities of a formula by d (for robust models)."""
    k = e.decl().kind()
    ch = e.children()
    if k == z3.Z3_OP_NOT:
        return z3.Not(slack(ch[0], d, not pos))
    if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
        f = z3.And if k == z3.Z3_OP_AND else z3.Or
        return f([slack(c, d, pos) for c in ch])
    if k == z3.Z3_OP_IMPLIES:
        return z3.Implies(slack(ch[0], d, not pos), slack(ch[1], d, pos))
    if k in (z3.Z3_OP_GT, z3.Z3_OP_GE):
        return (ch[0] >= ch[1] + d) if pos else (ch[0] > ch[1] - d)
    if k in (z3.Z3_OP_LT, z3.Z3_OP_LE):
        return (ch[0] <= ch[1] - d) if pos else (ch[0] < ch[1] + d)
    return e


class Ctx:
    """One execution path."""

    def __init__(self, prefix, stats: Stats, work, opts):
        self.prefix = prefix
        self.taken = []
        self.stats = stats
        self.work = work
        self.opts = opts
        self.constraints = []  # z3 exprs on this path
        self.nonlinear = False
        self.solver = z3.Solver()
        self.solver.set("timeout", opts.get("timeout_ms", 4000))
        self.axiomed = set()
        self.known = {}
        self.fresh_n = {}
        self.memo = {}
        self.notes = []
        self.draws = []
        self.all_draws = []
        self.prob = F1
        self.deadline = opts.get("deadline")
        self.keep = []

    # ------------------------------------------------------------ z3 side
    def _axioms(self, p):
        for a in atoms_of(p):
            if a in self.axiomed:
                continue
            self.axiomed.add(a)
            if isinstance(a, tuple):
                e = a[1]
                arg = EXPS[e]
                v = zexp(e)
                self._add(v > 0)
                c = P.clear(arg)
                self._axioms(c)
                if isinstance(arg, Poly) and len(arg.t) == 1 and P.ONE in arg.t:
                    import math

                    f = math.exp(float(arg.t[P.ONE]))
                    lo = Fraction(f) * (1 - Fraction(1, 10**9))
                    hi = Fraction(f) * (1 + Fraction(1, 10**9))
                    self._add(z3.And(v > zq(lo), v < zq(hi)))
                else:
                    z = zpoly(c)
                    self._add(z3.Implies(z <= 0, v <= 1))
                    self._add(z3.Implies(z >= 0, v >= 1))
                continue
            at = ATOMS[a]
            k = at.kind
            v = zatom(a)
            if k == "var":
                if at.sgn == ">0":
                    self._add(v > 0)
                elif at.sgn == ">=0":
                    self._add(v >= 0)
            elif k == "sqrt":
                N, D = P.clear_with(at.arg, keep_sign=True)
                top = F1
                for b, n in D.items():
                    f = ATOMS[b].arg if ATOMS[b].kind == "pa" else P.mk({(((b, 1),), 0): F1})
                    top = P.mul(top, P.ipow(f, n))
                self._axioms(N)
                self._axioms(top)
                self._add(v >= 0)
                self._add(v * v * zpoly(top) == zpoly(N))
                self.nonlinear = True
            elif k in ("sin", "cos"):
                self._add(z3.And(v <= 1, v >= -1))
                if k == "sin":
                    c = P.cos(at.arg)
                    self._axioms(c)
                    self._add(v * v + zpoly(c) * zpoly(c) == 1)
                    self.nonlinear = True
            elif k == "log":
                N = P.clear(P.sub(at.arg, 1))
                self._axioms(N)
                z = zpoly(N)
                self._add(z3.And(z3.Implies(z > 0, v > 0), z3.Implies(z < 0, v < 0), z3.Implies(z == 0, v == 0)))
            elif k == "max":
                self.axiomed.add(a)
                zs = []
                for x in at.arg:
                    d = P.sub(P.mk({(((a, 1),), 0): F1}), x)
                    c = P.clear(d)
                    self._axioms(c)
                    zs.append(zpoly(c))
                self._add(z3.And([z >= 0 for z in zs]))
                self._add(z3.Or([z == 0 for z in zs]))
            elif k == "pa":
                raise P.Unsupported("inverse atom reached z3")
        if degree(p) > 1:
            self.nonlinear = True

    def _add(self, c):
        self.constraints.append(c)
        self.solver.add(c)

    def z3_pos(self, d, strict):
        n = P.clear(d, keep_sign=True)
        if isinstance(n, Fraction):
            return n > 0 if strict else n >= 0
        self._axioms(n)
        z = zpoly(n)
        return (z > 0) if strict else (z >= 0)

    def z3_eq(self, d):
        n = P.clear(d, keep_sign=False)
        if isinstance(n, Fraction):
            return n == 0
        self._axioms(n)
        return zpoly(n) == 0

    # ------------------------------------------------------------ queries
    def check(self, *extra, timeout_ms=None):
        """sat / unsat / unknown of the path plus extra."""
        if self.deadline and time.time() > self.deadline:
            raise Budget("time budget exhausted")
        ex = []
        for e in extra:
            if e is True or e is None:
                continue
            if e is False:
                return z3.unsat
            ex.append(e)
        t0 = time.time()
        self.stats.queries += 1
        r = z3.unknown
        self.model = None
        if not self.nonlinear:
            self.solver.push()
            self.solver.add(*ex)
            r = self.solver.check()
            if r == z3.sat:
                self.model = self.solver.model()
            self.solver.pop()
        if r == z3.unknown:
            to = timeout_ms or self.opts.get("timeout_ms", 4000)
            for kind in ("nlsat", "smt"):
                if kind == "nlsat":
                    s = z3.SolverFor("QF_NRA")
                else:
                    s = z3.Solver()
                s.set("timeout", to)
                s.add(*self.constraints)
                s.add(*ex)
                r = s.check()
                if r == z3.sat:
                    self.model = s.model()
                if r != z3.unknown:
                    break
        self.stats.solver_s += time.time() - t0
        if r == z3.unknown:
            self.stats.unknown += 1
        elif r == z3.sat:
            self.stats.sat += 1
        else:
            self.stats.unsat += 1
        return r

    # ------------------------------------------------------------ decisions
    def choose(self, conds, label="", exhaustive=False):
        """Fork: pick an index i with conds[i] feasible and assume it.

        exhaustive: the conditions cover every case of a feasible path.
        """
        self.stats.decisions += 1
        n = len(self.taken)
        if n < len(self.prefix):
            i = self.prefix[n]
            self.taken.append(i)
            self._assume(conds[i])
            return i
        feas = []
        for i, c in enumerate(conds):
            if c is True:
                feas.append(i)
                continue
            if c is False:
                continue
            if exhaustive and not feas and all(d is False for d in conds[i + 1 :]):
                feas.append(i)
                continue
            r = self.check(c)
            if r != z3.unsat:
                feas.append(i)
        if not feas:
            self.stats.infeasible += 1
            raise PathAbort("no feasible choice " + label)
        base = list(self.taken)
        for j in reversed(feas[1:]):
            self.work.append(base + [j])
        i = feas[0]
        self.taken.append(i)
        self._assume(conds[i])
        return i

    def _assume(self, c):
        if c is True:
            return
        if c is False:
            raise PathAbort("assumed false")
        self._add(c)

    def decide(self, c) -> bool:
        if isinstance(c, bool):
            return c
        if not z3.is_expr(c):
            return bool(c)
        k = c.get_id()
        if k in self.known:
            return self.known[k]
        # a forced decision needs no fork
        i = self.choose([c, z3.Not(c)], exhaustive=True)
        r = i == 0
        self.keep.append(c)
        self.known[k] = r
        return r

    def pick(self, n, label=""):
        """Fork over a free choice in range(n)."""
        return self.choose([True] * n, label)

    def draw(self, n, label=""):
        """A uniform random choice in range(n)."""
        self.prob /= n
        return self.choose([True] * n, label)

    def sign(self, x):
        pos = self.z3_pos(x, True)
        neg = self.z3_pos(-x, True)
        if pos is True:
            return 1
        if neg is True:
            return -1
        kp = pos.get_id() if z3.is_expr(pos) else None
        for k, v in ((("s", kp), 1),):
            if k in self.known:
                return self.known[k]
        zero = self.z3_eq(x)
        i = self.choose([pos, neg, zero], exhaustive=True)
        r = (1, -1, 0)[i]
        self.keep.append(pos)
        self.known[("s", kp)] = r
        return r

    def nonzero(self, x):
        if isinstance(x, Fraction):
            return x != 0
        q = P.quick_sign(x)
        if q in (">0", "<0"):
            return True
        z = self.z3_eq(x)
        if isinstance(z, bool):
            return not z
        k = ("nz", z.get_id())
        if k in self.known:
            return self.known[k]
        i = self.choose([z3.Not(z), z], exhaustive=True)
        self.keep.append(z)
        self.known[k] = i == 0
        return i == 0

    def assume(self, c, text=None):
        """A stated assumption of the scenario."""
        if text and text not in self.stats.assumes:
            self.stats.assumes.append(text)
        if isinstance(c, bool):
            if not c:
                raise PathAbort("assumption false")
            return
        self._add(c)

    def stats_stub(self, text):
        self.stats.stubs[text] = self.stats.stubs.get(text, 0) + 1

    def fresh(self, base):
        n = self.fresh_n.get(base, 0)
        self.fresh_n[base] = n + 1
        return f"{base}#{n}"

    # ------------------------------------------------------------ models
    def assignment(self, model):
        out = {}
        for i, at in enumerate(ATOMS):
            if at is None or at.kind != "var":
                continue
            v = _Z.get(i)
            if v is None:
                out[at.name] = None
                continue
            m = model.eval(v, model_completion=True)
            out[at.name] = z3_float(m)
        return out


def z3_float(m):
    if z3.is_rational_value(m):
        return m.numerator_as_long() / m.denominator_as_long()
    if z3.is_algebraic_value(m):
        a = m.approx(20)
        return a.numerator_as_long() / a.denominator_as_long()
    return 0.0


def zor(xs):
    xs = list(xs)
    if any(x is True for x in xs):
        return True
    xs = [x for x in xs if x is not False]
    if not xs:
        return False
    return xs[0] if len(xs) == 1 else z3.Or(xs)


def zand(xs):
    xs = list(xs)
    if any(x is False for x in xs):
        return False
    xs = [x for x in xs if x is not True]
    if not xs:
        return True
    return xs[0] if len(xs) == 1 else z3.And(xs)


def znot(x):
    if isinstance(x, bool):
        return not x
    return z3.Not(x)
