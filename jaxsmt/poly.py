"""Exact symbolic numbers: Laurent polynomials over interned atoms.

A *number* is one of
  * ``fractions.Fraction``  - a finite concrete value,
  * ``Poly``                - a finite symbolic value,
  * Python ``float``        - only ``nan``, ``inf`` or ``-inf``.

Monomial key: ``(((atom_id, exponent), ...), exp_id)`` where ``exp_id`` names an
interned polynomial ``p`` standing for the factor ``exp(p)`` (0: no such factor).
"""

from __future__ import annotations

import math
from fractions import Fraction

import numpy as np

INF = float("inf")
NAN = float("nan")
F0, F1 = Fraction(0), Fraction(1)


class Unsupported(Exception):
    """The encoding does not cover this construct."""


# --------------------------------------------------------------------------- atoms
class Atom:
    __slots__ = ("id", "kind", "name", "arg", "sgn")

    def __init__(self, id_, kind, name, arg, sgn):
        self.id, self.kind, self.name, self.arg, self.sgn = id_, kind, name, arg, sgn

    def __repr__(self):
        return self.name if self.kind == "var" else f"{self.kind}[{self.arg}]"


ATOMS: list[Atom] = [None]  # id 0 unused
_ATOM_BY_KEY: dict = {}
EXPS: list = [None]  # interned exp arguments
_EXP_BY_POLY: dict = {}
_MULCACHE: dict = {}
CTX = None  # current path context (set by ctx.py)


def reset():
    global CTX
    del ATOMS[1:]
    del EXPS[1:]
    _ATOM_BY_KEY.clear()
    _EXP_BY_POLY.clear()
    _MULCACHE.clear()
    CTX = None


def set_ctx(c):
    global CTX
    CTX = c


def atom(kind, key, name=None, arg=None, sgn=None) -> Atom:
    k = (kind, key)
    a = _ATOM_BY_KEY.get(k)
    if a is None:
        a = Atom(len(ATOMS), kind, name or f"{kind}{len(ATOMS)}", arg, sgn)
        ATOMS.append(a)
        _ATOM_BY_KEY[k] = a
    return a


def var(name, sgn=None) -> "Poly":
    """A base real variable; sgn in {None, '>=0', '>0'} is a declared fact."""
    a = atom("var", name, name, None, sgn)
    return Poly({(((a.id, 1),), 0): F1})


def exp_id(p) -> int:
    if not isinstance(p, Poly):
        p = Poly({((), 0): p}) if p != 0 else None
    if p is None:
        return 0
    i = _EXP_BY_POLY.get(p)
    if i is None:
        i = len(EXPS)
        EXPS.append(p)
        _EXP_BY_POLY[p] = i
    return i


# --------------------------------------------------------------------------- poly
ONE = ((), 0)


class Poly:
    __slots__ = ("t", "_h")
    __array_priority__ = 10000

    def __init__(self, t):
        self.t = t
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):  # structural
        return isinstance(o, Poly) and self.t == o.t

    def __repr__(self):
        return poly_str(self)

    # arithmetic
    def __add__(self, o):
        return add(self, o)

    __radd__ = __add__

    def __neg__(self):
        return Poly({k: -c for k, c in self.t.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        return sub(self, o)

    def __rsub__(self, o):
        return sub(o, self)

    def __mul__(self, o):
        return mul(self, o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return div(self, o)

    def __rtruediv__(self, o):
        return div(o, self)

    def __pow__(self, n):
        return ipow(self, n)

    # comparisons give python bool or z3 BoolRef
    def __lt__(self, o):
        return lt(self, o)

    def __gt__(self, o):
        return lt(o, self)

    def __le__(self, o):
        return le(self, o)

    def __ge__(self, o):
        return le(o, self)


def poly_str(p, limit=12):
    if not isinstance(p, Poly):
        return str(p)
    out = []
    for i, ((m, e), c) in enumerate(p.t.items()):
        if i >= limit:
            out.append(f"...[{len(p.t)} terms]")
            break
        fs = [f"{ATOMS[a]!r}" + (f"^{x}" if x != 1 else "") for a, x in m]
        if e:
            fs.append(f"exp({poly_str(EXPS[e], 6)})")
        s = "*".join(fs)
        out.append(f"{c}" + (f"*{s}" if s else ""))
    return " + ".join(out)


def mk(t):
    """Normalise a term dict into a number."""
    if not t:
        return F0
    if len(t) == 1 and ONE in t:
        return t[ONE]
    return Poly(t)


def snap(x: float, single=True) -> Fraction:
    """Read a float literal as the simplest rational that rounds to it."""
    if x == int(x) and abs(x) < 2**53:
        return Fraction(int(x))
    f = Fraction(x)
    conv = np.float32 if single else np.float64
    x32 = conv(x)
    if single and float(x32) != x:
        conv, x32 = np.float64, np.float64(x)
    for d in (16, 100, 1000, 10**4, 10**5, 10**6, 10**7, 10**9, 10**12):
        if abs(f) < Fraction(1, d) * 10:
            continue
        g = f.limit_denominator(d)
        if conv(g.numerator / g.denominator) == x32:
            return g
    return f


def num(x):
    """Coerce to a number."""
    if isinstance(x, (Poly, Fraction)):
        return x
    if isinstance(x, (bool, np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    if isinstance(x, np.float32):
        f = float(x)
        return snap(f) if math.isfinite(f) else f
    if isinstance(x, (float, np.floating)):
        f = float(x)
        return snap(f) if math.isfinite(f) else f
    raise Unsupported(f"not a number: {type(x)}")


def isfin(x):
    return not isinstance(x, float)


def add(a, b):
    if not isinstance(a, (Poly, Fraction, float)) or (
        type(a) is float and math.isfinite(a)
    ):
        a = num(a)
    if not isinstance(b, (Poly, Fraction, float)) or (
        type(b) is float and math.isfinite(b)
    ):
        b = num(b)
    ta, tb = type(a), type(b)
    if ta is float or tb is float:
        fa = a if ta is float else 0.0
        fb = b if tb is float else 0.0
        return fa + fb
    if ta is Fraction:
        if tb is Fraction:
            return a + b
        a, b, ta, tb = b, a, tb, ta
    # a Poly
    t = dict(a.t)
    if tb is Fraction:
        if b == 0:
            return a
        c = t.get(ONE, F0) + b
        if c == 0:
            t.pop(ONE, None)
        else:
            t[ONE] = c
        return mk(t)
    if len(b.t) > len(t):
        t, o = dict(b.t), a.t
    else:
        o = b.t
    for k, c in o.items():
        n = t.get(k)
        if n is None:
            t[k] = c
        else:
            n = n + c
            if n == 0:
                del t[k]
            else:
                t[k] = n
    return mk(t)


def neg(a):
    return -a


def sub(a, b):
    b = num(b)
    return add(a, -b)


def _mono_mul(k1, k2):
    """Product of two monomials: (key, extra) with extra a number or None."""
    r = _MULCACHE.get((k1, k2))
    if r is not None:
        return r
    m1, e1 = k1
    m2, e2 = k2
    d = dict(m1)
    special = None
    for a, x in m2:
        n = d.get(a, 0) + x
        if n == 0:
            del d[a]
        else:
            d[a] = n
    extra = None
    for a, x in list(d.items()):
        kind = ATOMS[a].kind
        if kind == "var":
            continue
        if kind == "sqrt" and x not in (0, 1):
            k, rem = divmod(x, 2)
            del d[a]
            if rem:
                d[a] = 1
            f = ipow(ATOMS[a].arg, k)
            extra = f if extra is None else mul(extra, f)
        elif kind == "pa" and x > 0:
            del d[a]
            f = ipow(ATOMS[a].arg, x)
            extra = f if extra is None else mul(extra, f)
        elif kind == "sin" and x >= 2:
            k, rem = divmod(x, 2)
            del d[a]
            if rem:
                d[a] = 1
            c = cos(ATOMS[a].arg)
            f = ipow(sub(F1, mul(c, c)), k)
            extra = f if extra is None else mul(extra, f)
    if e1 == 0:
        e = e2
    elif e2 == 0:
        e = e1
    else:
        s = add(EXPS[e1], EXPS[e2])
        if isinstance(s, Poly) and any(len(m) == 1 and not q and ATOMS[m[0][0]].kind == "log" for m, q in s.t):
            e = 0
            f = exp(s)
            extra = f if extra is None else mul(extra, f)
        else:
            e = exp_id(s)
    r = ((tuple(sorted(d.items())), e), extra)
    _MULCACHE[(k1, k2)] = r
    return r


MAXTERMS = 60000


def mul(a, b):
    if not isinstance(a, (Poly, Fraction)):
        a = num(a)
    if not isinstance(b, (Poly, Fraction)):
        b = num(b)
    ta, tb = type(a), type(b)
    if ta is float or tb is float:
        if ta is float and tb is float:
            return a * b
        f, o = (a, b) if ta is float else (b, a)
        if f != f:
            return NAN
        s = sign(o)
        return f * s if s else NAN
    if ta is Fraction:
        if tb is Fraction:
            return a * b
        a, b, ta, tb = b, a, tb, ta
    if tb is Fraction:
        if b == 0:
            return F0
        if b == 1:
            return a
        return Poly({k: c * b for k, c in a.t.items()})
    if len(a.t) * len(b.t) > MAXTERMS * 10:
        raise Unsupported("polynomial blow-up")
    t: dict = {}
    rest = None
    for k1, c1 in a.t.items():
        for k2, c2 in b.t.items():
            key, extra = _mono_mul(k1, k2)
            c = c1 * c2
            if extra is None:
                n = t.get(key)
                if n is None:
                    t[key] = c
                else:
                    n = n + c
                    if n == 0:
                        del t[key]
                    else:
                        t[key] = n
            else:
                p = mul(mk({key: c}), extra)
                rest = p if rest is None else add(rest, p)
    if len(t) > MAXTERMS:
        raise Unsupported("polynomial blow-up")
    r = mk(t)
    return r if rest is None else add(r, rest)


def ipow(a, n):
    if isinstance(n, Fraction):
        if n.denominator != 1:
            return power(a, n)
        n = n.numerator
    n = int(n)
    if n < 0:
        return div(F1, ipow(a, -n))
    r = F1
    while n:
        if n & 1:
            r = mul(r, a)
        n >>= 1
        if n:
            a = mul(a, a)
    return r


# ------------------------------------------------------------------ quick sign facts
def _mono_sign(key):
    """'>0', '>=0' or None for a monomial."""
    m, e = key
    s = ">0"
    for a, x in m:
        at = ATOMS[a]
        if at.kind == "pa":
            q = quick_sign(at.arg)
            if q == ">0" or q == ">=0":  # nonzero on this path since inverted
                continue
            if x % 2 == 0:
                continue
            return None
        if at.sgn == ">0":
            continue
        if at.sgn == ">=0":
            if x > 0:
                s = ">=0"
            continue
        if x % 2 == 0:
            if x > 0:
                s = ">=0"
            continue
        return None
    return s


def quick_sign(p):
    """Cheap syntactic sign: '>0','>=0','<0','<=0','=0' or None."""
    if isinstance(p, Fraction):
        return ">0" if p > 0 else "<0" if p < 0 else "=0"
    strict_p = strict_n = False
    anyp = anyn = False
    for k, c in p.t.items():
        s = _mono_sign(k)
        if s is None:
            return None
        if c > 0:
            anyp = True
            strict_p |= s == ">0"
        else:
            anyn = True
            strict_n |= s == ">0"
        if anyp and anyn:
            return None
    if anyp:
        return ">0" if strict_p else ">=0"
    return "<0" if strict_n else "<=0"


# ------------------------------------------------------------------ normal fractions
def clear_with(p, keep_sign=True):
    """(N, D): p = N / prod(atom^k for D), N without negative exponents."""
    D: dict = {}
    n = 0
    while isinstance(p, Poly):
        n += 1
        if n > 12:
            raise Unsupported("clear did not terminate")
        low: dict = {}
        for (m, _e), _c in p.t.items():
            for a, x in m:
                if x < 0 and x < low.get(a, 0):
                    low[a] = x
        if not low:
            break
        f = {}
        for a, x in low.items():
            k = -x
            at = ATOMS[a]
            if keep_sign and k % 2:
                if at.kind == "pa":
                    if quick_sign(at.arg) not in (">0", ">=0"):
                        k += 1
                elif at.sgn not in (">0", ">=0"):
                    k += 1
            f[a] = k
            D[a] = D.get(a, 0) + k
        # multiply monomial-wise so that pa atoms expand
        p = mul(p, Poly({(tuple(sorted(f.items())), 0): F1}))
    return p, D


def clear(p, keep_sign=True):
    """Multiply by a (positive, if keep_sign) denominator; returns a polynomial."""
    return clear_with(p, keep_sign)[0]


def is_zero(p):
    """Is the number identically zero (normal form)?"""
    if isinstance(p, Fraction):
        return p == 0
    if isinstance(p, float):
        return False
    r = clear(p, keep_sign=False)
    return isinstance(r, Fraction) and r == 0


def _lead(p):
    return max(p.t)


def _vars_of(p):
    return {a for (m, _e) in p.t for a, _x in m}


def exact_div(n, q):
    """n / q when q divides n as polynomials (no negative exponents), else None."""
    if not isinstance(q, Poly):
        return div(n, q)
    quo = F0
    steps = 0

    def order(key):
        m, e = key
        return (tuple(sorted(((a, x) for a, x in m), reverse=True)), e)

    # a monomial order: lex on dense exponent vectors
    ids = sorted(_vars_of(q) | (_vars_of(n) if isinstance(n, Poly) else set()))
    pos = {a: i for i, a in enumerate(ids)}

    def vec(key):
        v = [0] * len(ids)
        for a, x in key[0]:
            v[pos[a]] = x
        return v

    if any(e for (_m, e) in q.t) or (
        isinstance(n, Poly) and any(e for (_m, e) in n.t)
    ):
        return None
    lq = max(q.t, key=vec)
    vq, cq = vec(lq), q.t[lq]
    r = n
    while not (isinstance(r, Fraction) and r == 0):
        steps += 1
        if steps > 200:
            return None
        if isinstance(r, Fraction):
            return None
        lr = max(r.t, key=vec)
        vr = vec(lr)
        d = [x - y for x, y in zip(vr, vq)]
        if any(x < 0 for x in d):
            return None
        key = (tuple((ids[i], x) for i, x in enumerate(d) if x), 0)
        term = mk({key: r.t[lr] / cq})
        quo = add(quo, term)
        r = sub(r, mul(term, q))
    return quo


def _content(p):
    """p = c * mono * q with q normalised (no common monomial, lead coeff 1)."""
    keys = list(p.t)
    common = dict(keys[0][0])
    for m, _e in keys[1:]:
        d = dict(m)
        for a in list(common):
            x = min(common[a], d.get(a, 0))
            if a in d or common[a] < 0:
                common[a] = x
            else:
                common[a] = min(common[a], 0)
        for a, x in d.items():
            if a not in common and x < 0:
                common[a] = x
    common = {a: x for a, x in common.items() if x}
    # atoms whose inverse must not be re-multiplied: leave sqrt and sin out
    common = {
        a: x for a, x in common.items() if ATOMS[a].kind not in ("sqrt", "sin")
    }
    eids = {e for _m, e in keys}
    e = 0
    if 0 not in eids:
        e = min(eids)
    return common, e


def reciprocal(p):
    """1/p for a p known to be nonzero on this path."""
    if isinstance(p, Fraction):
        return 1 / p
    if len(p.t) == 1:
        ((m, e), c) = next(iter(p.t.items()))
        d = {}
        extra = F1
        for a, x in m:
            at = ATOMS[a]
            if at.kind == "sqrt":  # 1/s = s/q
                assert x == 1
                d[a] = 1
                extra = mul(extra, reciprocal(at.arg))
            elif at.kind == "pa":
                extra = mul(extra, ipow(at.arg, -x))
            else:
                d[a] = -x
        ee = exp_id(-EXPS[e]) if e else 0
        r = mk({(tuple(sorted(d.items())), ee): 1 / c})
        return mul(r, extra)
    # p = N/D  ->  1/p = D/N, cancelling inverse-polynomial factors of D in N
    q, D = clear_with(p, keep_sign=False)
    for a in list(D):
        if ATOMS[a].kind == "pa":
            while D[a] > 0 and isinstance(q, Poly):
                dq = exact_div(q, ATOMS[a].arg)
                if dq is None:
                    break
                q = dq
                D[a] -= 1
    top = F1
    for a, k in D.items():
        if k:
            at = ATOMS[a]
            f = at.arg if at.kind == "pa" else mk({(((a, 1),), 0): F1})
            top = mul(top, ipow(f, k))
    if isinstance(q, Fraction):
        return mul(top, 1 / q)
    if len(q.t) == 1:
        return mul(top, reciprocal(q))
    common, e = _content(q)
    if common or e:
        inv = mk(
            {
                (
                    tuple(sorted((a, -x) for a, x in common.items())),
                    exp_id(-EXPS[e]) if e else 0,
                ): F1
            }
        )
        q = mul(q, inv)
        top = mul(top, inv)
    return mul(top, _inv_atom(q))


def _inv_atom(q):
    if len(q.t) == 1:
        return reciprocal(q)
    lead = q.t[min(q.t)]
    f = 1 / lead
    q = mul(q, f)
    a = atom("pa", q, None, q)
    return Poly({(((a.id, -1),), 0): f})


def div(a, b):
    a, b = num(a), num(b)
    if isinstance(b, float):
        if b != b or isinstance(a, float):
            return NAN if (b != b or a != a or isinstance(a, float)) else F0
        return F0
    if isinstance(a, float):
        if a != a:
            return NAN
        s = sign(b)
        return a * s if s else a  # x/+0
    if isinstance(b, Fraction):
        if b == 0:
            s = sign(a)
            return NAN if s == 0 else s * INF
        return mul(a, 1 / b)
    if not CTX.nonzero(b):
        s = sign(a)
        return NAN if s == 0 else s * INF
    if isinstance(a, Fraction) and a == 0:
        return F0
    # proportional?
    if isinstance(a, Poly) and len(a.t) == len(b.t):
        k = next(iter(b.t))
        if k in a.t:
            r = a.t[k] / b.t[k]
            if all(kk in a.t and a.t[kk] == r * c for kk, c in b.t.items()):
                return r
    return mul(a, reciprocal(b))


def sign(x):
    """Sign as a concrete -1, 0, 1 (forks the path if undetermined)."""
    x = num(x)
    if isinstance(x, float):
        return 1 if x > 0 else -1
    q = quick_sign(x)
    if q == "=0":
        return 0
    if q == ">0":
        return 1
    if q == "<0":
        return -1
    if is_zero(x):
        return 0
    return CTX.sign(x)


# ------------------------------------------------------------------ comparisons
def _cmp(a, b, strict):
    """a < b (strict) or a <= b."""
    a, b = num(a), num(b)
    if isinstance(a, float) or isinstance(b, float):
        fa = a if isinstance(a, float) else 0.0
        fb = b if isinstance(b, float) else 0.0
        return fa < fb if strict else fa <= fb
    d = sub(b, a)
    if isinstance(d, Fraction):
        return d > 0 if strict else d >= 0
    q = quick_sign(d)
    if q == ">0":
        return True
    if q == "<0":
        return False
    if q == ">=0" and not strict:
        return True
    if q == "<=0" and strict:
        return False
    if is_zero(d):
        return not strict
    return CTX.z3_pos(d, strict)


def lt(a, b):
    return _cmp(a, b, True)


def le(a, b):
    return _cmp(a, b, False)


def eq(a, b):
    a, b = num(a), num(b)
    if isinstance(a, float) or isinstance(b, float):
        return isinstance(a, float) and isinstance(b, float) and a == b
    d = sub(a, b)
    if isinstance(d, Fraction):
        return d == 0
    q = quick_sign(d)
    if q in (">0", "<0"):
        return False
    if is_zero(d):
        return True
    return CTX.z3_eq(d)


# ------------------------------------------------------------------ functions
def _isqrt_frac(f: Fraction):
    """(a, b): sqrt(f) = a*sqrt(b) with b squarefree-ish integer."""
    n = f.numerator * f.denominator
    a = Fraction(1, f.denominator)
    r = math.isqrt(n)
    if r * r == n:
        return a * r, 1
    s, b, d = 1, n, 2
    while d * d <= b and d < 2000:
        while b % (d * d) == 0:
            b //= d * d
            s *= d
        d += 1
    return a * s, b


def _sgn_le(x):
    """'>0'/'>=0' knowledge of x."""
    return quick_sign(x)


def sqrt(x):
    x = num(x)
    if isinstance(x, float):
        return x if x == INF or x != x else NAN
    if isinstance(x, Fraction):
        if x < 0:
            return NAN
        if x == 0:
            return F0
        a, b = _isqrt_frac(x)
        if b == 1:
            return a
        at = atom("sqrt", Fraction(b), None, Fraction(b), ">0")
        return Poly({(((at.id, 1),), 0): a})
    q = quick_sign(x)
    if q not in (">0", ">=0"):
        if is_zero(x):
            return F0
        s = CTX.sign(x)
        if s < 0:
            return NAN
        if s == 0:
            return F0
        q = ">0"
    # pull out perfect-square monomial content
    common, e = _content(x)
    d_out, rest = {}, x
    out = F1
    for a, xx in common.items():
        k = xx // 2 if xx % 2 == 0 else (xx - 1) // 2
        at = ATOMS[a]
        if k == 0:
            continue
        if at.kind == "pa":
            base_s = quick_sign(at.arg)
        else:
            base_s = at.sgn
        if base_s in (">0", ">=0"):
            d_out[a] = k
        elif k % 2 == 0:
            d_out[a] = k
        else:
            # |atom|^k : needs sign
            if at.kind == "pa":
                s = sign(at.arg)
            else:
                s = sign(mk({(((a, 1),), 0): F1}))
            d_out[a] = k
            out = mul(out, s)
    if d_out:
        m2 = mk({(tuple(sorted((a, -2 * k) for a, k in d_out.items())), 0): F1})
        rest = mul(x, m2)
        out = mul(out, mk({(tuple(sorted(d_out.items())), 0): F1}))
    if e:
        half = mul(EXPS[e], Fraction(1, 2))
        rest = mul(rest, mk({((), exp_id(-EXPS[e])): F1}))
        out = mul(out, exp(half))
    if isinstance(rest, Fraction):
        return mul(out, sqrt(rest))
    r = _poly_sqrt(rest)
    if r is not None:
        return mul(out, mul(r, sign(r)))
    # numeric content
    lead = rest.t[min(rest.t)]
    lc = abs(lead)
    rest = mul(rest, 1 / lc)
    if not isinstance(rest, Poly):
        return mul(mul(out, sqrt(lc)), sqrt(rest))
    # perfect square of a linear form?
    r = _poly_sqrt(rest)
    if r is not None:
        s = sign(r)
        return mul(mul(out, sqrt(lc)), mul(r, s))
    at = atom("sqrt", rest, None, rest, ">0" if q == ">0" else ">=0")
    return mul(mul(out, sqrt(lc)), Poly({(((at.id, 1),), 0): F1}))


def _poly_sqrt(p):
    """Exact polynomial square root of p if it exists (small cases only)."""
    if not isinstance(p, Poly) or len(p.t) > 40 or any(e for _m, e in p.t):
        return None
    if any(x < 0 for (m, _e) in p.t for _a, x in m):
        return None
    ids = sorted(_vars_of(p))
    pos = {a: i for i, a in enumerate(ids)}
    if any(ATOMS[a].kind in ("sqrt", "sin") for a in ids):
        return None

    def vec(key):
        v = [0] * len(ids)
        for a, x in key[0]:
            v[pos[a]] = x
        return v

    root = F0
    rem = p
    lead_root = None
    for _ in range(20):
        if isinstance(rem, Fraction):
            if rem == 0:
                return root
            return None if lead_root is None or True else None
        lk = max(rem.t, key=vec)
        c = rem.t[lk]
        v = vec(lk)
        if lead_root is None:
            if any(x % 2 for x in v) or c <= 0:
                return None
            a, b = _isqrt_frac(c)
            if b != 1:
                return None
            lead_root = ([x // 2 for x in v], a)
            term = mk({(tuple((ids[i], x // 2) for i, x in enumerate(v) if x), 0): a})
        else:
            lv, la = lead_root
            d = [x - y for x, y in zip(v, lv)]
            if any(x < 0 for x in d):
                return None
            term = mk({(tuple((ids[i], x) for i, x in enumerate(d) if x), 0): c / (2 * la)})
        root = add(root, term)
        rem = sub(p, mul(root, root))
    return None


def exp(x):
    x = num(x)
    if isinstance(x, float):
        return x if x != x or x == INF else F0
    if isinstance(x, Fraction):
        if x == 0:
            return F1
        return Poly({((), exp_id(x)): F1})
    # pull out integer multiples of logs: exp(k*log q) = q^k
    out = F1
    t = dict(x.t)
    for key, c in list(t.items()):
        m, e = key
        if len(m) == 1 and not e and m[0][1] == 1 and ATOMS[m[0][0]].kind == "log":
            arg = ATOMS[m[0][0]].arg
            if c.denominator == 1:
                del t[key]
                out = mul(out, ipow(arg, c.numerator))
            elif c.denominator != 2 and math.floor(c) != 0:
                k = math.floor(c)
                t[key] = c - k
                out = mul(out, ipow(arg, k))
            elif c.denominator == 2:
                del t[key]
                k = math.floor(c)
                out = mul(out, mul(ipow(arg, k), sqrt(arg)))
    rest = mk(t)
    if isinstance(rest, Fraction) and rest == 0:
        return out
    return mul(out, Poly({((), exp_id(rest)): F1}))


def log(x):
    x = num(x)
    if isinstance(x, float):
        return x if x == INF or x != x else NAN
    s = sign(x)
    if s == 0:
        return -INF
    if s < 0:
        return NAN
    if isinstance(x, Fraction):
        if x == 1:
            return F0
        if x < 1:
            return -log(1 / x)
        at = atom("log", x, None, x, ">0")
        return Poly({(((at.id, 1),), 0): F1})
    out = F0
    # split a single monomial / common factor off
    N = x
    common, e = _content(N)
    pos = {}
    for a, k in common.items():
        at = ATOMS[a]
        if at.kind == "pa":
            if quick_sign(at.arg) in (">0", ">=0"):
                pos[a] = k
                out = add(out, mul(log(at.arg), k))
        elif at.sgn in (">0", ">=0"):
            pos[a] = k
            la = atom("log", mk({(((a, 1),), 0): F1}), None, mk({(((a, 1),), 0): F1}))
            out = add(out, Poly({(((la.id, 1),), 0): Fraction(k)}))
    eids = [ee for _m, ee in N.t]
    e = min(eids) if 0 not in eids else 0
    if pos or e:
        inv = mk(
            {
                (
                    tuple(sorted((a, -k) for a, k in pos.items())),
                    exp_id(-EXPS[e]) if e else 0,
                ): F1
            }
        )
        N = mul(N, inv)
        if e:
            out = add(out, EXPS[e])
    if isinstance(N, Poly):
        lead = abs(N.t[min(N.t)])
        if lead != 1:
            N = mul(N, 1 / lead)
            out = add(out, log(lead))
    if isinstance(N, Fraction):
        return add(out, log(N)) if N != 1 else out
    at = atom("log", N, None, N)
    return add(out, Poly({(((at.id, 1),), 0): F1}))


def power(x, y):
    x, y = num(x), num(y)
    if isinstance(y, Fraction) and y.denominator == 1 and abs(y) < 64:
        return ipow(x, y.numerator)
    if isinstance(y, Fraction) and y.denominator == 2 and abs(y) < 32:
        k = math.floor(y)
        return mul(ipow(x, k), sqrt(x))
    if isinstance(x, float) or isinstance(y, float):
        raise Unsupported("pow with non-finite operand")
    s = sign(x)
    if s == 0:
        sy = sign(y)
        return F0 if sy > 0 else F1 if sy == 0 else INF
    if s < 0:
        return NAN
    return exp(mul(y, log(x)))


def _canon_sign(p):
    """(p or -p, +-1) with positive leading coefficient."""
    if isinstance(p, Fraction):
        return (abs(p), -1 if p < 0 else 1)
    if p.t[min(p.t)] < 0:
        return (-p, -1)
    return (p, 1)


def sin(x):
    x = num(x)
    if isinstance(x, float):
        return NAN
    if isinstance(x, Fraction) and x == 0:
        return F0
    p, s = _canon_sign(x)
    at = atom("sin", p, None, p)
    return Poly({(((at.id, 1),), 0): Fraction(s)})


def cos(x):
    x = num(x)
    if isinstance(x, float):
        return NAN
    if isinstance(x, Fraction) and x == 0:
        return F1
    p, _s = _canon_sign(x)
    at = atom("cos", p, None, p)
    return Poly({(((at.id, 1),), 0): F1})


def tanh(x):
    x = num(x)
    if isinstance(x, float):
        return NAN if x != x else Fraction(1 if x > 0 else -1)
    if isinstance(x, Fraction) and x == 0:
        return F0
    # (e^2x - 1)/(e^2x + 1)
    e = exp(mul(x, 2))
    return div(sub(e, 1), add(e, 1))


def ufun(name, *args, sgn=None):
    """Uninterpreted function application."""
    key = (name, tuple(args))
    at = atom("fn:" + name, key, None, tuple(args), sgn)
    return Poly({(((at.id, 1),), 0): F1})


def absv(x):
    x = num(x)
    if isinstance(x, float):
        return abs(x)
    s = sign(x)
    return x if s > 0 else -x if s < 0 else F0


def maximum(a, b):
    a, b = num(a), num(b)
    if isinstance(a, float) and a != a or isinstance(b, float) and b != b:
        return NAN
    c = le(a, b)
    if isinstance(c, bool):
        return b if c else a
    return b if CTX.decide(c) else a


def minimum(a, b):
    a, b = num(a), num(b)
    if isinstance(a, float) and a != a or isinstance(b, float) and b != b:
        return NAN
    c = le(a, b)
    if isinstance(c, bool):
        return a if c else b
    return a if CTX.decide(c) else b


def max_atom(vals):
    """An opaque atom for the maximum of finite numbers (no fork)."""
    vals = [num(v) for v in vals]
    uniq = []
    for v in vals:
        if not any(v == u for u in uniq):
            uniq.append(v)
    if len(uniq) == 1:
        return uniq[0]
    if all(isinstance(v, Fraction) for v in uniq):
        return max(uniq)
    key = frozenset(uniq)
    at = atom("max", key, None, tuple(uniq))
    return Poly({(((at.id, 1),), 0): F1})


# ------------------------------------------------------------------ evaluation
def evalf(p, env):
    """Float value under env: {var name: float}."""
    p = num(p)
    if isinstance(p, float):
        return p
    if isinstance(p, Fraction):
        return float(p)
    cache: dict = {}

    def ev_atom(i):
        if i in cache:
            return cache[i]
        at = ATOMS[i]
        k = at.kind
        if k == "var":
            v = float(env[at.name])
        elif k == "pa":
            v = ev(at.arg)
        elif k == "sqrt":
            v = math.sqrt(max(ev(at.arg), 0.0))
        elif k == "log":
            v = math.log(ev(at.arg))
        elif k == "sin":
            v = math.sin(ev(at.arg))
        elif k == "cos":
            v = math.cos(ev(at.arg))
        elif k == "max":
            v = max(ev(a) for a in at.arg)
        elif k.startswith("fn:"):
            raise Unsupported("evaluating uninterpreted " + k)
        else:
            raise Unsupported(k)
        cache[i] = v
        return v

    def ev(q):
        if isinstance(q, Fraction):
            return float(q)
        s = 0.0
        for (m, e), c in q.t.items():
            v = float(c)
            for a, x in m:
                v *= ev_atom(a) ** x
            if e:
                v *= math.exp(ev(EXPS[e]))
            s += v
        return s

    return ev(p)
