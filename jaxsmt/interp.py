"""Symbolic execution of jaxprs on exact values.

Arrays are numpy arrays.  ``dtype=object`` marks a symbolic array: its elements
are numbers (see poly.py) for float data, or Python/z3 Booleans for bool data.
Every other array is concrete.  Integers are always concrete: whatever would make
one symbolic forks the path.
"""

from __future__ import annotations

import itertools
import math
from fractions import Fraction

import jax
import jax.numpy as jnp
import numpy as np
import z3
from jax._src import core as jcore

from . import poly as P
from .ctx import zand, znot, zor
from .poly import F0, F1, INF, NAN, Poly, Unsupported

RULES = {}
USED_PRIMS: dict = {}


def rule(*names):
    def deco(f):
        for n in names:
            RULES[n] = f
        return f

    return deco


def is_sym(v):
    return isinstance(v, np.ndarray) and v.dtype == object


def is_key(v):
    return isinstance(v, jax.Array) and jnp.issubdtype(v.dtype, jax.dtypes.prng_key)


def conc(v):
    """Concrete value as numpy (keys stay jax arrays)."""
    if is_sym(v) or is_key(v):
        return v
    return np.asarray(v)


def obj(v):
    """To an object array of numbers/bools."""
    if is_sym(v):
        return v
    v = np.asarray(v)
    out = np.empty(v.shape, dtype=object)
    flat = v.ravel()
    if v.dtype == bool:
        vals = [bool(x) for x in flat]
    else:
        vals = [P.num(x) for x in flat]
    out_f = out.reshape(-1)
    for i, x in enumerate(vals):
        out_f[i] = x
    return out_f.reshape(v.shape)


def arr(shape, vals):
    out = np.empty(int(np.prod(shape, dtype=int)), dtype=object)
    for i, x in enumerate(vals):
        out[i] = x
    return out.reshape(shape)


def ew(fn, *vs):
    """Elementwise application with object broadcasting (shapes already equal)."""
    vs = [obj(v) for v in vs]
    shape = np.broadcast_shapes(*[v.shape for v in vs])
    vs = [np.broadcast_to(v, shape).reshape(-1) for v in vs]
    return arr(shape, [fn(*xs) for xs in zip(*vs)])


def kind(aval_or_dtype):
    d = np.dtype(aval_or_dtype) if not hasattr(aval_or_dtype, "dtype") else aval_or_dtype.dtype
    try:
        d = np.dtype(d)
    except TypeError:
        return "key"
    if d == bool:
        return "b"
    if d.kind in "iu":
        return "i"
    return "f"


def decide(x):
    return P.CTX.decide(x)


def concretise_bools(v):
    """Bool array with z3 elements -> concrete bool array (forks)."""
    if not is_sym(v):
        return np.asarray(v)
    return np.array([bool(decide(x)) for x in v.reshape(-1)], dtype=bool).reshape(v.shape)


def maybe_concrete(v, k):
    """Drop back to a native array when every element is concrete."""
    if not is_sym(v):
        return v
    if k == "b":
        if all(isinstance(x, (bool, np.bool_)) for x in v.reshape(-1)):
            return v.astype(bool)
    return v


# ------------------------------------------------------------------ random
def random_in(jaxpr, _cache={}):
    j = getattr(jaxpr, "jaxpr", jaxpr)
    r = _cache.get(id(j))
    if r is not None and r[0] is j:
        return r[1]
    found = False
    for e in j.eqns:
        if e.primitive.name in ("random_bits", "pure_callback", "threefry2x32", "rng_uniform", "svd", "eigh", "qr",
                                "geqrf", "householder_product"):
            found = True
            break
        for s in subjaxprs(e.params):
            if random_in(s):
                found = True
                break
        if found:
            break
    _cache[id(j)] = (j, found)
    return found


def subjaxprs(params):
    for v in params.values():
        for s in v if isinstance(v, (list, tuple)) else [v]:
            if hasattr(s, "eqns") or hasattr(s, "jaxpr"):
                yield s


# ------------------------------------------------------------------ evaluation
def read_literal(a):
    return a.val


def eval_closed(cj, args):
    return eval_jaxpr(cj.jaxpr, cj.consts, args)


def eval_jaxpr(jaxpr, consts, args):
    env = {}

    def read(a):
        if isinstance(a, jcore.Literal):
            return np.asarray(a.val) if not is_key(a.val) else a.val
        return env[a]

    for v, c in zip(jaxpr.constvars, consts):
        env[v] = from_jax(c)
    for v, a in zip(jaxpr.invars, args):
        env[v] = a
    last = _last_use(jaxpr)
    for i, e in enumerate(jaxpr.eqns):
        vals = [read(a) for a in e.invars]
        outs = eval_prim(e.primitive, vals, e.params, [v.aval for v in e.outvars])
        for v, o in zip(e.outvars, outs):
            env[v] = o
        for v in last.get(i, ()):
            env.pop(v, None)
    return [read(a) for a in jaxpr.outvars]


def _last_use(jaxpr, _cache={}):
    r = _cache.get(id(jaxpr))
    if r is not None and r[0] is jaxpr:
        return r[1]
    seen = {v for v in jaxpr.outvars if not isinstance(v, jcore.Literal)}
    out = {}
    for i in range(len(jaxpr.eqns) - 1, -1, -1):
        dead = []
        for a in jaxpr.eqns[i].invars:
            if not isinstance(a, jcore.Literal) and a not in seen:
                seen.add(a)
                dead.append(a)
        out[i] = dead
    _cache[id(jaxpr)] = (jaxpr, out)
    return out


def from_jax(c):
    """A jax/numpy value (possibly our tracer) to an interpreter value."""
    v = getattr(c, "symval", None)
    if v is not None:
        return v
    if is_key(c):
        return c
    return np.asarray(c)


_PK: dict = {}
_BIND: dict = {}


def pk_full(params):
    """Hashable key of a params dict (jaxprs by identity, kept alive by the cache)."""
    r = _PK.get(id(params))
    if r is not None and r[0] is params:
        return r[1]
    keep = []

    def one(v):
        if hasattr(v, "jaxpr") or hasattr(v, "eqns") or callable(v):
            keep.append(v)
            return id(v)
        if isinstance(v, (list, tuple)):
            return tuple(one(x) for x in v)
        return str(v)

    k = tuple((n, one(params[n])) for n in sorted(params))
    _PK[id(params)] = (params, k, keep)
    return k


def _vkey(v):
    if is_key(v):
        d = np.asarray(jax.random.key_data(v))
        return ("key", d.shape, d.tobytes())
    v = np.asarray(v)
    return (v.dtype.str, v.shape, v.tobytes())


def bind_concrete(prim, vals, params):
    key = (prim.name, pk_full(params), tuple(_vkey(v) for v in vals))
    r = _BIND.get(key)
    if r is None:
        r = _bind_concrete(prim, vals, params)
        if len(_BIND) < 200000:
            _BIND[key] = r
    return list(r)


def _bind_concrete(prim, vals, params):
    with jcore.eval_context():
        r = prim.bind(*[v if is_key(v) else jnp.asarray(v) for v in vals], **params)
    if not prim.multiple_results:
        r = [r]
    return [x if is_key(x) else np.asarray(x) for x in r]


CONTROL = {"scan", "while", "cond", "jit", "pjit", "closed_call", "core_call", "remat", "checkpoint",
           "custom_jvp_call", "custom_vjp_call", "custom_vjp_call_jaxpr", "custom_linear_solve",
           "custom_lin"}


def eval_prim(prim, vals, params, out_avals):
    name = prim.name
    USED_PRIMS[name] = USED_PRIMS.get(name, 0) + 1
    sym = any(is_sym(v) for v in vals)
    f = RULES.get(name)
    if name in STUB_ALWAYS:
        return f(prim, vals, params, out_avals)
    if not sym:
        if name in CONTROL:
            if DOUBLE[0] and name in ("jit", "pjit", "custom_jvp_call"):
                return f(prim, vals, params, out_avals)
            if any(random_in(s) for s in subjaxprs(params)):
                return f(prim, vals, params, out_avals)
            if name not in ("jit", "pjit", "scan", "while", "cond", "custom_jvp_call", "custom_linear_solve"):
                return f(prim, vals, params, out_avals)
            return bind_concrete(prim, vals, params)
        nf = NUMPY.get(name)
        if DOUBLE[0] and kind(out_avals[0]) == "f" and not any(is_key(v) for v in vals):
            df = NUMPY_DOUBLE.get(name) or nf
            if df is not None:
                with np.errstate(all="ignore"):
                    return [np.asarray(df(*[v.astype(np.float64) if v.dtype == np.float32 else v
                                            for v in map(np.asarray, vals)], **(params if name in NUMPY_DOUBLE else {})))]
        if nf is not None and not any(is_key(v) for v in vals):
            with np.errstate(all="ignore"):
                r = np.asarray(nf(*vals))
            d = out_avals[0].dtype
            return [r.astype(d) if r.dtype != d else r]
        return bind_concrete(prim, vals, params)
    if f is None:
        if name in MOVE:
            return movement(prim, vals, params, out_avals)
        raise Unsupported(f"primitive {name}")
    outs = f(prim, vals, params, out_avals)
    return [maybe_concrete(o, kind(a)) if is_sym(o) else o for o, a in zip(outs, out_avals)]


def _np_exp(x):
    """exp in double precision; e.g. exp(lgamma(n)) of an integer is the integer again."""
    r = np.exp(x.astype(np.float64))
    q = np.rint(r)
    with np.errstate(all="ignore"):
        return np.where(np.isfinite(r) & (q != 0) & (np.abs(r - q) <= 6e-7 * np.abs(q)), q, r)


NUMPY = {
    "exp": _np_exp,
    "add": np.add, "sub": np.subtract, "mul": np.multiply, "neg": np.negative,
    "lt": np.less, "le": np.less_equal, "gt": np.greater, "ge": np.greater_equal,
    "eq": np.equal, "ne": np.not_equal, "and": np.bitwise_and, "or": np.bitwise_or,
    "not": lambda x: np.logical_not(x) if x.dtype == bool else np.invert(x),
    "max": np.maximum, "min": np.minimum,
    "stop_gradient": lambda x: x, "copy": lambda x: x, "copy_p": lambda x: x,
}

# literal constants may be folded in double precision, so that products of them stay comparable
DOUBLE = [False]
NUMPY_DOUBLE = {
    "sqrt": lambda x, **_: np.sqrt(x), "log": lambda x, **_: np.log(x), "div": lambda x, y, **_: np.divide(x, y),
    "lgamma": lambda x, **_: np.vectorize(math.lgamma, otypes=[np.float64])(x),
    "integer_pow": lambda x, y, **_: x**y, "pow": lambda x, y, **_: np.power(x, y),
    "square": lambda x, **_: x * x,
}

# ------------------------------------------------------------------ data movement
MOVE = {
    "reshape", "transpose", "broadcast_in_dim", "slice", "squeeze", "rev", "expand_dims",
    "dynamic_slice", "gather", "concatenate", "pad", "dynamic_update_slice", "split", "tile",
    "scatter", "unstack", "ragged_slice",
}
_MOVECACHE: dict = {}
# which operands carry data (others are concrete indices)
DATA_OPERANDS = {
    "dynamic_slice": (0,), "gather": (0,), "dynamic_update_slice": (0, 1), "scatter": (0, 2),
}


def movement(prim, vals, params, out_avals):
    name = prim.name
    data = DATA_OPERANDS.get(name, tuple(range(len(vals))))
    idx = [i for i in range(len(vals)) if i not in data]
    for i in idx:
        if is_sym(vals[i]):
            raise Unsupported(f"symbolic index in {name}")
    key = (
        name,
        tuple(np.shape(v) for v in vals),
        pk_full(params),
        tuple((np.asarray(vals[i]).tobytes(), str(np.asarray(vals[i]).dtype)) for i in idx),
    )
    maps = _MOVECACHE.get(key)
    if maps is None:
        off, iotas = 0, []
        for i, v in enumerate(vals):
            if i in data:
                n = int(np.prod(np.shape(v), dtype=int))
                iotas.append(np.arange(off, off + n, dtype=np.int32).reshape(np.shape(v)))
                off += n
            else:
                iotas.append(v)
        p = dict(params)
        if name == "gather":
            p["fill_value"] = -1
        maps = _bind_concrete(prim, iotas, p)
        _MOVECACHE[key] = maps
    flat = np.concatenate([obj(vals[i]).reshape(-1) for i in data])
    outs = []
    for m, a in zip(maps, out_avals):
        k = kind(a)
        fill = NAN if k == "f" else False
        if (m < 0).any():
            ext = np.empty(len(flat) + 1, dtype=object)
            ext[: len(flat)] = flat
            ext[-1] = fill
            outs.append(ext[np.where(m < 0, len(flat), m)])
        else:
            o = flat[m]
            if not isinstance(o, np.ndarray):
                o = arr((), [o])
            outs.append(o)
    outs = [o if isinstance(o, np.ndarray) else arr((), [o]) for o in outs]
    return [maybe_concrete(o, kind(a)) for o, a in zip(outs, out_avals)]


def _targets(prim, vals, params):
    """For a scatter: flat operand position of each update element (-1: dropped)."""
    op, ind, upd = vals
    key = ("tgt", np.shape(op), np.shape(upd), pk_full(params), np.asarray(ind).tobytes(), np.shape(ind))
    r = _MOVECACHE.get(key)
    if r is not None:
        return r
    n = int(np.prod(np.shape(upd), dtype=int))
    N = int(np.prod(np.shape(op), dtype=int))
    from jax import lax

    p = dict(params)
    dn = p["dimension_numbers"]
    tgt = np.full(n, -1)
    with jcore.eval_context():
        def one(u):
            return lax.scatter_add(
                jnp.zeros(np.shape(op), jnp.int32), jnp.asarray(ind), u.reshape(np.shape(upd)), dn,
                indices_are_sorted=False, unique_indices=False, mode=p["mode"])
        res = np.asarray(jax.vmap(one)(jnp.eye(n, dtype=jnp.int32))).reshape(n, N)
    for i in range(n):
        w = np.flatnonzero(res[i])
        if len(w):
            tgt[i] = w[0]
    _MOVECACHE[key] = tgt
    return tgt


@rule("scatter-add", "scatter_add", "scatter-mul", "scatter_mul", "scatter-min", "scatter-max",
      "scatter_min", "scatter_max")
def _scatter_red(prim, vals, params, out_avals):
    if is_sym(vals[1]):
        raise Unsupported("symbolic scatter index")
    op = {"add": P.add, "mul": P.mul, "min": P.minimum, "max": P.maximum}[prim.name[-3:]]
    tgt = _targets(prim, vals, params)
    out = obj(vals[0]).reshape(-1).copy()
    for u, t in zip(obj(vals[2]).reshape(-1), tgt):
        if t >= 0:
            out[t] = op(out[t], u)
    return [out.reshape(np.shape(vals[0]))]


# ------------------------------------------------------------------ elementwise
def _ew1(fn):
    def r(prim, vals, params, out_avals):
        return [ew(fn, vals[0])]

    return r


def _ew2(fn):
    def r(prim, vals, params, out_avals):
        return [ew(fn, vals[0], vals[1])]

    return r


RULES.update({
    "add": _ew2(P.add), "add_any": _ew2(P.add), "sub": _ew2(P.sub), "mul": _ew2(P.mul),
    "neg": _ew1(lambda x: -x), "div": _ew2(P.div),
    "exp": _ew1(P.exp), "log": _ew1(P.log), "sqrt": _ew1(P.sqrt),
    "rsqrt": _ew1(lambda x: P.div(F1, P.sqrt(x))),
    "sin": _ew1(P.sin), "cos": _ew1(P.cos), "tanh": _ew1(P.tanh),
    "tan": _ew1(lambda x: P.div(P.sin(x), P.cos(x))),
    "abs": _ew1(P.absv), "sign": _ew1(lambda x: NAN if isinstance(x, float) and x != x else Fraction(P.sign(x))),
    "square": _ew1(lambda x: P.mul(x, x)),
    "log1p": _ew1(lambda x: P.log(P.add(x, 1))),
    "expm1": _ew1(lambda x: P.sub(P.exp(x), 1)),
    "exp2": _ew1(lambda x: P.power(Fraction(2), x)),
    "logistic": _ew1(lambda x: P.div(F1, P.add(F1, P.exp(-P.num(x))))),
    "stop_gradient": _ew1(lambda x: x), "copy": _ew1(lambda x: x), "copy_p": _ew1(lambda x: x),
    "real": _ew1(lambda x: x), "conj": _ew1(lambda x: x),
    "reduce_precision": _ew1(lambda x: x),
    "max": _ew2(P.maximum), "min": _ew2(P.minimum),
    "erf": _ew1(lambda x: P.ufun("erf", x)),
})


@rule("optimization_barrier", "sharding_constraint")
def _ident(prim, vals, params, out_avals):
    return list(vals)


@rule("pow")
def _pow(prim, vals, params, out_avals):
    return [ew(P.power, *vals)]


@rule("integer_pow")
def _ipow(prim, vals, params, out_avals):
    return [ew(lambda x: P.ipow(x, params["y"]), vals[0])]


@rule("is_finite")
def _isfin(prim, vals, params, out_avals):
    return [ew(P.isfin, vals[0])]


def _beq(a, b):
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    if isinstance(a, bool):
        return b if a else znot(b)
    if isinstance(b, bool):
        return a if b else znot(a)
    return a == b


def _isbool(x):
    return isinstance(x, (bool, np.bool_)) or z3.is_bool(x)


def _eq(a, b):
    if _isbool(a) or _isbool(b):
        return _beq(a, b)
    return P.eq(a, b)


RULES.update({
    "lt": _ew2(P.lt), "le": _ew2(P.le),
    "gt": _ew2(lambda a, b: P.lt(b, a)), "ge": _ew2(lambda a, b: P.le(b, a)),
    "eq": _ew2(_eq), "ne": _ew2(lambda a, b: znot(_eq(a, b))),
    "lt_to": _ew2(P.lt), "le_to": _ew2(P.le), "eq_to": _ew2(_eq),
})


@rule("and")
def _and(prim, vals, params, out_avals):
    return [ew(lambda a, b: zand([a, b]), *vals)]


@rule("or")
def _or(prim, vals, params, out_avals):
    return [ew(lambda a, b: zor([a, b]), *vals)]


@rule("not")
def _not(prim, vals, params, out_avals):
    return [ew(znot, vals[0])]


@rule("xor")
def _xor(prim, vals, params, out_avals):
    return [ew(lambda a, b: znot(_beq(a, b)), *vals)]


@rule("rem")
def _rem(prim, vals, params, out_avals):
    def f(a, b):
        if isinstance(a, Fraction) and isinstance(b, Fraction) and b != 0:
            q = a / b
            return a - b * (math.floor(q) if q >= 0 else math.ceil(q))
        raise Unsupported("rem of symbolic")

    return [ew(f, *vals)]


def _const_only(fn, name):
    def f(x):
        if isinstance(x, Fraction):
            return Fraction(fn(x))
        if isinstance(x, float):
            return x
        raise Unsupported(f"{name} of symbolic value")

    return _ew1(f)


RULES["floor"] = _const_only(math.floor, "floor")
RULES["ceil"] = _const_only(math.ceil, "ceil")
RULES["round"] = _const_only(lambda x: round(x), "round")


@rule("clamp")
def _clamp(prim, vals, params, out_avals):
    lo, x, hi = vals
    x = obj(x)
    lo = np.broadcast_to(obj(lo), x.shape)
    hi = np.broadcast_to(obj(hi), x.shape)
    return [ew(lambda a, b, c: P.minimum(P.maximum(b, a), c), lo, x, hi)]


@rule("convert_element_type")
def _convert(prim, vals, params, out_avals):
    v = vals[0]
    k = kind(out_avals[0])
    b = any(_isbool(x) for x in v.reshape(-1))
    if b:
        if k == "b":
            return [v]
        c = concretise_bools(v)
        return [c.astype(out_avals[0].dtype)]
    if k == "f":
        return [v]
    if k == "b":
        return [ew(lambda x: True if isinstance(x, float) else znot(P.eq(x, F0)), v)]
    # to integer
    def f(x):
        if isinstance(x, Fraction):
            return int(x)
        raise Unsupported("float->int of symbolic value")

    if len(v.reshape(-1)) and any(isinstance(x, Poly) for x in v.reshape(-1)) and kind(v) == "f":
        # unsigned random bits pass through unchanged
        if all(getattr(x, "t", None) is not None for x in v.reshape(-1)):
            return [v]
    return [np.array([f(x) for x in v.reshape(-1)]).reshape(v.shape).astype(out_avals[0].dtype)]


@rule("select_n")
def _select(prim, vals, params, out_avals):
    pred, cases = vals[0], vals[1:]
    shape = np.shape(cases[0])
    k = kind(out_avals[0])
    if is_sym(pred):
        pr = np.broadcast_to(pred, shape).reshape(-1)
    else:
        pr = np.broadcast_to(np.asarray(pred), shape).reshape(-1)
    if k == "key":
        raise Unsupported("select on keys")
    cs = [obj(c).reshape(-1) for c in cases]
    out = []
    for i, p in enumerate(pr):
        if isinstance(p, (bool, np.bool_, np.integer, int)):
            out.append(cs[int(p)][i])
            continue
        a, b = cs[0][i], cs[1][i]
        if k == "b":
            if isinstance(a, bool) and isinstance(b, bool):
                out.append(a if a == b else (p if b else znot(p)))
            else:
                out.append(zor([zand([p, b]), zand([znot(p), a])]))
            continue
        if (isinstance(a, (Fraction, Poly)) and a == b) or (
            isinstance(a, float) and isinstance(b, float) and (a == b or (a != a and b != b))
        ):
            out.append(a)
            continue
        out.append(b if decide(p) else a)
    r = arr(shape, out)
    if k == "i":
        r = np.array([int(x) for x in r.reshape(-1)], dtype=out_avals[0].dtype).reshape(shape)
    return [r]


# ------------------------------------------------------------------ reductions
def _reduce(v, axes, fn, init):
    v = obj(v)
    axes = tuple(int(a) for a in axes)
    keep = [i for i in range(v.ndim) if i not in axes]
    t = np.transpose(v, keep + list(axes)).reshape([v.shape[i] for i in keep] + [-1])
    out = []
    lead = t.reshape(-1, t.shape[-1]) if t.ndim > 1 else t.reshape(1, -1)
    for row in lead:
        out.append(fn(list(row)) if init is None else fn(list(row)))
    return arr([v.shape[i] for i in keep], out)


def psum(xs):
    r = F0
    t = None
    for x in xs:
        if isinstance(x, Poly) and isinstance(r, Poly):
            r = P.add(r, x)
        else:
            r = P.add(r, x)
    return r


def pprod(xs):
    r = F1
    for x in xs:
        r = P.mul(r, x)
    return r


def pmax(xs):
    if any(isinstance(x, float) and x != x for x in xs):
        return NAN
    if any(isinstance(x, float) and x == INF for x in xs):
        return INF
    fin = [x for x in xs if not isinstance(x, float)]
    if not fin:
        return -INF
    return P.max_atom(fin)


def pmin(xs):
    r = pmax([-P.num(x) for x in xs])
    return -r


@rule("reduce_sum")
def _rsum(prim, vals, params, out_avals):
    return [_reduce(vals[0], params["axes"], psum, F0)]


@rule("reduce_prod")
def _rprod(prim, vals, params, out_avals):
    return [_reduce(vals[0], params["axes"], pprod, F1)]


@rule("reduce_max")
def _rmax(prim, vals, params, out_avals):
    return [_reduce(vals[0], params["axes"], pmax, None)]


@rule("reduce_min")
def _rmin(prim, vals, params, out_avals):
    return [_reduce(vals[0], params["axes"], pmin, None)]


@rule("reduce_and")
def _rand(prim, vals, params, out_avals):
    return [_reduce(vals[0], params["axes"], zand, None)]


@rule("reduce_or")
def _ror(prim, vals, params, out_avals):
    return [_reduce(vals[0], params["axes"], zor, None)]


def arg_extreme(xs, largest, nan_first=True):
    """Index XLA's argmax/argmin returns (first extreme; NaN wins)."""
    for i, x in enumerate(xs):
        if isinstance(x, float) and x != x:
            return i
    ext = INF if largest else -INF
    for i, x in enumerate(xs):
        if isinstance(x, float) and x == ext:
            return i
    fin = [i for i, x in enumerate(xs) if not isinstance(x, float)]
    if not fin:
        return 0
    if len(fin) == 1:
        return fin[0]
    gt = (lambda a, b: P.lt(b, a)) if largest else P.lt
    ge = (lambda a, b: P.le(b, a)) if largest else P.le
    conds = []
    for i in fin:
        cs = []
        for j in fin:
            if j == i:
                continue
            cs.append(gt(xs[i], xs[j]) if j < i else ge(xs[i], xs[j]))
            if cs[-1] is False:
                break
        conds.append(zand(cs))
    if any(c is True for c in conds):
        return fin[conds.index(True)]
    return fin[P.CTX.choose(conds, "argmax", exhaustive=True)]


def _arg(largest):
    def r(prim, vals, params, out_avals):
        v = vals[0]
        (ax,) = params["axes"]
        v = np.moveaxis(v, ax, -1)
        if v.size and any(_isbool(x) for x in v.reshape(-1)):
            v = concretise_bools(v)
            v = obj(v.astype(np.int32))
        out = [arg_extreme(list(row), largest) for row in v.reshape(-1, v.shape[-1])]
        return [np.array(out, dtype=params["index_dtype"]).reshape(v.shape[:-1])]

    return r


RULES["argmax"] = _arg(True)
RULES["argmin"] = _arg(False)


def _cum(fn, init=None):
    def r(prim, vals, params, out_avals):
        ax, rev = params["axis"], params["reverse"]
        v = np.moveaxis(obj(vals[0]), ax, 0)
        if rev:
            v = v[::-1]
        out = np.empty(v.shape, dtype=object)
        acc = None
        for i in range(v.shape[0]):
            row = v[i] if isinstance(v[i], np.ndarray) else arr((), [v[i]])
            acc = row if acc is None else ew(fn, acc, row)
            out[i] = acc if acc.shape else acc.item()
        if rev:
            out = out[::-1]
        return [np.moveaxis(out, 0, ax)]

    return r


RULES["cumsum"] = _cum(P.add)
RULES["cumprod"] = _cum(P.mul)
RULES["cummax"] = _cum(P.maximum)
RULES["cummin"] = _cum(P.minimum)


@rule("dot_general")
def _dot(prim, vals, params, out_avals):
    (lc, rc), (lb, rb) = params["dimension_numbers"]
    a, b = obj(vals[0]), obj(vals[1])
    la = [i for i in range(a.ndim) if i not in lc and i not in lb]
    ra = [i for i in range(b.ndim) if i not in rc and i not in rb]
    A = np.transpose(a, list(lb) + la + list(lc))
    B = np.transpose(b, list(rb) + ra + list(rc))
    bs = [a.shape[i] for i in lb]
    ls = [a.shape[i] for i in la]
    rs = [b.shape[i] for i in ra]
    nb = int(np.prod(bs, dtype=int))
    nl = int(np.prod(ls, dtype=int))
    nr = int(np.prod(rs, dtype=int))
    A = A.reshape(nb, nl, -1)
    B = B.reshape(nb, nr, -1)
    out = []
    for i in range(nb):
        for j in range(nl):
            for k in range(nr):
                s = F0
                for x, y in zip(A[i, j], B[i, k]):
                    if type(x) is Fraction and x == 0 and not isinstance(y, float):
                        continue
                    if type(y) is Fraction and y == 0 and not isinstance(x, float):
                        continue
                    s = P.add(s, P.mul(x, y))
                out.append(s)
    return [arr(bs + ls + rs, out)]


# ------------------------------------------------------------------ sorting
def order_of(keys, stable=True):
    """A permutation sorting the rows of numbers; forks the path."""
    n = len(keys)

    def rank(x):  # -inf < finite < inf < nan
        if isinstance(x, float):
            return 3 if x != x else (2 if x > 0 else 0)
        return 1

    perm = []
    for i in range(n):
        # insertion of i into perm
        lo = len(perm)
        while lo > 0:
            j = perm[lo - 1]
            less = None
            for a, b in zip(keys[i], keys[j]):
                ra, rb = rank(a), rank(b)
                if ra != rb:
                    less = ra < rb
                    break
                if ra != 1:
                    continue
                if decide(P.lt(a, b)):
                    less = True
                    break
                if not decide(P.eq(a, b)):
                    less = False
                    break
            if less:
                lo -= 1
            else:
                break
        perm.insert(lo, i)
    return perm


@rule("sort")
def _sort(prim, vals, params, out_avals):
    dim, nk = params["dimension"], params["num_keys"]
    vs = [np.moveaxis(v if is_sym(v) else np.asarray(v), dim, -1) for v in vals]
    shape = vs[0].shape
    outs = [v.reshape(-1, shape[-1]).copy() for v in vs]
    for r in range(outs[0].shape[0]):
        rows = [o[r] for o in outs]
        keys = []
        for i in range(shape[-1]):
            ks = []
            for q in range(nk):
                x = rows[q][i]
                ks.append(P.num(x) if not _isbool(x) else Fraction(int(decide(x))))
            keys.append(ks)
        if len(keys) and len(keys[0]) == 1 and all(_is_bits(k[0]) for k in keys):
            perm = free_permutation(len(keys), tuple(k[0] for k in keys))
        else:
            perm = order_of(keys)
        for o, row in zip(outs, rows):
            o[r] = row[perm]
    return [np.moveaxis(o.reshape(shape), -1, dim) for o in outs]


def _is_bits(x):
    if not isinstance(x, Poly) or len(x.t) != 1:
        return False
    ((m, e), c) = next(iter(x.t.items()))
    return c == 1 and not e and len(m) == 1 and P.ATOMS[m[0][0]].name.startswith("bits:")


def free_permutation(n, key):
    """Any permutation of range(n) (a shuffle); same key, same permutation."""
    m = P.CTX.memo.get(("perm", key))
    if m is not None:
        return list(m)
    left = list(range(n))
    out = []
    for _ in range(n - 1):
        out.append(left.pop(P.CTX.draw(len(left), "shuffle")))
    out += left
    P.CTX.memo[("perm", key)] = tuple(out)
    return out


@rule("top_k")
def _topk(prim, vals, params, out_avals):
    k = params["k"]
    v = vals[0]
    axis = params.get("axis", -1)
    v = np.moveaxis(v, axis, -1)
    lead = v.reshape(-1, v.shape[-1])
    ov, oi = [], []
    for row in lead:
        xs = list(row)
        alive = list(range(len(xs)))
        for _ in range(k):
            j = alive[arg_extreme([xs[i] for i in alive], True)]
            alive.remove(j)
            ov.append(xs[j])
            oi.append(j)
    shape = v.shape[:-1] + (k,)
    return [
        np.moveaxis(arr(shape, ov), -1, axis),
        np.moveaxis(np.array(oi, dtype=out_avals[1].dtype).reshape(shape), -1, axis),
    ]


# ------------------------------------------------------------------ control flow
PJIT_STUBS = {}


def stub(*names):
    def deco(f):
        for n in names:
            PJIT_STUBS[n] = f
        return f

    return deco


@rule("jit", "pjit")
def _jit(prim, vals, params, out_avals):
    s = PJIT_STUBS.get(params.get("name"))
    if s is not None:
        r = s(vals, params, out_avals)
        if r is not NotImplemented:
            return r
    return eval_closed(params["jaxpr"], vals)


@rule("closed_call", "core_call", "custom_jvp_call", "custom_vjp_call", "custom_vjp_call_jaxpr", "remat",
      "checkpoint")
def _call(prim, vals, params, out_avals):
    j = params.get("call_jaxpr") or params.get("fun_jaxpr") or params.get("jaxpr")
    if hasattr(j, "consts"):
        return eval_closed(j, vals)
    return eval_jaxpr(j, (), vals)


@rule("cond")
def _cond(prim, vals, params, out_avals):
    i = vals[0]
    if is_sym(i):
        x = i.reshape(-1)[0]
        i = int(decide(x)) if _isbool(x) else int(x)
    b = params["branches"]
    i = max(0, min(int(i), len(b) - 1))
    return eval_closed(b[i], vals[1:])


@rule("while")
def _while(prim, vals, params, out_avals):
    cn, bn = params["cond_nconsts"], params["body_nconsts"]
    cc, bc, carry = vals[:cn], vals[cn : cn + bn], list(vals[cn + bn :])
    n = 0
    while True:
        (p,) = eval_closed(params["cond_jaxpr"], [*cc, *carry])
        if is_sym(p):
            p = decide(p.reshape(-1)[0])
        if not bool(p):
            return carry
        carry = eval_closed(params["body_jaxpr"], [*bc, *carry])
        n += 1
        if n > 400:
            raise Unsupported("while loop bound 400 reached")


@rule("scan")
def _scan(prim, vals, params, out_avals):
    nc, ncar = params["num_consts"], params["num_carry"]
    consts, carry, xs = vals[:nc], list(vals[nc : nc + ncar]), vals[nc + ncar :]
    n = params["length"]
    ys = [None] * n
    rng = range(n - 1, -1, -1) if params["reverse"] else range(n)
    for i in rng:
        sl = [x[i] if isinstance(x[i], np.ndarray) or is_key(x) else _scalar(x, i) for x in xs]
        r = eval_closed(params["jaxpr"], [*consts, *carry, *sl])
        carry = r[:ncar]
        ys[i] = r[ncar:]
    outs = []
    for q in range(len(out_avals) - ncar):
        a = out_avals[ncar + q]
        if n == 0:
            outs.append(np.zeros(a.shape, a.dtype))
            continue
        col = [y[q] for y in ys]
        if any(is_sym(c) for c in col):
            o = np.empty((n,) + tuple(a.shape[1:]), dtype=object)
            for i, c in enumerate(col):
                oc = obj(c)
                o[i] = oc if oc.shape else oc.item()
            outs.append(o)
        elif is_key(col[0]):
            outs.append(jnp.stack(col))
        else:
            outs.append(np.stack([np.asarray(c) for c in col]).astype(a.dtype))
    return [*carry, *outs]


def _scalar(x, i):
    if is_sym(x):
        return arr((), [x[i]])
    return np.asarray(x[i])


@rule("custom_linear_solve")
def _cls(prim, vals, params, out_avals):
    cl = params["const_lengths"]
    js = params["jaxprs"]
    n_mv, n_vm, n_s = cl.matvec, cl.vecmat, cl.solve
    k = n_mv + n_vm
    solve_consts = vals[k : k + n_s]
    rest = vals[k + n_s + cl.transpose_solve :]
    return eval_closed(js.solve, [*solve_consts, *rest])


# ------------------------------------------------------------------ linear algebra
def _batched(fn, nmat):
    """Apply fn on trailing 2-d blocks."""

    def r(prim, vals, params, out_avals):
        vs = [obj(v) for v in vals]
        batch = vs[0].shape[:-2]
        n = int(np.prod(batch, dtype=int))
        rows = [v.reshape((n,) + v.shape[len(batch):]) for v in vs]
        outs = None
        for i in range(n):
            o = fn(*[x[i] for x in rows], params=params)
            if outs is None:
                outs = [[] for _ in o]
            for a, b in zip(outs, o):
                a.append(b)
        res = []
        for col in outs:
            if any(is_sym(c) for c in col):
                o = np.empty((n,) + np.shape(col[0]), dtype=object)
                for i, c in enumerate(col):
                    oc = obj(c)
                    o[i] = oc if oc.shape else oc.item()
            else:
                o = np.stack(col)
            res.append(o.reshape(batch + np.shape(col[0])))
        return res

    return r


def solve_exact(A, B):
    """Exact A^{-1} B with pivots decided nonzero; None if singular."""
    n = A.shape[0]
    M = [[A[i, j] for j in range(n)] + [B[i, j] for j in range(B.shape[1])] for i in range(n)]
    for c in range(n):
        piv = None
        # prefer syntactically nonzero pivots
        cands = sorted(range(c, n), key=lambda r: 0 if P.quick_sign(M[r][c]) in (">0", "<0") else 1)
        for r in cands:
            x = M[r][c]
            if isinstance(x, Fraction):
                if x != 0:
                    piv = r
                    break
                continue
            if P.CTX.nonzero(x):
                piv = r
                break
        if piv is None:
            return None
        M[c], M[piv] = M[piv], M[c]
        inv = P.div(F1, M[c][c])
        M[c] = [P.mul(x, inv) for x in M[c]]
        for r in range(n):
            if r != c:
                f = M[r][c]
                if isinstance(f, Fraction) and f == 0:
                    continue
                M[r] = [P.sub(x, P.mul(f, y)) for x, y in zip(M[r], M[c])]
    return arr((n, B.shape[1]), [M[i][n + j] for i in range(n) for j in range(B.shape[1])])


def _chol(A, params):
    n = A.shape[0]
    L = arr((n, n), [F0] * (n * n))
    for j in range(n):
        s = A[j, j]
        for k in range(j):
            s = P.sub(s, P.mul(L[j, k], L[j, k]))
        if isinstance(s, float) or P.sign(s) <= 0:
            return [arr((n, n), [NAN] * (n * n))]
        d = P.sqrt(s)
        L[j, j] = d
        for i in range(j + 1, n):
            t = A[i, j]
            for k in range(j):
                t = P.sub(t, P.mul(L[i, k], L[j, k]))
            L[i, j] = P.div(t, d)
    return [L]


RULES["cholesky"] = _batched(_chol, 1)


def _trisolve(A, B, params):
    n = A.shape[0]
    left, lower = params["left_side"], params["lower"]
    trans, unit = params["transpose_a"], params["unit_diagonal"]
    T = arr((n, n), [
        (F1 if (i == j and unit) else A[i, j]) if (i == j or (i > j) == bool(lower)) else F0
        for i in range(n) for j in range(n)])
    if trans:
        T = T.T
        lower = not lower
    if not left:
        T = T.T
        lower = not lower
        B = B.T
    X = B.copy()
    rng = range(n) if lower else range(n - 1, -1, -1)
    for i in rng:
        for c in range(B.shape[1]):
            s = B[i, c]
            ks = range(i) if lower else range(i + 1, n)
            for k in ks:
                s = P.sub(s, P.mul(T[i, k], X[k, c]))
            X[i, c] = P.div(s, T[i, i])
    return [X if left else X.T]


RULES["triangular_solve"] = _batched(_trisolve, 2)


def _lu(A, params):
    m, n = A.shape
    A = A.copy()
    perm = list(range(m))
    piv = []
    for c in range(min(m, n)):
        p = c
        cands = sorted(range(c, m), key=lambda r: (0 if P.quick_sign(A[r, c]) in (">0", "<0") else 1, r))
        for r in cands:
            x = A[r, c]
            if isinstance(x, float):
                p = r
                break
            if (isinstance(x, Fraction) and x != 0) or (isinstance(x, Poly) and P.CTX.nonzero(x)):
                p = r
                break
        piv.append(p)
        if p != c:
            A[[c, p]] = A[[p, c]]
            perm[c], perm[p] = perm[p], perm[c]
        for r in range(c + 1, m):
            x = A[c, c]
            if isinstance(x, Fraction) and x == 0:
                continue
            f = P.div(A[r, c], x)
            A[r, c] = f
            for k in range(c + 1, n):
                A[r, k] = P.sub(A[r, k], P.mul(f, A[c, k]))
    return [A, np.array(piv, dtype=np.int32), np.array(perm, dtype=np.int32)]


RULES["lu"] = _batched(_lu, 1)



def null_basis(A):
    """Rank of A (n x m) and a basis (list of n-vectors) of its left null space; entries may be symbolic."""
    n, m = A.shape
    M = [[A[i, j] for j in range(m)] + [F1 if i == j else F0 for j in range(n)] for i in range(n)]
    r = 0
    for c in range(m):
        piv = next((i for i in range(r, n) if isinstance(M[i][c], Fraction) and M[i][c] != 0), None)
        if piv is None:
            piv = next((i for i in range(r, n) if isinstance(M[i][c], Poly) and P.CTX.nonzero(M[i][c])), None)
        if piv is None:
            continue
        M[r], M[piv] = M[piv], M[r]
        for i in range(r + 1, n):
            f = M[i][c]
            if isinstance(f, Fraction) and f == 0:
                continue
            f = P.div(f, M[r][c])
            M[i] = [P.sub(x, P.mul(f, y)) for x, y in zip(M[i], M[r])]
            M[i][c] = F0
        r += 1
    return r, [row[m:] for row in M[r:]]


def _is0(x):
    return isinstance(x, Fraction) and x == 0


def _order(vals):
    """Indices that sort the (symbolic) values in ascending order; ties keep their order."""
    out = []
    for i in range(len(vals)):
        k = len(out)
        while k and decide(P.lt(vals[i], vals[out[k - 1]])):
            k -= 1
        out.insert(k, i)
    return out


def _svd_diagonal(A):
    n = A.shape[0]
    neg = [not _is0(A[i, i]) and decide(P.lt(A[i, i], F0)) for i in range(n)]
    s = [P.neg(A[i, i]) if neg[i] else A[i, i] for i in range(n)]
    o = _order(s)[::-1]
    U, V = arr((n, n), [F0] * (n * n)), arr((n, n), [F0] * (n * n))
    for k, i in enumerate(o):
        U[i, k] = -F1 if neg[i] else F1
        V[k, i] = F1
    return [arr((n,), [s[i] for i in o]), U, V]


def _mm(A, B):
    return arr((A.shape[0], B.shape[1]), [psum([P.mul(A[i, k], B[k, j]) for k in range(A.shape[1])])
                                          for i in range(A.shape[0]) for j in range(B.shape[1])])


def _zero(x):
    return (x == 0) if isinstance(x, (int, float, Fraction)) else P.is_zero(x)


# eigenvectors (columns) of the symmetric matrices in play, names for their eigenvalues, the last orthogonal factor
SPECTRUM = {"U": None, "names": [], "Q": []}


def _qr1(A, params):
    """Any orthonormal basis of the range, as far as one can be named: the triangular factor is Q^T A.

    As many columns as rows or more: any orthogonal matrix (n <= 2), or one of several (n = 3); the input then has full
    rank with probability one. Fewer columns: registered eigenvectors that span the range, with any signs.
    """
    n, k = A.shape
    if params.get("full_matrices") and k < n or params.get("pivoting"):
        raise Unsupported("full or pivoted QR decomposition")
    U = SPECTRUM["U"]
    if k >= n:
        if n == 1:
            Q = arr((1, 1), [F1 if P.CTX.pick(2, "sign of an orthogonal factor") else -F1])
        elif n == 2:
            tt = P.var(P.CTX.fresh("rotation"))
            q = P.div(F1, P.add(F1, P.mul(tt, tt)))
            c, s = P.mul(P.sub(F1, P.mul(tt, tt)), q), P.mul(P.mul(Fraction(2), tt), q)
            e = F1 if P.CTX.pick(2, "sign of an orthogonal factor") else -F1
            Q = arr((2, 2), [c, P.mul(-e, s), s, P.mul(e, c)])
        elif n == 3:
            d = P.CTX.pick(3, "orthogonal factor")
            R = [[[3, 6, -2], [-2, 3, 6], [6, -2, 3]], [[0, 7, 0], [7, 0, 0], [0, 0, -7]], [[2, -3, 6], [6, -2, -3], [3, 6, 2]]][d]
            Q = arr((3, 3), [Fraction(x, 7) for r in R for x in r])
        else:
            raise Unsupported("QR decomposition of this size")
    else:
        import itertools

        Q = None
        for cols in itertools.combinations(range(n), k) if U is not None else ():
            S = U[:, list(cols)]
            R = _mm(S, _mm(S.T, A))
            if all(_zero(P.sub(A[i, j], R[i, j])) for i in range(n) for j in range(k)):
                e = [F1 if P.CTX.pick(2, "sign of an orthogonal factor") else -F1 for _ in range(k)]
                Q = arr((n, k), [P.mul(S[i, j], e[j]) for i in range(n) for j in range(k)])
                break
        if Q is None:
            raise Unsupported("QR decomposition of a matrix whose range is not known")
    SPECTRUM["Q"].append(Q)
    return [Q, _mm(Q.T, A)]


RULES["qr"] = _batched(_qr1, 1)


def _eigh1(A, params):
    """Exact eigenvectors: of a diagonal matrix, or the registered ones (in the basis of the last orthogonal factor)."""
    n = A.shape[0]
    U = SPECTRUM["U"]
    eye = arr((n, n), [F1 if i == j else F0 for i in range(n) for j in range(n)])
    cands = [eye]
    if U is not None and U.shape[0] == n:
        cands.append(U)
    for Q in SPECTRUM["Q"][::-1]:
        if U is None or Q.shape != (U.shape[0], n):
            continue
        V = _mm(Q.T, U)
        keep = [j for j in range(V.shape[1]) if not all(_zero(x) for x in V[:, j])]
        if len(keep) == n:
            cands.append(V[:, keep])
    for V in cands:
        D, O = _mm(V.T, _mm(A, V)), _mm(V.T, V)
        if not all(_zero(D[i, j]) for i in range(n) for j in range(n) if i != j):
            continue
        if not all(_zero(P.sub(O[i, j], eye[i, j])) for i in range(n) for j in range(n)):
            continue
        lam = [next((c for c in SPECTRUM["names"] if _zero(P.sub(D[i, i], c))), D[i, i]) for i in range(n)]
        o = _order(lam)
        return [V[:, o], arr((n,), [lam[i] for i in o])]
    raise Unsupported("eigenvectors of this matrix are not known")


RULES["eigh"] = _batched(_eigh1, 1)


def _solved(A, B):
    X = solve_exact(A, B)
    if X is None:
        raise Unsupported("rank of a least-squares system")
    return np.array(X, dtype=object).reshape(A.shape[1], B.shape[1])


def pinv_solve(A, B):
    """Minimal-norm least-squares solution, exact, through a rank factorisation."""
    m, n = A.shape
    M = [[A[i, j] for j in range(n)] for i in range(m)]
    piv, r = [], 0
    for c in range(n):
        i = next((i for i in range(r, m) if isinstance(M[i][c], Fraction) and M[i][c] != 0), None)
        if i is None:
            i = next((i for i in range(r, m) if isinstance(M[i][c], Poly) and P.CTX.nonzero(M[i][c])), None)
        if i is None:
            continue
        M[r], M[i] = M[i], M[r]
        q = P.div(F1, M[r][c])
        M[r] = [P.mul(x, q) for x in M[r]]
        M[r][c] = F1
        for k in range(m):
            f = M[k][c]
            if k != r and not _is0(f):
                M[k] = [P.sub(x, P.mul(f, y)) for x, y in zip(M[k], M[r])]
                M[k][c] = F0
        piv.append(c)
        r += 1
        if r == m:
            break
    if r == 0:
        return arr((n, B.shape[1]), [F0] * (n * B.shape[1]))
    if r == m == n:
        return _solved(A, B)
    C = A[:, piv]
    Y = B if r == m else _solved(_mm(C.T, C), _mm(C.T, B))
    if r == n:
        return Y
    if r == m:
        return _mm(A.T, _solved(_mm(A, A.T), B))
    F = arr((r, n), [x for row in M[:r] for x in row])
    return _mm(F.T, _solved(_mm(F, F.T), Y))


@stub("_lstsq")
def _lstsq(vals, params, out_avals):
    """Exact pseudo-inverse; diagonal systems run through the library's own steps, with its cut-off."""
    if not any(is_sym(v) for v in vals):
        return NotImplemented
    A, B = (obj(v) for v in vals[:2])
    batch = A.shape[:-2]
    nb = int(np.prod(batch, dtype=int))
    flat = B.ndim == A.ndim - 1
    A2 = A.reshape((nb, *A.shape[-2:]))
    B2 = (B[..., None] if flat else B).reshape((nb, A.shape[-2], -1))
    if A.shape[-1] == A.shape[-2] and all(_is0(a[i, j]) for a in A2 for i in range(a.shape[0]) for j in range(a.shape[0]) if i != j):
        return NotImplemented
    X = [pinv_solve(a, b) for a, b in zip(A2, B2)]
    outs = [np.array([x.tolist() for x in X], dtype=object).reshape(out_avals[0].shape)]
    for a in out_avals[1:]:
        outs.append(np.zeros(a.shape, a.dtype))
    return outs


# exact: replace singular and null vectors by exact ones; bases: how many null-space bases to consider
SVD = {"exact": False, "bases": 1}


def _svd1(A, params):
    """A singular value decomposition as far as its rank and null spaces are concerned.

    The null vectors returned are an exact basis of the left (right) null space: the one the real
    decomposition returns (up to rounding), its negation, or an unrelated one.
    """
    n, m = A.shape
    if n == m and params.get("compute_uv", True) and all(_is0(A[i, j]) for i in range(n) for j in range(n) if i != j):
        return _svd_diagonal(A)
    if not params.get("full_matrices", True) or not params.get("compute_uv", True):
        raise Unsupported("partial singular value decomposition")
    concrete = all(isinstance(x, Fraction) for x in A.reshape(-1))
    r, left = null_basis(A)
    _, right = null_basis(A.T)
    if concrete:
        with jcore.eval_context():
            u, s, vt = (np.array(v, dtype=np.float64) for v in
                        jax.scipy.linalg.svd(jnp.asarray(np.array(A.tolist(), dtype=np.float32)), full_matrices=True))
    else:
        P.CTX.free = True
        u, vt = np.eye(n)[:, ::-1], np.eye(m)[::-1]
        s = np.ones(min(n, m))
    s[r:] = 0
    which = P.CTX.pick(SVD["bases"], "null basis") if SVD["bases"] > 1 and (left or right) else 0
    if which:
        P.CTX.free = True

    def basis(null, ref):
        k = len(null)
        if not k:
            return []
        if concrete and which in (0, 1):
            N = np.array([[float(x) for x in v] for v in null]).T
            R = np.linalg.lstsq(N, ref[:, ref.shape[1] - k:], rcond=None)[0] * (-1 if which else 1)
            R = [[Fraction(round(x * 4096), 4096) for x in row] for row in R]
            if np.linalg.matrix_rank(np.array(R, dtype=float)) < k:
                raise Unsupported("null space basis")
        elif which == 1:
            R = [[F1 if i == j else F0 for j in range(k)] for i in range(k)]
            R = [[-x for x in row] for row in R]
        else:
            # 2: the reverse order; 3: mixed signs and a shear
            R = [[F0] * k for _ in range(k)]
            for i in range(k):
                R[i][k - 1 - i] = F1 if which in (0, 2) or i % 2 == 0 else -F1
                if which == 3 and i:
                    R[i][k - i] = Fraction(1, 2)
        return [[psum([P.mul(null[i][a], R[i][j]) for i in range(k)]) for a in range(len(null[0]))] for j in range(k)]

    def full(null, ref, size):
        cols = [[Fraction(round(float(x) * 4096), 4096) for x in ref[:, j]] for j in range(size - len(null))]
        cols += basis(null, ref)
        return arr((size, size), [cols[j][i] for i in range(size) for j in range(size)])

    return [s.astype(np.float32), full(left, u, n), full(right, vt.T, m).T]


_SVD_BATCHED = _batched(_svd1, 1)


@rule("svd")
def _svd(prim, vals, params, out_avals):
    if not SVD["exact"] and not is_sym(vals[0]):
        return bind_concrete(prim, vals, params)
    return _SVD_BATCHED(prim, vals, params, out_avals)


STUB_ALWAYS = {"random_bits", "svd", "pure_callback"}


@rule("pure_callback")
def _callback(prim, vals, params, out_avals):
    """The host function runs on the values; symbolic ones are given to it as NaN."""
    args = []
    for v in vals:
        if is_sym(v):
            v = np.array([float(x) if isinstance(x, (Fraction, int, float)) else np.nan for x in v.reshape(-1)],
                         dtype=np.float32).reshape(v.shape)
        args.append(np.asarray(v))
    with jcore.eval_context():
        out = params["callback"](*args)
    return [np.asarray(o) for o in jax.tree_util.tree_leaves(out)]


@rule("random_bits")
def _random_bits(prim, vals, params, out_avals):
    if not is_key(vals[0]):
        raise Unsupported("symbolic key")
    if P.CTX.opts.get("real_bits"):
        # shuffles follow the key; only the other draws are arbitrary
        return bind_concrete(prim, vals, params)
    kb = np.asarray(jax.random.key_data(vals[0])).tobytes().hex()
    sh = tuple(params["shape"])
    full = tuple(out_avals[0].shape)
    n = int(np.prod(full, dtype=int))
    vs = [P.var(f"bits:{kb}:{sh}:{i}", ">=0") for i in range(n)]
    return [arr(full, vs)]


def _keyname(k):
    return np.asarray(jax.random.key_data(k)).tobytes().hex()


@stub("_uniform")
def _uniform(vals, params, out_avals):
    key, lo, hi = vals
    if not is_key(key):
        return NotImplemented
    P.CTX.stats_stub("jax.random.uniform: arbitrary value in [minval, maxval)")
    shape = tuple(out_avals[0].shape)
    lo = np.broadcast_to(obj(lo), shape).reshape(-1)
    hi = np.broadcast_to(obj(hi), shape).reshape(-1)
    out = []
    for i in range(int(np.prod(shape, dtype=int))):
        u = P.var(f"u:{_keyname(key)}:{shape}:{i}")
        P.CTX.assume(P.le(lo[i], u))
        P.CTX.assume(P.lt(u, hi[i]))
        out.append(u)
    record("uniform", key, shape, out)
    return [arr(shape, out)]


def record(kind, key, shape, out):
    k = (kind, _keyname(key), tuple(shape))
    P.CTX.all_draws.append(k)
    if k not in P.CTX.memo:
        P.CTX.memo[k] = True
        P.CTX.draws.append((kind, shape, list(out)))


@stub("_randint")
def _randint(vals, params, out_avals):
    key, lo, hi = vals
    if not is_key(key) or is_sym(lo) or is_sym(hi):
        return NotImplemented
    shape = tuple(out_avals[0].shape)
    lo, hi = np.broadcast_to(lo, shape).reshape(-1), np.broadcast_to(hi, shape).reshape(-1)
    P.CTX.stats_stub("jax.random.randint: arbitrary value in [minval, maxval)")
    k = ("randint", _keyname(key), shape, tuple(lo), tuple(hi))
    if k not in P.CTX.memo:
        P.CTX.memo[k] = [int(a) + (P.CTX.draw(int(b) - int(a), "randint") if b > a + 1 else 0)
                         for a, b in zip(lo, hi)]
        P.CTX.draws.append(("randint", shape, P.CTX.memo[k]))
    return [np.array(P.CTX.memo[k], dtype=out_avals[0].dtype).reshape(shape)]


@stub("_gumbel", "_normal", "_normal_real", "_truncated_normal")
def _gumbel(vals, params, out_avals):
    if not is_key(vals[0]):
        return NotImplemented
    if params["name"] == "_truncated_normal" and P.CTX.opts.get("real_bits"):
        with jcore.eval_context():
            return [np.asarray(v) for v in jcore.jaxpr_as_fun(params["jaxpr"])(*[v if is_key(v) else jnp.asarray(v) for v in vals])]
    P.CTX.stats_stub(f"jax.random.{params['name'].strip('_')}: arbitrary finite reals")
    shape = tuple(out_avals[0].shape)
    out = [P.var(f"g:{params['name']}:{_keyname(vals[0])}:{shape}:{i}") for i in range(int(np.prod(shape, dtype=int)))]
    record(params["name"].strip("_"), vals[0], shape, out)
    return [arr(shape, out)]
