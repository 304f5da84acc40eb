"""Eager symbolic execution: a JAX trace whose tracers carry symbolic arrays.

Used when the code under test needs concrete values at Python level (``if``,
``int(...)``, data-dependent shapes): the conversion forks the path.
"""

from __future__ import annotations

import jax
import jax.numpy as jnp
import numpy as np
from jax._src import core as jcore

from . import interp as I
from . import poly as P


class SymTracer(jcore.Tracer):
    __slots__ = ["symval", "_aval"]

    def __init__(self, trace, val, aval):
        super().__init__(trace)
        self.symval = val
        self._aval = aval

    @property
    def aval(self):
        return self._aval

    def full_lower(self):
        return self

    def _concrete(self):
        v = self.symval
        if not I.is_sym(v):
            return v
        if I.kind(self._aval) == "b":
            return I.concretise_bools(v)
        if all(isinstance(x, (int, P.Fraction, float)) for x in v.reshape(-1)):
            return np.array([float(x) for x in v.reshape(-1)], dtype=self._aval.dtype).reshape(v.shape)
        raise P.Unsupported("concrete float value of symbolic data requested")

    def to_concrete_value(self):
        try:
            return self._concrete()
        except P.Unsupported:
            return None

    def __array__(self, *a, **k):
        return np.asarray(self._concrete())

    def __bool__(self):
        return bool(np.asarray(self._concrete()).reshape(()))

    def __int__(self):
        return int(np.asarray(self._concrete()).reshape(()))

    def __index__(self):
        return int(np.asarray(self._concrete()).reshape(()))

    def __float__(self):
        return float(np.asarray(self._concrete()).reshape(()))

    def tolist(self):
        return np.asarray(self._concrete()).tolist()

    def item(self, *a):
        return np.asarray(self._concrete()).item(*a)


class SymTrace(jcore.Trace):
    def _vals(self, args):
        return [I.from_jax(a) for a in args]

    def _wrap(self, outs, avals):
        res = []
        for o, a in zip(outs, avals):
            if I.is_key(o):
                res.append(o)
            elif I.is_sym(o):
                res.append(SymTracer(self, o, a))
            else:
                with jcore.eval_context():
                    res.append(jnp.asarray(o, dtype=a.dtype))
        return res

    def process_primitive(self, primitive, tracers, params, /):
        vals = self._vals(tracers)
        with jcore.eval_context():
            avals = [jcore.typeof(t) for t in tracers]
            r = primitive.abstract_eval(*avals, **params)
            out_avals = r[0]
            if not primitive.multiple_results:
                out_avals = [out_avals]
        outs = I.eval_prim(primitive, vals, params, out_avals)
        res = self._wrap(outs, out_avals)
        return res if primitive.multiple_results else res[0]

    def process_call(self, primitive, f, tracers, params, /):
        with jcore.set_current_trace(self):
            return f.call_wrapped(*tracers)

    process_map = process_call

    def process_custom_jvp_call(self, primitive, fun, jvp, tracers, /, **_):
        with jcore.set_current_trace(self):
            return fun.call_wrapped(*tracers)

    def process_custom_vjp_call(self, primitive, fun, fwd, bwd, tracers, /, **_):
        with jcore.set_current_trace(self):
            return fun.call_wrapped(*tracers)

    def process_custom_transpose(self, prim, call, tracers, /, **params):
        with jcore.set_current_trace(self):
            return call.call_wrapped(*tracers)


def run_eager(fn, args, dtypes):
    """Run fn on symbolic arrays; returns a pytree of interpreter values."""
    tr = SymTrace()
    wrapped = []
    for a, d in zip(args, dtypes):
        if I.is_key(a):
            wrapped.append(a)
        elif I.is_sym(a):
            wrapped.append(SymTracer(tr, a, jcore.ShapedArray(a.shape, d)))
        else:
            wrapped.append(jnp.asarray(a))
    with jcore.set_current_trace(tr):
        out = fn(*wrapped)
    return jax.tree_util.tree_map(I.from_jax, out)
