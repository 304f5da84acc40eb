"""Shared harness pieces: table kernels, datasets, exact reference formulas."""

import contextlib
import dataclasses
import types
import warnings
from fractions import Fraction

import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np

warnings.filterwarnings("ignore")

from coreax.coreset import Coresubset  # noqa: E402
from coreax.data import Data, SupervisedData, as_data  # noqa: E402
from coreax.kernels import ScalarValuedKernel  # noqa: E402


class TableKernel(ScalarValuedKernel):
    """k(i, j) = table[i, j] on integer-valued one-dimensional points.

    With a symbolic table this stands for every kernel on every dataset that has
    that Gram matrix.
    """

    table: jax.Array

    def compute_elementwise(self, x, y):
        i = jnp.asarray(x).reshape(-1)[0].astype(jnp.int32)
        j = jnp.asarray(y).reshape(-1)[0].astype(jnp.int32)
        return self.table[i, j]

    def grad_x_elementwise(self, x, y):
        raise NotImplementedError

    def grad_y_elementwise(self, x, y):
        raise NotImplementedError

    def divergence_x_grad_y_elementwise(self, x, y):
        raise NotImplementedError


def points(n):
    """n distinct one-dimensional points 0..n-1."""
    return np.arange(n, dtype=np.float32).reshape(n, 1)


def osum(xs):
    s = 0
    for x in xs:
        s = x + s
    return s


@contextlib.contextmanager
def array_fields(*classes):
    """Let fields that convert to Python floats hold arrays, so that they can be symbolic."""
    saved = []
    for c in classes:
        for f in dataclasses.fields(c):
            if f.metadata.get("converter") is float:
                saved.append((f, f.metadata))
                f.metadata = types.MappingProxyType(
                    {**f.metadata, "converter": lambda v: v if isinstance(v, jax.Array) else float(v)})
    try:
        yield
    finally:
        for f, m in saved:
            f.metadata = m


class JetKernel(ScalarValuedKernel):
    """A kernel known by its value and derivative tables at the points (i, 0, ..., 0).

    With symbolic tables this stands for every differentiable kernel at those points.
    """

    table: jax.Array
    gx: jax.Array
    gy: jax.Array
    dv: jax.Array

    def _ij(self, x, y):
        return (jnp.asarray(x).reshape(-1)[0].astype(jnp.int32), jnp.asarray(y).reshape(-1)[0].astype(jnp.int32))

    def compute_elementwise(self, x, y):
        i, j = self._ij(x, y)
        return self.table[i, j]

    def grad_x_elementwise(self, x, y):
        i, j = self._ij(x, y)
        return self.gx[i, j]

    def grad_y_elementwise(self, x, y):
        i, j = self._ij(x, y)
        return self.gy[i, j]

    def divergence_x_grad_y_elementwise(self, x, y):
        i, j = self._ij(x, y)
        return self.dv[i, j]


def jet_tables(B, name, n, m, d):
    return (B.reals(name + ".k", (n, m), lo=-4, hi=4), B.reals(name + ".gx", (n, m, d), lo=-4, hi=4),
            B.reals(name + ".gy", (n, m, d), lo=-4, hi=4), B.reals(name + ".dv", (n, m), lo=-4, hi=4))


def index_points(n, d):
    p = np.zeros((n, d), np.float32)
    p[:, 0] = np.arange(n)
    return p


def oarr(x):
    return np.array(x, dtype=object)


def dot(a, b):
    return osum(x * y for x, y in zip(a, b))


class TableScore(eqx.Module):
    """A score function known by its value and Jacobian at the points (i, 0, ..., 0)."""

    s: jax.Array
    jac: jax.Array

    def __call__(self, x):
        x = jnp.asarray(x)
        if x.ndim > 1:
            return jax.vmap(self)(x)
        i = jax.lax.stop_gradient(x[0]).astype(jnp.int32)
        base = jnp.zeros_like(x).at[0].set(i.astype(x.dtype))
        return self.s[i] + self.jac[i] @ (x - base)


def _stein_base():
    from coreax.kernels import SteinKernel

    class TableStein(SteinKernel):
        """A Stein kernel with any symmetric table of values; the score is given by a table."""

        table: jax.Array

        def compute_elementwise(self, x, y):
            i = jnp.asarray(x).reshape(-1)[0].astype(jnp.int32)
            j = jnp.asarray(y).reshape(-1)[0].astype(jnp.int32)
            return self.table[i, j]

    return TableStein


TableStein = _stein_base()


def kde_logpdf(data, weights, points, factor=None):
    """Reference Gaussian KDE (scipy's definition) in double precision."""
    data, points = np.asarray(data, float), np.asarray(points, float)
    n, d = data.shape
    w = np.full(n, 1.0 / n) if weights is None else np.asarray(weights, float) / np.sum(np.asarray(weights, float))
    neff = 1 / np.sum(w**2)
    if factor is None:
        factor = neff ** (-1.0 / (d + 4))
    mu = w @ data
    c = (data - mu).T @ np.diag(w) @ (data - mu) / (1 - np.sum(w**2)) * factor**2
    inv = np.linalg.inv(c)
    out = []
    for p in points:
        e = np.array([-(p - x) @ inv @ (p - x) / 2 for x in data])
        out.append(np.log(np.sum(w * np.exp(e))) - 0.5 * np.log(np.linalg.det(2 * np.pi * c)))
    return np.array(out)


def refused(fn, *errors):
    """1.0 if calling fn raises one of the errors, else 0.0 (usable inside traced code)."""
    try:
        fn()
    except errors or (ValueError,):
        return jnp.ones(())
    return jnp.zeros(())
