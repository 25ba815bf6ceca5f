"""Helpers shared by the property modules (imports jax)."""
import numpy as onp
import jax
import jax.numpy as jnp
from jax import tree_util

from pbt.core import Violation, require

# Some statements are decided in single and (C33) double precision
X64 = bool(jax.config.jax_enable_x64)
F = onp.float64 if X64 else onp.float32
JF = jnp.float64 if X64 else jnp.float32
# Tolerances are given for single precision
PRECISION = 1e-6 if X64 else 1.0


def rng(*seed):
  """Random numbers as a pure function of the case."""
  return onp.random.default_rng([int(s) & 0xffffffff for s in seed])


def floats(r, size, dtype):
  """Floating point numbers, a few of them special (NaN, infinity, ...)."""
  x = (r.normal(size=size) * 8).astype(dtype)
  limits = onp.finfo(dtype)
  special = onp.array([onp.nan, onp.inf, -onp.inf, -0.0, limits.max,
                       limits.min, limits.tiny, limits.eps], dtype=dtype)
  chosen = r.choice(special, size=size)
  rare = r.uniform(size=size) < r.choice([0.0, 0.1, 0.5])
  return onp.where(rare, chosen, x).astype(dtype)


def close(actual, expected, rtol=1e-4, atol=1e-6, what="value", **details):
  """Compares arrays including their shape."""
  a = onp.asarray(actual)
  e = onp.asarray(expected)
  if a.shape != e.shape:
    raise Violation(f"{what}: shape {a.shape} instead of {e.shape} {details}")
  if a.size == 0:
    return
  a = a.astype(onp.float64)
  e = e.astype(onp.float64)
  ok = onp.isclose(a, e, rtol=rtol * PRECISION, atol=atol * PRECISION,
                   equal_nan=False)
  if not ok.all():
    i = onp.unravel_index(onp.argmin(ok), a.shape)
    raise Violation(
      f"{what}: got {a[i]!r} instead of {e[i]!r} at index "
      f"{tuple(int(j) for j in i)} ({int((~ok).sum())} of {a.size} entries "
      f"differ) {details if details else ''}")


def same(actual, expected, what="value", dtype=True, **details):
  """Bit-exact comparison including shape and dtype."""
  a = onp.asarray(actual)
  e = onp.asarray(expected)
  if a.shape != e.shape:
    raise Violation(f"{what}: shape {a.shape} instead of {e.shape} {details}")
  if dtype and a.dtype != e.dtype:
    raise Violation(f"{what}: dtype {a.dtype} instead of {e.dtype} {details}")
  if not onp.array_equal(a, e, equal_nan=a.dtype.kind == "f"):
    bad = onp.argwhere(onp.atleast_1d(a != e))
    i = tuple(int(j) for j in bad[0]) if len(bad) else ()
    av, ev = (onp.atleast_1d(a)[i], onp.atleast_1d(e)[i])
    raise Violation(f"{what}: got {av!r} instead of {ev!r} at index {i} "
                    f"({len(bad)} of {a.size} entries differ) "
                    f"{details if details else ''}")


def tree_close(actual, expected, rtol=1e-4, atol=1e-6, what="tree"):
  ta = tree_util.tree_structure(actual)
  te = tree_util.tree_structure(expected)
  if ta != te:
    raise Violation(f"{what}: structure {ta} instead of {te}")
  for i, (a, e) in enumerate(zip(tree_util.tree_leaves(actual),
                                 tree_util.tree_leaves(expected))):
    close(a, e, rtol=rtol, atol=atol, what=f"{what}, leaf {i}")


def tree_same(actual, expected, what="tree", dtype=True):
  ta = tree_util.tree_structure(actual)
  te = tree_util.tree_structure(expected)
  if ta != te:
    raise Violation(f"{what}: structure {ta} instead of {te}")
  for i, (a, e) in enumerate(zip(tree_util.tree_leaves(actual),
                                 tree_util.tree_leaves(expected))):
    same(a, e, what=f"{what}, leaf {i}", dtype=dtype)


def raises(exceptions, fun, what):
  """The call has to be rejected."""
  try:
    out = fun()
  except exceptions:
    return
  except Exception as exc:  # pylint: disable=broad-except
    raise Violation(f"{what}: raised {type(exc).__name__}: {exc}") from exc
  raise Violation(f"{what}: accepted, returned {repr(out)[:200]}")
