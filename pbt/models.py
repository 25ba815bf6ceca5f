"""Family of models with closed-form log-likelihoods and gradients."""
import jax.numpy as jnp
import numpy as onp
from hypothesis import strategies as st

from pbt.util import F, rng

KINDS = ["gauss", "logistic", "poly", "constant"]
TREES = ["dict", "nested", "tuple", "order", "none", "column"]


@st.composite
def model_specs(draw, kinds=None):
  return {"kind": draw(st.sampled_from(kinds or KINDS)),
          "d": draw(st.integers(1, 4)), "tree": draw(st.sampled_from(TREES)),
          "tau": draw(st.sampled_from([0.0, 0.25, 1.0, 2.0])),
          "seed": draw(st.integers(0, 99))}


def pack(spec, leaves):
  """Pytree of the parameters [w (d,), b (), s ()]."""
  w, b, s = leaves
  kind = spec["tree"]
  if kind == "dict":
    return {"w": w, "b": b, "s": s}
  if kind == "nested":
    return {"layer": {"w": w, "b": b}, "s": s}
  if kind == "tuple":
    return (w, [b, s])
  if kind == "order":
    return {"z": w, "m": b, "a": s}
  if kind == "none":
    return {"w": w, "empty": None, "rest": (s, b), "list": []}
  if kind == "column":
    return [{"w": w.reshape((-1, 1))}, b.reshape((1,)), s]
  raise ValueError(kind)


def unpack(spec, tree):
  kind = spec["tree"]
  if kind == "dict":
    return [tree["w"], tree["b"], tree["s"]]
  if kind == "nested":
    return [tree["layer"]["w"], tree["layer"]["b"], tree["s"]]
  if kind == "tuple":
    return [tree[0], tree[1][0], tree[1][1]]
  if kind == "order":
    return [tree["z"], tree["m"], tree["a"]]
  if kind == "none":
    return [tree["w"], tree["rest"][1], tree["rest"][0]]
  if kind == "column":
    return [tree[0]["w"].reshape((-1,)), tree[1].reshape(()), tree[2]]
  raise ValueError(kind)


def sample_leaves(spec, k=0, scale=1.0):
  r = rng(spec["seed"], 3, k)
  leaves = [r.normal(size=(spec["d"],)) * scale, r.normal() * scale,
            r.normal() * 0.5 * scale]
  return [onp.asarray(l, dtype=F) for l in leaves]


def make_obs(spec, n, seed):
  r = rng(spec["seed"], 4, seed, n)
  y = r.normal(size=(n,)) * 1.5
  if spec["kind"] == "logistic":
    y = r.integers(0, 2, size=(n,))
  return {"x": r.normal(size=(n, spec["d"])).astype(F),
          "y": y.astype(F)}


def lk_jax(spec, tree, x, y, shift=0.0):
  """Log-likelihood of a single observation."""
  w, b, s = unpack(spec, tree)
  kind = spec["kind"]
  z = jnp.sum(w * x) + b + shift
  if kind == "gauss":
    return -0.5 * jnp.exp(s) * (z - y) ** 2 + 0.5 * s
  if kind == "logistic":
    return y * z - jnp.logaddexp(0.0, z) + 0.0 * s
  if kind == "poly":
    return s * jnp.sum(w ** 2 * x) + b * y + shift
  return 0.3 * jnp.sum(w) - 0.1 * b * s + shift


def lk_np(spec, leaves, x, y, shift=0.0):
  """Values and gradients of all observations in double precision."""
  w, b, s = [onp.asarray(l, dtype=onp.float64) for l in leaves]
  x, y = onp.asarray(x, onp.float64), onp.asarray(y, onp.float64)
  n = len(y)
  kind = spec["kind"]
  z = x @ w + b + shift
  if kind == "gauss":
    r = z - y
    lk = -0.5 * onp.exp(s) * r ** 2 + 0.5 * s
    dz = -onp.exp(s) * r
    ds = -0.5 * onp.exp(s) * r ** 2 + 0.5
    return lk, [dz[:, None] * x, dz, ds]
  if kind == "logistic":
    lk = y * z - onp.logaddexp(0.0, z)
    dz = y - 1 / (1 + onp.exp(-z))
    return lk, [dz[:, None] * x, dz, onp.zeros(n)]
  if kind == "poly":
    q = (w ** 2 * x).sum(-1)
    return s * q + b * y + shift, [2 * s * w * x, y.copy(), q]
  one = onp.ones(n)
  return ((0.3 * w.sum() - 0.1 * b * s + shift) * one,
          [0.3 * onp.ones((n, len(w))), -0.1 * s * one, -0.1 * b * one])


def prior_jax(spec, tree):
  w, b, s = unpack(spec, tree)
  return -0.5 * spec["tau"] * (jnp.sum(w ** 2) + 2.0 * b ** 2 + s ** 2) + 0.7


def prior_np(spec, leaves):
  w, b, s = [onp.asarray(l, dtype=onp.float64) for l in leaves]
  t = spec["tau"]
  return (-0.5 * t * ((w ** 2).sum() + 2 * b ** 2 + s ** 2) + 0.7,
          [-t * w, -2 * t * b, -t * s])
