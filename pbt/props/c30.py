"""Pytree algebra, list mapping and identifiers."""
import uuid

import jax
import jax.numpy as jnp
import numpy as onp
from hypothesis import strategies as st
from jax import tree_util

from jax_sgmc import util
from jax_sgmc.util import list_map
from jax_sgmc.util.uuid import JaxUUID

from pbt import trees
from pbt.core import Sub, info, require
from pbt.util import F, JF, PRECISION, close, raises, rng, same, tree_same

SHAPES = [[], [], [1], [3], [2, 2], [1, 3], [2, 1, 2], [0], [3, 0]]
DEFAULT = onp.dtype(F).name
FLOAT = st.sampled_from([[DEFAULT, s] for s in SHAPES])
MIXED = st.sampled_from([[d, s] for s in SHAPES for d in (
  DEFAULT, "float16", "int32", DEFAULT, "uint8", "bfloat16")])


def build(spec, seed, lib=jnp):
  def leaf(s, i):
    dtype, shape = s
    r = rng(seed, i)
    if dtype == "float64":
      v = r.normal(size=shape)
    elif dtype.startswith("float") or dtype == "bfloat16":
      v = r.integers(-40, 40, size=shape) / 8
    elif dtype == "bool":
      v = r.integers(0, 2, size=shape)
    else:
      v = r.integers(0, 10, size=shape)
    return lib.asarray(v, dtype=dtype)
  return trees.build(spec, leaf)


def flat(tree):
  """Float64 vector in the order of the flattened tree."""
  leaves = tree_util.tree_leaves(tree)
  if not leaves:
    return onp.zeros(0)
  return onp.concatenate([onp.asarray(l).astype(onp.float64).ravel()
                          for l in leaves])


def same_layout(actual, like, what, dtype=True):
  ta, te = (tree_util.tree_structure(t) for t in (actual, like))
  require(ta == te, f"{what}: structure", got=ta, expected=te)
  for a, e in zip(tree_util.tree_leaves(actual), tree_util.tree_leaves(like)):
    require(onp.shape(a) == onp.shape(e), f"{what}: shape", got=onp.shape(a),
            expected=onp.shape(e))
    if dtype:
      require(jnp.asarray(a).dtype == jnp.asarray(e).dtype, f"{what}: dtype",
              got=jnp.asarray(a).dtype, expected=jnp.asarray(e).dtype)


@st.composite
def algebra_cases(draw):
  return {"spec": draw(trees.specs(draw(st.sampled_from([FLOAT, MIXED])),
                                   max_leaves=5)),
          "alpha": draw(st.integers(-16, 16)) / 4,
          "jit": draw(st.booleans()), "seed": draw(st.integers(0, 9999))}


def check_algebra(case):
  spec, alpha = case["spec"], case["alpha"]
  a, b, c = (build(spec, case["seed"] + i) for i in range(3))
  fa, fb, fc = map(flat, (a, b, c))
  wrap = jax.jit if case["jit"] else lambda f: f
  floating = all(jnp.issubdtype(jnp.asarray(l).dtype, jnp.floating)
                 for l in tree_util.tree_leaves(a))
  single = all(l.dtype == JF for l in tree_util.tree_leaves(a))
  eps = 1e-5 if single else 2e-2 / PRECISION
  tol = {"rtol": eps, "atol": eps}

  out = wrap(util.tree_add)(a, b)
  same_layout(out, a, "sum")
  close(flat(out), wrap_small(fa + fb, a), what="sum", **tol)
  tree_same(wrap(util.tree_add)(b, a), out, "sum commutes")

  out = wrap(util.tree_multiply)(a, b)
  same_layout(out, a, "product")
  close(flat(out), wrap_small(fa * fb, a), what="product", **tol)

  # A scaling by a real number is a real number
  out = wrap(lambda t: util.tree_scale(JF(alpha), t))(a)
  same_layout(out, a, "scaling", dtype=single)
  close(flat(out), alpha * fa, what="scaling", **tol)
  if floating:
    out = util.tree_scale(alpha, a)
    same_layout(out, a, "scaling with a python scalar")
    close(flat(out), alpha * fa, what="scaling with a python scalar", **tol)

  if all(l.dtype != jnp.uint8 for l in tree_util.tree_leaves(a)):
    dot = wrap(util.tree_dot)(a, b)
    require(onp.shape(dot) == (), "scalar product: shape", got=onp.shape(dot))
    scale = 1.0 + float(onp.abs(fa * fb).sum())
    close(onp.asarray(dot).astype(onp.float64), float((fa * fb).sum()),
          rtol=0, atol=eps * scale, what="scalar product")
  if single:
    # Linear in the first argument, matches the elementwise product
    left = util.tree_dot(util.tree_add(a, util.tree_scale(alpha, c)), b)
    right = float((fa * fb).sum() + alpha * (fc * fb).sum())
    close(left, right, rtol=0, atol=1e-5 * (1 + abs(alpha)) * (
      1 + float(onp.abs(fa * fb).sum() + onp.abs(fc * fb).sum())),
          what="bilinearity")
  n = len(tree_util.tree_leaves(a))
  return info(n > 1 and len(fa) > 1, "jit" if case["jit"] else "eager",
              "single precision" if single else "mixed dtypes",
              *sorted(trees.kinds(spec)))


def wrap_small(vec, tree):
  """Arithmetic of unsigned integers of eight bits is modular."""
  out, pos = [], 0
  for l in tree_util.tree_leaves(tree):
    v = vec[pos:pos + l.size]
    out.append(v % 256 if l.dtype == jnp.uint8 else v)
    pos += l.size
  return onp.concatenate(out) if out else vec


@st.composite
def matmul_cases(draw):
  return {"spec": draw(trees.specs(FLOAT, max_leaves=4).filter(
            lambda s: trees.n_leaves(s) > 0)),
          "ndim": draw(st.sampled_from([0, 1, 2, 2])),
          "jit": draw(st.booleans()), "vmap": draw(st.booleans()),
          "seed": draw(st.integers(0, 9999))}


def check_matmul(case):
  v = build(case["spec"], case["seed"])
  fv = flat(v)
  d = len(fv)
  r = rng(case["seed"], 81)
  ndim = case["ndim"]
  # Symmetric and non-symmetric matrices
  m = (r.integers(-16, 16, size=(d, d)) / 8).astype(F)
  if ndim == 0:
    tensor, dense = JF(1.75), 1.75 * onp.eye(d)
  elif ndim == 1:
    tensor = build(case["spec"], case["seed"] + 7)
    dense = onp.diag(flat(tensor))
  else:
    tensor, dense = jnp.asarray(m), m.astype(onp.float64)
  fun = lambda t, x: util.tensor_matmul(util.Tensor(ndim=ndim, tensor=t), x)
  if case["jit"]:
    fun = jax.jit(fun)
  tol = PRECISION * 1e-5 * (1 + onp.abs(dense) @ onp.abs(fv))

  def compare(out, what):
    same_layout(out, v, what)
    got, expected = flat(out), dense @ fv
    require((onp.abs(got - expected) <= tol).all(), what, got=got,
            expected=expected)
  compare(fun(tensor, v), f"tensor product, ndim {ndim}")
  if ndim == 2:
    compare(util.tree_matmul(tensor, v), "matrix product")
    if case["vmap"]:
      several = tree_util.tree_map(lambda *l: jnp.stack(l), v, tree_util.
                                   tree_map(lambda x: 2 * x, v))
      out = jax.vmap(fun, (None, 0))(tensor, several)
      compare(tree_util.tree_map(lambda x: x[0], out), "vectorized product")
      compare(tree_util.tree_map(lambda x: 0.5 * x[1], out),
              "vectorized product")
  raises(NotImplementedError, lambda: util.tensor_matmul(
    util.Tensor(ndim=3, tensor=tensor), v), "tensor with dimension 3")
  return info(d > 1, f"ndim {ndim}", "jit" if case["jit"] else "eager")


# -- lists of trees

@st.composite
def list_cases(draw):
  return {"spec": draw(trees.specs(MIXED, max_leaves=5).filter(
            lambda s: trees.n_leaves(s) > 0)),
          "n": draw(st.one_of(st.integers(1, 4), st.sampled_from(
            [1, 3, 11, 23]))),
          "numpy": draw(st.booleans()),
          "fun": draw(st.sampled_from(["affine", "identity", "restructure",
                                       "sum", "constant"])),
          "map": draw(st.sampled_from(["vmap", "pmap", "jit vmap"])),
          "uuid": draw(st.booleans()),
          "seed": draw(st.integers(0, 9999))}


def function(kind):
  if kind == "affine":
    return lambda t: tree_util.tree_map(lambda x: x * 2 + 1, t)
  if kind == "identity":
    return lambda t: t
  if kind == "restructure":
    def fun(t):
      leaves = tree_util.tree_leaves(t)
      return {"first": leaves[0], "all": (t, leaves[::-1]), "none": None}
    return fun
  if kind == "sum":
    return lambda t: [sum(jnp.sum(l.astype(JF))
                          for l in tree_util.tree_leaves(t))]
  return lambda t: (jnp.arange(3), tree_util.tree_leaves(t)[0])


def check_lists(case):
  # Parallel mapping uses one device per tree
  n = case["n"]
  if case["map"] == "pmap":
    n = min(n, jax.local_device_count())
  lib = onp if case["numpy"] else jnp
  list_of = [build(case["spec"], case["seed"] + 100 * i, jnp)
             for i in range(n)]
  if case["numpy"]:
    list_of = [tree_util.tree_map(onp.asarray, t) for t in list_of]
  ids = [JaxUUID() for _ in range(n)]
  if case["uuid"]:
    list_of = [{"id": i, "tree": t} for i, t in zip(ids, list_of)]

  stacked = list_map.pytree_list_to_leaves(list_of)
  require(tree_util.tree_structure(stacked) == tree_util.tree_structure(
    list_of[0]), "stacking: structure")
  for l, *parts in zip(tree_util.tree_leaves(stacked),
                       *map(tree_util.tree_leaves, list_of)):
    same(l, onp.stack([onp.asarray(p) for p in parts]), "stacked leaf")
  again = list_map.pytree_leaves_to_list(stacked)
  require(len(again) == n, "number of trees", got=len(again), expected=n)
  for i, (a, e) in enumerate(zip(again, list_of)):
    tree_same(a, e, f"tree {i} after stacking and splitting")
    if case["uuid"]:
      require(a["id"].as_uuid == ids[i].as_uuid, "identifier of a tree",
              got=a["id"], expected=ids[i])

  fun = function(case["fun"])
  if case["uuid"]:
    inner = fun
    fun = lambda t: {"id": t["id"], "tree": inner(t["tree"])}
  mapped = {"vmap": list_map.list_vmap, "pmap": list_map.list_pmap,
            "jit vmap": lambda f: jax.jit(list_map.list_vmap(f))}[
              case["map"]](fun)
  outs = mapped(*list_of)
  require(isinstance(outs, list) and len(outs) == n, "number of results",
          got=len(outs), expected=n)
  for i, (out, t) in enumerate(zip(outs, list_of)):
    expected = fun(tree_util.tree_map(jnp.asarray, t))
    require(tree_util.tree_structure(out)
            == tree_util.tree_structure(expected),
            f"{case['map']}: structure of result {i}")
    for a, e in zip(tree_util.tree_leaves(out),
                    tree_util.tree_leaves(expected)):
      require(a.dtype == e.dtype, f"{case['map']}: dtype of result {i}",
              got=a.dtype, expected=e.dtype)
      close(a, e, rtol=1e-5, atol=1e-5, what=f"{case['map']}: result {i}")
    if case["uuid"]:
      require(out["id"].as_uuid == ids[i].as_uuid, "identifier of a result")
  # The arguments can be reused
  tree_same(list_map.pytree_leaves_to_list(stacked)[n - 1], list_of[n - 1],
            "argument after mapping")
  return info(n > 1, case["map"], case["fun"], f"trees {n}",
              "identifiers" if case["uuid"] else "no identifiers",
              lib.__name__)


# -- identifiers

WORD = st.one_of(st.sampled_from([0, 1, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1]),
                 st.integers(0, 2 ** 32 - 1))


@st.composite
def uuid_cases(draw):
  return {"words": draw(st.lists(WORD, min_size=4, max_size=4)),
          "other": draw(st.lists(WORD, min_size=4, max_size=4)),
          "via": draw(st.sampled_from(["jit", "scan", "tree", "callback",
                                       "device", "cond"]))}


def transport(ident, via):
  if via == "jit":
    return jax.jit(lambda x: x)(ident)
  if via == "scan":
    return jax.lax.scan(lambda c, _: (c, None), ident, None, length=3)[0]
  if via == "tree":
    leaves, treedef = tree_util.tree_flatten({"id": ident})
    return tree_util.tree_unflatten(treedef, leaves)["id"]
  if via == "callback":
    out = jax.jit(lambda x: jax.pure_callback(
      lambda l: onp.asarray(l), jax.ShapeDtypeStruct((4,), jnp.uint32),
      x.as_int32s))(ident)
    return JaxUUID(ints=out)
  if via == "cond":
    return jax.jit(lambda x: jax.lax.cond(x.as_int32s[0] >= 0, lambda y: y,
                                          lambda y: y, x))(ident)
  return jax.device_put(ident)


def check_uuid(case):
  words, other = (onp.array(w, dtype=onp.uint32)
                  for w in (case["words"], case["other"]))
  value = sum(int(w) << (32 * i) for i, w in enumerate(case["words"]))
  a, b = JaxUUID(ints=words), JaxUUID(ints=other)
  require(a.as_uuid == uuid.UUID(int=value), "value of the identifier",
          got=a.as_uuid, expected=uuid.UUID(int=value))
  require(str(a) == str(uuid.UUID(int=value)), "text of the identifier")
  require((a.as_uuid == b.as_uuid) == (case["words"] == case["other"]),
          "identifiers are equal exactly if their words are", a=a, b=b)
  out = transport(a, case["via"])
  require(out.as_uuid == a.as_uuid, f"identifier after {case['via']}",
          got=out, expected=a)
  same(onp.asarray(out.as_int32s), words, "words of the identifier")

  # New identifiers
  new = [JaxUUID() for _ in range(20)]
  require(len({i.as_uuid for i in new}) == len(new), "new identifiers agree")
  for i in new[:3]:
    moved = transport(i, case["via"])
    require(moved.as_uuid == i.as_uuid, f"new identifier after {case['via']}",
            got=moved, expected=i)
    require(i.as_uuid.version == 4, "identifier is random", got=i)
  # Each word of the identifiers is used
  table = onp.array([onp.asarray(i.as_int32s) for i in new])
  require(table.shape == (20, 4), "four words", got=table.shape)
  require(all(len(set(col)) > 15 for col in table.T), "words repeat",
          table=table)
  return info(value > 0, case["via"], "leading zeros"
              if value < 2 ** 124 else "all digits")


SUBS = [
  Sub("algebra", algebra_cases, check_algebra, 640, 8000),
  Sub("matrix product", matmul_cases, check_matmul, 480, 6000),
  Sub("lists", list_cases, check_lists, 480, 6000),
  Sub("identifiers", uuid_cases, check_uuid, 240, 4000),
]
