"""Samples saved to HDF5 as reference data."""
import math
import os
from functools import partial

import h5py
import jax
import jax.numpy as jnp
import numpy as onp
from hypothesis import strategies as st
from jax import tree_util

from jax_sgmc import io, scheduler
from jax_sgmc.data import core as data_core
from jax_sgmc.data.hdf5_loader import HDF5Loader

from pbt import trees
from pbt.core import Sub, info, require, scratch_dir
from pbt.props.c05 import MODES, check_mode
from pbt.props.c14 import DTYPES, KEYS
from pbt.util import floats, rng, same

SHAPES = [[], [2], [1, 3], [4]]
LEAF = st.tuples(st.sampled_from(DTYPES), st.sampled_from(SHAPES)).map(list)
ID = ["id", []]


def subtrees(spec, path=()):
  """All nodes which hold leaves, with the path to them."""
  if trees.n_leaves(spec) == 0:
    return
  yield path, spec
  if spec[0] in ("dict", "named"):
    for k, c in spec[1]:
      yield from subtrees(c, path + (k,))
  elif spec[0] in ("list", "tuple"):
    for i, c in enumerate(spec[1]):
      yield from subtrees(c, path + (i,))


def replace_first_leaf(spec, path, new):
  """Replaces the first leaf below the node at the path."""
  if spec[0] == "leaf":
    return new
  children = []
  done = False
  for i, c in enumerate(spec[1]):
    name, child = (c if spec[0] in ("dict", "named") else (i, c))
    if not done and trees.n_leaves(child) and (not path or path[0] == name):
      child = replace_first_leaf(child, path[1:] if path else (), new)
      done = True
    children.append([name, child] if spec[0] in ("dict", "named") else child)
  return [spec[0], children]


def get_node(tree, path):
  for k in path:
    if isinstance(tree, tuple) and hasattr(tree, "_fields"):
      tree = getattr(tree, k) if isinstance(k, str) else tree[k]
    else:
      tree = tree[k]
  return tree


def file_path(chain, path, slash):
  names = [f"/chain~{chain}"] + [
    k if isinstance(k, str) else f"list_element_{k}" for k in path]
  return "/".join(names) + ("/" if slash else "")


@st.composite
def cases(draw):
  spec = draw(trees.specs(LEAF, max_leaves=5, keys=KEYS).filter(
    lambda s: trees.n_leaves(s) > 0))
  nodes = list(subtrees(spec))
  path = list(draw(st.sampled_from([p for p, _ in nodes])))
  if draw(st.integers(0, 2)) == 0:
    path = []
  counts = draw(st.lists(st.integers(1, 9), min_size=1, max_size=3))
  chain = draw(st.integers(0, len(counts) - 1))
  n = counts[chain]
  access = []
  for _ in range(draw(st.integers(1, 3))):
    access.append({
      "mode": draw(st.sampled_from(["ordered"] + sorted(MODES))),
      "mb": draw(st.integers(1, n)), "cache": draw(st.integers(1, 4)),
      "seed": draw(st.integers(0, 20)), "calls": draw(st.integers(1, 4))})
  return {"spec": replace_first_leaf(spec, tuple(path), ["leaf", ID]),
          "path": path, "counts": counts, "chain": chain, "access": access,
          "slash": draw(st.booleans()), "by": draw(st.sampled_from(
            ["path", "file"])),
          "via": draw(st.sampled_from(["collector", "collector", "save"])),
          "through": draw(st.booleans()), "seed": draw(st.integers(0, 99))}


def row_id(chain, rows):
  return 1000 * (chain + 1) + 7 * rows


def table(leaf, i, n, chain, seed):
  dtype, shape = leaf
  if dtype == "id":
    return row_id(chain, onp.arange(n)).astype(onp.int32)
  r = rng(seed, i, chain, n)
  size = (n,) + tuple(shape)
  if dtype == "bool":
    return r.integers(0, 2, size=size).astype(bool)
  if dtype.startswith("float"):
    return floats(r, size, dtype)
  lim = onp.iinfo(dtype)
  return r.integers(lim.min, lim.max, size=size, endpoint=True).astype(dtype)


def write(case, file):
  """Writes the chains with interleaved samples; returns the saved values."""
  spec, counts = case["spec"], case["counts"]
  tables = [trees.build(spec, partial(
    lambda l, i, c: table(l, i, counts[c], c, case["seed"]), c=c))
    for c in range(len(counts))]
  init = tree_util.tree_map(lambda x: jnp.zeros(x.shape[1:], dtype=x.dtype),
                            tables[0])
  collector = io.HDF5Collector(file)
  statics = [scheduler.static_information(samples_collected=n)
             for n in counts]
  if case["via"] == "collector":
    ids = [collector.register_chain(
      init_sample=init, init_checkpoint={}, static_information=s)
      for s in statics]
    for i in range(max(counts)):
      for c, n in enumerate(counts):
        if i < n:
          collector.save(ids[c], [onp.asarray(x[i]) for x in
                                  tree_util.tree_leaves(tables[c])])
    for c in ids:
      collector.finalize(c)
      collector.finished(c)
  else:
    init_fn, save_fn, postprocess = io.save(collector)
    states = [init_fn(init, {}, s) for s in statics]
    for c, n in enumerate(counts):
      def body(state, sample):
        return save_fn(state, jnp.bool_(True), sample)[0], None
      state, _ = jax.lax.scan(
        body, states[c], tree_util.tree_map(jnp.asarray, tables[c]))
      postprocess(state, None)
  return tables


def rows_from(batch, expected, chain, n, what):
  """Identifies the rows and compares all leaves of the batch."""
  td, te = (tree_util.tree_structure(batch),
            tree_util.tree_structure(expected))
  require(td == te, f"{what}: structure", got=td, expected=te)
  leaves = tree_util.tree_leaves(batch)
  exp_leaves = tree_util.tree_leaves(expected)
  pos = [i for i, e in enumerate(exp_leaves)
         if e.ndim == 1 and e.dtype == onp.int32 and
         (e == row_id(chain, onp.arange(n))).all()][0]
  ids = onp.asarray(leaves[pos]).astype(onp.int64)
  rows = (ids - row_id(chain, 0)) // 7
  require(((rows >= 0) & (rows < n)).all() and
          (row_id(chain, rows) == ids).all(),
          f"{what}: values which have not been saved in this leaf", got=ids)
  for i, (a, e) in enumerate(zip(leaves, exp_leaves)):
    same(a, e[rows], f"{what}, leaf {i}")
  return rows


def check_ordered(rows, mask, n, mb, what):
  per = math.ceil(n / mb)
  for k, (r, m) in enumerate(zip(rows, mask)):
    pos = onp.arange(mb) + (k % per) * mb
    require((m == (pos < n)).all(), f"{what}: mask of batch {k}", got=m,
            expected=pos < n)
    require((r[m] == pos[pos < n]).all(), f"{what}: order of batch {k}",
            got=r, expected=pos % n)


def check(case):
  chain, counts = case["chain"], case["counts"]
  n = counts[chain]
  with scratch_dir() as base:
    name = os.path.join(base, "samples.hdf5")
    with h5py.File(name, "w") as file:
      tables = write(case, file)
    expected = get_node(tables[chain], case["path"])
    sample = tree_util.tree_map(
      lambda x: jnp.zeros(x.shape[1:], dtype=x.dtype), expected)
    handle = h5py.File(name, "r") if case["by"] == "file" else name
    loader = HDF5Loader(
      handle, subdir=file_path(chain, case["path"], case["slash"]),
      sample=sample)
    try:
      count = loader.static_information["observation_count"]
      require(int(count) == n, "observation count", got=count, expected=n)
      for a in case["access"]:
        what = a["mode"]
        through = case["through"]
        if through:
          rows, mask = access_core(loader, a, expected, chain, n, what)
        else:
          rows, mask = access_loader(loader, a, expected, chain, n, what)
        if a["mode"] == "ordered":
          check_ordered(rows, mask, n, a["mb"], what)
        else:
          check_mode(rows, mask, dict(a), n)
    finally:
      loader.close()
  spec = case["spec"]
  return info(trees.n_leaves(spec) > 1 and n > 1,
              *trees.kinds(spec), "sub-tree" if case["path"] else "whole",
              *{a["mode"] for a in case["access"]},
              "several chains" if len(counts) > 1 else "one chain",
              "through data API" if case["through"] else "loader")


def access_loader(loader, a, expected, chain, n, what):
  if a["mode"] == "ordered":
    cid = loader.register_ordered_pipeline(a["cache"], mb_size=a["mb"])
  else:
    cid = loader.register_random_pipeline(
      a["cache"], mb_size=a["mb"], seed=a["seed"], **MODES[a["mode"]])
  init = loader.initializer_batch(a["mb"])
  same_format(init, expected, (a["mb"],), f"{what}: initializer")
  rows, masks = [], []
  for _ in range(a["calls"]):
    batch, mask = loader.get_batches(cid)
    mask = onp.asarray(mask)
    require(mask.shape == (a["cache"], a["mb"]), f"{what}: mask shape",
            got=mask.shape)
    r = rows_from(batch, expected, chain, n, what)
    require(r.shape == (a["cache"], a["mb"]), f"{what}: batch shape",
            got=r.shape, expected=(a["cache"], a["mb"]))
    rows.append(r)
    masks.append(mask)
  return onp.concatenate(rows), onp.concatenate(masks)


def same_format(batch, expected, lead, what):
  require(tree_util.tree_structure(batch) ==
          tree_util.tree_structure(expected), f"{what}: structure")
  for b, e in zip(tree_util.tree_leaves(batch),
                  tree_util.tree_leaves(expected)):
    require(tuple(b.shape) == lead + e.shape[1:] and b.dtype == e.dtype,
            f"{what}: format", got=(b.shape, b.dtype),
            expected=(lead + e.shape[1:], e.dtype))
    require(not onp.asarray(b).any(), f"{what}: not zero", got=b)


def access_core(loader, a, expected, chain, n, what):
  rows, masks = [], []
  if a["mode"] == "ordered":
    init, full_map, release = data_core.full_reference_data(
      loader, a["cache"], a["mb"])
    state = init()
    for _ in range(min(a["calls"], 2)):
      def fun(batch, mask, carry):
        return {"batch": batch, "mask": mask}, carry
      state, (results, _) = full_map(fun, state, None, masking=True)
      mask = onp.asarray(results["mask"]).astype(bool)
      r = rows_from(results["batch"], expected, chain, n, what)
      require(r.shape[0] == math.ceil(n / a["mb"]), f"{what}: batches",
              got=r.shape)
      rows.append(r)
      masks.append(mask)
    release()
    return onp.concatenate(rows), onp.concatenate(masks)
  init, get, release = data_core.random_reference_data(
    loader, a["cache"], a["mb"])
  state = init(seed=a["seed"], **MODES[a["mode"]])
  get = jax.jit(partial(get, information=True))
  for _ in range(a["calls"] * 2):
    state, (batch, mb_info) = get(state)
    rows.append(rows_from(batch, expected, chain, n, what))
    require(int(mb_info.observation_count) == n, f"{what}: information",
            got=mb_info.observation_count)
    masks.append(onp.asarray(mb_info.mask).astype(bool))
  release()
  return onp.stack(rows), onp.stack(masks)


# -- many samples and chains

@st.composite
def large_cases(draw):
  case = draw(cases())
  if draw(st.booleans()):
    case["counts"] = [draw(st.integers(1, 3)) for _ in range(
      draw(st.integers(10, 13)))]
    case["chain"] = draw(st.sampled_from([0, 1, len(case["counts"]) - 1]))
    case["via"] = "collector"
  else:
    case["counts"] = [draw(st.integers(60, 300))]
    case["chain"] = 0
  n = case["counts"][case["chain"]]
  for a in case["access"]:
    a.update(mb=draw(st.integers(max(1, n // 20), n)))
  return case


SUBS = [
  Sub("reload", cases, check, 400, 6000),
  Sub("large", large_cases, check, 40, 500, weight=0.5),
]
