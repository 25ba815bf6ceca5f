"""Batches of tensorflow datasets."""
import math
import os
from functools import partial

os.environ.setdefault("TF_NUM_INTRAOP_THREADS", "1")
os.environ.setdefault("TF_NUM_INTEROP_THREADS", "2")
import jax
import jax.numpy as jnp
import numpy as onp
import tensorflow as tf
from hypothesis import strategies as st

from jax_sgmc.data import core as data_core
from jax_sgmc.data.tensorflow_loader import TensorflowDataLoader

from pbt.core import Sub, info, require
from pbt.util import rng

DTYPES = ["float32", "float64", "int32", "int64", "uint8", "bool", "float16"]
SHAPES = [[], [2], [2, 3], [1], [1, 2]]


@st.composite
def cases(draw, laws=False):
  n = draw(st.integers(1, 30))
  features = draw(st.lists(st.tuples(
    st.sampled_from(DTYPES), st.sampled_from(SHAPES), st.booleans()
  ).map(list), min_size=0, max_size=3))
  chains = []
  for _ in range(draw(st.integers(1, 3))):
    mb = draw(st.integers(1, n))
    chains.append({"mb": mb, "cache": draw(st.integers(1, 4))})
  return {"n": n, "features": features, "chains": chains,
          "nested": draw(st.booleans()),
          # Number of excluded features; strings have to be excluded
          "exclude": draw(st.integers(0, 2)), "text": draw(st.booleans()),
          "buffer": draw(st.sampled_from([1, 2, 3, 5, 10, 40, 100])),
          "order": draw(st.sampled_from(["forward", "shuffled"])),
          "passes": draw(st.integers(1, 6)),
          "through": draw(st.sampled_from(
            ["loader", "loader", "data", "jit", "scan"])),
          "interleave": draw(st.lists(st.integers(0, len(chains) - 1),
                                      max_size=8)),
          "seed": draw(st.integers(0, 99))}


def make(case):
  """Arrays of the dataset and names of excluded features."""
  n = case["n"]
  r = rng(5, n, case["seed"])
  # The id of an observation is not its position
  order = r.permutation(n) if case["order"] == "shuffled" else onp.arange(n)
  data = {"row": order.astype(onp.int32)}
  excluded = []
  for i, (dtype, shape, _) in enumerate(case["features"]):
    shape = (n,) + tuple(shape)
    if dtype == "bool":
      a = r.integers(0, 2, size=shape).astype(bool)
    elif dtype.startswith("float"):
      a = (r.integers(-400, 400, size=shape) / 8).astype(dtype)
    else:
      a = r.integers(0, 100, size=shape).astype(dtype)
    data[f"f{i}"] = a
    if i < case["exclude"]:
      excluded.append(f"f{i}")
  if case["nested"]:
    data["group"] = {"x": r.normal(size=(n, 2)).astype(onp.float32),
                     "y": -order.astype(onp.int32)}
  if case["text"]:
    data["name"] = onp.array([f"obs {i}" for i in order])
    excluded.append("name")
  return data, excluded


def canonical(dtype):
  return jax.dtypes.canonicalize_dtype(onp.dtype(dtype))


def check_tree(batch, expected, index, lead, what):
  require(set(batch) == set(expected), f"{what}: features",
          got=sorted(batch), expected=sorted(expected))
  for k, e in expected.items():
    if isinstance(e, dict):
      check_tree(batch[k], e, index, lead, f"{what}, {k}")
      continue
    got = onp.asarray(batch[k])
    require(got.dtype == canonical(e.dtype), f"{what}: dtype of {k}",
            got=got.dtype, expected=canonical(e.dtype))
    require(got.shape == lead + e.shape[1:], f"{what}: shape of {k}",
            got=got.shape, expected=lead + e.shape[1:])
    if index is None:
      require(not got.any(), f"{what}: {k} is not zero")
    else:
      require((got.astype(onp.float64) ==
               e[index].astype(got.dtype).astype(onp.float64)).all(),
              f"{what}: {k} does not belong to the other features",
              rows=index)


def index_of(batch, data, what):
  """Position of the observations in the dataset."""
  inverse = onp.argsort(data["row"])
  rows = onp.asarray(batch["row"])
  require(((rows >= 0) & (rows < len(inverse))).all(),
          f"{what}: not an observation of the dataset", got=rows)
  return inverse[rows]


def check_counts(seq, n, buffer, what):
  """Number of visits after any number of draws."""
  onehot = onp.zeros((len(seq), n), dtype=onp.int64)
  onehot[onp.arange(len(seq)), seq] = 1
  counts = onp.cumsum(onehot, axis=0)
  m = onp.arange(1, len(seq) + 1)
  upper = -(-(m + buffer) // n)
  require((counts.max(axis=1) <= upper).all(),
          f"{what}: observation is drawn too often", n=n, buffer=buffer,
          counts=counts[-1], draws=len(seq))
  missing = onp.maximum((m // n)[:, None] - counts, 0).sum(axis=1)
  require((missing <= buffer).all(),
          f"{what}: observations are not drawn", n=n, buffer=buffer,
          counts=counts[-1], draws=len(seq))


class Chain:
  """Access to the batches of one chain."""

  def __init__(self, loader, c, through):
    self.c = c
    self.through = through
    if through == "loader":
      self.id = loader.register_random_pipeline(c["cache"], mb_size=c["mb"])
      self.loader = loader
    else:
      init, get, self.release = data_core.random_reference_data(
        loader, c["cache"], c["mb"])
      self.state = init()
      get = partial(get, information=True)
      self.get = jax.jit(get) if through == "jit" else get
      self.scan = jax.jit(lambda s: jax.lax.scan(
        lambda s, _: get(s), s, None, length=3))

  def draw(self, data, expected, what):
    """List of index arrays."""
    c = self.c
    n = len(data["row"])
    if self.through == "loader":
      batch, mask = self.loader.get_batches(self.id)
      require(mask is None or onp.asarray(mask).all(),
              f"{what}: observations are masked")
      lead = (c["cache"], c["mb"])
      index = index_of(batch, data, what)
      check_tree(batch, expected, index, lead, what)
      return list(index)
    out = []
    if self.through == "scan":
      self.state, (batches, infos) = self.scan(self.state)
      items = [jax.tree_util.tree_map(lambda x, i=i: x[i], batches)
               for i in range(3)]
      counts, masks = onp.ravel(infos.observation_count), infos.mask
    else:
      self.state, (batch, mb_info) = self.get(self.state)
      items, masks = [batch], [mb_info.mask]
      counts = onp.ravel(mb_info.observation_count)
    require((counts == n).all(), f"{what}: observation count", got=counts)
    require(onp.asarray(masks).all(), f"{what}: observations are masked")
    for item in items:
      index = index_of(item, data, what)
      check_tree(item, expected, index, (c["mb"],), what)
      out.append(index)
    return out


def check(case):
  n, buffer = case["n"], case["buffer"]
  tf.random.set_seed(case["seed"])
  data, excluded = make(case)
  expected = {k: v for k, v in data.items() if k not in excluded}
  pipeline = tf.data.Dataset.from_tensor_slices(data)
  kwargs = {"exclude_keys": list(excluded)} if excluded else {}
  loader = TensorflowDataLoader(pipeline, shuffle_cache=buffer, **kwargs)
  require(int(loader.static_information["observation_count"]) == n,
          "observation count", got=loader.static_information)
  for c in case["chains"]:
    check_tree(loader.initializer_batch(c["mb"]), expected, None, (c["mb"],),
               "initializer batch")
  if case["through"] != "loader":
    case = dict(case, chains=case["chains"][:2])
  single = loader.initializer_batch()
  check_tree(single, expected, None, (), "initializer observation")
  chains = [Chain(loader, c, case["through"]) for c in case["chains"]]
  seqs = [[] for _ in chains]
  for i in case["interleave"]:
    if i < len(chains):
      seqs[i] += chains[i].draw(data, expected, f"chain {i}")
  for i, c in enumerate(case["chains"]):
    total = min(case["passes"] * n + c["mb"], 150)
    if case["through"] != "loader":
      total = min(total, 20 * c["mb"])
    while sum(len(s) for s in seqs[i]) < total:
      seqs[i] += chains[i].draw(data, expected, f"chain {i}")
  for i, seq in enumerate(seqs):
    check_counts(onp.concatenate(seq), n, buffer, f"chain {i}")
  return info(len(case["features"]) + case["nested"] > 0 and n > 1,
              case["through"], f"chains {len(chains)}",
              "excluded" if excluded else "nothing excluded",
              "nested" if case["nested"] else "flat",
              "whole dataset in buffer" if buffer >= n else "small buffer")


# -- streams of the chains

@st.composite
def stream_cases(draw):
  return {"n": draw(st.integers(12, 40)),
          "buffer": draw(st.sampled_from([12, 50])),
          "mb": draw(st.integers(1, 5)), "cache": draw(st.integers(1, 3)),
          "order": draw(st.lists(st.integers(0, 1), max_size=10)),
          "seed": draw(st.integers(0, 999))}


def check_streams(case):
  """Chains neither share nor repeat the stream of another chain."""
  n = case["n"]
  tf.random.set_seed(case["seed"])
  data = {"row": onp.arange(n, dtype=onp.int32)}
  loader = TensorflowDataLoader(tf.data.Dataset.from_tensor_slices(data),
                                shuffle_cache=case["buffer"])
  c = {"mb": case["mb"], "cache": case["cache"]}
  chains = [Chain(loader, c, "loader") for _ in range(2)]
  seqs = [[], []]
  rest = math.ceil(60 / (c["mb"] * c["cache"]))
  for i in case["order"] + [0, 1] * rest:
    seqs[i] += chains[i].draw(data, data, f"chain {i}")
  a, b = (onp.concatenate(s)[:60] for s in seqs)
  for i, s in enumerate(seqs):
    check_counts(onp.concatenate(s), n, case["buffer"], f"chain {i}")
  require(not (a == b).all(), "two chains return the same batches", got=a)
  require(not (a[:n] == onp.arange(n)).all(), "the data is not shuffled",
          got=a[:n])
  return info(True, "streams")


@st.composite
def large_cases(draw):
  case = draw(cases())
  n = draw(st.one_of(st.integers(100, 400), st.sampled_from([128, 257])))
  case.update(n=n, passes=min(case["passes"], 3),
              buffer=draw(st.sampled_from([1, 10, 100, 128, 1000])),
              chains=[{"mb": draw(st.integers(n // 20, n)),
                       "cache": c["cache"]} for c in case["chains"]])
  return case


SUBS = [
  Sub("batches", cases, check, 200, 3000, weight=3),
  Sub("streams", stream_cases, check_streams, 80, 800),
  Sub("large", large_cases, check, 32, 400, weight=0.5),
]
