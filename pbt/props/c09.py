"""Random batches of the device loader."""
import jax
import jax.numpy as jnp
import numpy as onp
from hypothesis import strategies as st
from scipy import stats

from jax_sgmc.data import core as data_core
from jax_sgmc.data.numpy_loader import DeviceNumpyDataLoader

from pbt.core import Sub, info, require
from pbt.data import array_specs, make_data, rows_of, size_pairs


def chisquare(counts, expected=None):
  counts = onp.asarray(counts, dtype=float).reshape(-1)
  return stats.chisquare(counts, expected).pvalue


def source(data, mb):
  return data_core.random_reference_data(DeviceNumpyDataLoader(**data), 1, mb)


def check_info(mb_info, n, mb, what):
  require(int(onp.ravel(mb_info.observation_count)[0]) == n,
          f"{what}: observation count", got=mb_info.observation_count)
  require(int(onp.ravel(mb_info.batch_size)[0]) == mb, f"{what}: batch size",
          got=mb_info.batch_size)
  mask = onp.asarray(mb_info.mask)
  require(mask.shape[-1] == mb and mask.astype(bool).all(),
          f"{what}: samples are not all valid", got=mask)


def case_key(kind, seed):
  """Keys differing in the low word, in both or in the high word only."""
  if kind == "seed":
    return jax.random.PRNGKey(seed)
  if kind == "split":
    return jax.random.split(jax.random.PRNGKey(seed))[1]
  return jnp.array([seed, 7], dtype=jnp.uint32)


@st.composite
def stream_cases(draw):
  n, mb = draw(size_pairs(12))
  return {"n": n, "mb": mb, "extra": draw(array_specs()),
          "key": draw(st.integers(0, 10 ** 6)),
          "count": draw(st.sampled_from([1, 2, 5, 9])),
          "kind": draw(st.sampled_from(["seed", "split", "high"])),
          "default_key": draw(st.integers(0, 5)) == 0}


def check_stream(case):
  n, mb, count = case["n"], case["mb"], case["count"]
  data = make_data(n, case["extra"])
  init, get, release = source(data, mb)
  if case["default_key"]:
    key, kw = jax.random.PRNGKey(0), {}
  else:
    key = case_key(case["kind"], case["key"])
    kw = {"key": key}

  def loop(state, information=True):
    out = []
    for _ in range(count):
      state, item = get(state, information=information)
      out.append(item)
    return out

  ref = loop(init(**kw))
  rows = []
  for i, (batch, mb_info) in enumerate(ref):
    idx = rows_of(batch, data, f"batch {i}")
    require(idx.shape == (mb,), "shape of the batch", got=idx.shape)
    check_info(mb_info, n, mb, f"batch {i}")
    rows.append(idx)
  rows = onp.stack(rows)

  def same(got, what):
    require((onp.asarray(got) == rows).all(),
            f"{what}: sequence is no function of the key", got=got,
            expected=rows)
  # A second chain with the same key, without information
  same([onp.asarray(b["row"]) for b in loop(init(**kw), False)], "repeated")
  # An equal loader
  init2, get2, _ = source(data, mb)
  state = init2(**kw)
  got = []
  # ... while other chains are used
  noise = init2(key=case_key(case["kind"], case["key"] + 1))
  for _ in range(count):
    noise, _ = get2(noise)
    state, batch = get2(state)
    got.append(onp.asarray(batch["row"]))
  same(got, "other loader")

  def scan(k):
    state = init(key=k)
    def body(s, _):
      s, (batch, mb_info) = get(s, information=True)
      return s, (batch, mb_info.mask)
    return jax.lax.scan(body, state, None, length=count)[1]
  batch, mask = jax.jit(scan)(key)
  same(batch["row"], "compiled")
  require(onp.asarray(mask).all(), "compiled: masked samples")
  rows_of(batch, data, "compiled")
  keys = jnp.stack([case_key(case["kind"], case["key"] + 5), key,
                    case_key(case["kind"], case["key"] + 9)])
  batch, mask = jax.vmap(scan)(keys)
  same(batch["row"][1], "vectorized")
  rows_of(batch, data, "vectorized")
  release()
  return info(n > 1 and count > 1, "default key" if case["default_key"]
              else "key", f"arrays {1 + len(case['extra'])}")


@st.composite
def law_cases(draw):
  return {"n": draw(st.integers(2, 7)), "mb": draw(st.integers(1, 4)),
          "kind": draw(st.sampled_from(["seed", "split", "high"])),
          "key": draw(st.integers(0, 10 ** 6))}


def check_law(case):
  n = case["n"]
  mb = min(case["mb"], n)
  data = make_data(n, [])
  init, get, _ = source(data, mb)
  chains, count = 400, 20

  def run(key):
    def body(s, _):
      s, batch = get(s)
      return s, batch["row"]
    return jax.lax.scan(body, init(key=key), None, length=count)[1]
  # Keys as a user would chose them
  keys = jax.vmap(lambda k: case_key(case["kind"], k))(
    case["key"] + jnp.arange(chains))
  rows = onp.asarray(jax.jit(jax.vmap(run))(keys))  # chains, count, mb
  labels = []

  def uniform(x, what):
    p = chisquare(onp.bincount(x.reshape(-1), minlength=n))
    require(p > 1e-9, f"{what} is not uniform", p=p,
            counts=onp.bincount(x.reshape(-1), minlength=n))

  def independent(x, y, what):
    table = onp.zeros((n, n))
    onp.add.at(table, (x.reshape(-1), y.reshape(-1)), 1)
    p = chisquare(table)
    require(p > 1e-9, f"{what} are not independent and uniform", p=p,
            table=table)
    labels.append(what)
  uniform(rows, "selection")
  for j in range(mb):
    uniform(rows[:, :, j], f"position {j}")
  uniform(rows[:, 0], "first batch")
  for j in range(1, mb):
    independent(rows[:, :, 0], rows[:, :, j], "positions of a batch")
  independent(rows[:, 0:-1:2, -1], rows[:, 1::2, 0], "consecutive batches")
  independent(rows[:, 0:-1:2, 0], rows[:, 1::2, 0], "consecutive batches")
  independent(rows[0::2], rows[1::2], "chains of different keys")
  return info(True, *labels)


@st.composite
def large_cases(draw):
  n = draw(st.one_of(st.integers(40, 400), st.sampled_from(
    [128, 256, 257, 1000, 33000, 70001])))
  mb = draw(st.sampled_from([1, 7, 64, 200, 300]))
  return dict(draw(stream_cases()), n=n, mb=min(n, mb))


def check_large(case):
  """Also uniform over large datasets."""
  check_stream(case)
  n = case["n"]
  init, get, release = source(make_data(n, []), 40)
  def body(state, _):
    return get(state)
  _, batch = jax.jit(lambda s: jax.lax.scan(body, s, None, length=200))(
    init(key=jax.random.PRNGKey(case["key"])))
  release()
  rows = onp.asarray(batch["row"]).reshape(-1)
  p = chisquare(onp.bincount(rows * 16 // n, minlength=16),
                rows.size * onp.diff(-(-onp.arange(17) * n // 16)) / n)
  require(p > 1e-10, "observations of a large dataset are not equally likely",
          p=p)
  return info(True, "large")


SUBS = [
  Sub("stream", stream_cases, check_stream, 100, 2400, weight=2),
  Sub("law", law_cases, check_law, 64, 800),
  Sub("large", large_cases, check_large, 24, 300, weight=0.7),
]
