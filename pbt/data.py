"""Datasets whose rows can be identified from the batches."""
import numpy as onp
from hypothesis import strategies as st

from pbt.core import require
from pbt.util import rng

DTYPES = ["float32", "int32", "float64", "uint8", "bool", "int64", "float16",
          "int8"]
SHAPES = [[], [1], [3], [2, 2], [4, 1, 2]]


@st.composite
def array_specs(draw, max_extra=2, dtypes=None, shapes=None):
  n = draw(st.integers(0, max_extra))
  return [[draw(st.sampled_from(dtypes or DTYPES)),
           draw(st.sampled_from(shapes or SHAPES))] for _ in range(n)]


def make_data(n, extra, seed=0, id_dtype="int32"):
  """Dictionary of arrays, ``row`` identifies the observation."""
  r = rng(17, n, seed)
  data = {"row": onp.arange(n).astype(id_dtype)}
  for i, (dtype, shape) in enumerate(extra):
    shape = (n,) + tuple(shape)
    if dtype == "bool":
      a = r.integers(0, 2, size=shape).astype(bool)
    elif dtype.startswith("float"):
      a = (r.integers(-400, 400, size=shape) / 8).astype(dtype)
      # Missing and extreme values are data, too
      rare = r.uniform(size=shape) < r.choice([0.0, 0.2])
      a = onp.where(rare, r.choice(
        [onp.nan, onp.inf, -onp.inf], size=shape), a).astype(dtype)
    else:
      limits = onp.iinfo("int32" if dtype == "int64" else dtype)
      a = r.integers(limits.min, limits.max, size=shape, endpoint=True
                     ).astype(dtype)
    # The memory layout has no influence
    if (i + seed) % 3 == 1:
      a = onp.asfortranarray(a)
    elif (i + seed) % 3 == 2:
      a = onp.repeat(a, 2, axis=0)[::-2][::-1]
    data[f"a{i}"] = a
  return data


def rows_of(batch, data, what):
  """Recovers the row indices of a (nested) batch and checks its content."""
  require(set(batch) == set(data), f"{what}: keys", got=sorted(batch),
          expected=sorted(data))
  idx = onp.asarray(batch["row"]).astype(onp.int64)
  n = len(data["row"])
  require(((idx >= 0) & (idx < n)).all(), f"{what}: not a row of the dataset",
          got=idx)
  for name, array in data.items():
    got = onp.asarray(batch[name])
    expected = array[idx]
    require(got.shape == expected.shape, f"{what}: shape of {name}",
            got=got.shape, expected=expected.shape)
    require(onp.array_equal(got.astype(onp.float64),
                            expected.astype(onp.float64), equal_nan=True),
            f"{what}: {name} is not aligned with the other arrays",
            rows=idx, got=got, expected=expected)
  return idx


def size_pairs(max_n, min_n=1):
  """Pairs of dataset and batch size, mostly without common divisor."""
  pairs = [(n, mb) for n in range(min_n, max_n + 1) for mb in range(1, n + 1)]
  return st.sampled_from(pairs)
