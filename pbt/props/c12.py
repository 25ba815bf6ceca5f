"""Announced formats and rejected requests of the loaders."""
import jax
import jax.numpy as jnp
import numpy as onp
from hypothesis import strategies as st

from jax_sgmc.data import core as data_core
from jax_sgmc.data.numpy_loader import DeviceNumpyDataLoader, NumpyDataLoader

from pbt.core import Sub, info, require
from pbt.data import (DTYPES, SHAPES, array_specs, make_data, rows_of,
                      size_pairs)
from pbt.props.c05 import MODES
from pbt.util import raises


def make_loader(kind, data, **kw):
  return (NumpyDataLoader if kind == "host" else DeviceNumpyDataLoader)(
    **data, **kw)


@st.composite
def format_cases(draw):
  n, mb = draw(size_pairs(9))
  if draw(st.integers(0, 7)) == 0:
    n = draw(st.sampled_from([130, 257, 40000, 70000]))
    mb = draw(st.sampled_from([1, 7, 129, 130]))
  return {"n": n, "mb": mb, "cache": draw(st.integers(1, 4)),
          "extra": draw(array_specs(3)), "seed": draw(st.integers(0, 99)),
          "loader": draw(st.sampled_from(["host", "device"])),
          "copy": draw(st.sampled_from([None, True, False])),
          "mode": draw(st.sampled_from(sorted(MODES) + ["ordered"]))}


def canon(dtype):
  return onp.dtype(jax.dtypes.canonicalize_dtype(dtype))


def same_format(a, b, what):
  """Same keys, shapes and dtypes."""
  require(set(a) == set(b), f"{what}: keys", got=sorted(a), expected=sorted(b))
  for k in a:
    require(tuple(a[k].shape) == tuple(b[k].shape), f"{what}: shape of {k}",
            got=a[k].shape, expected=b[k].shape)
    require(canon(a[k].dtype) == canon(b[k].dtype), f"{what}: dtype of {k}",
            got=a[k].dtype, expected=b[k].dtype)


def check_format(case):
  n, mb, cache = case["n"], case["mb"], case["cache"]
  data = make_data(n, case["extra"], seed=case["seed"])
  kw = {} if case["copy"] is None else {"copy": case["copy"]}
  loader = make_loader(case["loader"], data, **kw)
  require(int(loader.static_information["observation_count"]) == n,
          "observation count", got=loader.static_information)
  single = loader.initializer_batch()
  batch0 = loader.initializer_batch(mb)
  for k in data:
    require(k in single and k in batch0, "key missing in initializer batch",
            key=k)
    require(tuple(single[k].shape) == data[k].shape[1:],
            f"shape of a single observation of {k}", got=single[k].shape,
            expected=data[k].shape[1:])
    require(tuple(batch0[k].shape) == (mb,) + data[k].shape[1:],
            f"shape of a batch of {k}", got=batch0[k].shape)
    require(canon(single[k].dtype) == canon(data[k].dtype),
            f"dtype of {k}", got=single[k].dtype, expected=data[k].dtype)
    require(not onp.asarray(single[k]).any()
            and not onp.asarray(batch0[k]).any(),
            f"initializer batch of {k} is not zero")
  same_format(batch0, {k: onp.asarray(v) for k, v in batch0.items()},
              "initializer")
  # Batches delivered in different ways
  mode = case["mode"]
  if case["loader"] == "host":
    fmt, mb_info = loader.batch_format(cache, mb)
    require(int(mb_info.observation_count) == n and
            int(mb_info.batch_size) == mb, "information of the batch format",
            got=mb_info)
    require(tuple(onp.shape(mb_info.mask)) == (mb,), "mask of the format",
            got=onp.shape(mb_info.mask))
    require(onp.asarray(mb_info.mask).dtype == bool
            and onp.asarray(mb_info.mask).all(), "mask of the format",
            got=mb_info.mask)
    chain = (loader.register_ordered_pipeline(cache, mb_size=mb)
             if mode == "ordered" else
             loader.register_random_pipeline(cache, mb_size=mb, **MODES[mode]))
    for _ in range(2):
      batches, mask = loader.get_batches(chain)
      same_format(fmt, batches, "announced format and batches")
      require(onp.shape(mask) == (cache, mb), "shape of the mask",
              got=onp.shape(mask))
      require(onp.asarray(mask).dtype == bool, "type of the mask",
              got=onp.asarray(mask).dtype)
      rows_of(batches, data, "batches")
  if mode != "ordered":
    init, get, release = data_core.random_reference_data(
      loader, cache if case["loader"] == "host" else 1, mb)
    state = init(**(MODES[mode] if case["loader"] == "host" else {}))
    _, (batch, got) = jax.jit(lambda s: get(s, information=True))(state)
    require(got.mask.shape == (mb,) and got.mask.dtype == bool
            and int(got.observation_count) == n and int(got.batch_size) == mb,
            "information of the batch", got=got)
    same_format(batch0, batch, "initializer batch and batches")
    rows_of(batch, data, "batch")
    release()
  return info(bool(case["extra"]), case["loader"], mode,
              *{d for d, _ in case["extra"]})


# -- rejected requests

REJECT = ["lengths", "batch_random", "batch_full", "batch_register",
          "batch_ordered", "cache_random", "mb_random", "mb_full",
          "epochs_without_shuffle", "device_cache", "no_loader"]


@st.composite
def reject_cases(draw):
  return {"which": draw(st.sampled_from(REJECT)),
          "n": draw(st.integers(1, 9)), "more": draw(st.integers(1, 4)),
          "loader": draw(st.sampled_from(["host", "device"])),
          "mb": draw(st.integers(1, 9)), "cache": draw(st.integers(1, 4)),
          "in_jit": draw(st.booleans())}


class Recording(NumpyDataLoader):
  """Notices whether data has been drawn."""
  drawn = 0

  def get_batches(self, chain_id):
    self.drawn += 1
    return super().get_batches(chain_id)


def check_reject(case):
  which, n, more = case["which"], case["n"], case["more"]
  mb = min(case["mb"], n)
  data = make_data(n, [["float32", [2]]])
  if which == "lengths":
    bad = dict(data, longer=onp.zeros((n + more, 2)))
    raises(Exception, lambda: make_loader(case["loader"], bad),
           "arrays of different length")
    bad = dict(longer=onp.zeros(n + more), **data)
    raises(Exception, lambda: make_loader(case["loader"], bad),
           "arrays of different length")
    return info(True, which)
  device = case["loader"] == "device"
  loader = DeviceNumpyDataLoader(**data) if device else Recording(**data)

  def use(init_get):
    """Constructs and starts the chain."""
    init = init_get[0]
    return init()
  cache = 1 if device else case["cache"]
  zero = -more + 1  # zero or negative
  if which == "batch_random":
    f = lambda: data_core.random_reference_data(loader, cache, n + more)
  elif which == "batch_full":
    f = lambda: data_core.full_reference_data(loader, cache, n + more)
  elif which == "cache_random":
    f = lambda: data_core.random_reference_data(loader, zero, mb)
  elif which == "mb_random":
    f = lambda: data_core.random_reference_data(loader, cache, zero)
  elif which == "mb_full":
    f = lambda: use(data_core.full_reference_data(loader, cache, zero))
  elif which == "device_cache":
    loader = DeviceNumpyDataLoader(**data)
    f = lambda: data_core.random_reference_data(loader, 1 + more, mb)
  elif which == "no_loader":
    class Other(DeviceNumpyDataLoader.__mro__[1]):
      pass
    f = lambda: data_core.random_reference_data(
      Other(on_device=False, **data), 1, mb)
  else:
    loader = Recording(**data)
    if which == "batch_register":
      f = lambda: loader.register_random_pipeline(cache, mb_size=n + more)
    elif which == "batch_ordered":
      f = lambda: loader.register_ordered_pipeline(cache, mb_size=n + more)
    else:
      f = lambda: loader.register_random_pipeline(
        cache, mb_size=mb, in_epochs=True, shuffle=False)
  raises(Exception, f, f"invalid request ({which})")
  require(getattr(loader, "drawn", 0) == 0,
          f"data has been drawn before the rejection ({which})")
  return info(True, which)


# -- isolation from the arrays of the user

@st.composite
def copy_cases(draw):
  n, mb = draw(size_pairs(8))
  return {"n": n, "mb": mb, "cache": draw(st.integers(1, 3)),
          "extra": draw(array_specs(2)), "list": draw(st.booleans()),
          "loader": draw(st.sampled_from(["host", "device"])),
          "explicit": draw(st.booleans()), "when": draw(st.integers(0, 2))}


def check_copy(case):
  n, mb = case["n"], case["mb"]
  data = make_data(n, case["extra"])
  user = {k: v.copy() for k, v in data.items()}
  loader = make_loader(case["loader"], user,
                       **({"copy": True} if case["explicit"] else {}))

  def destroy():
    for v in user.values():
      v[...] = 99 if v.dtype != bool else ~v
  if case["when"] == 0:
    destroy()
  if case["loader"] == "host":
    chain = loader.register_ordered_pipeline(case["cache"], mb_size=mb)
    rnd = loader.register_random_pipeline(case["cache"], mb_size=mb)
    draw = lambda: [loader.get_batches(chain)[0], loader.get_batches(rnd)[0]]
  else:
    init, get, _ = data_core.random_reference_data(loader, 1, mb)
    state = init()
    draw = lambda: [get(state)[1], loader.get_full_data()]
  for step in range(3):
    if case["when"] == step + 1:
      destroy()
    for batch in draw():
      rows_of(batch, data, "batch after a change of the arrays of the user")
  return info(True, case["loader"])


SUBS = [
  Sub("format", format_cases, check_format, 240, 4000, weight=2),
  Sub("reject", reject_cases, check_reject, 240, 2000),
  Sub("copy", copy_cases, check_copy, 160, 1600),
]
