"""Maps over the complete dataset."""
import math

import jax
import jax.numpy as jnp
import numpy as onp
from hypothesis import strategies as st

from jax_sgmc.data import core as data_core
from jax_sgmc.data.numpy_loader import DeviceNumpyDataLoader, NumpyDataLoader

from pbt.core import Sub, info, require
from pbt.data import size_pairs
from pbt.util import close, same


def dataset(n):
  r = onp.random.default_rng(n)
  return {"row": onp.arange(n, dtype=onp.int32),
          "y": (r.integers(-64, 64, size=(n, 2)) / 8).astype(onp.float32),
          # Dimensions of size one belong to the observation
          "one": (onp.arange(n) % 251).astype(onp.uint8)[:, None],
          "col": r.normal(size=(n, 1, 3, 1)).astype(onp.float32)}


def loader_for(kind, data):
  return (NumpyDataLoader if kind == "host" else DeviceNumpyDataLoader)(**data)


def result_of(row, y, one, col):
  """Result of a single observation, as a pytree."""
  require(onp.shape(row) == () and onp.shape(y) == (2,)
          and onp.shape(one) == (1,) and onp.shape(col) == (1, 3, 1),
          "shape of an observation", got=[onp.shape(v) for v in (
            row, y, one, col)])
  return {"one": one, "col": col[:, ::-1] * one.astype(jnp.float32),
          "id": row * 2 + 1, "vec": jnp.stack([y[0] * 2.0, y[1] - y[0]]),
          "mat": y[:, None] * jnp.stack([y, y * 2.0, y + row]).T,
          "num": y[0] + 0.5 * row}


def expected_results(data, rows):
  y, row = data["y"][rows], rows
  one, col = data["one"][rows], data["col"][rows]
  return {"one": one,
          "col": col[:, :, ::-1] * one[:, None, None].astype(onp.float32),
          "id": row * 2 + 1,
          "vec": onp.stack([y[:, 0] * 2, y[:, 1] - y[:, 0]], axis=-1),
          "mat": y[:, :, None] * onp.stack(
            [y, y * 2, y + row[:, None]], axis=1).transpose(0, 2, 1),
          "num": y[:, 0] + 0.5 * row}


def initial_carry(n_batches):
  return {"count": jnp.array(0), "hash": jnp.array(1.0),
          "first": -jnp.ones(n_batches, dtype=jnp.int32)}


def next_carry(carry, batch):
  """The order of the batches determines the carry."""
  return {"count": carry["count"] + 1,
          "hash": jnp.mod(carry["hash"] * 3.0 + batch["row"][0] + 1.0, 997.0),
          "first": carry["first"].at[carry["count"]].set(
            batch["row"][0].astype(jnp.int32))}


def check_carry(carry, starts, what):
  require(int(carry["count"]) == len(starts), f"{what}: number of batches",
          got=carry["count"], expected=len(starts))
  same(carry["first"], onp.array(starts, dtype=onp.int32),
       f"{what}: order of the batches in the carry")
  h = 1.0
  for s in starts:
    h = (h * 3 + s + 1) % 997
  close(carry["hash"], h, what=f"{what}: carry")


def batched_fun(masking, information):
  def fun(batch, *args):
    carry = args[-1]
    mb_info = None
    if information:
      batch, mb_info = batch
    per_obs = jax.vmap(result_of)(
      batch["row"], batch["y"], batch["one"], batch["col"])
    new = next_carry(carry, batch)
    extra = {} if mb_info is None else {
      "info_mask": jnp.asarray(mb_info.mask) * 1,
      "obs": jnp.asarray(mb_info.observation_count),
      "mb": jnp.asarray(mb_info.batch_size)}
    if masking:
      mask = args[0]
      masked = {
        "sum": jnp.sum(jnp.where(mask, per_obs["num"], 0.0)),
        "rows": batch["row"], "mask": mask * 1}
      masked.update(extra)
      return masked, new
    if mb_info is not None:
      n = batch["row"].shape[0]
      per_obs = dict(per_obs, info_mask=extra["info_mask"],
                     obs=jnp.full(n, extra["obs"]),
                     mb=jnp.full(n, extra["mb"]))
    return per_obs, new
  return fun


def check_results(results, case, data, offset, what):
  n, mb = case["n"], case["mb"]
  masking, information = case["masking"], case["information"]
  batches = math.ceil(n / mb)
  order = (onp.arange(batches * mb) + offset) % n
  valid = onp.arange(batches * mb) < n
  if not masking:
    expected = expected_results(data, order[:n])
    for k, v in expected.items():
      close(results[k], v, what=f"{what}: result {k}", n=n, mb=mb)
    if information and not case.get("no_info_results"):
      require((onp.asarray(results["info_mask"]) == 1).all(),
              f"{what}: valid observation is masked",
              got=results["info_mask"])
      require((onp.asarray(results["obs"]) == n).all(),
              f"{what}: number of observations in the information",
              got=results["obs"])
      require((onp.asarray(results["mb"]) == mb).all(),
              f"{what}: batch size in the information", got=results["mb"])
    return
  rows = onp.asarray(results["rows"])
  mask = onp.asarray(results["mask"]).astype(bool)
  require(rows.shape == (batches, mb), f"{what}: shape of the batches",
          got=rows.shape, expected=(batches, mb))
  require((mask == valid.reshape(batches, mb)).all(), f"{what}: mask",
          got=mask, expected=valid.reshape(batches, mb))
  require((rows[mask] == order[:n]).all(),
          f"{what}: observations of the pass", got=rows[mask],
          expected=order[:n])
  num = expected_results(data, order)["num"] * valid
  close(results["sum"], num.reshape(batches, mb).sum(1), rtol=1e-4, atol=1e-4,
        what=f"{what}: masked sums")
  if information:
    same(onp.asarray(results["info_mask"]).astype(bool).reshape(batches, mb),
         valid.reshape(batches, mb), f"{what}: mask in the information")
    require((onp.asarray(results["obs"]) == n).all()
            and (onp.asarray(results["mb"]) == mb).all(),
            f"{what}: information", got=(results["obs"], results["mb"]))


@st.composite
def base_cases(draw):
  n, mb = draw(size_pairs(13))
  return {"n": n, "mb": mb, "cache": draw(st.integers(1, 5)),
          "loader": draw(st.sampled_from(["host", "device"])),
          "masking": draw(st.booleans()),
          "information": draw(st.booleans()),
          "jit": draw(st.booleans())}


@st.composite
def map_cases(draw):
  case = draw(base_cases())
  case["offset"] = draw(st.integers(0, case["n"] - 1)) \
    if case["loader"] == "device" else 0
  case["ops"] = draw(st.lists(st.integers(0, 2), min_size=1, max_size=5))
  if draw(st.booleans()):
    case["ops"] = case["ops"] + [case["ops"][-1]] * 2
  return case


def check_map(case):
  """Several independent map states, several passes each."""
  n, mb = case["n"], case["mb"]
  data = dataset(n)
  init_fn, map_fn, release = data_core.full_reference_data(
    loader_for(case["loader"], data), cached_batches_count=case["cache"],
    mb_size=mb)
  batches = math.ceil(n / mb)
  fun = batched_fun(case["masking"], case["information"])

  def one_pass(state, carry):
    return map_fn(fun, state, carry, masking=case["masking"],
                  information=case["information"])
  if case["jit"]:
    one_pass = jax.jit(one_pass)
  states, passes = {}, {}
  for s in case["ops"]:
    # The first map state on the device starts with an offset
    offset = case["offset"] if s == 0 else 0
    if s not in states:
      states[s] = init_fn(offset=offset) if offset else init_fn()
    passes[s] = passes.get(s, 0) + 1
    states[s], (results, carry) = one_pass(
      states[s], initial_carry(batches))
    what = f"state {s}, pass {passes[s]}"
    check_results(results, case, data, offset, what)
    check_carry(carry, [(offset + k * mb) % n for k in range(batches)], what)
  release()
  return info(max(passes.values()) > 1 and mb < n, case["loader"],
              "jit" if case["jit"] else "no jit",
              "masking" if case["masking"] else "results",
              "information" if case["information"] else "plain",
              "surplus" if n % mb else "divides",
              "several passes" if max(passes.values()) > 1 else "one pass",
              "several states" if len(states) > 1 else "one state")


# -- stateless mapper, also nested in loops and without batches

@st.composite
def mapper_cases(draw):
  case = draw(base_cases())
  case["batched"] = draw(st.booleans())
  if not case["batched"]:
    case["masking"] = False
  case["passes"] = draw(st.integers(1, 4))
  case["scan"] = draw(st.booleans())
  case["carry"] = draw(st.sampled_from(["count", "none"])) \
    if not case["batched"] else "full"
  return case


def check_mapper(case):
  n, mb = case["n"], case["mb"]
  data = dataset(n)
  mapper, release = data_core.full_data_mapper(
    loader_for(case["loader"], data), case["cache"], mb)
  batches = math.ceil(n / mb)
  batched = case["batched"]
  if batched:
    fun = batched_fun(case["masking"], case["information"])
    init = initial_carry(batches)
  else:
    def fun(obs, carry):
      extra = {}
      if case["information"]:
        obs, mb_info = obs
        extra = {"obs": jnp.asarray(mb_info.observation_count),
                 "mb": jnp.asarray(mb_info.batch_size)}
      # A single observation without the dimension of the batch
      out = dict(result_of(obs["row"], obs["y"], obs["one"], obs["col"]),
                 **extra)
      return out, None if carry is None else carry + 1
    init = None if case["carry"] == "none" else jnp.array(0)

  def one_pass(carry):
    return mapper(fun, carry, masking=case["masking"],
                  information=case["information"], batched=batched)
  if case["scan"]:
    # Several passes in one compiled loop
    def loop(init_):
      def body(_, __):
        return None, one_pass(init_)
      return jax.lax.scan(body, None, None, length=case["passes"])[1]
    out = (jax.jit(loop) if case["jit"] else loop)(init)
    outs = [jax.tree_util.tree_map(lambda x, i=i: x[i], out)
            for i in range(case["passes"])]
  else:
    f = jax.jit(one_pass) if case["jit"] else one_pass
    outs = [f(init) for _ in range(case["passes"])]
  sub = dict(case)
  for i, (results, carry) in enumerate(outs):
    what = f"mapper, pass {i}"
    if batched:
      check_results(results, sub, data, 0, what)
      check_carry(carry, [k * mb for k in range(batches)], what)
    else:
      sub["no_info_results"] = True
      check_results(results, sub, data, 0, what)
      if case["information"]:
        require((onp.asarray(results["obs"]) == n).all()
                and (onp.asarray(results["mb"]) == mb).all(),
                f"{what}: information", got=(results["obs"], results["mb"]))
      if case["carry"] == "count":
        require(onp.shape(carry) == () and int(carry) == batches,
                f"{what}: carry", got=carry, expected=batches)
      else:
        require(carry is None, f"{what}: carry", got=carry)
  release()
  return info(case["passes"] > 1 and mb < n, case["loader"],
              "jit" if case["jit"] else "no jit",
              "batched" if batched else "non-batched",
              "loop" if case["scan"] else "calls",
              "masking" if case["masking"] else "results",
              "surplus" if n % mb else "divides")


# -- several mappers and map states of one host loader, interleaved

@st.composite
def shared_cases(draw):
  n = draw(st.integers(2, 12))
  users = draw(st.lists(st.tuples(
    st.sampled_from(["mapper", "map", "random"]), st.integers(1, n),
    st.integers(1, 4)).map(list), min_size=2, max_size=3))
  return {"n": n, "users": users,
          "ops": draw(st.lists(st.integers(0, len(users) - 1), min_size=3,
                               max_size=7))}


def check_shared(case):
  n = case["n"]
  data = dataset(n)
  loader = NumpyDataLoader(**data)
  users = []
  for kind, mb, cache in case["users"]:
    sub = {"n": n, "mb": mb, "masking": False, "information": False}
    if kind == "mapper":
      mapper, release = data_core.full_data_mapper(loader, cache, mb)
      run = jax.jit(lambda c, m=mapper: m(batched_fun(False, False), c))
      users.append((sub, run, release))
    elif kind == "map":
      init, fmap, release = data_core.full_reference_data(loader, cache, mb)
      box = [init()]
      step = jax.jit(lambda s, c, f=fmap: f(batched_fun(False, False), s, c))
      def run2(c, box=box, step=step):
        box[0], out = step(box[0], c)
        return out
      users.append((sub, run2, release))
    else:
      init, get, release = data_core.random_reference_data(loader, cache, mb)
      box = [init(seed=1)]
      get = jax.jit(get)
      def run3(_, box=box, get=get):
        box[0], _ = get(box[0])
        return None
      users.append((sub, run3, release))
  seen = set()
  for u in case["ops"]:
    sub, run, _ = users[u]
    batches = math.ceil(n / sub["mb"])
    out = run(initial_carry(batches))
    if out is not None:
      check_results(out[0], sub, data, 0, f"user {u}")
      check_carry(out[1], [k * sub["mb"] for k in range(batches)],
                  f"user {u}")
      seen.add(u)
  for _, _, release in users:
    release()
  return info(len(seen) > 1, *{k for k, _, _ in case["users"]})


# -- many map states of one source, passes within passes

@st.composite
def many_cases(draw):
  n, mb = draw(size_pairs(9))
  count = draw(st.integers(9, 14))
  case = {"n": n, "mb": mb, "cache": draw(st.integers(1, 3)),
          "loader": draw(st.sampled_from(["host", "host", "device"])),
          "masking": draw(st.booleans()), "information": False, "jit": True,
          "offset": 0}
  ids = list(range(count))
  case["ops"] = ids + (ids if draw(st.booleans()) else ids[::-1])
  return case


@st.composite
def nested_cases(draw):
  n, mb = draw(size_pairs(7))
  return {"n": n, "mb": mb, "cache": draw(st.integers(1, 4)),
          "loader": draw(st.sampled_from(["host", "device"])),
          "passes": draw(st.integers(1, 3)), "jit": draw(st.booleans())}


def check_nested(case):
  """Passes of one mapper which are active at the same time."""
  n, mb = case["n"], case["mb"]
  data = dataset(n)
  mapper, release = data_core.full_data_mapper(
    loader_for(case["loader"], data), case["cache"], mb)
  batches = math.ceil(n / mb)
  sub = dict(case, masking=False, information=False)
  inner_fun = batched_fun(False, False)
  starts = [k * mb for k in range(batches)]

  def outer_fun(batch, carry):
    results, inner = mapper(inner_fun, initial_carry(batches))
    per_obs, new = inner_fun(batch, carry["outer"])
    at = carry["outer"]["count"]
    return dict(per_obs), {
      "outer": new, "inner": jax.tree_util.tree_map(
        lambda all_, one: all_.at[at].set(one), carry["inner"],
        (results, inner))}

  def run():
    like = jax.eval_shape(
      lambda: (jax.vmap(result_of)(*(jnp.asarray(data[k]) for k in (
        "row", "y", "one", "col"))),
               initial_carry(batches)))
    return mapper(outer_fun, {
      "outer": initial_carry(batches),
      "inner": jax.tree_util.tree_map(
        lambda l: jnp.zeros((batches,) + l.shape, l.dtype), like)})
  f = jax.jit(run) if case["jit"] else run
  for i in range(case["passes"]):
    results, carry = f()
    check_results(results, sub, data, 0, f"outer pass {i}")
    check_carry(carry["outer"], starts, f"outer pass {i}")
    for b in range(batches):
      r, c = jax.tree_util.tree_map(lambda x, b=b: x[b], carry["inner"])
      what = f"pass within batch {b} of outer pass {i}"
      check_results(r, sub, data, 0, what)
      check_carry(c, starts, what)
  release()
  return info(batches > 1, case["loader"])


# -- large datasets

@st.composite
def large_cases(draw):
  case = draw(map_cases())
  n = draw(st.one_of(st.integers(40, 400), st.sampled_from(
    [127, 128, 129, 255, 256, 257, 1000])))
  mb = draw(st.integers(max(1, n // 30), n))
  case.update(n=n, mb=mb, cache=draw(st.sampled_from([1, 3, 10, 40])),
              offset=draw(st.integers(0, n - 1)) if case["offset"] else 0,
              ops=case["ops"][:3])
  if draw(st.integers(0, 5)) == 0:
    # Many small batches in a large cache
    n = draw(st.sampled_from([600, 1000]))
    case.update(n=n, mb=draw(st.integers(1, 2)), cache=270,
                offset=draw(st.integers(0, n - 1)) if case["offset"] else 0,
                ops=case["ops"][:2])
  return case


SUBS = [
  Sub("many", many_cases, check_map, 20, 300, weight=0.5),
  Sub("nested", nested_cases, check_nested, 30, 400, weight=0.7),
  Sub("map", map_cases, check_map, 260, 4000, weight=2),
  Sub("mapper", mapper_cases, check_mapper, 200, 3000, weight=2),
  Sub("shared", shared_cases, check_shared, 50, 600),
  Sub("large", large_cases, check_map, 40, 800, weight=0.7),
]
