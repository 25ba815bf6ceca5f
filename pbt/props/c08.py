"""Mini-batches inside compiled programs."""
import jax
import jax.numpy as jnp
import numpy as onp
from hypothesis import strategies as st

from jax_sgmc.data import core as data_core
from jax_sgmc.data.numpy_loader import NumpyDataLoader

from pbt.core import Sub, info, require
from pbt.data import make_data, rows_of
from pbt.props.c05 import MODES, draw_rows, register
from pbt.util import raises

EXTRA = [["float32", [2]], ["bool", []]]


def stream_of(data, c):
  """Infinite stream of (rows, mask) of a chain without caches and jit."""
  loader = NumpyDataLoader(**data)
  c = dict(c, cache=1)
  chain = register(loader, c)
  while True:
    idx, mask = draw_rows(loader, chain, c, data, "reference")
    yield idx[0], mask[0]


def check_batch(batch, mb_info, expected, data, c, what):
  idx = rows_of(batch, data, what)
  require(idx.shape == (c["mb"],), f"{what}: shape", got=idx.shape)
  if expected is not None:
    require((idx == expected[0]).all(), f"{what}: rows", got=idx,
            expected=expected[0])
  if mb_info is not None:
    n = len(data["row"])
    require(int(mb_info.observation_count) == n,
            f"{what}: observation count", got=mb_info.observation_count)
    require(int(mb_info.batch_size) == c["mb"], f"{what}: batch size",
            got=mb_info.batch_size)
    mask = onp.asarray(mb_info.mask)
    require(mask.shape == (c["mb"],), f"{what}: shape of the mask",
            got=mask.shape)
    if expected is not None:
      require((mask.astype(bool) == expected[1]).all(), f"{what}: mask",
              got=mask, expected=expected[1])


class Source:
  """One data source of a loader with its compiled access functions."""

  def __init__(self, loader, spec, verify=False):
    self.spec = spec
    self.init, self.get, self.release = data_core.random_reference_data(
      loader, spec["cache"], spec["mb"], verify_calls=verify)
    get = self.get
    self.jit = jax.jit(lambda s: get(s, information=True))
    def scan(s, n):
      def body(s, _):
        return get(s, information=True)
      return jax.lax.scan(body, s, None, length=n)
    self.scan = jax.jit(scan, static_argnums=1)

  def start(self, chain):
    return self.init(**MODES[chain["mode"]], seed=chain["seed"])

  def draw(self, state, form, count):
    """Returns the new state and a list of (batch, information)."""
    if form == "scan":
      state, (batch, mb_info) = self.scan(state, count)
      out = []
      for i in range(count):
        take = lambda x, i=i: x[i]
        out.append((jax.tree_util.tree_map(take, batch), mb_info._replace(
          mask=mb_info.mask[i],
          observation_count=onp.ravel(mb_info.observation_count)[0],
          batch_size=onp.ravel(mb_info.batch_size)[0])))
      return state, out
    out = []
    for _ in range(count):
      if form == "jit":
        state, item = self.jit(state)
      elif form == "plain":
        state, batch = self.get(state)
        item = (batch, None)
      else:
        state, item = self.get(state, information=True)
      out.append(item)
    return state, out


@st.composite
def source_spec(draw, n):
  return {"mb": draw(st.sampled_from(range(1, n + 1))),
          "cache": draw(st.sampled_from([1, 2, 3, 4, 7]))}


@st.composite
def history_cases(draw):
  ns = draw(st.lists(st.integers(1, 9), min_size=1, max_size=2))
  sources, chains = [], []
  for k in range(draw(st.integers(1, 3))):
    l = draw(st.integers(0, len(ns) - 1))
    sources.append(dict(draw(source_spec(ns[l])), loader=l))
  for k in range(draw(st.integers(1, 4))):
    chains.append({"source": draw(st.integers(0, len(sources) - 1)),
                   "mode": draw(st.sampled_from(sorted(MODES))),
                   "seed": draw(st.integers(0, 20))})
  ops = draw(st.lists(st.tuples(
    st.integers(0, len(chains) - 1),
    st.sampled_from(["scan", "jit", "info", "plain"]),
    st.sampled_from([1, 2, 3, 5, 8])).map(list), min_size=1, max_size=8))
  return {"ns": ns, "sources": sources, "chains": chains, "ops": ops,
          "verify": draw(st.booleans()), "late": draw(st.booleans()),
          # A source is released and replaced by a new one in between
          "replace": draw(st.one_of(st.none(), st.tuples(
            st.integers(0, len(sources) - 1),
            st.integers(0, len(ops) - 1)).map(list)))}


def check_history(case):
  datas = [make_data(n, EXTRA, seed=i) for i, n in enumerate(case["ns"])]
  loaders = [NumpyDataLoader(**d) for d in datas]
  sources = [Source(loaders[s["loader"]], s, case["verify"])
             for s in case["sources"]]
  states, streams, drawn = {}, {}, {}

  def start(i):
    c = case["chains"][i]
    states[i] = sources[c["source"]].start(c)
  if not case["late"]:
    for i in range(len(case["chains"])):
      start(i)
  replaced = set()
  for step, (i, form, count) in enumerate(case["ops"]):
    if case.get("replace") and case["replace"][1] == step:
      k = case["replace"][0]
      sources[k].release()
      s = case["sources"][k]
      sources[k] = Source(loaders[s["loader"]], s, case["verify"])
      for j, c in enumerate(case["chains"]):
        if c["source"] == k:
          replaced.add(j)
          states.pop(j, None)
          streams.pop(j, None)
    c = case["chains"][i]
    spec = dict(case["sources"][c["source"]], **c)
    data = datas[spec["loader"]]
    if i not in states:
      start(i)
    if i not in streams:
      streams[i] = stream_of(data, spec)
    states[i], out = sources[c["source"]].draw(states[i], form, count)
    for batch, mb_info in out:
      drawn[i] = drawn.get(i, 0) + 1
      check_batch(batch, mb_info, next(streams[i]), data, spec,
                  f"chain {i}, batch {drawn[i] - 1} ({form})")
  for s in sources:
    s.release()
  crossed = any(
    k > case["sources"][case["chains"][i]["source"]]["cache"]
    for i, k in drawn.items())
  return info(crossed, "cache boundary" if crossed else "first cache",
              f"chains {len(drawn)}", f"loaders {len(case['ns'])}",
              "source replaced" if replaced & set(drawn) else "same sources",
              *{f for _, f, _ in case["ops"]},
              *{case["chains"][i]["mode"] for i in drawn})


# -- outdated data states

@st.composite
def stale_cases(draw):
  n = draw(st.integers(1, 8))
  spec = draw(source_spec(n))
  ops = draw(st.lists(st.tuples(
    st.sampled_from(["draw", "draw", "keep", "back", "other"]),
    st.integers(0, 5)).map(list), min_size=2, max_size=12))
  return {"n": n, "spec": spec, "mode": draw(st.sampled_from(sorted(MODES))),
          "seed": draw(st.integers(0, 20)), "ops": ops,
          "form": draw(st.sampled_from(["scan", "jit", "plain"]))}


def check_stale(case):
  n, spec = case["n"], case["spec"]
  data = make_data(n, EXTRA)
  loader = NumpyDataLoader(**data)
  source = Source(loader, spec)
  c = dict(spec, mode=case["mode"], seed=case["seed"])
  other_c = dict(spec, mode="draw", seed=99)
  state, other = source.start(c), source.start(other_c)
  other_stream = stream_of(data, other_c)
  kept = [state]
  fresh, stale_used = True, 0
  stream = stream_of(data, c)
  mask_allowed = case["mode"] == "epochs"

  for k, (op, arg) in enumerate(case["ops"]):
    if op == "keep":
      kept.append(state)
    elif op == "back":
      state = kept[arg % len(kept)]
      fresh = False
    elif op == "other":
      other, out = source.draw(other, case["form"], 1 + arg)
      for batch, mb_info in out:
        check_batch(batch, mb_info, next(other_stream), data, other_c,
                    f"step {k}: chain with a valid state")
    else:
      state, out = source.draw(state, case["form"], 1 + arg)
      for batch, mb_info in out:
        check_batch(batch, mb_info, next(stream) if fresh else None, data, c,
                    f"step {k}: chain with "
                    f"{'valid' if fresh else 'outdated'} state")
        if mb_info is not None and not mask_allowed:
          require(onp.asarray(mb_info.mask).all(),
                  f"step {k}: outdated state masks samples",
                  got=mb_info.mask)
        stale_used += not fresh
  source.release()
  return info(stale_used > spec["cache"], case["mode"], case["form"])


@st.composite
def strict_cases(draw):
  n = draw(st.integers(1, 8))
  spec = draw(source_spec(n))
  return {"n": n, "spec": spec, "mode": draw(st.sampled_from(sorted(MODES))),
          "ahead": draw(st.integers(1, 3)), "at": draw(st.integers(0, 2)),
          "form": draw(st.sampled_from(["scan", "jit", "plain"]))}


def check_strict(case):
  """With verification an outdated request is rejected."""
  n, spec = case["n"], case["spec"]
  data = make_data(n, EXTRA)
  source = Source(NumpyDataLoader(**data), spec, verify=True)
  c = dict(spec, mode=case["mode"], seed=3)
  state = source.start(c)
  stream = stream_of(data, c)
  cache = spec["cache"]
  state, out = source.draw(state, case["form"], cache * (1 + case["at"]))
  old = state
  more = cache * case["ahead"] + 1
  state, out2 = source.draw(state, case["form"], more)
  for i, (batch, mb_info) in enumerate(out + out2):
    check_batch(batch, mb_info, next(stream), data, c, f"batch {i}")
  # The old state has to request batches which have been requested before
  def reuse():
    _, out3 = source.draw(old, case["form"], 1)
    return jax.tree_util.tree_map(onp.asarray, out3[0][0])
  raises(Exception, reuse, "outdated request in spite of the verification")
  # The up-to-date state remains valid
  state, out = source.draw(state, case["form"], cache)
  for i, (batch, mb_info) in enumerate(out):
    check_batch(batch, mb_info, next(stream), data, c,
                f"batch {i} after a rejected request")
  source.release()
  return info(True, case["mode"], case["form"])


# -- replicated programs

@st.composite
def replicated_cases(draw):
  n = draw(st.integers(1, 8))
  return {"n": n, "spec": draw(source_spec(n)),
          "mode": draw(st.sampled_from(sorted(MODES))),
          "devices": draw(st.sampled_from([2, 3, 4])),
          "form": draw(st.sampled_from(["calls", "jit", "skew", "pmap"])),
          "verify": draw(st.booleans()),
          "batches": draw(st.integers(1, 9))}


def check_replicated(case):
  n, spec, k = case["n"], case["spec"], case["devices"]
  data = make_data(n, EXTRA)
  source = Source(NumpyDataLoader(**data), spec, verify=case["verify"])
  c = dict(spec, mode=case["mode"], seed=5)
  stream = stream_of(data, c)
  state = source.start(c)

  def get(s):
    return source.get(s, information=True, device_count=k)
  if case["form"] == "pmap":
    def program(s):
      def body(s, _):
        s, (batch, mb_info) = get(s)
        return s, (batch, mb_info.mask)
      return jax.lax.scan(body, s, None, length=case["batches"])[1]
    states = jax.tree_util.tree_map(
      lambda x: jnp.stack([jnp.asarray(x)] * k), state)
    batches, masks = jax.pmap(program, devices=jax.devices()[:k])(states)
    batches = jax.tree_util.tree_map(onp.asarray, batches)
    masks = onp.asarray(masks)
    for b in range(case["batches"]):
      expected = next(stream)
      for d in range(k):
        batch = {name: v[d, b] for name, v in batches.items()}
        check_batch(batch, None, expected, data, c, f"device {d}, batch {b}")
        require((masks[d, b] == expected[1]).all(),
                f"device {d}, batch {b}: mask", got=masks[d, b])
  else:
    f = jax.jit(get) if case["form"] == "jit" else get
    states = [state] * k
    expected = [next(stream) for _ in range(case["batches"])]
    # Order in which the replicated programs proceed
    if case["form"] == "skew":
      order = [(d, b) for d in range(k) for b in range(case["batches"])]
    else:
      order = [(d, b) for b in range(case["batches"]) for d in range(k)]
    for d, b in order:
      states[d], (batch, mb_info) = f(states[d])
      check_batch(batch, mb_info, expected[b], data, c,
                  f"program {d}, batch {b}")
  source.release()
  return info(case["batches"] > spec["cache"], case["form"], case["mode"],
              f"devices {k}")


# -- maps over all data by replicated programs

@st.composite
def replicated_map_cases(draw):
  n = draw(st.integers(1, 9))
  return {"n": n, "spec": draw(source_spec(n)),
          "devices": draw(st.sampled_from([2, 3, 4])),
          "form": draw(st.sampled_from(["calls", "jit", "pmap"])),
          "order": draw(st.sampled_from(["rounds", "skew"])),
          "passes": draw(st.integers(1, 3))}


def check_replicated_map(case):
  n, spec, k, passes = case["n"], case["spec"], case["devices"], case["passes"]
  data = make_data(n, EXTRA)
  init, full_map, release = data_core.full_reference_data(
    NumpyDataLoader(**data), spec["cache"], spec["mb"])

  def fun(batch, carry):
    batch, mb_info = batch
    return dict(batch, mask=mb_info.mask), carry * 3 + batch["row"][0] + 1
  def one_pass(s):
    return full_map(fun, s, jnp.array(0), information=True, device_count=k)

  def verify(results, carry, what):
    results = {name: onp.asarray(v) for name, v in results.items()}
    mask = results.pop("mask")
    idx = rows_of(results, data, what)
    require(idx.shape == (n,) and (idx == onp.arange(n)).all(),
            f"{what}: rows", got=idx)
    require(mask.shape == (n,) and mask.astype(bool).all(), f"{what}: mask",
            got=mask)
    h = 0
    for start in range(0, n, spec["mb"]):
      h = h * 3 + start + 1
    require(int(carry) == h, f"{what}: carry", got=carry, expected=h)

  state = init()
  if case["form"] == "pmap":
    def program(s):
      return jax.lax.scan(lambda s, _: one_pass(s), s, None, length=passes)[1]
    states = jax.tree_util.tree_map(
      lambda x: jnp.stack([jnp.asarray(x)] * k), state)
    results, carries = jax.pmap(program, devices=jax.devices()[:k])(states)
    for d in range(k):
      for p in range(passes):
        verify({name: v[d, p] for name, v in results.items()},
               carries[d, p], f"device {d}, pass {p}")
  else:
    f = jax.jit(one_pass) if case["form"] == "jit" else one_pass
    states = [state] * k
    order = ([(d, p) for d in range(k) for p in range(passes)]
             if case["order"] == "skew" else
             [(d, p) for p in range(passes) for d in range(k)])
    for d, p in order:
      states[d], (results, carry) = f(states[d])
      verify(results, carry, f"program {d}, pass {p}")
  release()
  batches = -(-n // spec["mb"]) * passes
  return info(batches > spec["cache"], case["form"], f"devices {k}",
              case["order"])


# -- large datasets and caches, long loops

@st.composite
def large_cases(draw):
  n = draw(st.integers(30, 400))
  mb = draw(st.one_of(st.integers(1, n), st.integers(1, 20)))
  source = {"mb": mb, "loader": 0, "cache": draw(
    st.sampled_from([1, 5, 16, 33, 100, 130, 260]))}
  chains = [{"source": 0, "mode": draw(st.sampled_from(sorted(MODES))),
             "seed": draw(st.integers(0, 20))}
            for _ in range(draw(st.integers(1, 12)))]
  ops = draw(st.lists(st.tuples(
    st.integers(0, len(chains) - 1), st.just("scan"),
    st.sampled_from([10, 131, 300, 530])).map(list), min_size=1, max_size=4))
  if source["cache"] > 255:
    # The end of a large cache is reached as well
    ops.append([ops[0][0], "scan", 530])
    source["mb"] = min(mb, 20)
  if len(chains) > 4:
    ops += [[i, "jit", 1 + i % 2] for i in range(len(chains))]
  return {"ns": [n], "sources": [source], "chains": chains, "ops": ops,
          "verify": draw(st.booleans()), "late": draw(st.booleans())}


# -- many chains of one source

@st.composite
def many_cases(draw):
  n = draw(st.integers(2, 12))
  source = {"mb": draw(st.integers(1, n)), "loader": 0,
            "cache": draw(st.sampled_from([1, 2, 3]))}
  count = draw(st.integers(9, 18))
  modes = draw(st.lists(st.sampled_from(sorted(MODES)), min_size=1,
                        max_size=3))
  chains = [{"source": 0, "mode": modes[i % len(modes)], "seed": 100 + i}
            for i in range(count)]
  order = draw(st.sampled_from(["rounds", "reverse", "blocks"]))
  ids = list(range(count))
  ops = []
  for r in range(2 if order == "blocks" else 3):
    k = 2 * source["cache"] + 1 if order == "blocks" else 1 + r
    ops += [[i, "jit", k] for i in (ids[::-1] if order == "reverse" else ids)]
  return {"ns": [n], "sources": [source], "chains": chains, "ops": ops,
          "verify": draw(st.sampled_from([True, True, False])),
          "late": draw(st.booleans())}


SUBS = [
  Sub("many", many_cases, check_history, 16, 300, weight=0.5),
  Sub("history", history_cases, check_history, 240, 4000, weight=2.5),
  Sub("stale", stale_cases, check_stale, 120, 2000),
  Sub("strict", strict_cases, check_strict, 60, 800),
  Sub("replicated", replicated_cases, check_replicated, 80, 1200),
  Sub("replicated map", replicated_map_cases, check_replicated_map, 48, 800,
      weight=0.6),
  Sub("large", large_cases, check_history, 48, 600, weight=0.7),
]
