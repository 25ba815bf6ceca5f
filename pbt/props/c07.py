"""Checkpoints of the host loader."""
import math
import pickle

import numpy as onp
from hypothesis import strategies as st

from jax_sgmc.data.numpy_loader import NumpyDataLoader

from pbt.core import Sub, info, require
from pbt.data import array_specs, make_data
from pbt.props.c05 import chain_specs, draw_rows, register


@st.composite
def any_chain(draw, n):
  c = draw(chain_specs(n, seeded=draw(st.integers(0, 3)) > 0))
  if draw(st.integers(0, 3)) == 0:
    c["mode"] = "ordered"
  return c


def reg(loader, c):
  if c["mode"] == "ordered":
    return loader.register_ordered_pipeline(c["cache"], mb_size=c["mb"])
  return register(loader, c)


def canonical(x):
  """Content of a checkpoint, independent of identities."""
  if isinstance(x, dict):
    return ("dict", tuple(sorted((repr(k), canonical(v))
                                 for k, v in x.items())))
  if isinstance(x, (list, tuple)):
    return (type(x).__name__, tuple(canonical(v) for v in x))
  if isinstance(x, onp.ndarray):
    return ("array", str(x.dtype), x.shape, x.tobytes())
  return repr(x)


@st.composite
def cases(draw):
  n = draw(st.sampled_from(range(1, 15)))
  chains = draw(st.lists(any_chain(n), min_size=1, max_size=3))
  ch = st.integers(0, len(chains) - 1)
  op = st.one_of(
    st.tuples(st.just("draw"), ch, st.integers(1, 5)),
    st.tuples(st.just("save"), ch, st.just(0)),
    # the third entry selects one of the checkpoints of the chain
    st.tuples(st.just("load"), ch, st.integers(0, 5)),
    st.tuples(st.just("fresh"), ch, st.integers(0, 5)),
    st.tuples(st.just("other"), ch, st.integers(0, 5)))
  ops = draw(st.lists(op.map(list), min_size=2, max_size=10))
  if draw(st.integers(0, 3)):
    i = draw(ch)
    ops = [["draw", i, draw(st.integers(0, 5))], ["save", i, 0],
           ["draw", i, draw(st.integers(1, 5))],
           [draw(st.sampled_from(["load", "fresh", "other"])), i, 0]] + ops
  return {"n": n, "chains": chains, "ops": ops,
          "extra": draw(array_specs(1)),
          "pickle": draw(st.booleans())}


def check(case):
  n, chains = case["n"], case["chains"]
  data = make_data(n, case["extra"])

  def new_loader():
    loader = NumpyDataLoader(**data)
    return loader, [reg(loader, c) for c in chains]

  # Uninterrupted streams, computed with a loader which is never saved
  ref_loader, ref_ids = new_loader()
  streams = [[] for _ in chains]

  def expect(i, pos):
    while len(streams[i]) <= pos:
      streams[i].append(draw_rows(ref_loader, ref_ids[i], chains[i], data))
    return streams[i][pos]

  loader, ids = new_loader()
  pos = [0] * len(chains)
  saved = [[] for _ in chains]   # (position, checkpoint, content)
  labels, restored_after_draw = set(), False

  def draw_one(ld, lid, i, p, what):
    idx, mask = draw_rows(ld, lid, chains[i], data, what)
    e_idx, e_mask = expect(i, p)
    require((idx == e_idx).all() and (mask == e_mask).all(),
            f"{what} of chain {i} ({chains[i]['mode']}) at position {p}",
            got=idx, expected=e_idx, mask=mask, expected_mask=e_mask)

  def unchanged():
    for i, s in enumerate(saved):
      for p, data_, content in s:
        require(canonical(data_) == content,
                f"checkpoint of chain {i} at position {p} has been altered")

  for step, (op, i, k) in enumerate(case["ops"]):
    what = f"step {step} ({op})"
    if op == "draw":
      for _ in range(k):
        draw_one(loader, ids[i], i, pos[i], what)
        pos[i] += 1
    elif op == "save":
      data_ = loader.save_state(ids[i])
      if case["pickle"]:
        data_ = pickle.loads(pickle.dumps(data_))
      saved[i].append((pos[i], data_, canonical(data_)))
      labels.add("save")
    elif saved[i]:
      p, data_, _ = saved[i][k % len(saved[i])]
      if op == "load":
        loader.load_state(ids[i], data_)
        restored_after_draw |= pos[i] != p
        pos[i] = p
        labels.add("load " + chains[i]["mode"])
      elif op == "fresh":
        # Restart: new loader, only this chain is restored
        loader, ids = new_loader()
        loader.load_state(ids[i], data_)
        pos = [0] * len(chains)
        pos[i] = p
        restored_after_draw |= p > 0
        labels.add("fresh " + chains[i]["mode"])
      else:
        # Restore into a second loader, which must not influence the first
        other, oids = new_loader()
        other.load_state(oids[i], data_)
        for j in range(2):
          draw_one(other, oids[i], i, p + j, what)
        labels.add("other " + chains[i]["mode"])
    unchanged()
  # All chains continue
  for i in range(len(chains)):
    for _ in range(math.ceil(1.5 * n / (chains[i]["mb"]
                                        * chains[i]["cache"])) + 1):
      draw_one(loader, ids[i], i, pos[i], "final draws")
      pos[i] += 1
  unchanged()
  # ... and each checkpoint can still be restored
  for i, s in enumerate(saved):
    for p, data_, _ in s:
      loader.load_state(ids[i], data_)
      for j in range(3):
        draw_one(loader, ids[i], i, p + j, "restored again")
  unchanged()
  return info(restored_after_draw, *labels)


@st.composite
def every_position_cases(draw):
  n = draw(st.sampled_from(range(1, 11)))
  return {"n": n, "chain": draw(any_chain(n))}


def check_every_position(case):
  """A checkpoint at each position over several passes."""
  n, c = case["n"], case["chain"]
  data = make_data(n, [])
  total = min(24, 3 * math.ceil(n / (c["mb"] * c["cache"])) + 2)
  loader = NumpyDataLoader(**data)
  cid = reg(loader, c)
  stream, points = [], []
  for _ in range(total):
    points.append(loader.save_state(cid))
    stream.append(draw_rows(loader, cid, c, data))
  plain = NumpyDataLoader(**data)
  pid = reg(plain, c)
  for p in range(total):
    idx, mask = draw_rows(plain, pid, c, data)
    require((idx == stream[p][0]).all() and (mask == stream[p][1]).all(),
            f"saving changes the stream at position {p}", got=stream[p],
            expected=idx)
  for p, point in enumerate(points):
    other = NumpyDataLoader(**data)
    oid = reg(other, c)
    other.load_state(oid, point)
    for q in range(p, min(p + 4, total)):
      idx, mask = draw_rows(other, oid, c, data)
      require((idx == stream[q][0]).all() and (mask == stream[q][1]).all(),
              f"restored at position {p}, batch at position {q}",
              got=idx, expected=stream[q][0])
  return info(total > 2, c["mode"])


# -- large datasets and late positions

@st.composite
def large_cases(draw):
  n = draw(st.one_of(st.integers(30, 300), st.sampled_from(
    [127, 128, 255, 256, 257, 1000])))
  c = draw(any_chain(n))
  c["mb"] = draw(st.integers(max(1, n // 40), n))
  c["cache"] = draw(st.sampled_from([1, 2, 5, 30]))
  i = draw(st.sampled_from([0, 1, 7, 40]))
  ops = [["draw", 0, i], ["save", 0, 0], ["draw", 0, draw(st.integers(1, 9))],
         [draw(st.sampled_from(["load", "fresh", "other"])), 0, 0],
         ["draw", 0, draw(st.integers(1, 9))]]
  return dict(draw(cases()), n=n, chains=[c], ops=ops)


SUBS = [
  Sub("history", cases, check, 1000, 16000, weight=2),
  Sub("every_position", every_position_cases, check_every_position, 300, 4000),
  Sub("large", large_cases, check, 64, 1000, weight=0.5),
]
