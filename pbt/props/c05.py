"""Random access of the host loader."""
import math

import numpy as onp
from hypothesis import strategies as st
from scipy import stats

from jax_sgmc.data.numpy_loader import NumpyDataLoader

from pbt.core import Sub, info, require
from pbt.data import array_specs, make_data, rows_of, size_pairs

MODES = {"draw": {}, "shuffle": {"shuffle": True},
         "epochs": {"shuffle": True, "in_epochs": True}}


@st.composite
def chain_specs(draw, n, seeded=True):
  return {"mode": draw(st.sampled_from(sorted(MODES))),
          "mb": draw(st.sampled_from(range(1, n + 1))),
          "cache": draw(st.integers(1, 5)),
          "seed": draw(st.integers(0, 50)) if seeded else None}


def register(loader, c, **over):
  kw = dict(MODES[c["mode"]])
  if c["seed"] is not None:
    kw["seed"] = c["seed"]
  kw.update(over)
  return loader.register_random_pipeline(
    c["cache"], mb_size=c["mb"], **kw)


def draw_rows(loader, chain, c, data, what="batch"):
  """Row indices and masks of the next cache."""
  batch, mask = loader.get_batches(chain)
  mask = onp.asarray(mask)
  require(mask.shape == (c["cache"], c["mb"]), f"{what}: shape of the mask",
          got=mask.shape, expected=(c["cache"], c["mb"]))
  require(mask.dtype == bool, f"{what}: dtype of the mask", got=mask.dtype)
  idx = rows_of(batch, data, what)
  require(idx.shape == (c["cache"], c["mb"]), f"{what}: shape",
          got=idx.shape, expected=(c["cache"], c["mb"]))
  return idx, mask


def check_mode(idx, mask, c, n):
  """Laws of a stream of batches, starting with the first one."""
  mb, mode = c["mb"], c["mode"]
  if mode == "draw":
    require(mask.all(), "drawing marks samples as invalid", got=mask)
  elif mode == "shuffle":
    require(mask.all(), "shuffling marks samples as invalid", got=mask)
    flat = idx.reshape(-1)
    for k in range(0, len(flat), n):
      part = flat[k:k + n]
      require(len(set(part.tolist())) == len(part),
              f"pass {k // n} returns an observation twice", got=part,
              n=n, mb=mb)
  else:
    per = math.ceil(n / mb)
    expected = (onp.arange(per * mb) < n).reshape(per, mb)
    for k in range(0, len(idx), per):
      part, m = idx[k:k + per], mask[k:k + per]
      require((m == expected[:len(part)]).all(),
              f"mask of the surplus samples in epoch {k // per}", got=m,
              expected=expected[:len(part)])
      valid = part[m]
      require(len(set(valid.tolist())) == len(valid),
              f"epoch {k // per} returns an observation twice", got=valid,
              n=n, mb=mb)


# -- histories of several chains

@st.composite
def history_cases(draw):
  n = draw(st.sampled_from(range(1, 25)))
  chains = draw(st.lists(chain_specs(n), min_size=1, max_size=4))
  ops = draw(st.lists(st.tuples(
    st.integers(0, len(chains) - 1), st.integers(1, 4)).map(list),
    min_size=1, max_size=10))
  return {"n": n, "extra": draw(array_specs()), "chains": chains, "ops": ops,
          "late": draw(st.booleans()), "copy": draw(st.booleans())}


def check_history(case):
  n = case["n"]
  data = make_data(n, case["extra"])
  loader = NumpyDataLoader(copy=case["copy"], **data)
  ids, streams = {}, {}
  if not case["late"]:
    for i, c in enumerate(case["chains"]):
      ids[i] = register(loader, c)
  for i, repeat in case["ops"]:
    c = case["chains"][i]
    if i not in ids:
      ids[i] = register(loader, c)
    for _ in range(repeat):
      streams.setdefault(i, []).append(
        draw_rows(loader, ids[i], c, data, f"chain {i}"))
  require(len(set(ids.values())) == len(ids), "chains share an id", ids=ids)
  crossing = False
  for i, parts in streams.items():
    c = case["chains"][i]
    idx = onp.concatenate([p[0] for p in parts])
    mask = onp.concatenate([p[1] for p in parts])
    check_mode(idx, mask, c, n)
    # A chain of the same seed, mode and batch size, but with another cache
    # size, alone on a new loader, requested at once
    c2 = dict(c, cache=1)
    alone = NumpyDataLoader(**data)
    alone.register_random_pipeline(2, mb_size=1)
    other = register(alone, c2)
    ref = [draw_rows(alone, other, c2, data) for _ in range(len(idx))]
    ref_idx = onp.concatenate([p[0] for p in ref])
    ref_mask = onp.concatenate([p[1] for p in ref])
    require((ref_idx == idx).all() and (ref_mask == mask).all(),
            "batches depend on the cache size or on other chains",
            chain=i, got=idx, expected=ref_idx)
    crossing |= idx.size > n
  return info(crossing and (len(streams) > 1 or case["chains"][0]["mb"] > 1),
              f"chains {len(streams)}",
              *{case["chains"][i]["mode"] for i in streams},
              "several passes" if crossing else "one pass")


# -- many passes

@st.composite
def pass_cases(draw):
  n, mb = draw(size_pairs(30))
  return {"n": n, "chain": dict(draw(chain_specs(n)), mb=mb),
          "passes": draw(st.integers(2, 12))}


def check_passes(case):
  n, c = case["n"], case["chain"]
  data = make_data(n, [["float32", [2]]])
  loader = NumpyDataLoader(**data)
  chain = register(loader, c)
  calls = math.ceil(case["passes"] * math.ceil(n / c["mb"]) / c["cache"])
  parts = [draw_rows(loader, chain, c, data) for _ in range(calls)]
  idx = onp.concatenate([p[0] for p in parts])
  mask = onp.concatenate([p[1] for p in parts])
  check_mode(idx, mask, c, n)
  if n >= 8 and c["mode"] != "draw":
    flat = idx[mask]
    full = flat[:len(flat) // n * n].reshape(-1, n)
    if len(full) >= 3:
      require(not (full == full[0]).all(), "passes are not shuffled",
              got=full[:3])
  return info(n > 1, c["mode"],
              "divides" if n % c["mb"] == 0 else "surplus")


# -- seeds

@st.composite
def seed_cases(draw):
  n = draw(st.integers(12, 40))
  c = draw(chain_specs(n, seeded=draw(st.booleans())))
  if c["seed"] is not None and draw(st.booleans()):
    # Numbers of any size
    c["seed"] += draw(st.sampled_from([2 ** 15, 2 ** 16, 2 ** 31, 2 ** 32,
                                       2 ** 63, 2 ** 64, 2 ** 100]))
  return {"n": n, "chain": c,
          # Chains which are registered in between
          "skip": draw(st.sampled_from([0, 1, 15, 31, 63, 127, 255, 511])),
          "other": draw(st.integers(1, 1000) | st.sampled_from(
            [2 ** i for i in (8, 15, 16, 24, 31, 32, 33, 63, 64, 65)]))}


def check_seeds(case):
  n, c = case["n"], case["chain"]
  data = make_data(n, [])
  loader = NumpyDataLoader(**data)
  calls = math.ceil(40 / (c["mb"] * c["cache"]))
  def stream(spec):
    chain = register(loader, spec)
    return onp.concatenate(
      [draw_rows(loader, chain, spec, data)[0] for _ in range(calls)])
  a = stream(c)
  if c["seed"] is None:
    for _ in range(case.get("skip", 0)):
      register(loader, c)
    b = stream(c)
    require(not (a == b).all(), "two unseeded chains return equal batches",
            got=a[:3])
  else:
    b = stream(c)
    require((a == b).all(), "equal seeds return different batches")
    d = stream(dict(c, seed=c["seed"] + case["other"]))
    require(not (a == d).all(), "different seeds return equal batches",
            got=a[:3])
  return info(True, c["mode"], "unseeded" if c["seed"] is None else "seeded")


# -- law of the draws

@st.composite
def law_cases(draw):
  n = draw(st.integers(2, 12))
  mb = draw(st.integers(1, n))
  return {"n": n, "chain": {"mode": draw(st.sampled_from(sorted(MODES))),
                            "mb": mb, "cache": 50,
                            "seed": draw(st.integers(0, 1000))}}


def check_law(case):
  n, c = case["n"], case["chain"]
  data = make_data(n, [])
  loader = NumpyDataLoader(**data)
  chain = register(loader, c)
  calls = math.ceil(6000 / (c["mb"] * 50))
  parts = [draw_rows(loader, chain, c, data) for _ in range(calls)]
  idx = onp.concatenate([p[0] for p in parts])
  # The first sample of each batch resp. of each pass
  if c["mode"] == "draw":
    flat = idx.reshape(-1)
  elif c["mode"] == "shuffle":
    flat = idx.reshape(-1)[::n]
  else:
    flat = idx[::math.ceil(n / c["mb"]), 0]
  counts = onp.bincount(flat, minlength=n)
  if counts.sum() >= 8 * n:
    p = stats.chisquare(counts).pvalue
    require(p > 1e-9, "observations are not equally likely", counts=counts,
            p=p)
  if c["mode"] == "draw" and n <= 6:
    table = onp.zeros((n, n))
    onp.add.at(table, (flat[:-1:2], flat[1::2]), 1)
    p = stats.chisquare(table.reshape(-1)).pvalue
    require(p > 1e-9, "draws are not independent", table=table, p=p)
  return info(True, c["mode"])


# -- large datasets

@st.composite
def large_cases(draw):
  n = draw(st.one_of(st.integers(60, 500), st.sampled_from(
    [127, 128, 255, 256, 257, 1000, 1023, 1025, 4097, 33000, 70001])))
  size = st.integers(max(1, n // 30), n)
  chains = []
  for _ in range(draw(st.integers(1, 2))):
    mb = draw(st.one_of(size, st.sampled_from([n, n - 1, (n + 1) // 2])))
    c = draw(chain_specs(2))
    chains.append(dict(c, mb=mb, cache=draw(
      st.integers(1, max(1, 4 * n // mb)))))
  ops = [[i, draw(st.integers(1, 3))] for i in range(len(chains))]
  return {"n": n, "extra": [["float32", [2]]], "chains": chains,
          "ops": ops + draw(st.lists(st.sampled_from(ops), max_size=1)),
          "late": draw(st.booleans()), "copy": draw(st.booleans())}


SUBS = [
  Sub("history", history_cases, check_history, 1000, 20000, weight=2),
  Sub("passes", pass_cases, check_passes, 500, 10000),
  Sub("seeds", seed_cases, check_seeds, 200, 2000, weight=0.5),
  Sub("law", law_cases, check_law, 64, 600, weight=0.5),
  Sub("large", large_cases, check_history, 64, 1500, weight=0.7,
      cases=[{"n": n, "extra": [], "late": False, "copy": True,
              "chains": [{"mode": mode, "mb": mb, "cache": 50, "seed": 1}],
              "ops": [[0, 3]]}
             for n, mb in ((70001, 1500), (33000, 900), (300, 7))
             for mode in ("shuffle", "epochs", "draw")]),
]
