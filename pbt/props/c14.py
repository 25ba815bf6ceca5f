"""Collecting samples on device and host."""
import json
import os
import string

import h5py
import jax
import jax.numpy as jnp
import numpy as onp
from hypothesis import strategies as st
from jax import tree_util

from jax_sgmc import io, scheduler

from pbt import trees
from pbt.core import Sub, info, require, scratch_dir
from pbt.util import X64, floats, rng, same

DTYPES = ["float32", "int32", "bool", "uint8", "float16", "int8"]
if X64:
  DTYPES = ["float64", "int64"] + DTYPES
SHAPES = [[], [2], [1, 3], [0]]
LEAF = st.tuples(st.sampled_from(DTYPES), st.sampled_from(SHAPES)).map(list)
# Keys which can be part of a path in a file
KEYS = st.one_of(
  st.sampled_from(trees.NAMES),
  st.text(string.ascii_letters + string.digits + "_~-", min_size=1,
          max_size=3))


def tree_specs(max_leaves=5):
  return trees.specs(LEAF, max_leaves=max_leaves, keys=KEYS).filter(
    lambda s: trees.n_leaves(s) > 0)


def table(leaf, i, its, seed):
  """Values of a leaf in each iteration."""
  dtype, shape = leaf
  r = rng(seed, i, its)
  size = (its,) + tuple(shape)
  if dtype == "bool":
    values = r.integers(0, 2, size=size).astype(bool)
  elif dtype.startswith("float"):
    values = floats(r, size, dtype)
  else:
    info_ = onp.iinfo(dtype)
    values = r.integers(info_.min, info_.max, size=size, endpoint=True
                        ).astype(dtype)
  if seed % 3 == 1:
    # Samples repeat, e.g. since proposals have been rejected
    values = values[onp.sort(rng(seed, its).integers(0, its, size=its))]
  return values


@st.composite
def chain_patterns(draw):
  its = draw(st.integers(1, 12))
  kind = draw(st.sampled_from(["random", "random", "all", "none", "tail",
                               "every"]))
  if kind == "all":
    return [1] * its
  if kind == "none":
    return [0] * its
  if kind == "tail":
    k = draw(st.integers(0, its))
    return [0] * k + [1] * (its - k)
  if kind == "every":
    k = draw(st.integers(2, 4))
    return [int(i % k == 0) for i in range(its)]
  return draw(st.lists(st.integers(0, 1), min_size=its, max_size=its))


@st.composite
def cases(draw):
  chains = draw(st.lists(chain_patterns(), min_size=1, max_size=3))
  ops = draw(st.lists(st.tuples(
    st.integers(0, len(chains) - 1), st.integers(1, 6)).map(list),
    min_size=0, max_size=5)) if len(chains) > 1 else []
  return {"spec": draw(tree_specs()), "chains": chains, "ops": ops,
          "way": draw(st.sampled_from(
            ["device", "memory", "npz", "hdf5", "json"])),
          "frequency": draw(st.sampled_from([0, 0, 1, 2, 3])),
          "form": draw(st.sampled_from(["scan", "scan", "jit", "loop"])),
          "late": draw(st.booleans()), "seed": draw(st.integers(0, 99))}


def run_chains(case, saving, trees_of, init_sample):
  """Feeds the samples in the given order; returns the final states."""
  init, save, postprocess = saving
  chains = case["chains"]
  states, position = {}, [0] * len(chains)

  def start(c):
    static = scheduler.static_information(
      samples_collected=sum(chains[c]))
    states[c] = init(init_sample, {}, static)

  if not case["late"]:
    for c in range(len(chains)):
      start(c)
  ops = list(case["ops"]) + [[c, 10 ** 6] for c in range(len(chains))]

  def body(state, x):
    keep, sample = x
    state, _ = save(state, keep, sample, scheduler_state=None,
                    solver_state=None)
    return state, None

  jitted = jax.jit(lambda s, x: body(s, x)[0])
  for c, count in ops:
    if c not in states:
      start(c)
    end = min(position[c] + count, len(chains[c]))
    if end == position[c]:
      continue
    sl = slice(position[c], end)
    keep = jnp.array(chains[c], dtype=bool)[sl]
    samples = tree_util.tree_map(lambda x: jnp.asarray(x[sl]), trees_of[c])
    if case["form"] == "scan":
      states[c], _ = jax.lax.scan(body, states[c], (keep, samples))
    else:
      for i in range(end - position[c]):
        x = (keep[i], tree_util.tree_map(lambda v, i=i: v[i], samples))
        states[c] = (jitted(states[c], x) if case["form"] == "jit"
                     else body(states[c], x)[0])
    position[c] = end
  return states, postprocess


def check(case):
  spec, way, chains = case["spec"], case["way"], case["chains"]
  trees_of = [trees.build(spec, lambda l, i, c=c: table(
    l, i, len(chains[c]), case["seed"] + c)) for c in range(len(chains))]
  init_sample = trees.build(
    spec, lambda l, i: jnp.zeros(tuple(l[1]), dtype=l[0]))
  treedef = tree_util.tree_structure(init_sample)
  names = ["/".join(p) for p in trees.path_names(spec)]
  with scratch_dir() as path:
    file = None
    if way == "device":
      saving = io.no_save()
    else:
      if way == "memory":
        collector = io.MemoryCollector()
      elif way == "npz":
        collector = io.MemoryCollector(os.path.join(path, "out"))
      elif way == "json":
        collector = io.JSONCollector(os.path.join(path, "out"),
                                     write_frequency=case["frequency"])
      else:
        file = h5py.File(os.path.join(path, "f.hdf5"), "w")
        collector = io.HDF5Collector(file)
      saving = io.save(collector)
    states, postprocess = run_chains(case, saving, trees_of, init_sample)
    # The order in which chains are registered determines their files
    order = list(states)
    # Results are requested in another order
    for c in sorted(states, reverse=bool(case["seed"] % 2)):
      what = f"{way}, chain {c}"
      out = postprocess(states[c], None)
      kept = onp.array(chains[c], dtype=bool)
      expected = tree_util.tree_map(lambda x: x[kept], trees_of[c])
      leaves = tree_util.tree_leaves(expected)
      require(int(out["sample_count"]) == kept.sum(),
              f"{what}: sample count", got=out["sample_count"],
              expected=int(kept.sum()))
      file_id = order.index(c)
      if way in ("device", "memory", "npz"):
        got_def = tree_util.tree_structure(out["samples"])
        require(got_def == treedef, f"{what}: structure", got=got_def,
                expected=treedef)
        for name, a, e in zip(names, tree_util.tree_leaves(out["samples"]),
                              leaves):
          same(a, e, f"{what}: samples of {name}")
      if way == "npz":
        fn = os.path.join(path, "out", f"chain_{file_id}.npz")
        require(os.path.exists(fn), f"{what}: file is missing",
                files=os.listdir(os.path.join(path, "out")))
        with onp.load(fn) as stored:
          require(sorted(stored.files) == sorted(names),
                  f"{what}: names in the file", got=sorted(stored.files),
                  expected=sorted(names))
          for name, e in zip(names, leaves):
            same(stored[name], e, f"{what}: file, {name}")
      elif way == "hdf5":
        found = []
        group = file[f"/chain~{file_id}"]
        if isinstance(group, h5py.Dataset):
          found.append("")
        else:
          group.visititems(lambda n, o: found.append(n)
                           if isinstance(o, h5py.Dataset) else None)
        require(sorted(found) == sorted(names), f"{what}: names in the file",
                got=sorted(found), expected=sorted(names))
        for name, e in zip(names, leaves):
          stored = group[name][()] if name else group[()]
          same(stored, e, f"{what}: file, {name}")
      elif way == "json":
        check_json(os.path.join(path, "out"), file_id, leaves,
                   int(kept.sum()), case["frequency"], what)
    if file is not None:
      file.close()
  total = [sum(c) for c in chains]
  return info(any(0 < t < len(c) for t, c in zip(total, chains)), way,
              f"chains {len(chains)}", case["form"],
              "interleaved" if len({c for c, _ in case["ops"]}) > 1
              else "consecutive", "none kept" if 0 in total else "kept",
              "several leaves" if len(names) > 1 else "one leaf",
              *trees.kinds(spec))


def check_json(path, chain, leaves, kept, frequency, what):
  expected = {kept} if kept else set()
  if frequency:
    expected |= set(range(frequency, kept + 1, frequency))
  files = {f for f in os.listdir(path) if f.startswith(f"chain_{chain}_")}
  require(files == {f"chain_{chain}_iteration_{n}.json" for n in expected},
          f"{what}: files", got=sorted(files), expected=sorted(expected))
  for n in expected:
    with open(os.path.join(path, f"chain_{chain}_iteration_{n}.json")) as f:
      stored = json.load(f)
    require(isinstance(stored, list) and len(stored) == len(leaves),
            f"{what}: number of leaves in the file", got=len(stored))
    for i, (s, e) in enumerate(zip(stored, leaves)):
      s = onp.array(s, dtype=e.dtype)
      require(s.shape == e[:n].shape or e[:n].size == 0,
              f"{what}: shape of leaf {i}", got=s.shape, expected=e[:n].shape)
      if e[:n].size:
        same(s, e[:n], f"{what}: file {n}, leaf {i}")


# -- one program saving samples of several chains at once

@st.composite
def joint_cases(draw):
  its = draw(st.integers(1, 10))
  n = draw(st.integers(2, 3))
  return {"patterns": [draw(st.lists(st.integers(0, 1), min_size=its,
                                     max_size=its)) for _ in range(n)],
          "spec": draw(tree_specs(3)), "seed": draw(st.integers(0, 99)),
          "way": draw(st.sampled_from(["device", "memory", "hdf5"])),
          "form": draw(st.sampled_from(["program", "vmap", "loop vmap"])),
          "jit": draw(st.booleans()),
          # Values which do not differ between the chains
          "shared": draw(st.booleans()),
          # Order in which the chains are registered
          "order": draw(st.permutations(range(n)))}


def check_joint(case):
  patterns, spec = case["patterns"], case["spec"]
  its = len(patterns[0])
  form = case.get("form", "program")
  if form != "program" and (case["way"] == "device" or case["seed"] % 2):
    # Vectorized chains collect the same number of samples on the device
    patterns = [patterns[0][c % its:] + patterns[0][:c % its]
                for c in range(len(patterns))]
  shared = case.get("shared")
  if shared:
    patterns = [patterns[0]] * len(patterns)
  tables = [trees.build(spec, lambda l, i, c=c: table(
    l, i, its, case["seed"] + c * (not shared or i % 2 == 1)))
    for c in range(len(patterns))]
  init_sample = trees.build(
    spec, lambda l, i: jnp.zeros(tuple(l[1]), dtype=l[0]))
  names = ["/".join(p) for p in trees.path_names(spec)]
  # The first, third, ... leaf do not depend on the chain
  axes = trees.build(spec, lambda l, i: 0 if not shared or i % 2 else None)
  with scratch_dir() as path:
    file = None
    if case["way"] == "device":
      saving = io.no_save()
    elif case["way"] == "memory":
      saving = io.save(io.MemoryCollector())
    else:
      file = h5py.File(os.path.join(path, "f.hdf5"), "w")
      saving = io.save(io.HDF5Collector(file))
    init, save, postprocess = saving
    order = case.get("order", range(len(patterns)))
    states = {c: init(init_sample, {}, scheduler.static_information(
      samples_collected=sum(patterns[c]))) for c in order}
    states = [states[c] for c in range(len(patterns))]

    def body(states, x):
      new = []
      for s, (keep, sample) in zip(states, x):
        new.append(save(s, keep, sample)[0])
      return new, None
    def loop(states):
      xs = [(jnp.array(p, dtype=bool), tree_util.tree_map(jnp.asarray, t))
            for p, t in zip(patterns, tables)]
      return jax.lax.scan(body, states, xs)[0]
    def single(state, keep, samples):
      return jax.lax.scan(
        lambda s, x: (save(s, x[0], x[1])[0], None), state,
        (keep, samples))[0]
    stack = lambda ts: tree_util.tree_map(
      lambda *x: jnp.stack([jnp.asarray(v) for v in x]), *ts)
    wrap = jax.jit if case["jit"] else lambda f: f
    if form == "program":
      states = wrap(loop)(states)
    else:
      xs = (jnp.array(patterns, dtype=bool), stack(tables))
      if shared:
        xs = (xs[0][0], tree_util.tree_map(
          lambda x, a: x if x is None or a == 0 else x[0], xs[1], axes,
          is_leaf=lambda x: x is None))
      axes = (0, 0 if not shared else None, axes)
      stacked = stack(states)
      if form == "vmap":
        stacked = wrap(jax.vmap(single, axes))(stacked, *xs)
      else:
        step = wrap(jax.vmap(lambda s, k, x: save(s, k, x)[0], axes))
        for i in range(its):
          take = lambda x, a, i=i: (x if x is None else x[:, i] if a == 0
                                    else x[i])
          stacked = step(stacked, *tree_util.tree_map(
            take, xs, axes[1:], is_leaf=lambda x: x is None))
      states = [tree_util.tree_map(lambda x, c=c: x[c], stacked)
                for c in range(len(patterns))]
    for c, (state, p) in enumerate(zip(states, patterns)):
      out = postprocess(state, None)
      kept = onp.array(p, dtype=bool)
      require(int(out["sample_count"]) == kept.sum(), "sample count",
              got=out["sample_count"], expected=int(kept.sum()), chain=c)
      leaves = tree_util.tree_leaves(
        tree_util.tree_map(lambda x: x[kept], tables[c]))
      got = (tree_util.tree_leaves(out["samples"]) if file is None else
             [file[f"/chain~{list(order).index(c)}" + "/" * bool(n) + n][()]
              for n in names])
      require(len(got) == len(leaves), "number of leaves", got=len(got))
      for name, a, e in zip(names, got, leaves):
        same(a, e, f"{case['way']}, chain {c}: {name}")
    if file is not None:
      file.close()
  return info(any(0 < sum(p) < its for p in patterns), case["way"],
              f"chains {len(patterns)}", form, "shared values" if shared else
              "values of each chain")


# -- long runs

@st.composite
def long_cases(draw):
  its = draw(st.sampled_from([1300, 60, 129, 257, 600]))
  r = draw(st.integers(0, 999))
  keep = draw(st.sampled_from([1.0, 0.02, 0.3]))
  chains = []
  for c in range(draw(st.integers(1, 2))):
    chains.append((rng(r, c).uniform(size=its) < keep).astype(int).tolist())
  ops = [[c, its // 3] for c in range(len(chains))] * draw(st.integers(0, 2))
  return dict(draw(cases()), chains=chains, ops=ops, form="scan",
              frequency=draw(st.sampled_from([100, 50, 0])),
              way=draw(st.sampled_from(
                ["device", "memory", "npz", "hdf5", "json", "json"])),
              spec=draw(tree_specs(3)))


# -- many chains

@st.composite
def many_cases(draw):
  count = draw(st.integers(9, 13))
  r = draw(st.integers(0, 999))
  its = draw(st.integers(2, 5))
  chains = [(rng(r, c).uniform(size=its) < 0.7).astype(int).tolist()
            for c in range(count)]
  ops = [[int(c), 2] for c in rng(r, 77).permutation(count)]
  return dict(draw(cases()), chains=chains, ops=ops * draw(st.integers(0, 1)),
              form=draw(st.sampled_from(["scan", "jit"])),
              spec=draw(tree_specs(2)))


SUBS = [
  Sub("collect", cases, check, 400, 6000, weight=3),
  Sub("joint", joint_cases, check_joint, 160, 1600),
  Sub("long", long_cases, check, 60, 600, weight=0.7),
  Sub("many", many_cases, check, 40, 400, weight=0.7),
]
