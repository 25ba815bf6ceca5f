"""Adaption strategies on pytrees and RMSprop."""
import collections

import jax
import jax.numpy as jnp
import numpy as onp
from hypothesis import strategies as st
from jax import tree_util

from jax_sgmc import adaption

from pbt import trees
from pbt.core import Sub, info, require
from pbt.util import F, JF, close, rng

SHAPES = [[], [1], [3], [2, 2], [1, 3], [2, 1, 2], [0]]
LEAF = st.sampled_from(SHAPES)


def tree_specs(max_leaves=5):
  return trees.specs(LEAF, max_leaves=max_leaves).filter(
    lambda s: trees.n_leaves(s) > 0)


def make_tree(spec, *seed, positive=False, lead=()):
  def leaf(shape, i):
    r = rng(29, i, *seed)
    a = r.normal(size=tuple(lead) + tuple(shape))
    if positive:
      a = onp.abs(a) + 0.1
    return onp.asarray(a, dtype=F)
  return trees.build(spec, leaf)


def flat(tree, lead=0):
  """Leaves in flattening order, entries in C order."""
  leaves = tree_util.tree_leaves(tree)
  return onp.concatenate([onp.asarray(l, dtype=onp.float64).reshape(
    l.shape[:lead] + (-1,)) for l in leaves], axis=-1)


def check_diagonal(quantity, expected, sample, what, **tol):
  require(int(quantity.ndim) == 1, f"{what}: not marked as diagonal",
          got=quantity.ndim)
  tree = quantity.tensor
  require(tree_util.tree_structure(tree) == tree_util.tree_structure(sample),
          f"{what}: structure", got=tree_util.tree_structure(tree))
  for a, b in zip(tree_util.tree_leaves(tree), tree_util.tree_leaves(sample)):
    require(a.shape == b.shape, f"{what}: shape of a leaf", got=a.shape,
            expected=b.shape)
  close(flat(tree), expected, what=what, **tol)


def check_matrix(quantity, expected, what, **tol):
  require(int(quantity.ndim) == 2, f"{what}: not marked as matrix",
          got=quantity.ndim)
  close(quantity.tensor, expected, what=what, **tol)


# -- decorated strategies

Three = collections.namedtuple("Three", ["first", "second", "third"])


@st.composite
def decorator_cases(draw):
  return {"spec": draw(tree_specs()), "extra": draw(st.integers(0, 2)),
          "none": draw(st.booleans()),
          "full": draw(st.lists(st.booleans(), min_size=3, max_size=3)),
          "potential": draw(st.sampled_from(["no", "yes"])),
          # The potential depends on a model state
          "state": draw(st.booleans()),
          "updates": draw(st.integers(0, 3)), "jit": draw(st.booleans()),
          "factor": draw(st.sampled_from([1.0, 0.5, -2.0])),
          "seed": draw(st.integers(0, 99))}


def check_decorator(case):
  spec, extra, full = case["spec"], case["extra"], case["full"]
  seed, with_potential = case["seed"], case["potential"] == "yes"

  with_state = with_potential and case.get("state", False)

  def potential_fn(sample, reference_data, state=None, scale=1.0):
    # Depends on the structure of the sample
    leaves = tree_util.tree_leaves(sample)
    total = sum((i + 1.0) * jnp.sum(l ** 2) for i, l in enumerate(leaves))
    if state is not None:
      total = total * state["m"]
    return scale * total * reference_data["y"], state
  model_state = {"m": JF(0.5)} if with_state else None

  def outputs(vectors):
    return tuple(jnp.outer(v, v) + jnp.diag(v) if f else v
                 for v, f in zip(vectors, full))

  @adaption.adaption(quantity=Three)
  def strategy(offset, minibatch_potential=None):
    def init(sample, *others, factor=1.0):
      require(jnp.ndim(sample) == 1, "sample passed to init is not flat",
              got=jnp.shape(sample))
      acc = sample + 0.0
      for i, o in enumerate(others):
        if o is not None:
          acc = acc + (i + 2.0) * o
      return {"acc": acc, "factor": factor,
              "none": JF(sum(o is None for o in others))}
    def update(state, sample, grad, *args, weight=1.0, **potential):
      require(set(potential) == (
        {"mini_batch", "flat_potential"} if with_potential else set()),
              "keyword arguments passed to update", got=sorted(potential))
      for v in (sample, grad):
        require(jnp.ndim(v) == 1, "argument passed to update is not flat")
      acc = state["acc"] * 0.5 + state["factor"] * grad + weight * sample
      if with_potential:
        acc = acc + 0.01 * potential["flat_potential"](
          sample, potential["mini_batch"], model_state=model_state)[0]
      for i, a in enumerate(args):
        acc = acc + (i + 3.0) * a
      return dict(state, acc=acc)
    def get(state, sample, grad, *args, weight=1.0, mini_batch=None,
            flat_potential=None):
      second = sample - 2.0 * grad + offset
      for i, a in enumerate(args):
        second = second + (i + 5.0) * a
      third = state["acc"] * weight + state["none"]
      if with_potential:
        third = third + jax.grad(
          lambda s: flat_potential(s, mini_batch, model_state=model_state,
                                   scale=0.5)[0])(sample)
      return outputs((state["acc"], second, third))
    return init, update, get

  kwargs = {"minibatch_potential": potential_fn} if with_potential else {}
  init, update, get = strategy(0.25, **kwargs)
  batch = {"y": JF(1.5)}
  more = {"mini_batch": batch} if with_potential else {}
  sample = make_tree(spec, seed, 0)
  others = [make_tree(spec, seed, 10 + i) for i in range(extra)]
  init_args = others + ([None] if case["none"] else [])
  n_up = case["updates"]
  samples = [make_tree(spec, seed, 100 + k) for k in range(n_up + 1)]
  grads = [make_tree(spec, seed, 200 + k) for k in range(n_up + 1)]

  def program(sample, others, samples, grads, batch, factor):
    args = list(others) + ([None] if case["none"] else [])
    state = init(sample, *args, factor=factor)
    more = {"mini_batch": batch} if with_potential else {}
    for k in range(n_up):
      state = update(state, samples[k], grads[k], *others, weight=0.5 + k,
                     **more)
    quantities = get(state, samples[-1], grads[-1], *others, weight=2.0,
                     **more)
    return state, quantities
  as_jax = lambda t: tree_util.tree_map(jnp.asarray, t)
  args = (as_jax(sample), as_jax(others), as_jax(samples), as_jax(grads),
          batch, JF(case["factor"]))
  if case["jit"]:
    # The state of the adaption has to be a valid argument of jitted functions
    def first(*args):
      return program(*args)[0]
    state = jax.jit(first)(*args)
    quantities = jax.jit(lambda s, x, g, o, b: get(
      s, x, g, *o, weight=2.0, **({"mini_batch": b} if with_potential
                                  else {})))(
      state, args[2][-1], args[3][-1], args[1], batch)
  else:
    state, quantities = program(*args)
  del more, init_args

  # Reference on flat vectors
  sizes = [l.size for l in tree_util.tree_leaves(sample)]
  weights = onp.concatenate([onp.full(s, i + 1.0)
                             for i, s in enumerate(sizes)])
  def pot(v):
    return (weights * v ** 2).sum() * 1.5 * (0.5 if with_state else 1.0)
  o = [flat(t) for t in others]
  acc = flat(sample) + sum((i + 2.0) * v for i, v in enumerate(o))
  for k in range(n_up):
    x, g = flat(samples[k]), flat(grads[k])
    acc = acc * 0.5 + case["factor"] * g + (0.5 + k) * x
    if with_potential:
      acc = acc + 0.01 * pot(x)
    acc = acc + sum((i + 3.0) * v for i, v in enumerate(o))
  x, g = flat(samples[-1]), flat(grads[-1])
  second = x - 2 * g + 0.25 + sum((i + 5.0) * v for i, v in enumerate(o))
  third = 2.0 * acc + float(case["none"])
  if with_potential:
    third = third + weights * x * 1.5 * (0.5 if with_state else 1.0)
  require(isinstance(quantities, Three), "type of the quantities",
          got=type(quantities))
  for name, f, v in zip(Three._fields, full, (acc, second, third)):
    quantity = getattr(quantities, name)
    if f:
      check_matrix(quantity, onp.outer(v, v) + onp.diag(v), name, rtol=1e-4,
                   atol=1e-4 * (1 + onp.abs(v).max(initial=0) ** 2))
    else:
      check_diagonal(quantity, v, sample, name, rtol=1e-4, atol=1e-4)
  return info(trees.n_leaves(spec) > 1 and sum(sizes) > 1,
              "jit" if case["jit"] else "no jit", *trees.kinds(spec),
              "model state" if with_state else
              "potential" if with_potential else "no potential",
              f"extra arguments {extra}",
              "unspecified argument" if case["none"] else "specified",
              "matrix" if any(full) else "diagonal")


# -- RMSprop

@st.composite
def rms_cases(draw):
  chains = draw(st.integers(1, 2))
  if draw(st.integers(0, 5)) == 5:
    # The stabilisation determines the metric
    return {"spec": draw(tree_specs(4)),
            "constants": [{"alpha": 0.0, "lmbd": draw(st.sampled_from(
              [1e-7, 1e-5, 1e-2]))} for _ in range(chains)],
            "updates": draw(st.integers(1, 3)),
            "scale": draw(st.sampled_from([0.0, 1e-8])),
            "form": draw(st.sampled_from(["loop", "jit", "scan"])),
            "seed": draw(st.integers(0, 99))}
  return {"spec": draw(tree_specs(4)),
          "constants": [draw(st.fixed_dictionaries({}, optional={
            "alpha": st.sampled_from([0.0, 0.5, 0.9, 0.99, 1.0]),
            "lmbd": st.sampled_from([1e-7, 1e-5, 1e-2, 1.0, 3.0])}))
            for _ in range(chains)],
          "updates": draw(st.integers(0, 12)),
          "scale": draw(st.sampled_from([0.0, 1e-8, 1e-4, 0.01, 1.0, 100.0, 1e5])),
          "form": draw(st.sampled_from(["loop", "jit", "scan"])),
          "seed": draw(st.integers(0, 99))}


def check_rms(case):
  spec, n = case["spec"], case["updates"]
  init, update, get = adaption.rms_prop()
  sample = make_tree(spec, case["seed"], 0)
  jit = jax.jit if case["form"] != "loop" else lambda f: f
  step = jit(lambda s, x, g: update(s, x, g))
  query = jit(lambda s, x, g: get(s, x, g))
  states, expected = [], []
  for c, constants in enumerate(case["constants"]):
    states.append(init(sample, **constants))
    expected.append(onp.ones_like(flat(sample)))
  grads = [tree_util.tree_map(
    lambda x: x * F(case["scale"]),
    make_tree(spec, case["seed"], 50 + c, lead=(n,)))
    for c in range(len(states))]
  # Chains are updated in turn and do not influence each other
  if case["form"] == "scan" and n:
    for c in range(len(states)):
      states[c], _ = jax.lax.scan(
        lambda s, g: (update(s, sample, g), None), states[c],
        tree_util.tree_map(jnp.asarray, grads[c]))
  for k in range(n):
    for c, constants in enumerate(case["constants"]):
      g = tree_util.tree_map(lambda x, k=k: jnp.asarray(x[k]), grads[c])
      alpha = constants.get("alpha", 0.9)
      expected[c] = alpha * expected[c] + (1 - alpha) * flat(g) ** 2
      if case["form"] != "scan":
        states[c] = step(states[c], sample, g)
  for c, constants in enumerate(case["constants"]):
    lmbd = constants.get("lmbd", 1e-5)
    metric = 1 / (lmbd + onp.sqrt(expected[c]))
    # Arguments of get do not matter
    other = make_tree(spec, case["seed"], 77)
    out = query(states[c], sample, other)
    require(isinstance(out, adaption.Manifold), "type of the quantities")
    check_diagonal(out.g_inv, metric, sample, "metric", rtol=1e-4, atol=1e-6)
    check_diagonal(out.sqrt_g_inv, onp.sqrt(metric), sample,
                   "square root of the metric", rtol=1e-4, atol=1e-6)
    check_diagonal(out.gamma, onp.zeros_like(metric), sample,
                   "drift correction", rtol=0, atol=0)
  return info(n > 0 and flat(sample).size > 0, "rms_prop", case["form"],
              f"chains {len(states)}",
              "constants of the chain" if any(case["constants"])
              else "default constants")


@st.composite
def long_cases(draw):
  return dict(draw(rms_cases()), form="scan",
              updates=draw(st.sampled_from([60, 130, 300, 1000])))


SUBS = [
  Sub("long history", long_cases, check_rms, 24, 300, weight=0.5),
  Sub("decorator", decorator_cases, check_decorator, 240, 4000),
  Sub("rms_prop", rms_cases, check_rms, 160, 3000),
]
