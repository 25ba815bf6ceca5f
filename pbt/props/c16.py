"""Potential of mini-batches."""
import itertools
from functools import partial

import jax
import jax.numpy as jnp
import numpy as onp
from hypothesis import strategies as st
from jax import tree_util

from jax_sgmc import data as sgmc_data
from jax_sgmc.data.numpy_loader import DeviceNumpyDataLoader, NumpyDataLoader
from jax_sgmc.potential import full_potential, minibatch_potential

from pbt import models
from pbt.core import Sub, info, require
from pbt.util import JF, close, rng

TEMPERATURES = [1.0, 0.5, 2.0, 10.0, 0.1]


def make_state(kind, seed=0):
  """Model state: shifts the model and counts the evaluations."""
  if kind is None:
    return None
  shift = JF(0.25 + 0.5 * seed)
  count = jnp.int32(3 + seed)
  if kind == "dict":
    return {"shift": shift, "count": count}
  if kind == "array":
    return {"stats": (shift.reshape((1,)), jnp.ones((2, 3)) * shift),
            "count": count.reshape((1, 1))}
  return (shift, [count])


def state_shift(kind, state):
  if kind == "dict":
    return state["shift"]
  if kind == "array":
    return jnp.sum(state["stats"][0])
  return state[0]


def state_next(kind, state):
  if kind == "dict":
    return {"shift": state["shift"], "count": state["count"] + 1}
  if kind == "array":
    return {"stats": state["stats"], "count": state["count"] + 1}
  return (state[0], [state[1][0] + 1])


def likelihood_fn(case):
  """Likelihood as the user would define it."""
  spec, state_kind = case["model"], case["state"]
  shape = case["shape"]

  def evaluate(state, sample, obs):
    shift = 0.0 if state_kind is None else state_shift(state_kind, state)
    single = lambda x, y: models.lk_jax(spec, sample, x, y, shift)
    if case["batched"]:
      lks = jax.vmap(single)(obs["x"], obs["y"])
      return lks.reshape((-1, 1)) if shape == "column" else lks
    lk = single(obs["x"], obs["y"])
    return jnp.reshape(lk, (1,)) if shape == "column" else lk

  if state_kind is None:
    return lambda sample, obs: evaluate(None, sample, obs)
  return lambda state, sample, obs: (
    evaluate(state, sample, obs), state_next(state_kind, state))


def prior_fn(case):
  def prior(sample):
    value = models.prior_jax(case["model"], sample)
    return jnp.reshape(value, (1,)) if case["prior"] == "array" else value
  return prior


def expected_potential(case, leaves, x, y, weight, scale, shift):
  """Value, gradient and magnitude of the terms."""
  spec, t = case["model"], case["temperature"]
  lk, grads = models.lk_np(spec, leaves, x, y, shift)
  prior, pgrads = models.prior_np(spec, leaves)
  weight = onp.asarray(weight, onp.float64)
  value = -(scale * (lk * weight).sum() + prior) / t
  size = (scale * (onp.abs(lk) * weight).sum() + abs(prior) + 1.0) / t
  grad, gsize = [], []
  for g, p in zip(grads, pgrads):
    w = weight.reshape((-1,) + (1,) * (g.ndim - 1))
    grad.append(-(scale * (g * w).sum(0) + p) / t)
    gsize.append((scale * (onp.abs(g) * w).sum(0) + onp.abs(p) + 1.0) / t)
  return lk, value, size, grad, gsize


def check_scaled(actual, expected, size, what, tol=3e-5):
  """Comparison relative to the magnitude of the summands."""
  a = onp.asarray(actual, dtype=onp.float64)
  e = onp.asarray(expected)
  require(a.shape == e.shape, f"{what}: shape", got=a.shape, expected=e.shape)
  require((onp.abs(a - e) <= tol * size).all(), what, got=a, expected=e)


@st.composite
def configs(draw, strategies=("map", "vmap")):
  model = draw(models.model_specs())
  if draw(st.integers(0, 9)) == 9:
    # The prior dominates
    model["tau"] = 1e5
  return {"model": model,
          "batched": draw(st.booleans()),
          "strategy": draw(st.sampled_from(list(strategies))),
          "state": draw(st.sampled_from([None, None, "dict", "array",
                                         "tuple"])),
          "shape": draw(st.sampled_from(["scalar", "scalar", "column"])),
          "prior": draw(st.sampled_from(["scalar", "array"])),
          "temperature": draw(st.sampled_from(TEMPERATURES)),
          "jit": draw(st.booleans()), "seed": draw(st.integers(0, 99))}


@st.composite
def cases(draw):
  case = draw(configs(["map", "vmap", "map", "vmap", "pmap"]))
  case["n"] = draw(st.one_of(st.integers(1, 4), st.integers(1, 12)))
  if case["strategy"] == "pmap":
    case["n"] = min(case["n"], 4)
  case["N"] = draw(st.integers(case["n"], 60))
  case["count_type"] = draw(st.sampled_from(["int", "array"]))
  case["mask"] = draw(st.one_of(
    st.none(), st.lists(st.integers(0, 1), min_size=case["n"],
                        max_size=case["n"])))
  case["mask_dtype"] = draw(st.sampled_from(["bool", "int32", "float32"]))
  case["chains"] = draw(st.sampled_from([0, 0, 2]))
  return case


def grad_leaves(spec, tree):
  return [onp.asarray(l) for l in models.unpack(spec, tree)]


def check(case):
  spec, n, N = case["model"], case["n"], case["N"]
  potential = minibatch_potential(
    prior_fn(case), likelihood_fn(case), strategy=case["strategy"],
    has_state=case["state"] is not None, is_batched=case["batched"],
    temperature=case["temperature"])
  obs = models.make_obs(spec, n, case["seed"])
  number = int if case["count_type"] == "int" else jnp.int32
  batch = (tree_util.tree_map(jnp.asarray, obs),
           sgmc_data.MiniBatchInformation(
             observation_count=number(N), batch_size=number(n),
             mask=jnp.ones(n, dtype=bool)))
  mask = case["mask"]
  mask_arg = None if mask is None else jnp.array(mask).astype(
    case["mask_dtype"])
  state = make_state(case["state"], case["seed"] % 3)
  shift = 0.0 if state is None else float(
    state_shift(case["state"], state))

  def call(sample, state, likelihoods):
    return potential(sample, batch, state, mask_arg, likelihoods)
  def run(fun):
    return jax.jit(fun) if case["jit"] else fun
  chains = case["chains"] if case["strategy"] != "pmap" else 0
  samples = [models.sample_leaves(spec, k) for k in range(max(chains, 1))]
  packed = [models.pack(spec, [jnp.asarray(l) for l in s]) for s in samples]
  plain = lambda s: call(s, state, False)
  separate = lambda s: call(s, state, True)
  grad = jax.value_and_grad(plain, has_aux=True)
  grad_sep = jax.grad(separate, has_aux=True)
  if chains:
    stacked = tree_util.tree_map(lambda *x: jnp.stack(x), *packed)
    outs = run(lambda s: (jax.vmap(plain)(s), jax.vmap(separate)(s),
                          jax.vmap(grad)(s), jax.vmap(grad_sep)(s)))(stacked)
    outs = [tree_util.tree_map(lambda x, k=k: x[k], outs)
            for k in range(chains)]
  else:
    outs = [run(lambda s: (plain(s), separate(s), grad(s), grad_sep(s)))(
      packed[0])]
  weight = onp.ones(n) if mask is None else onp.array(mask)
  for leaves, out in zip(samples, outs):
    lk, value, size, egrad, gsize = expected_potential(
      case, leaves, obs["x"], obs["y"], weight, N / n, shift)
    (u, st1), (u2, (lks, st2)), ((u3, st3), g), (g2, (lks2, st4)) = out
    for v, what in ((u, "potential"), (u2, "potential with likelihoods"),
                    (u3, "potential with gradient")):
      check_scaled(v, value, size, what)
    for values in (lks, lks2):
      check_scaled(values, lk, onp.abs(lk) + 1.0,
                   "separate log-likelihoods")
    for tree in (g, g2):
      require(tree_util.tree_structure(tree) ==
              tree_util.tree_structure(packed[0]), "gradient structure")
      for a, e, s, name in zip(grad_leaves(spec, tree), egrad, gsize, "wbs"):
        check_scaled(a, e, s, f"gradient with respect to {name}")
    for got in (st1, st2, st3, st4):
      check_state(got, state, case["state"], 1, "model state")
  # Gradients with respect to the data
  if case["strategy"] != "pmap":
    def of_data(data):
      return potential(packed[0], (data, batch[1]), state, mask_arg)[0]
    dgrad = run(jax.grad(of_data))(batch[0])
    for leaf in tree_util.tree_leaves(dgrad):
      require(not onp.asarray(leaf).any(), "the data is differentiated",
              got=leaf)
  return info(spec["kind"] != "constant" and (n > 1 or mask is None),
              case["strategy"] if not case["batched"] else "batched",
              "masked" if mask else "no mask",
              "state" if state is not None else "stateless",
              "single observation" if n == 1 else "batch",
              f"temperature {case['temperature']}", spec["kind"],
              "chains" if chains else "one chain")


def check_state(got, state, kind, count, what):
  if state is None:
    require(got is None, f"{what}: state of a stateless model", got=got)
    return
  expected = state
  for _ in range(count):
    expected = state_next(kind, expected)
  require(tree_util.tree_structure(got) == tree_util.tree_structure(state),
          f"{what}: structure", got=got)
  for a, e in zip(tree_util.tree_leaves(got),
                  tree_util.tree_leaves(expected)):
    require(onp.shape(a) == onp.shape(e) and
            onp.asarray(a).dtype == onp.asarray(e).dtype,
            f"{what}: format", got=(a.shape, a.dtype),
            expected=(e.shape, e.dtype))
    close(a, e, what=what)


# -- the mean over all batches

@st.composite
def unbiased_cases(draw):
  case = draw(configs())
  N = draw(st.integers(1, 6))
  n = draw(st.integers(1, min(N, 3)))
  case.update(N=N, n=n, replace=draw(st.booleans()),
              mb=draw(st.integers(1, N)),
              loader=draw(st.sampled_from(["host", "device"])))
  return case


def check_unbiased(case):
  spec, n, N = case["model"], case["n"], case["N"]
  kwargs = dict(strategy=case["strategy"],
                has_state=case["state"] is not None,
                is_batched=case["batched"], temperature=case["temperature"])
  potential = minibatch_potential(prior_fn(case), likelihood_fn(case),
                                  **kwargs)
  full = full_potential(prior_fn(case), likelihood_fn(case), **kwargs)
  obs = models.make_obs(spec, N, case["seed"])
  idx = (itertools.product(range(N), repeat=n) if case["replace"]
         else itertools.permutations(range(N), n))
  idx = jnp.array(list(idx))
  state = make_state(case["state"])
  leaves = models.sample_leaves(spec)
  sample = models.pack(spec, [jnp.asarray(l) for l in leaves])
  data = tree_util.tree_map(jnp.asarray, obs)

  def batch_value(i):
    batch = tree_util.tree_map(lambda x: x[i], data)
    mb_info = sgmc_data.MiniBatchInformation(
      observation_count=N, batch_size=n, mask=jnp.ones(n, dtype=bool))
    return jax.value_and_grad(
      lambda s: potential(s, (batch, mb_info), state)[0])(sample)
  values, grads = jax.jit(jax.vmap(batch_value))(idx)
  loader = (NumpyDataLoader if case["loader"] == "host"
            else DeviceNumpyDataLoader)(**obs)
  init, full_map, release = sgmc_data.full_reference_data(
    loader, cached_batches_count=2, mb_size=case["mb"])
  value, _ = full(sample, init(), full_map, state)
  release()
  shift = 0.0 if state is None else float(state_shift(case["state"], state))
  _, exact, size, egrad, gsize = expected_potential(
    case, leaves, obs["x"], obs["y"], onp.ones(N), 1.0, shift)
  v = onp.asarray(values, dtype=onp.float64)
  big = onp.abs(v).mean() + size
  check_scaled(v.mean(), exact, big, "mean of the stochastic potential")
  check_scaled(value, v.mean(), big,
               "full potential and mean of the stochastic potential")
  for g, e, s, name in zip(models.unpack(
      spec, tree_util.tree_map(lambda x: onp.asarray(x, onp.float64).mean(0),
                               grads)), egrad, gsize, "wbs"):
    check_scaled(g, e, s * 3, f"mean gradient with respect to {name}")
  return info(N > 1 and spec["kind"] != "constant", "unbiased",
              "with replacement" if case["replace"] else "without")


# -- large batches

@st.composite
def large_cases(draw):
  n = draw(st.one_of(st.integers(60, 400), st.sampled_from(
    [127, 128, 255, 256, 257, 300])))
  case = draw(cases().filter(lambda c: c["strategy"] != "pmap"))
  keep = draw(st.sampled_from([None, 0.05, 0.5, 0.95]))
  r = rng(case["seed"], n)
  case.update(n=n, N=draw(st.sampled_from([n, n + 1, 10 * n, 10 ** 6])),
              mask=None if keep is None else
              (r.uniform(size=n) < keep).astype(int).tolist())
  return case


SUBS = [
  Sub("batch", cases, check, 320, 6000, weight=2),
  Sub("unbiased", unbiased_cases, check_unbiased, 120, 2000),
  Sub("large", large_cases, check, 40, 600, weight=0.5),
]
