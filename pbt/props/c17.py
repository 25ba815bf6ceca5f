"""Potential of the full dataset."""
import math

import jax
import jax.numpy as jnp
import numpy as onp
from hypothesis import strategies as st
from jax import tree_util

from jax_sgmc import data as sgmc_data
from jax_sgmc.data.numpy_loader import DeviceNumpyDataLoader, NumpyDataLoader
from jax_sgmc.potential import full_potential

from pbt import models
from pbt.core import Sub, info, require
from pbt.data import size_pairs
from pbt.props.c16 import (check_scaled, check_state, configs,
                           expected_potential, likelihood_fn, make_state,
                           prior_fn, state_shift)


def make_full(case):
  return full_potential(
    prior_fn(case), likelihood_fn(case), strategy=case["strategy"],
    has_state=case["state"] is not None, is_batched=case["batched"],
    temperature=case["temperature"])


def loader_for(case, obs):
  return (NumpyDataLoader if case["loader"] == "host"
          else DeviceNumpyDataLoader)(**obs)


class Oracle:
  def __init__(self, case, obs):
    self.case, self.obs = case, obs

  def check(self, k, state, value, grad, what):
    case, obs = self.case, self.obs
    leaves = models.sample_leaves(case["model"], k)
    shift = 0.0 if state is None else float(
      state_shift(case["state"], state))
    _, exact, size, egrad, gsize = expected_potential(
      case, leaves, obs["x"], obs["y"], onp.ones(case["n"]), 1.0, shift)
    if value is not None:
      check_scaled(value, exact, size, f"{what}: potential")
    if grad is not None:
      for g, e, s, name in zip(models.unpack(case["model"], grad), egrad,
                               gsize, "wbs"):
        check_scaled(g, e, s, f"{what}: gradient with respect to {name}")


@st.composite
def cases(draw):
  case = draw(configs())
  n, mb = draw(size_pairs(11))
  if draw(st.integers(0, 3)) == 0:
    n = draw(st.integers(20, 60))
    mb = draw(st.integers(1, n))
  case.update(n=n, mb=mb, cache=draw(st.integers(1, 4)),
              loader=draw(st.sampled_from(["host", "device"])),
              form=draw(st.sampled_from(["value", "value", "grad", "scan",
                                         "mapper"])),
              evaluations=draw(st.integers(1, 4)),
              offset=draw(st.booleans()))
  return case


def check(case):
  spec, n, mb = case["model"], case["n"], case["mb"]
  obs = models.make_obs(spec, n, case["seed"])
  oracle = Oracle(case, obs)
  full = make_full(case)
  loader = loader_for(case, obs)
  state = make_state(case["state"], case["seed"] % 3)
  samples = [models.pack(spec, [jnp.asarray(l) for l in
                                models.sample_leaves(spec, k)])
             for k in range(case["evaluations"])]
  passes = math.ceil(n / mb)
  jit = jax.jit if case["jit"] else lambda f: f
  form = case["form"]
  if form == "mapper":
    mapper, release = sgmc_data.full_data_mapper(
      loader, cached_batches_count=case["cache"], mb_size=mb)
    def call(sample, state):
      value, (_, state) = full(sample, None, mapper, state)
      return value, state
    fun = jit(call)
    for k, sample in enumerate(samples):
      value, new_state = fun(sample, state)
      oracle.check(k, state, value, None, f"evaluation {k}")
      check_state(new_state, state, case["state"], passes, "model state")
      state = new_state
  else:
    init, full_map, release = sgmc_data.full_reference_data(
      loader, cached_batches_count=case["cache"], mb_size=mb)
    data_state = init(offset=n // 2) if (
      case["offset"] and case["loader"] == "device") else init()
    if form == "scan":
      def body(carry, sample):
        data_state, state = carry
        value, (data_state, state) = full(sample, data_state, full_map, state)
        return (data_state, state), value
      stacked = tree_util.tree_map(lambda *x: jnp.stack(x), *samples)
      (_, new_state), values = jit(lambda c: jax.lax.scan(body, c, stacked))(
        (data_state, state))
      for k, value in enumerate(values):
        oracle.check(k, state, value, None, f"evaluation {k}")
      check_state(new_state, state, case["state"], passes * len(samples),
                  "model state")
    else:
      def call(sample, data_state, state):
        return full(sample, data_state, full_map, state)
      if form == "grad":
        vg = jax.value_and_grad(call, has_aux=True)
        def fun(*args):
          (value, aux), grad = vg(*args)
          return value, aux, grad
      else:
        def fun(*args):
          return (*call(*args), None)
      fun = jit(fun)
      for k, sample in enumerate(samples):
        value, (data_state, new_state), grad = fun(sample, data_state, state)
        oracle.check(k, state, value, grad, f"evaluation {k}")
        check_state(new_state, state, case["state"], passes, "model state")
        state = new_state
  release()
  return info(spec["kind"] != "constant" and passes > 1, case["loader"], form,
              "batched" if case["batched"] else case["strategy"],
              "surplus" if n % mb else "divides",
              "state" if state is not None else "stateless",
              "several evaluations" if len(samples) > 1 else "one evaluation",
              f"temperature {case['temperature']}")


# -- one dataset, many ways to evaluate the same potential

@st.composite
def agree_cases(draw):
  case = draw(configs())
  n = draw(st.integers(1, 12))
  ways = draw(st.lists(st.tuples(
    st.integers(1, n), st.integers(1, 4), st.sampled_from(["host", "device"]),
    st.sampled_from(["map", "vmap"]), st.booleans()).map(list),
    min_size=2, max_size=3))
  case.update(n=n, ways=ways)
  return case


def check_agree(case):
  spec, n = case["model"], case["n"]
  obs = models.make_obs(spec, n, case["seed"])
  sample = models.pack(spec, [jnp.asarray(l) for l in
                              models.sample_leaves(spec)])
  state = make_state(case["state"])
  shift = 0.0 if state is None else float(state_shift(case["state"], state))
  _, exact, size, _, _ = expected_potential(
    case, models.sample_leaves(spec), obs["x"], obs["y"], onp.ones(n), 1.0,
    shift)
  values = []
  for mb, cache, loader, strategy, batched in case["ways"]:
    sub = dict(case, loader=loader, strategy=strategy, batched=batched)
    init, full_map, release = sgmc_data.full_reference_data(
      loader_for(sub, obs), cached_batches_count=cache, mb_size=mb)
    full = make_full(sub)
    def fun(sample, data_state, full=full, full_map=full_map):
      return full(sample, data_state, full_map, state)[0]
    fun = jax.jit(fun) if case["jit"] else fun
    values.append(float(fun(sample, init())))
    release()
  for v in values:
    check_scaled(v, exact, size, "potential")
    check_scaled(v, values[0], size, "ways to evaluate the full potential")
  return info(len({w[0] for w in case["ways"]}) > 1, "agree",
              f"{len(values)} ways")


# -- large datasets

@st.composite
def large_cases(draw):
  n = draw(st.one_of(st.integers(100, 500), st.sampled_from(
    [128, 256, 257, 1000])))
  mb = draw(st.one_of(st.integers(n // 20, n), st.sampled_from(
    [n, n - 1, n // 2 + 1, 128 if n >= 128 else 64])))
  return dict(draw(cases()), n=n, mb=mb,
              cache=draw(st.sampled_from([1, 3, 30])))


SUBS = [
  Sub("full", cases, check, 320, 6000, weight=2),
  Sub("agree", agree_cases, check_agree, 100, 1500),
  Sub("large", large_cases, check, 32, 600, weight=0.5),
]
