"""Empirical Fisher information as noise model."""
import jax
import jax.numpy as jnp
import numpy as onp
from hypothesis import strategies as st
from jax import tree_util

from jax_sgmc import adaption
from jax_sgmc import data as sgmc_data
from jax_sgmc.potential import minibatch_potential

from pbt import models
from pbt.core import Sub, info, require
from pbt.props.c16 import configs, likelihood_fn, make_state, prior_fn, \
  state_shift
from pbt.props.c18 import check_diagonal, flat
from pbt.util import F, close, rng


@st.composite
def cases(draw):
  case = draw(configs())
  n = draw(st.integers(2, 12))
  if draw(st.integers(0, 9)) == 9:
    n = draw(st.sampled_from([40, 129, 257, 300]))
  case.update(
    n=n, N=draw(st.integers(n, n + 80)), diagonal=draw(st.booleans()),
    step_size=draw(st.sampled_from([1.0, 0.1, 2.5, 1e-3])),
    excess=draw(st.sampled_from([0.05, 0.5, 3.0])),
    dominated=draw(st.sampled_from(["all", "all", "some"])),
    default=draw(st.booleans()), chains=draw(st.sampled_from([1, 1, 2])))
  case["model"]["tau"] = min(case["model"]["tau"], 2.0)
  case["model"]["kind"] = draw(st.sampled_from(["gauss", "logistic", "poly"]))
  return case


def check(case):
  spec, n, N = case["model"], case["n"], case["N"]
  eps, diagonal = case["step_size"], case["diagonal"]
  potential = minibatch_potential(
    prior_fn(case), likelihood_fn(case), strategy=case["strategy"],
    has_state=case["state"] is not None, is_batched=case["batched"],
    temperature=case["temperature"])
  model_state = make_state(case["state"])
  shift = 0.0 if model_state is None else float(
    state_shift(case["state"], model_state))
  kwargs = {"minibatch_potential": potential}
  if not (diagonal and case["default"]):
    kwargs["diagonal"] = diagonal
  init, update, get = adaption.fisher_information(**kwargs)
  mb_info = sgmc_data.MiniBatchInformation(
    observation_count=N, batch_size=n, mask=onp.ones(n, dtype=bool))

  samples, obs, frictions, expected = [], [], [], []
  for c in range(case["chains"]):
    leaves = models.sample_leaves(spec, c)
    samples.append(models.pack(spec, leaves))
    obs.append(models.make_obs(spec, n, case["seed"] + c))
    _, grads = models.lk_np(spec, leaves, obs[c]["x"], obs[c]["y"], shift)
    g = onp.stack([flat(models.pack(spec, [a[i] for a in grads]))
                   for i in range(n)])
    dev = g - g.mean(axis=0)
    b = 0.5 * eps * dev.T @ dev / (n - 1)
    r = rng(case["seed"], c, 41)
    size = g.shape[1]
    if diagonal:
      low = onp.diag(b)
    else:
      low = onp.full(size, onp.linalg.eigvalsh(b).max())
    friction = low * (1 + case["excess"] * r.uniform(0.2, 1, size=size)) + \
      0.1 * eps
    dominated = onp.ones(size, dtype=bool)
    if case["dominated"] == "some" and diagonal:
      dominated = r.uniform(size=size) < 0.5
      friction = onp.where(dominated, friction, 0.5 * onp.diag(b))
      dominated = friction > onp.diag(b) + 0.05 * eps
    friction = friction.astype(F)
    # Friction of each parameter in the structure of the sample
    pos = [0]
    def take(leaf):
      part = friction[pos[0]:pos[0] + leaf.size].reshape(leaf.shape)
      pos[0] += leaf.size
      return jnp.asarray(part)
    frictions.append(tree_util.tree_map(take, samples[c]))
    expected.append((b, friction.astype(onp.float64), dominated))

  def run(sample, data, friction):
    state = init(sample)
    batch = (data, mb_info)
    grad, _ = jax.grad(lambda s: potential(s, batch, model_state),
                       has_aux=True)(sample)
    state = update(state, sample, grad, mini_batch=batch)
    return get(state, sample, grad, friction, mini_batch=batch,
               model_state=model_state,
               **({} if eps == 1.0 else {"step_size": eps}))
  if case["chains"] > 1:
    stack = lambda ts: tree_util.tree_map(lambda *x: jnp.stack(x), *ts)
    out = jax.jit(jax.vmap(run))(stack(samples), stack(obs),
                                 stack(frictions))
    outs = [tree_util.tree_map(lambda x, c=c: x[c], out)
            for c in range(case["chains"])]
  else:
    args = tree_util.tree_map(jnp.asarray, (samples[0], obs[0], frictions[0]))
    outs = [(jax.jit(run) if case["jit"] else run)(*args)]
  for sample, out, (b, friction, dominated) in zip(samples, outs, expected):
    require(isinstance(out, adaption.NoiseModel), "type", got=type(out))
    if diagonal:
      require(int(onp.ravel(out.b_sqrt.ndim)[0]) == 1 and
              int(onp.ravel(out.cb_diff_sqrt.ndim)[0]) == 1,
              "not marked as diagonal")
      for q in out:
        require(tree_util.tree_structure(q.tensor) ==
                tree_util.tree_structure(sample), "structure",
                got=tree_util.tree_structure(q.tensor))
      diag = onp.diag(b)
      scale = friction + diag
      root, rest = flat(out.b_sqrt.tensor), flat(out.cb_diff_sqrt.tensor)
      for v, e, what in ((root, diag, "noise estimate"),
                         (rest, friction - diag, "remaining friction")):
        bad = dominated & ~(onp.abs(v ** 2 - e) <= 1e-4 * scale)
        require(not bad.any(), what, got=v ** 2, expected=e,
                friction=friction, dominated=dominated)
      if dominated.any():
        # Entries with too small friction are corrected
        require((onp.isfinite(rest) & (rest > 0)).all(),
                "remaining friction is not positive", got=rest,
                friction=friction, noise=diag)
    else:
      for q, e, what in (
          (out.b_sqrt, b, "noise estimate"),
          (out.cb_diff_sqrt, onp.diag(friction) - b, "remaining friction")):
        require(int(onp.ravel(q.ndim)[0]) == 2, "not marked as matrix")
        root = onp.asarray(q.tensor, dtype=onp.float64)
        require(root.shape == e.shape, f"{what}: shape", got=root.shape,
                expected=e.shape)
        close(root @ root.T, e, rtol=0, atol=5e-4 * friction.max(),
              what=what)
  return info(any(onp.abs(b).max() > 1e-6 for b, _, _ in expected),
              "diagonal" if diagonal else "full", spec["kind"],
              "batched" if case["batched"] else case["strategy"],
              "state" if model_state is not None else "stateless",
              f"chains {case['chains']}",
              "prior" if spec["tau"] else "flat prior",
              f"temperature {case['temperature']}",
              f"friction exceeds {case['dominated']}")


SUBS = [
  Sub("fisher", cases, check, 320, 5000),
]
