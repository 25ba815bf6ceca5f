"""Langevin diffusion."""
from functools import partial

import jax
import jax.numpy as jnp
import numpy as onp
from hypothesis import strategies as st
from jax import tree_util

from jax_sgmc import adaption, integrator

from pbt import dynamics as dyn
from pbt.core import Sub, info, require
from pbt.util import F, close, rng

CHAINS = 2048


@st.composite
def schedules(draw, max_steps=4, temperatures=(1.0, 0.3, 4.0, 0.02, 25.0)):
  n = draw(st.integers(1, max_steps))
  return [[draw(st.sampled_from([0.05, 0.1, 0.2, 0.01, 1.0])),
           draw(st.sampled_from(list(temperatures)))] for _ in range(n)]


def custom(kind, problem, seed):
  """Metric depending on the history, drift depending on the position."""
  d = problem.d
  r = rng(seed, 71)
  base = onp.asarray(r.uniform(0.5, 1.5, size=d), dtype=F)
  a = onp.asarray(onp.eye(d) + 0.3 * r.uniform(-1, 1, size=(d, d)),
                  dtype=F)

  @adaption.adaption(quantity=adaption.Manifold)
  def strategy():
    def init(sample, scale=1.0):
      return scale, jnp.zeros_like(sample), jnp.int32(0)
    def update(state, sample, grad, *args, **kwargs):
      scale, mean, count = state
      return scale, 0.5 * mean + 0.5 * jnp.tanh(grad + sample), count + 1
    def get(state, sample, grad, *args, **kwargs):
      scale, mean, count = state
      root = base * scale * (1.0 + 0.3 * mean)
      gamma = 0.5 * jnp.cos(sample) + 0.1 * count
      if kind == "full":
        root = jnp.diag(root) @ a
        return root @ root.T, root, gamma
      return root ** 2, root, gamma
    return init, update, get

  def reference(xs, grads, scale):
    """Root and drift for each step, arrays (steps, chains, ...)."""
    mean = onp.zeros_like(xs[0])
    for k, (x, g) in enumerate(zip(xs, grads)):
      mean = 0.5 * mean + 0.5 * onp.tanh(g + x)
      root = base * scale * (1.0 + 0.3 * mean)
      gamma = 0.5 * onp.cos(x) + 0.1 * (k + 1)
      if kind == "full":
        yield root[..., :, None] * a, gamma
      else:
        yield root[..., :, None] * onp.eye(d), gamma
  return strategy(), reference


def rms_reference(xs, grads, alpha, lmbd):
  v = onp.ones_like(xs[0])
  for g in grads:
    v = alpha * v + (1 - alpha) * g ** 2
    m = 1 / (lmbd + onp.sqrt(v))
    yield onp.sqrt(m)[..., :, None] * onp.eye(m.shape[-1]), 0.0


def make_adaption(case, problem):
  """Strategy, arguments of the chain and reference."""
  kind = case["adaption"]
  if kind == "none":
    d = problem.d
    return None, {}, lambda xs, grads: (
      (onp.broadcast_to(onp.eye(d), x.shape + (d,)), 0.0) for x in xs)
  if kind == "rms":
    kw = {"alpha": 0.7, "lmbd": 0.1} if case["adapt_kwargs"] else {}
    return adaption.rms_prop(), kw, partial(
      rms_reference, alpha=kw.get("alpha", 0.9), lmbd=kw.get("lmbd", 1e-5))
  strategy, reference = custom(kind, problem, case["seed"])
  kw = {"scale": 1.5} if case["adapt_kwargs"] else {}
  return strategy, kw, partial(reference, scale=kw.get("scale", 1.0))


@st.composite
def base_cases(draw, **kwargs):
  return {"problem": draw(dyn.problems(gain=True)),
          "schedule": draw(schedules(**kwargs)),
          "adaption": draw(st.sampled_from(["none", "none", "rms", "diagonal",
                                            "full"])),
          "adapt_kwargs": draw(st.booleans()),
          "seed": draw(st.integers(0, 999))}


def rollout(case, problem, batch_fn, jit=True, default_key=False):
  """Function of key, data arguments and start returning the trajectory."""
  strategy, kw, _ = make_adaption(case, problem)
  init, update, get = integrator.langevin_diffusion(
    problem.potential, batch_fn, strategy)
  steps = len(case["schedule"])

  def start(key, batch_kwargs, x0):
    more = {} if default_key else {"key": key}
    if strategy is not None and kw:
      more["adaption_kwargs"] = kw
    if batch_kwargs:
      more["batch_kwargs"] = batch_kwargs
    return init(problem.tree(x0), init_model_state=problem.log_state(steps),
                **more)

  def run(state):
    def body(state, params):
      state = update(state, params)
      out = get(state)
      return state, {"variables": out["variables"],
                     "likelihood": out["likelihood"],
                     "potential": state.potential,
                     "variance": state.variance}
    if not jit:
      outs = []
      for eps, t in case["schedule"]:
        state, out = body(state, dyn.parameters(eps, t))
        outs.append(out)
      out = tree_util.tree_map(lambda *x: jnp.stack(x), *outs)
    else:
      params = tree_util.tree_map(
        lambda *x: jnp.stack(x),
        *[dyn.parameters(eps, t) for eps, t in case["schedule"]])
      state, out = jax.lax.scan(body, state, params)
    log = get(state)["model_state"]
    return out, log
  return start, run


def check_trajectory(case, problem, out, log, x0, rows, what):
  """Compares with the reference; returns the standardised noise."""
  steps = len(case["schedule"])
  _, _, reference = make_adaption(case, problem)
  require((onp.asarray(log["count"]) == steps).all(),
          f"{what}: number of evaluations", got=log["count"],
          expected=steps)
  require((onp.asarray(log["rows"]) == rows).all(),
          f"{what}: not the next batch of the chain", got=log["rows"][:3],
          expected=rows[:3])
  after = problem.vec(out["variables"])           # (chains, steps, d)
  before = onp.concatenate([x0[:, None].astype(onp.float64),
                            after[:, :-1]], axis=1)
  close(onp.asarray(log["x"]), before, rtol=0, atol=0,
        what=f"{what}: position of the evaluation")
  value, grad, lks = problem.evaluate(before, onp.asarray(rows))
  n, mb = problem.n, problem.mb
  close(out["potential"], value, rtol=1e-4, atol=1e-4,
        what=f"{what}: potential")
  close(out["likelihood"], -value, rtol=1e-4, atol=1e-4,
        what=f"{what}: likelihood")
  # Variance of the stochastic potential
  close(out["variance"], n ** 2 / mb * lks.var(axis=-1), rtol=2e-3,
        atol=1e-3, what=f"{what}: variance")
  z = []
  xs = [before[:, k] for k in range(steps)]
  grads = [grad[:, k] for k in range(steps)]
  for k, (root, gamma) in enumerate(reference(xs, grads)):
    eps, t = case["schedule"][k]
    metric = root @ onp.swapaxes(root, -1, -2)
    drift = eps * gamma - eps * onp.einsum("cij,cj->ci", metric, grads[k])
    noise = after[:, k] - before[:, k] - drift
    scale = 1.0 + onp.abs(before[:, k]).max() + onp.abs(drift).max()
    if t == 0.0:
      close(noise, onp.zeros_like(noise), rtol=0, atol=3e-5 * scale,
            what=f"{what}: step {k} at temperature zero")
    else:
      z.append(onp.linalg.solve(root, noise[..., None])[..., 0]
               / onp.sqrt(2 * eps * t))
  return z


def check_law(case):
  """Many chains with different keys."""
  problem = dyn.Problem(case["problem"])
  chains = case.get("chains", CHAINS)
  batch_fn = problem.batch_fn()
  steps = len(case["schedule"])
  x0 = problem.starts(chains)
  keys = dyn.keys(case["seed"], chains)
  data_keys = dyn.keys(case["seed"] + 1, chains)
  start, run = rollout(case, problem, batch_fn)
  out, log = jax.jit(jax.vmap(
    lambda k, dk, x: run(start(k, {"key": dk}, x))))(keys, data_keys, x0)
  rows = onp.asarray(jax.jit(jax.vmap(lambda k: problem.rows_stream(
    batch_fn[1], batch_fn[0](key=k), steps)))(data_keys))
  z = check_trajectory(case, problem, out, log, x0, rows, "chains")
  if z:
    dyn.check_normal(onp.concatenate(z, axis=-1), "noise",
                     [s for s in case["schedule"]])
  return info(steps > 1 and problem.n > 1, case["adaption"],
              case["problem"]["kind"], f"steps {steps}",
              "several leaves" if len(problem.leaves) > 1 else "one leaf")


@st.composite
def wide_cases(draw):
  """More parameters, larger batches and many steps."""
  case = draw(base_cases())
  steps = draw(st.sampled_from([12, 3, 25]))
  r = rng(draw(st.integers(0, 99)), 55)
  case["schedule"] = [[float(r.choice([0.05, 0.001, 0.2])),
                       float(r.choice([1.0, 0.3, 9.0]))]
                      for _ in range(steps)]
  return dict(case, problem=draw(dyn.wide_problems()), chains=512)


# -- single chains, temperature zero, reproducibility and host data

@st.composite
def single_cases(draw):
  case = draw(base_cases(temperatures=(0.0, 0.0, 1.0), max_steps=5))
  case.update(host=draw(st.booleans()), jit=draw(st.booleans()),
              chains=draw(st.integers(1, 2)),
              default_key=draw(st.booleans()),
              cache=draw(st.integers(1, 3)))
  return case


def check_single(case):
  problem = dyn.Problem(case["problem"])
  steps, host = len(case["schedule"]), case["host"]
  batch_fn = problem.batch_fn(host, case["cache"])
  start, run = rollout(case, problem, batch_fn, case["jit"],
                       case["default_key"])
  runner = jax.jit(run) if case["jit"] else run
  x0 = problem.starts(2)

  def data_args(c):
    if host:
      return {"seed": 7 + c, "shuffle": bool(c)}
    return {"key": jax.random.PRNGKey(90 + c)}
  def key_of(c):
    return jax.random.PRNGKey(case["seed"] + c)
  states = [start(key_of(c), data_args(c), jnp.asarray(x0[c]))
            for c in range(case["chains"])]
  results = []
  for c, state in enumerate(states):
    out, log = runner(state)
    ref = problem.batch_fn(host, 1)
    rows = onp.asarray(problem.rows_stream(
      ref[1], ref[0](**data_args(c)), steps))
    one = tree_util.tree_map(lambda x: onp.asarray(x)[None], (out, log))
    check_trajectory(case, problem, one[0], one[1], x0[c:c + 1], rows[None],
                     f"chain {c}")
    results.append(problem.vec(out["variables"]))
  # Equal keys and data states
  if not host:
    again, _ = runner(states[0])
  else:
    again, _ = runner(start(key_of(0), data_args(0), jnp.asarray(x0[0])))
  close(problem.vec(again["variables"]), results[0], rtol=0, atol=0,
        what="repeated run")
  if any(t > 0 for _, t in case["schedule"]) and not case["default_key"]:
    start2, _ = rollout(case, problem, batch_fn, case["jit"])
    other, _ = runner(start2(jax.random.PRNGKey(case["seed"] + 12345),
                             data_args(0), jnp.asarray(x0[0])))
    require(not onp.array_equal(problem.vec(other["variables"]), results[0]),
            "another key gives the same samples")
  return info(steps > 1, "single", "host" if host else "device",
              case["adaption"], "temperature zero"
              if all(t == 0 for _, t in case["schedule"]) else "noise")


SUBS = [
  Sub("law", base_cases, check_law, 64, 1200, weight=2),
  Sub("single", single_cases, check_single, 64, 1500),
  Sub("wide", wide_cases, check_law, 32, 600),
]
