"""OBABO integration."""
import jax
import jax.numpy as jnp
import numpy as onp
from hypothesis import strategies as st
from jax import tree_util

from jax_sgmc import integrator

from pbt import dynamics as dyn
from pbt.core import Sub, info, require
from pbt.util import JF, close

CHAINS = 2048


@st.composite
def base_cases(draw, temperatures=(1.0, 0.3, 4.0, 25.0),
               frictions=(0.0, 0.05, 0.5, 1.0, 5.0), max_steps=4, calls=3):
  return {"problem": draw(dyn.problems(gain=True)), "mass": draw(dyn.masses()),
          "friction": draw(st.sampled_from(list(frictions))),
          "steps": draw(st.integers(1, max_steps)),
          "calls": [[draw(st.sampled_from([0.05, 0.1, 0.25])),
                     draw(st.sampled_from(list(temperatures)))]
                    for _ in range(draw(st.integers(1, calls)))],
          "seed": draw(st.integers(0, 999))}


def make_obabo(case, problem, mass, batch_fn):
  kw = {}
  if mass.const is not None:
    kw["const_mass"] = mass.const
  if case["friction"] != 1.0:
    kw["friction"] = case["friction"]
  return integrator.obabo(problem.potential, batch_fn, steps=case["steps"],
                          **kw)


def run_calls(calls, mass, integrate, state):
  """Several trajectories; returns the states after each of them."""
  args = () if mass.adapted is None else (mass.adapted,)

  def body(state, schedule):
    # A new trajectory starts with a new accounting of the energies
    state = state._replace(kinetic_energy_start=JF(0.0),
                           kinetic_energy_end=JF(0.0))
    state = integrate(state, dyn.parameters(*schedule), *args)
    return state, {"x": state.positions, "p": state.momentum,
                   "start": state.kinetic_energy_start,
                   "end": state.kinetic_energy_end,
                   "pot": state.potential}
  return jax.lax.scan(body, state, dyn.schedule_of(calls))


def check_trajectory(case, problem, mass, states, log, x0, p0, rows, what):
  """Reconstructs momenta and noise, returns the standardised noise."""
  steps, gamma = case["steps"], case["friction"]
  total = 2 * steps * len(case["calls"])
  require((onp.asarray(log["count"]) == total).all(),
          f"{what}: number of evaluations", got=onp.ravel(log["count"])[0],
          expected=total)
  require((onp.asarray(log["rows"]) == rows).all(),
          f"{what}: not the next batch of the chain", got=log["rows"][:3],
          expected=rows[:3])
  evaluated = onp.asarray(log["x"], dtype=onp.float64)
  value, grad, _ = problem.evaluate(evaluated, onp.asarray(rows))
  zs = []
  x, p, p_error = x0.astype(onp.float64), p0, 0.0
  k = 0
  for c, (eps, t) in enumerate(case["calls"]):
    a = onp.exp(-gamma * eps)
    start = end = 0.0
    last = None
    for i in range(steps):
      w = f"{what}, call {c}, step {i}"
      xb, xa = evaluated[:, k], evaluated[:, k + 1]
      close(xb, x, rtol=0, atol=0, what=f"{w}: position before the step")
      # Momentum that moved the position
      p_mid = mass.momentum((xa - xb) / eps)
      gb, ga = grad[:, k], grad[:, k + 1]
      p1 = p_mid + 0.5 * eps * gb
      p2 = p_mid - 0.5 * eps * ga
      start = start + mass.kinetic(p1)
      end = end + mass.kinetic(p2)
      # Accuracy of the reconstruction
      err = 4e-7 * (1 + onp.abs(xa).max()) / eps * onp.abs(
        mass.matrix).sum(1).max() + 4e-6 * (1 + onp.abs(p1).max()
                                            + onp.abs(gb).max())
      if p is None:
        # Two refreshments in between
        noise, var = p1 - a * last, (1 - a) * (1 + a)
      else:
        noise, var = p1 - onp.sqrt(a) * p, 1 - a
      var = var * t
      if var == 0.0:
        close(noise, onp.zeros_like(noise), rtol=0, atol=10 * err + p_error,
              what=f"{w}: refreshment without noise")
      elif err < 0.02 * onp.sqrt(var):
        zs.append(mass.whiten(noise) / onp.sqrt(var))
      p, p_error, last, x = None, 10 * err, p2, xa
      k += 2
    s = dyn.nth(states, c)
    close(problem.vec(s["x"]), x, rtol=0, atol=0, what=f"{what}: positions")
    p = problem.vec(s["p"])
    var = (1 - a) * t
    noise = p - onp.sqrt(a) * last
    if var == 0.0:
      close(noise, onp.zeros_like(noise), rtol=0, atol=10 * err,
            what=f"{what}: final refreshment without noise")
    elif err < 0.02 * onp.sqrt(var):
      zs.append(mass.whiten(noise) / onp.sqrt(var))
    p_error = 0.0
    scale = 20 * err * (1 + onp.sqrt(onp.max(start)) +
                        onp.sqrt(onp.max(end))) * steps
    close(s["start"], start, rtol=2e-3, atol=scale,
          what=f"{what}: kinetic energies before the leapfrog parts")
    close(s["end"], end, rtol=2e-3, atol=scale,
          what=f"{what}: kinetic energies after the leapfrog parts")
    close(s["end"] - s["start"], end - start, rtol=2e-3, atol=scale,
          what=f"{what}: change of the kinetic energy")
    close(s["pot"], 0.5 * (value[:, k - 2] + value[:, k - 1]), rtol=1e-3,
          atol=1e-3, what=f"{what}: potential")
  return zs


def check_law(case):
  problem = dyn.Problem(case["problem"])
  chains = case.get("chains", CHAINS)
  mass = dyn.Mass(case["mass"], problem)
  batch_fn = problem.batch_fn()
  init, integrate, get = make_obabo(case, problem, mass, batch_fn)
  total = 2 * case["steps"] * len(case["calls"])

  def run(key, data_key, x0):
    state = init(problem.tree(x0), key=key, batch_kwargs={"key": data_key},
                 init_model_state=problem.log_state(total))
    end, states = run_calls(case["calls"], mass, integrate, state)
    rows = problem.rows_stream(batch_fn[1], batch_fn[0](key=data_key), total)
    return states, end.model_state, rows, state.momentum
  x0 = problem.starts(chains)
  states, log, rows, p0 = jax.jit(jax.vmap(run))(
    dyn.keys(case["seed"], chains), dyn.keys(case["seed"] + 1, chains), x0)
  zs = check_trajectory(case, problem, mass, states, log, x0,
                        problem.vec(p0), onp.asarray(rows), "chains")
  if zs:
    dyn.check_normal(onp.concatenate(zs, axis=-1), "noise", case["calls"])
  return info(bool(zs) and problem.n > 1, case["mass"]["kind"],
              "friction" if case["friction"] else "no friction",
              "several steps" if case["steps"] > 1 else "one step",
              "several calls" if len(case["calls"]) > 1 else "one call")


# -- single chains with momenta, temperature zero

@st.composite
def single_cases(draw):
  case = draw(base_cases(temperatures=(0.0, 0.0, 1.0)))
  case.update(host=draw(st.booleans()), momentum=draw(st.booleans()),
              default_key=draw(st.booleans()),
              cache=draw(st.integers(1, 3)))
  return case


def check_single(case):
  problem = dyn.Problem(case["problem"])
  mass = dyn.Mass(case["mass"], problem)
  host = case["host"]
  batch_fn = problem.batch_fn(host, case["cache"])
  init, integrate, get = make_obabo(case, problem, mass, batch_fn)
  total = 2 * case["steps"] * len(case["calls"])
  x0, p0 = problem.starts(2)
  data_args = {"seed": 3} if host else {"key": jax.random.PRNGKey(5)}

  def start():
    kw = {} if case["default_key"] else {
      "key": jax.random.PRNGKey(case["seed"])}
    state = init(problem.tree(jnp.asarray(x0)), batch_kwargs=data_args,
                 init_model_state=problem.log_state(total), **kw)
    if case["momentum"]:
      state = state._replace(momentum=problem.tree(jnp.asarray(p0)))
    return state
  run = lambda s: run_calls(case["calls"], mass, integrate, s)
  run = jax.jit(run)
  state = start()
  first = problem.vec(state.momentum)[None]
  ref = problem.batch_fn(host, 1)
  rows = onp.asarray(problem.rows_stream(ref[1], ref[0](**data_args), total))
  results = []
  for repeat in range(2):
    end, states = run(start() if repeat else state)
    log = end.model_state
    lead = tree_util.tree_map(lambda x: onp.asarray(x)[None], (states, log))
    check_trajectory(case, problem, mass, lead[0], lead[1], x0[None], first,
                     rows[None], f"run {repeat}")
    results.append(states)
  for a, b in zip(*[tree_util.tree_leaves(r) for r in results]):
    require(onp.array_equal(a, b), "repeated run differs")
  final = get(state)
  close(problem.vec(final["variables"]), x0, rtol=0, atol=0,
        what="initial sample")
  return info(True, "single", case["mass"]["kind"],
              "host" if host else "device",
              "initial momentum" if case["momentum"] else "at rest")


# -- time reversal for constant batches

@st.composite
def reversal_cases(draw):
  case = draw(base_cases(frictions=(0.0,), max_steps=6, calls=2))
  case["problem"]["n"] = case["problem"]["mb"] = 1
  return case


def check_reversal(case):
  problem = dyn.Problem(case["problem"])
  mass = dyn.Mass(case["mass"], problem)
  batch_fn = problem.batch_fn()
  init, integrate, _ = make_obabo(case, problem, mass, batch_fn)
  x0, p0 = problem.starts(2, 0.7)

  def run(state):
    middle, _ = run_calls(case["calls"], mass, integrate, state)
    state = middle._replace(momentum=tree_util.tree_map(
      jnp.negative, middle.momentum), key=jax.random.PRNGKey(99))
    return middle, run_calls(case["calls"][::-1], mass, integrate, state)[0]
  state = init(problem.tree(jnp.asarray(x0)),
               key=jax.random.PRNGKey(case["seed"]))
  state = state._replace(momentum=problem.tree(jnp.asarray(p0)))
  middle, end = jax.jit(run)(state)
  moved = onp.abs(problem.vec(middle.positions) - x0).max()
  size = 1 + onp.abs(problem.vec(middle.positions)).max() + onp.abs(
    problem.vec(middle.momentum)).max()
  close(problem.vec(end.positions), x0, rtol=0, atol=1e-4 * size,
        what="position after reversal of time")
  close(problem.vec(end.momentum), -p0, rtol=0, atol=1e-4 * size,
        what="momentum after reversal of time")
  return info(moved > 0.01, "reversal", case["mass"]["kind"])


SUBS = [
  Sub("law", base_cases, check_law, 40, 1000, weight=2),
  Sub("single", single_cases, check_single, 48, 900),
  Sub("wide", lambda: dyn.wide(base_cases(), (1.0, 30.0, 0.2)), check_law, 32, 600),
  Sub("reversal", reversal_cases, check_reversal, 40, 900, weight=0.7),
]
