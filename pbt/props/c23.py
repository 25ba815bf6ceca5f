"""Reversible leapfrog integration of AMAGOLD."""
import jax
import jax.numpy as jnp
import numpy as onp
from hypothesis import strategies as st
from jax import tree_util

from jax_sgmc import integrator

from pbt import dynamics as dyn
from pbt.core import Sub, info, require
from pbt.util import JF, close

CHAINS = 2048


@st.composite
def base_cases(draw, frictions=(0.0, 0.05, 0.25, 1.0, 5.0), max_steps=4,
               calls=3):
  return {"problem": draw(dyn.problems(gain=True)), "mass": draw(dyn.masses()),
          "friction": draw(st.sampled_from(list(frictions))),
          "steps": draw(st.integers(1, max_steps)),
          # The temperature has no influence on AMAGOLD
          "calls": [[draw(st.sampled_from([0.05, 0.1, 0.25])),
                     draw(st.sampled_from([1.0, 1.0, 0.3]))]
                    for _ in range(draw(st.integers(1, calls)))],
          "flip": draw(st.booleans()),
          "seed": draw(st.integers(0, 999))}


def make(case, problem, mass, batch_fn):
  kw = {}
  if mass.const is not None:
    kw["const_mass"] = mass.const
  if case["friction"] != 0.25:
    kw["friction"] = case["friction"]
  return integrator.reversible_leapfrog(
    problem.potential, batch_fn, steps=case["steps"], **kw)


def init_kwargs(mass):
  """The adapted mass is also used for the initial momentum."""
  return {} if mass.adapted is None else {"mass": mass.adapted}


def run_calls(case, mass, integrate, state, calls=None):
  args = () if mass.adapted is None else (mass.adapted,)

  def body(state, schedule):
    state = integrate(state, dyn.parameters(*schedule), *args)
    out = {"x": state.positions, "p": state.momentum,
           "energy": state.potential}
    if case["flip"]:
      # As after a rejected proposal
      state = state._replace(
        momentum=tree_util.tree_map(jnp.negative, state.momentum),
        potential=JF(5.0))
    return state, out
  return jax.lax.scan(body, state, dyn.schedule_of(calls or case["calls"]))


def check_trajectory(case, problem, mass, states, log, x0, p0, rows, what):
  """Reconstructs momenta and noise, returns the standardised noise."""
  steps, beta = case["steps"], case["friction"]
  total = steps * len(case["calls"])
  require((onp.asarray(log["count"]) == total).all(),
          f"{what}: number of evaluations", got=onp.ravel(log["count"])[0],
          expected=total)
  require((onp.asarray(log["rows"]) == rows).all(),
          f"{what}: not the next batch of the chain", got=log["rows"][:3],
          expected=rows[:3])
  evaluated = onp.asarray(log["x"], dtype=onp.float64)
  _, grad, _ = problem.evaluate(evaluated, onp.asarray(rows))
  zs = []
  x, p = x0.astype(onp.float64), p0
  m_norm = onp.abs(mass.matrix).sum(1).max()
  i_norm = onp.abs(mass.inv).sum(1).max()
  for c, (eps, _) in enumerate(case["calls"]):
    s = dyn.nth(states, c)
    end_p, end_x = problem.vec(s["p"]), problem.vec(s["x"])
    k0 = c * steps
    close(evaluated[:, k0], x + 0.5 * eps * mass.velocity(p), rtol=1e-5,
          atol=1e-5, what=f"{what}, call {c}: opening half step")
    momenta, errors = [p], [1e-6 * (1 + onp.abs(p).max())]
    for k in range(k0, k0 + steps - 1):
      momenta.append(mass.momentum((evaluated[:, k + 1] - evaluated[:, k])
                                   / eps))
      errors.append(m_norm * 4e-7 * (1 + onp.abs(evaluated[:, k]).max()) / eps)
    momenta.append(end_p)
    errors.append(1e-6 * (1 + onp.abs(end_p).max()))
    energy = tolerance = 0.0
    var = 4 * eps * beta
    for i in range(steps):
      a, b, g = momenta[i], momenta[i + 1], grad[:, k0 + i]
      noise = (1 + eps * beta) * b - (1 - eps * beta) * a + eps * g
      err = 5 * (errors[i] + errors[i + 1]) + 4e-6 * eps * (
        1 + onp.abs(g).max())
      if var == 0.0:
        close(noise, onp.zeros_like(noise), rtol=0, atol=err,
              what=f"{what}, call {c}, step {i}: momentum update")
      elif err < 0.02 * onp.sqrt(var):
        zs.append(mass.whiten(noise) / onp.sqrt(var))
      energy = energy + 0.5 * eps * onp.einsum(
        "...i,...i->...", a + b, mass.velocity(g))
      tolerance += eps * i_norm * err * (1 + onp.abs(g).max()) * problem.d
    close(s["energy"], energy, rtol=1e-3, atol=tolerance + 1e-5,
          what=f"{what}, call {c}: energy of the trajectory")
    close(end_x, evaluated[:, k0 + steps - 1] + 0.5 * eps * mass.velocity(
      end_p), rtol=1e-5, atol=1e-5, what=f"{what}, call {c}: closing half step")
    x, p = end_x, -end_p if case["flip"] else end_p
  return zs


def check_law(case):
  problem = dyn.Problem(case["problem"])
  chains = case.get("chains", CHAINS)
  mass = dyn.Mass(case["mass"], problem)
  batch_fn = problem.batch_fn()
  init, integrate, _ = make(case, problem, mass, batch_fn)
  total = case["steps"] * len(case["calls"])

  # The chains are initialized in a separate program: XLA mixes up the layout
  # of a product which is the start of a loop and a result at the same time
  def start(key, data_key, x0):
    return init(problem.tree(x0), key=key, batch_kwargs={"key": data_key},
                init_model_state=problem.log_state(total),
                **init_kwargs(mass))

  def run(state, data_key):
    end, states = run_calls(case, mass, integrate, state)
    rows = problem.rows_stream(batch_fn[1], batch_fn[0](key=data_key), total)
    return states, end.model_state, rows
  x0 = problem.starts(chains)
  data_keys = dyn.keys(case["seed"] + 1, chains)
  state = jax.jit(jax.vmap(start))(
    dyn.keys(case["seed"], chains), data_keys, x0)
  p0, first = state.momentum, state.positions
  states, log, rows = jax.jit(jax.vmap(run))(state, data_keys)
  close(problem.vec(first), x0, rtol=0, atol=0, what="initial position")
  p0 = problem.vec(p0)
  zs = check_trajectory(case, problem, mass, states, log, x0, p0,
                        onp.asarray(rows), "chains")
  dyn.check_normal(onp.concatenate([mass.whiten(p0)] + zs, axis=-1),
                   "initial momentum and noise", case["calls"])
  return info(bool(zs) and problem.n > 1, case["mass"]["kind"],
              "friction" if case["friction"] else "no friction",
              "several steps" if case["steps"] > 1 else "one step",
              "several calls" if len(case["calls"]) > 1 else "one call")


@st.composite
def single_cases(draw):
  case = draw(base_cases(frictions=(0.0, 0.0, 0.25)))
  case.update(host=draw(st.booleans()), momentum=draw(st.booleans()),
              default_key=draw(st.booleans()), cache=draw(st.integers(1, 3)))
  return case


def check_single(case):
  problem = dyn.Problem(case["problem"])
  mass = dyn.Mass(case["mass"], problem)
  host = case["host"]
  batch_fn = problem.batch_fn(host, case["cache"])
  init, integrate, get = make(case, problem, mass, batch_fn)
  total = case["steps"] * len(case["calls"])
  x0, p0 = problem.starts(2)
  data_args = {"seed": 3} if host else {"key": jax.random.PRNGKey(5)}

  def start():
    kw = {} if case["default_key"] else {
      "key": jax.random.PRNGKey(case["seed"])}
    state = init(problem.tree(jnp.asarray(x0)), batch_kwargs=data_args,
                 init_model_state=problem.log_state(total),
                 **init_kwargs(mass), **kw)
    if case["momentum"]:
      state = state._replace(momentum=problem.tree(jnp.asarray(p0)))
    return state
  run = jax.jit(lambda s: run_calls(case, mass, integrate, s))
  state = start()
  first = problem.vec(state.momentum)[None]
  ref = problem.batch_fn(host, 1)
  rows = onp.asarray(problem.rows_stream(ref[1], ref[0](**data_args), total))
  results = []
  for repeat in range(2):
    end, states = run(start() if repeat else state)
    lead = tree_util.tree_map(lambda x: onp.asarray(x)[None],
                              (states, end.model_state))
    check_trajectory(case, problem, mass, lead[0], lead[1], x0[None], first,
                     rows[None], f"run {repeat}")
    results.append(states)
  for a, b in zip(*[tree_util.tree_leaves(r) for r in results]):
    require(onp.array_equal(a, b), "repeated run differs")
  close(problem.vec(get(state)["variables"]), x0, rtol=0, atol=0,
        what="initial sample")
  out = get(end)
  close(problem.vec(out["variables"]), problem.vec(end.positions), rtol=0,
        atol=0, what="reported sample")
  close(out["energy"], end.potential, rtol=0, atol=0, what="reported energy")
  require(int(out["model_state"]["count"]) == total, "reported model state")
  return info(True, "single", case["mass"]["kind"],
              "host" if host else "device",
              "given momentum" if case["momentum"] else "drawn momentum")


# -- time reversal for constant batches

@st.composite
def reversal_cases(draw):
  case = draw(base_cases(frictions=(0.0,), max_steps=6, calls=2))
  case["problem"]["n"] = case["problem"]["mb"] = 1
  case["flip"] = False
  return case


def check_reversal(case):
  problem = dyn.Problem(case["problem"])
  mass = dyn.Mass(case["mass"], problem)
  init, integrate, _ = make(case, problem, mass, problem.batch_fn())
  x0, p0 = problem.starts(2, 0.7)

  def run(state):
    middle, a = run_calls(case, mass, integrate, state)
    state = middle._replace(momentum=tree_util.tree_map(
      jnp.negative, middle.momentum), key=jax.random.PRNGKey(99))
    end, b = run_calls(case, mass, integrate, state, case["calls"][::-1])
    return middle, end, a["energy"], b["energy"]
  state = init(problem.tree(jnp.asarray(x0)),
               key=jax.random.PRNGKey(case["seed"]))
  state = state._replace(momentum=problem.tree(jnp.asarray(p0)))
  middle, end, forth, back = jax.jit(run)(state)
  moved = onp.abs(problem.vec(middle.positions) - x0).max()
  size = 1 + onp.abs(problem.vec(middle.positions)).max() + onp.abs(
    problem.vec(middle.momentum)).max()
  close(problem.vec(end.positions), x0, rtol=0, atol=1e-4 * size,
        what="position after reversal of time")
  close(problem.vec(end.momentum), -p0, rtol=0, atol=1e-4 * size,
        what="momentum after reversal of time")
  # The accounting is reversed as well
  close(onp.asarray(back)[::-1], -onp.asarray(forth), rtol=1e-3,
        atol=1e-3 * size ** 2, what="energy of the reversed trajectory")
  return info(moved > 0.01, "reversal", case["mass"]["kind"])


SUBS = [
  Sub("law", base_cases, check_law, 40, 1000, weight=2),
  Sub("single", single_cases, check_single, 48, 900),
  Sub("wide", lambda: dyn.wide(base_cases(), (0.25, 30.0, 1.0)), check_law, 32, 600),
  Sub("reversal", reversal_cases, check_reversal, 40, 900, weight=0.7),
]
