"""Running chains compared to stepping by hand."""
import contextlib
import io as std_io
import os

import jax
import jax.numpy as jnp
import numpy as onp
from hypothesis import strategies as st
from jax import tree_util

from jax_sgmc import adaption, integrator, io, potential, scheduler, solver
from jax_sgmc import data as sgmc_data

from pbt import dynamics as dyn
from pbt import trees
from pbt.core import Sub, info, require, scratch_dir
from pbt.props import c04
from pbt.util import close, rng

LEAF = st.sampled_from([[], [2], [1, 2]])


# -- synthetic solver whose state depends on everything it is told

def synthetic(n_schedules, with_stats, spec):
  """Solver with state {x, i, salt}."""
  weights = [[0.31, -0.17, 0.23, 0.11], [-0.13, 0.29, -0.07, 0.19],
             [0.05, 0.02, -0.11, 0.07]]

  def init(sample, salt):
    return {"x": sample, "i": jnp.int32(0), "salt": jnp.float32(salt)}

  def update(state, *schedules):
    require(len(schedules) == n_schedules, "number of schedules",
            got=len(schedules), expected=n_schedules)
    drive = jnp.sin(1.3 * state["i"]) * state["salt"]
    for w, s in zip(weights, schedules):
      values = [s.step_size, s.temperature, s.burn_in, s.accept]
      drive = drive + sum(c * jnp.asarray(v, jnp.float32)
                          for c, v in zip(w, values))
    x = tree_util.tree_map(lambda v: 0.5 * v + 0.4 * jnp.cos(
      drive + jnp.arange(v.size).reshape(v.shape)), state["x"])
    mean = sum(jnp.mean(l) for l in tree_util.tree_leaves(x))
    new = {"x": x, "i": state["i"] + 1, "salt": state["salt"]}
    if not with_stats:
      return new, None
    return new, {"acceptance_ratio": jax.nn.sigmoid(3 * mean),
                 "stat_step": 0.1 * mean, "stat_temp": 0.2 * jnp.abs(mean)}

  def get(state):
    return {"variables": state["x"], "iteration": state["i"],
            "salt": state["salt"]}
  return init, update, get


def every(k0, n0):
  """Accepts each k-th iteration after burn in."""
  def init(iterations, k=k0):
    return jnp.array(k), len([i for i in range(n0, iterations) if i % k == 0])
  def update(state, iteration, **kwargs):
    return state
  def get(state, iteration, **kwargs):
    return jnp.logical_and(iteration % state == 0, iteration >= n0)
  return scheduler.specific_scheduler(init, update, get)


@st.composite
def synthetic_cases(draw):
  its = draw(st.integers(2, 10))
  main, _ = draw(c04.part_specs(its))
  n_more = draw(st.sampled_from([0, 0, 1, 2]))
  helpers = []
  for _ in range(n_more):
    # Overrides address the parts of the main schedule
    over = {}
    if main["step_size"] in (["adaptive"], ["track"]) and draw(st.booleans()):
      over["step_size"] = draw(st.sampled_from([0.5, 2.0]))
    if main["temperature"] and draw(st.booleans()):
      over["temperature"] = draw(st.sampled_from([0.25, 3.0]))
    if main["burn_in"] and draw(st.booleans()):
      over["burn_in"] = draw(st.integers(0, its - 1))
    if main["thinning"] and main["thinning"][0] == "every" and draw(
        st.booleans()):
      over["thinning"] = draw(st.integers(1, 4))
    helpers.append(over)
  strategy = draw(st.sampled_from(["map", "map", "vmap", "pmap"]))
  return {"its": its, "spec": main, "helpers": helpers,
          "stats": draw(st.booleans()),
          "tree": draw(trees.specs(LEAF, max_leaves=3).filter(
            lambda s: trees.n_leaves(s) > 0)),
          "chains": draw(st.integers(1, 3)), "strategy": strategy,
          "saving": draw(st.sampled_from(
            ["device", "default", "memory", "json"])),
          "progress": draw(st.sampled_from([False, False, True])) and its >= 4,
          "seed": draw(st.integers(0, 999))}


def compiled(sched, sol):
  """Functions which can be shared by the chains."""
  return jax.jit(sched[1]), jax.jit(sched[2]), jax.jit(sol[1])


def steps_by_hand(sched, its, helpers, sol, state, functions=None):
  """Kept results of the solver."""
  s_init = sched[0]
  s_next, s_get, update = functions or compiled(sched, sol)
  scheds = [s_init(its)[0]] + [s_init(its, **kw)[0] for kw in helpers]
  kept, i_kept = [], []
  for i in range(its):
    values = [s_get(s) for s in scheds]
    state, stats = update(state, *values)
    scheds = [s_next(s, **(stats or {})) for s in scheds]
    if float(values[0].burn_in) > 0.5 and bool(values[0].accept):
      kept.append(tree_util.tree_map(onp.asarray, sol[2](state)))
      i_kept.append(i)
  return kept, i_kept


def compare(out, kept, template, what, rtol=1e-4, atol=1e-5):
  require(int(out["sample_count"]) == len(kept), f"{what}: number of samples",
          got=out["sample_count"], expected=len(kept))
  got_def = tree_util.tree_structure(out["samples"])
  exp_def = tree_util.tree_structure(template)
  require(got_def == exp_def, f"{what}: structure", got=got_def,
          expected=exp_def)
  if not kept:
    for l in tree_util.tree_leaves(out["samples"]):
      require(onp.shape(l)[0] == 0, f"{what}: nothing has been kept",
              got=onp.shape(l))
    return
  stacked = tree_util.tree_map(lambda *x: onp.stack(x), *kept)
  for i, (a, e) in enumerate(zip(tree_util.tree_leaves(out["samples"]),
                                 tree_util.tree_leaves(stacked))):
    if onp.issubdtype(e.dtype, onp.floating) and a.shape == e.shape:
      # The adapted mass is singular if all proposals are rejected
      missing = onp.isnan(e)
      require(onp.array_equal(onp.isnan(a), missing), f"{what}: undefined "
              "values", got=a, expected=e)
      a, e = onp.where(missing, 0.0, a), onp.where(missing, 0.0, e)
    close(a, e, rtol=rtol, atol=atol, what=f"{what}: leaf {i}")


def check_synthetic(case):
  its = case["its"]
  parts, _ = c04.make(case["spec"], {}, its)
  thinning, burn_in = case["spec"]["thinning"], case["spec"]["burn_in"]
  if thinning and thinning[0] == "every":
    parts["thinning"] = every(thinning[1], burn_in[1] if burn_in else 0)
  helpers = [c04.make(case["spec"], over, its)[1]
             for over in case["helpers"]]
  sched = scheduler.init_scheduler(
    **parts, progress_bar=case["progress"],
    **({"progress_bar_steps": 2} if case["progress"] else {}))
  plain = scheduler.init_scheduler(**parts, progress_bar=False)
  sol = synthetic(1 + len(helpers), case["stats"], case["tree"])
  r = rng(case["seed"])
  starts = []
  for c in range(case["chains"]):
    sample = trees.build(case["tree"], lambda s, i: jnp.asarray(
      r.normal(size=s), dtype=jnp.float32))
    starts.append(sol[0](sample, 0.3 * c + 0.2))
  functions = compiled(plain, sol)
  expected = [steps_by_hand(plain, its, helpers, sol, s, functions)
              for s in starts]
  with scratch_dir() as path:
    kw = {}
    if case["saving"] == "device":
      kw["saving"] = io.no_save()
    elif case["saving"] == "memory":
      kw["saving"] = io.save(io.MemoryCollector())
    elif case["saving"] == "json":
      kw["saving"] = io.save(io.JSONCollector(os.path.join(path, "out")))
    if case["strategy"] != "map":
      kw["strategy"] = case["strategy"]
    elif case["seed"] % 2:
      kw["strategy"] = "map"
    run = solver.mcmc(sol, sched, **kw)
    run_kw = {"iterations": its}
    if helpers:
      run_kw["schedulers"] = list(helpers)
    for repeat in range(2):
      text = std_io.StringIO()
      with contextlib.redirect_stdout(text):
        outs = run(*starts, **run_kw)
        jax.effects_barrier()
      require(isinstance(outs, list) and len(outs) == len(starts),
              "number of results", got=len(outs), expected=len(starts))
      if case["saving"] == "json":
        import json
        for c, (kept, _) in enumerate(expected):
          n = len(kept)
          chain = repeat * len(starts) + c
          fn = os.path.join(path, "out", f"chain_{chain}_iteration_{n}.json")
          require(not kept or os.path.exists(fn), "file of the chain",
                  chain=chain, expected=n, files=sorted(
                    os.listdir(os.path.join(path, "out"))))
          if kept:
            with open(fn) as f:
              stored = json.load(f)
            for a, e in zip(stored, tree_util.tree_leaves(
                tree_util.tree_map(lambda *x: onp.stack(x), *kept))):
              close(onp.asarray(a, dtype=e.dtype), e, rtol=1e-4, atol=1e-5,
                    what=f"chain {c}: file")
      else:
        for c, (out, (kept, _)) in enumerate(zip(outs, expected)):
          compare(out, kept, sol[2](starts[c]),
                  f"{case['strategy']}, run {repeat}, chain {c}")
  counts = [len(k) for k, _ in expected]
  return info(any(0 < n < its for n in counts) or bool(helpers),
              case["strategy"], "saving " + case["saving"],
              f"schedules {1 + len(helpers)}",
              "statistics" if case["stats"] else "no statistics",
              f"chains {case['chains']}", "progress bar" if case["progress"]
              else "no progress bar", "none kept" if 0 in counts else "kept")


# -- chains of the real samplers

SOLVERS = ["sgld", "rms", "sghmc", "fisher", "obabo", "resgld", "amagold",
           "sggmc", "adapted sggmc"]


@st.composite
def real_cases(draw):
  host = draw(st.sampled_from([False, False, True]))
  strategy = "map" if host else draw(st.sampled_from(["map", "vmap", "pmap"]))
  case = {"problem": draw(dyn.problems()), "host": host, "strategy": strategy,
          "solver": draw(st.sampled_from(SOLVERS)),
          "chains": draw(st.integers(1, 3)), "its": draw(st.integers(2, 8)),
          "burn_in": draw(st.integers(0, 2)), "every": draw(
            st.sampled_from([1, 1, 2])),
          "memory": draw(st.booleans()),
          "cache": draw(st.integers(1, 3)),
          "seed": draw(st.integers(0, 999))}
  if case["solver"] == "fisher":
    case["problem"]["n"] = max(2, case["problem"]["n"])
    case["problem"]["mb"] = 2
  case["burn_in"] = min(case["burn_in"], case["its"] - 1)
  return case


def make_solver(case, problem):
  """New loader, solver and function initializing the chains."""
  kind, host = case["solver"], case["host"]
  loader = problem.loader(host)
  cache = case["cache"] if host else 1
  random = sgmc_data.random_reference_data(loader, cache, problem.mb)

  def likelihood(sample, obs):
    return -problem._phi(obs["x"] @ problem.vec(sample, jnp) - obs["y"])
  prior = lambda sample: -0.5 * problem.case["tau"] * jnp.sum(
    problem.vec(sample, jnp) ** 2)
  # The stateful full data mapper is the one of the vectorized strategy
  pot = potential.minibatch_potential(prior, likelihood, strategy="vmap")
  kw = {}
  if kind in ("sgld", "rms", "resgld"):
    more = {"adaption": adaption.rms_prop()} if kind == "rms" else {}
    fns = integrator.langevin_diffusion(pot, random, **more)
    sol = solver.parallel_tempering(fns) if kind == "resgld" else \
      solver.sgmc(fns)
  elif kind in ("sghmc", "fisher"):
    more = {}
    if kind == "fisher":
      more = {"noise_model": adaption.fisher_information(
        minibatch_potential=pot), "friction": 3.0}
    sol = solver.sgmc(integrator.friction_leapfrog(pot, random, steps=2,
                                                   **more))
  elif kind == "obabo":
    sol = solver.sgmc(integrator.obabo(pot, random, steps=2, friction=0.5))
  else:
    full = potential.full_potential(prior, likelihood, strategy="vmap")
    full_map = sgmc_data.full_reference_data(loader, cache, problem.mb)
    if kind == "amagold":
      sol = solver.amagold(integrator.reversible_leapfrog(
        pot, random, steps=2, friction=0.5), full, full_map)
    else:
      more = {}
      if kind == "adapted sggmc":
        more = {"mass_adaption": adaption.mass_matrix(diagonal=True,
                                                      burn_in=3)}
      sol = solver.sggmc(integrator.obabo(pot, random, steps=2, friction=0.5),
                         full, full_map, **more)

  starts = problem.starts(2 * case["chains"])

  def start(c):
    batch = {"seed": case["seed"] + c} if host else {
      "key": jax.random.PRNGKey(case["seed"] + c)}
    samples = [problem.tree(jnp.asarray(starts[2 * c]))]
    if kind == "resgld":
      samples.append(problem.tree(jnp.asarray(starts[2 * c + 1])))
    state = sol[0](*samples, key=jax.random.PRNGKey(case["seed"] * 3 + c),
                   batch_kwargs=batch)
    return tree_util.tree_map(jnp.asarray, state)
  return sol, start


def real_schedule(case):
  parts = {"step_size": scheduler.polynomial_step_size_first_last(
    first=0.05, last=0.02), "burn_in": scheduler.initial_burn_in(
      n=case["burn_in"])}
  if case["every"] > 1:
    parts["thinning"] = every(case["every"], case["burn_in"])
  helpers = []
  if case["solver"] == "resgld":
    parts["temperature"] = scheduler.constant_temperature(tau=1.0)
    helpers = [{"temperature": {"tau": 3.0}}]
  elif case["solver"] in ("amagold", "sggmc", "adapted sggmc"):
    parts["step_size"] = scheduler.adaptive_step_size(
      burn_in=case["its"], initial_step_size=0.2)
  return scheduler.init_scheduler(**parts, progress_bar=False), helpers


def check_real(case):
  problem = dyn.Problem(case["problem"])
  sched, helpers = real_schedule(case)
  sol, start = make_solver(case, problem)
  run_kw = {"iterations": case["its"]}
  if helpers:
    run_kw["schedulers"] = helpers
  saving = io.save(io.MemoryCollector()) if case["memory"] else None
  states = [start(c) for c in range(case["chains"])]
  run = solver.mcmc(sol, sched, strategy=case["strategy"], saving=saving)
  outs = run(*states, **run_kw)
  require(len(outs) == case["chains"], "number of results", got=len(outs))
  if not case["host"]:
    # The same states give the same results
    again = run(*states, **run_kw)
    for a, b in zip(tree_util.tree_leaves(outs), tree_util.tree_leaves(again)):
      require(onp.array_equal(a, b, equal_nan=True), "repeated run differs")
  moved = 0.0
  for c, out in enumerate(outs):
    # Each chain alone, with data of its own
    if case["host"] or c == 0:
      hand_sol, hand_start = make_solver(case, problem)
      functions = compiled(sched, hand_sol)
    state = hand_start(c)
    kept, _ = steps_by_hand(sched, case["its"], helpers, hand_sol, state,
                            functions)
    compare(out, kept, hand_sol[2](state), f"{case['strategy']}, chain {c}",
            rtol=2e-3, atol=2e-4)
    if kept:
      moved = max(moved, onp.abs(problem.vec(kept[-1]["variables"])
                                 - problem.starts(2 * case["chains"])[2 * c]
                                 ).max())
  return info(moved > 1e-3 and case["its"] > 1, case["solver"],
              case["strategy"], "host data" if case["host"] else
              "device data", f"chains {case['chains']}",
              "saved on host" if case["memory"] else "saved on device")


# -- long runs

@st.composite
def long_cases(draw):
  return dict(draw(synthetic_cases()), its=draw(
    st.sampled_from([31, 64, 101, 257])), chains=draw(
      st.sampled_from([1, 2, 3, 9])), strategy=draw(
        st.sampled_from(["map", "vmap"])), saving=draw(
          st.sampled_from(["device", "memory"])))


SUBS = [
  Sub("long", long_cases, check_synthetic, 24, 400, weight=0.7),
  Sub("synthetic", synthetic_cases, check_synthetic, 112, 3000, weight=1.5),
  Sub("chains", real_cases, check_real, 36, 1000, weight=2),
]
