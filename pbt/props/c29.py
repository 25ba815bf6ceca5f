"""Ready-to-use solvers compared to samplers composed by hand."""
import contextlib
import io as std_io

import jax
import jax.numpy as jnp
import numpy as onp
from hypothesis import strategies as st
from jax import tree_util

from jax_sgmc import adaption, alias, integrator, potential, scheduler, solver
from jax_sgmc import data as sgmc_data

from pbt import dynamics as dyn
from pbt.core import Sub, info, require
from pbt.props.c28 import compare, compiled
from pbt.util import close, rng

SOLVERS = ["sgld", "rms", "re_sgld", "amagold", "amagold", "sggmc", "sggmc",
           "sghmc", "fisher", "obabo"]
METROPOLIS = ("amagold", "sggmc")


def default(kind, name):
  """Documented value of an argument which is not given."""
  metropolis = kind in METROPOLIS
  return {
    "cache_size": 512, "batch_size": 32, "burn_in": 0,
    "first_step_size": 0.001 if metropolis else 0.05,
    "last_step_size": 0.001,
    "accepted_samples": (None if metropolis else
                         100 if kind == "re_sgld" else 1000),
    "alpha": 0.9, "lmbd": 1e-5, "temperature": 1000.0,
    "integration_steps": 10, "friction": 0.25 if kind == "amagold" else 1.0,
    "mass": None, "diagonal_noise": True, "save_to_numpy": True,
    "progress_bar": True, "stabilization_constant": 10, "decay_constant": 0.75,
    "speed_constant": 0.05, "target_acceptance_rate": 0.25,
    "iterations": 1000}[name]


def optional(case):
  """Arguments which might be omitted."""
  kind = case["solver"]
  out = ["last_step_size", "burn_in", "batch_size", "save_to_numpy",
         "progress_bar", "first_step_size", "accepted_samples", "iterations"]
  if case["host"]:
    out.append("cache_size")
  if kind == "fisher":
    # The noise of the gradients has to be smaller than the friction
    out.remove("first_step_size")
    out.remove("batch_size")
    out.append("diagonal_noise")
  elif kind == "rms":
    out += ["alpha", "lmbd"]
  elif kind == "re_sgld":
    out.append("temperature")
  if kind not in ("sgld", "rms", "re_sgld"):
    out += ["integration_steps", "mass"]
    if kind != "fisher":
      out.append("friction")
  if case["adaptive"]:
    out += list(ADAPTIVE)
    out.remove("last_step_size")
  return out


ADAPTIVE = ("stabilization_constant", "decay_constant", "speed_constant",
            "target_acceptance_rate")


@st.composite
def cases(draw):
  kind = draw(st.sampled_from(SOLVERS))
  its = draw(st.integers(2, 9))
  if kind not in METROPOLIS and draw(st.integers(0, 3)) == 0:
    its = draw(st.sampled_from([21, 40]))
  burn_in = draw(st.integers(0, its - 1))
  adaptive = kind in METROPOLIS and draw(st.booleans())
  if adaptive or (kind in METROPOLIS and draw(st.booleans())):
    accepted = None
  else:
    accepted = draw(st.integers(1, its - burn_in))
  case = {"problem": draw(dyn.problems()), "solver": kind, "its": its,
          "burn_in": burn_in, "accepted": accepted, "adaptive": adaptive,
          "host": draw(st.sampled_from([False, True])),
          "cache": draw(st.integers(1, 4)), "chains": draw(st.integers(1, 3)),
          "first": draw(st.sampled_from([0.02, 0.06, 0.1])),
          "last": draw(st.sampled_from([0.01, 0.02, 0.09])),
          "steps": draw(st.integers(1, 3)),
          "friction": draw(st.sampled_from([0.1, 0.4, 0.8, "tree"]
                                           if kind in ("sghmc", "fisher")
                                           else [0.1, 0.4, 0.8])),
          "mass": draw(st.booleans()),
          "stateful": draw(st.booleans()),
          "numpy": draw(st.booleans()),
          "progress": draw(st.booleans()) and its >= 4,
          "again": draw(st.integers(0, 2)) == 0,
          # Numbers can be given as integers, too
          "integral": draw(st.integers(0, 3)) == 3,
          "seed": draw(st.integers(0, 999))}
  if not adaptive:
    # Required by the schedule
    case["last"] = min(case["first"], case["last"])
  if kind == "fisher":
    case["problem"]["n"] = max(2, case["problem"]["n"])
    case["problem"]["mb"] = 2
    # The noise of the gradients has to be smaller than the friction
    case["first"], case["last"] = 0.02, 0.01
  case["omitted"] = []
  drop = draw(st.sampled_from(["none", "most", "few", "none", "most"]))
  if drop != "none":
    names = optional(case)
    long_run = draw(st.integers(0, 3)) == 3
    if not long_run:
      names.remove("iterations")
      if default(kind, "accepted_samples") is not None:
        names.remove("accepted_samples")
    omitted = draw(st.lists(st.sampled_from(names), min_size=1, max_size=3,
                            unique=True))
    if drop == "most":
      omitted = set(names) - set(omitted)
    case["omitted"] = omitted = sorted(omitted)
    if "iterations" in omitted:
      case["its"] = 1000
    if "burn_in" in omitted:
      case["burn_in"] = 0
    if "accepted_samples" in omitted:
      case["accepted"] = accepted = default(kind, "accepted_samples")
      if accepted is not None:
        if case["its"] < accepted + case["burn_in"]:
          case["its"] = accepted + case["burn_in"] + draw(st.integers(0, 3))
        if "iterations" in omitted:
          case["burn_in"] = min(case["burn_in"], 1000 - accepted)
          case["its"] = 1000
      if case["its"] >= 100:
        case["chains"] = min(case["chains"], 2)
    if "progress_bar" in omitted:
      case["progress"] = True
      if case["its"] < 4:
        case["its"] = 4
    if "save_to_numpy" in omitted:
      case["numpy"] = True
    if "mass" in omitted:
      case["mass"] = False
    if "integration_steps" in omitted:
      case["steps"] = 10
    if "friction" in omitted:
      case["friction"] = default(kind, "friction")
    for key, name in (("first", "first_step_size"), ("last", "last_step_size")):
      if name in omitted:
        case[key] = default(kind, name)
    if not adaptive and case["last"] > case["first"]:
      if "last_step_size" in omitted:
        case["first"] = 2 * case["last"]
      else:
        case["last"] = case["first"] / 2
    if "batch_size" in omitted:
      n = draw(st.sampled_from([32, 40]))
      case["problem"].update(n=n, mb=32, scale=0.25)
  return case


class Setup:
  """Arguments of the solver and the equivalent building blocks."""

  def __init__(self, case):
    self.case = case
    self.problem = problem = dyn.Problem(case["problem"])
    r = rng(case["seed"], 71)
    kind, host = case["solver"], case["host"]
    self.cache = case["cache"] if host else 1
    if "cache_size" in case["omitted"]:
      self.cache = default(kind, "cache_size")

    def likelihood(sample, obs):
      return -problem._phi(obs["x"] @ problem.vec(sample, jnp) - obs["y"])

    def stateful_likelihood(state, sample, obs):
      return (1 + 0.3 * jnp.sin(1.0 * state)) * likelihood(sample, obs), \
        state + 1
    prior = lambda sample: -0.5 * problem.case["tau"] * jnp.sum(
      problem.vec(sample, jnp) ** 2)
    lk = stateful_likelihood if case["stateful"] else likelihood
    kw = {"strategy": "vmap", "has_state": case["stateful"]}
    self.pot = potential.minibatch_potential(prior, lk, **kw)
    self.full = potential.full_potential(prior, lk, **kw)
    self.init_state = jnp.int32(r.integers(0, 3)) if case["stateful"] else None
    tree = lambda lo, hi: problem.tree(jnp.asarray(
      r.uniform(lo, hi, size=problem.d), dtype=jnp.float32))
    self.mass = tree(0.5, 2.0) if case["mass"] else None
    self.friction = (tree(0.1, 1.0) if case["friction"] == "tree"
                     else case["friction"])
    if kind == "fisher":
      # Dominates the noise of the gradients
      self.friction = tree_util.tree_map(lambda f: 3.0 + f, self.friction)
    self.rms = {"alpha": float(r.uniform(0.3, 0.99)),
                "lmbd": float(r.choice([1e-5, 1e-2, 0.5]))}
    self.temperature = float(r.choice([2.0, 5.0, 50.0]))
    self.adaptive = {
      "stabilization_constant": int(r.integers(1, 30)),
      "decay_constant": float(r.uniform(0.55, 0.95)),
      "speed_constant": float(r.uniform(0.02, 0.2)),
      "target_acceptance_rate": float(r.uniform(0.2, 0.9))}
    if case.get("integral", False):
      if isinstance(self.friction, float) and kind != "fisher":
        self.friction = default(kind, "friction") if (
          "friction" in case["omitted"]) else 1.0
      self.adaptive.update(decay_constant=1.0, speed_constant=1.0)
    self.diagonal = bool(case["seed"] % 2)
    for name in case["omitted"]:
      for values in (self.rms, self.adaptive):
        if name in values:
          values[name] = default(kind, name)
      if name == "temperature":
        self.temperature = default(kind, name)
      elif name == "diagonal_noise":
        self.diagonal = default(kind, name)

  def starts(self, shift=0):
    case, problem = self.case, self.problem
    x = problem.starts(2 * case["chains"]) + 0.1 * shift
    samples = [problem.tree(jnp.asarray(v)) for v in x]
    if case["seed"] % 3 == 0:
      samples = tree_util.tree_map(onp.asarray, samples)
    if case["solver"] == "re_sgld":
      return list(zip(samples[::2], samples[1::2]))
    return samples[::2]

  def ready_to_use(self):
    """Run function of the alias module."""
    case, problem = self.case, self.problem
    kind = case["solver"]
    loader = problem.loader(case["host"])

    def given(args):
      if case.get("integral", False):
        args = {k: int(v) if isinstance(v, float) and v == int(v) else v
                for k, v in args.items()}
      return {k: v for k, v in args.items()
              if {"friction_coefficient": "friction"}.get(k, k)
              not in case["omitted"]}
    kw = {"cache_size": self.cache, "batch_size": problem.mb,
          "first_step_size": case["first"], "last_step_size": case["last"],
          "burn_in": case["burn_in"], "accepted_samples": case["accepted"],
          "save_to_numpy": case["numpy"], "progress_bar": case["progress"]}
    if kind in METROPOLIS:
      if case["adaptive"]:
        kw.update(adaptive_step_size=True, **self.adaptive)
      friction = {"amagold": "friction", "sggmc": "friction_coefficient"}
      kw.update({friction[kind]: self.friction}, mass=self.mass,
                integration_steps=case["steps"])
      return getattr(alias, kind)(self.pot, self.full, loader, **given(kw))
    if kind in ("sghmc", "fisher", "obabo"):
      kw.update(friction=self.friction, mass=self.mass,
                integration_steps=case["steps"])
      if kind == "fisher":
        kw.update(adapt_noise_model=True, diagonal_noise=self.diagonal)
      fun = alias.obabo if kind == "obabo" else alias.sghmc
      return fun(self.pot, loader, **given(kw))
    if kind == "re_sgld":
      kw["temperature"] = self.temperature
      return alias.re_sgld(self.pot, loader, **given(kw))
    if kind == "rms":
      kw.update(rms_prop=True, **self.rms)
    return alias.sgld(self.pot, loader, **given(kw))

  def by_hand(self):
    """Solver, schedule and function initializing a chain."""
    case, problem = self.case, self.problem
    kind = case["solver"]
    loader = problem.loader(case["host"])
    random = sgmc_data.random_reference_data(loader, self.cache, problem.mb)
    steps = case["steps"]
    init_kw, helpers = {}, []
    if kind in ("sgld", "re_sgld"):
      fns = integrator.langevin_diffusion(self.pot, random)
    elif kind == "rms":
      fns = integrator.langevin_diffusion(
        self.pot, random, adaption=adaption.rms_prop())
      init_kw["adaption_kwargs"] = self.rms
    elif kind in ("sghmc", "fisher"):
      noise = None
      if kind == "fisher":
        noise = adaption.fisher_information(
          minibatch_potential=self.pot, diagonal=self.diagonal)
      fns = integrator.friction_leapfrog(
        self.pot, random, steps=steps, friction=self.friction,
        const_mass=self.mass, noise_model=noise)
    elif kind == "amagold":
      fns = integrator.reversible_leapfrog(
        self.pot, random, steps=steps, friction=self.friction,
        const_mass=self.mass)
    else:
      fns = integrator.obabo(self.pot, random, steps=steps,
                             friction=self.friction, const_mass=self.mass)
    parts = {"step_size": scheduler.polynomial_step_size_first_last(
      first=case["first"], last=case["last"]),
      "burn_in": scheduler.initial_burn_in(n=case["burn_in"])}
    if kind == "re_sgld":
      sol = solver.parallel_tempering(fns)
      parts["temperature"] = scheduler.constant_temperature(tau=1.0)
      helpers = [{"temperature": {"tau": self.temperature}}]
    elif kind in METROPOLIS:
      full_map = sgmc_data.full_reference_data(loader, self.cache, problem.mb)
      sol = getattr(solver, kind)(fns, self.full, full_map)
      if case["adaptive"]:
        parts["step_size"] = scheduler.adaptive_step_size(
          burn_in=case["burn_in"], initial_step_size=case["first"],
          **self.adaptive)
    else:
      sol = solver.sgmc(fns)
    if case["accepted"] is not None:
      parts["thinning"] = scheduler.random_thinning(
        parts["step_size"], parts["burn_in"], selections=case["accepted"])
    sched = scheduler.init_scheduler(**parts, progress_bar=False)

    def start(sample):
      samples = sample if kind == "re_sgld" else (sample,)
      return tree_util.tree_map(jnp.asarray, sol[0](
        *samples, init_model_state=self.init_state, **init_kw))
    return sol, sched, helpers, start


def steps_by_hand(functions, sol, sched, helpers, state, its):
  """All results of the solver and those which are kept."""
  s_next, s_get, update = functions
  scheds = [sched[0](its)[0]] + [sched[0](its, **kw)[0] for kw in helpers]
  every, kept = [], []
  for i in range(its):
    values = [s_get(s) for s in scheds]
    state, stats = update(state, *values)
    scheds = [s_next(s, **(stats or {})) for s in scheds]
    out = tree_util.tree_map(onp.asarray, sol[2](state))
    every.append(out)
    if float(values[0].burn_in) > 0.5 and bool(values[0].accept):
      kept.append(i)
  return every, kept


def check(case):
  setup = Setup(case)
  its, burn_in = case["its"], case["burn_in"]
  text = std_io.StringIO()
  runs = []
  with contextlib.redirect_stdout(text):
    run = setup.ready_to_use()
    kw = {} if "iterations" in case["omitted"] else {"iterations": its}
    if case["stateful"]:
      kw["init_model_state"] = setup.init_state
    runs.append((0, run(*setup.starts(), **kw)))
    # Reuse of the run function, host chains would continue with new seeds
    if case["again"] and not case["host"]:
      runs.append((1, run(*setup.starts(shift=1), **kw)))
    jax.effects_barrier()

  if not case["progress"]:
    require(text.getvalue() == "", "progress report which is not requested",
            got=text.getvalue())
  elif its >= 20 and case["solver"] != "re_sgld":
    require(text.getvalue() != "", "no progress report")

  sol, sched, helpers, start = setup.by_hand()
  functions = compiled(sched, sol)
  moved, counts = 0.0, set()
  expected_count = (its - burn_in if case["accepted"] is None
                    else case["accepted"])
  for shift, outs in runs:
    require(isinstance(outs, list) and len(outs) == case["chains"],
            "number of results", got=len(outs), expected=case["chains"])
    starts = setup.starts(shift=shift)
    states = [start(s) for s in starts]
    for c, (out, state) in enumerate(zip(outs, states)):
      what = f"{case['solver']}, run {shift}, chain {c}"
      every, kept = steps_by_hand(functions, sol, sched, helpers, state, its)
      require(len(kept) == expected_count, f"{what}: number of samples",
              got=len(kept), expected=expected_count)
      require(min(kept, default=burn_in) >= burn_in,
              f"{what}: sample of the burn in phase", kept=kept)
      compare(out, [every[i] for i in kept], every[0], what, rtol=2e-3,
              atol=2e-4)
      first = starts[c][0] if case["solver"] == "re_sgld" else starts[c]
      variables = out["samples"]["variables"]
      require(tree_util.tree_structure(variables)
              == tree_util.tree_structure(first), f"{what}: structure of the "
              "sample", got=tree_util.tree_structure(variables))
      on_host = all(isinstance(l, onp.ndarray)
                    for l in tree_util.tree_leaves(variables))
      require(on_host == case["numpy"], f"{what}: location of the samples",
              numpy=on_host)
      x0 = setup.problem.vec(first)
      moved = max(moved, onp.abs(setup.problem.vec(variables) - x0).max())
      counts.add(int(out["sample_count"]))
  return info(moved > 1e-3 and its > burn_in + 1, case["solver"],
              "host data" if case["host"] else "device data",
              "saved on host" if case["numpy"] else "saved on device",
              "adaptive" if case["adaptive"] else "polynomial",
              "progress" if case["progress"] else "no progress",
              "thinning" if (case["accepted"] or its) < its - burn_in
              else "no thinning", f"chains {case['chains']}",
              "stateful" if case["stateful"] else "stateless",
              *(f"default {name}" for name in case["omitted"]))


SUBS = [
  Sub("equals hand-composed", cases, check, 96, 1500),
]
