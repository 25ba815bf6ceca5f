"""Solvers with Metropolis correction: AMAGOLD and SGGMC.

The integrators are pure functions. Hence, the proposal of each step is obtained
by integrating from the recorded state, the acceptance probability follows from
the potential in closed form and the decision can be read off the new state.
"""
from functools import partial

import jax
import jax.numpy as jnp
import numpy as onp
from hypothesis import strategies as st
from jax import tree_util
from scipy import stats

from jax_sgmc import adaption, integrator, potential, solver
from jax_sgmc import data as sgmc_data

from pbt import dynamics as dyn
from pbt.core import info, require
from pbt.util import F, JF, PRECISION, close, rng

CHAINS = 1024


@st.composite
def base_cases(draw, kind, max_steps=3, iterations=4):
  case = {"problem": draw(dyn.problems(gain=True)),
          "mass": draw(dyn.masses(full=False)),
          "adapt": draw(st.sampled_from(["none", "none", "diagonal", "full"])),
          "initial_mass": draw(st.booleans()),
          "friction": draw(st.sampled_from([0.0, 0.25, 1.0, 1.0])),
          "steps": draw(st.integers(1, max_steps)),
          "calls": [[draw(st.sampled_from([0.15, 0.3, 0.6, 0.9])),
                     draw(st.sampled_from([1.0, 1.0, 0.3, 3.0, 0.02, 20.0]))]
                    for _ in range(draw(st.integers(2, iterations)))],
          "start": draw(st.sampled_from([0.5, 1.0, 2.0])),
          "data_kwargs": draw(st.booleans()),
          "seed": draw(st.integers(0, 999))}
  if case["mass"]["kind"] == "adapted":
    case["mass"]["kind"] = "const"
  if kind == "amagold" and case["friction"] == 1.0:
    case["friction"] = 0.6
  return case


@st.composite
def wide_cases(draw, kind):
  """More parameters, observations, leapfrog steps and iterations."""
  case = dict(draw(base_cases(kind)), problem=draw(dyn.wide_problems()),
              chains=256, steps=draw(st.sampled_from([11, 1, 6, 18])))
  case["calls"] = [[draw(st.sampled_from([0.05, 0.02, 0.15])),
                    draw(st.sampled_from([1.0, 0.3, 3.0, 0.05, 0.02]))]
                   for _ in range(draw(st.sampled_from([3, 7, 12])))]
  return case


def make_integrator(case, kind, problem, mass, batch_fn, fun=None):
  kw = {"friction": case["friction"]}
  if mass.const is not None:
    kw["const_mass"] = mass.const
  make = (integrator.reversible_leapfrog if kind == "amagold"
          else integrator.obabo)
  return make(fun or problem.potential, batch_fn, steps=case["steps"], **kw)


def history_adaption(full, capacity, d):
  """Mass depending on the number of updates and the last sample."""
  a = onp.asarray(onp.eye(d) + 0.3 * rng(7, d).uniform(-1, 1, size=(d, d)),
                  dtype=F)

  @adaption.adaption(quantity=adaption.MassMatrix)
  def strategy():
    def init(sample, initial_mass):
      if initial_mass is None:
        initial_mass = jnp.ones_like(sample)
      return {"n": jnp.int32(0), "init": initial_mass,
              "last": jnp.zeros_like(sample),
              "xs": jnp.zeros((capacity, sample.size))}
    def update(state, sample, *args, **kwargs):
      return {"n": state["n"] + 1, "init": state["init"], "last": sample,
              "xs": state["xs"].at[state["n"]].set(sample)}
    def get(state, *args, **kwargs):
      m = state["init"] * (1.0 + 0.2 * state["n"]) * (
        1.0 + 0.5 * jnp.tanh(state["last"]))
      if full:
        w = jnp.diag(m) @ a
        m = w @ w.T
        vals, vecs = jnp.linalg.eigh(m)
        return ((vecs / vals) @ vecs.T, (vecs * jnp.sqrt(vals)) @ vecs.T)
      return 1 / m, jnp.sqrt(m)
    return init, update, get
  return strategy()


def full_potential_of(problem):
  """Potential of all data, counting its evaluations."""
  x, y = problem.x, problem.y

  def full_potential(sample, data_state, full_data_map_fn, state=None):
    require(full_data_map_fn == "map", "full data map is not passed on",
            got=full_data_map_fn)
    theta = problem.vec(sample, jnp)
    gain = 1.0 if state is None else state["gain"]
    value = gain * jnp.sum(problem._phi(x @ theta - y)) + \
      0.5 * problem.case["tau"] * jnp.sum(theta ** 2)
    if state is not None:
      state = {**state, "full": state["full"] + 1, "full_x": theta}
    return value, (data_state + 1, state)
  return full_potential


def columns(*arrays):
  return onp.concatenate([onp.asarray(a, dtype=onp.float64).reshape(
    len(a), -1) for a in arrays], axis=1)


def decisions(alpha, accepted, features, what):
  """The uniform numbers behind the decisions are uniform and independent.

  Args:
    alpha: Probabilities, shape (chains, iterations)
    accepted: Decisions
    features: Array (chains, iterations, k), what is known before the decision
  """
  require(accepted[alpha >= 1.0].all(), f"{what}: rejected with probability "
          "of acceptance one")
  require(not accepted[alpha < 1e-9].any(), f"{what}: accepted with "
          "probability zero")
  var = alpha * (1 - alpha)
  res = accepted - alpha
  groups = [("all", onp.ones_like(alpha, dtype=bool))]
  for lo, hi in ((0, 0.25), (0.25, 0.5), (0.5, 0.75), (0.75, 1)):
    groups.append((f"alpha in {lo}..{hi}", (alpha >= lo) & (alpha < hi)))
  for name, sel in groups:
    v = var[sel].sum()
    if v > 40:
      z = res[sel].sum() / onp.sqrt(v)
      require(abs(z) < dyn.BOUND, f"{what}: acceptance frequency", group=name,
              z=z, expected=alpha[sel].mean(), got=accepted[sel].mean())
  # Independence
  r = onp.where(var > 0.02, res / onp.sqrt(onp.maximum(var, 0.02)), 0.0)
  for lag in (1, 2):
    pr = (r[:, lag:] * r[:, :-lag]).ravel()
    pr = pr[pr != 0.0]
    if pr.size > 400:
      z = pr.mean() / pr.std() * onp.sqrt(pr.size)
      require(abs(z) < dyn.BOUND, f"{what}: decisions of consecutive steps "
              "depend on each other", z=z, lag=lag)
  pr = (r[1:] * r[:-1]).ravel()
  pr = pr[pr != 0.0]
  if pr.size > 400:
    z = pr.mean() / pr.std() * onp.sqrt(pr.size)
    require(abs(z) < dyn.BOUND, f"{what}: decisions of the chains depend on "
            "each other", z=z)
  for k in range(features.shape[-1]):
    f = features[..., k]
    sel = var > 0.02
    if sel.sum() > 400 and f[sel].std() > 1e-6:
      f = stats.rankdata(f[sel]) / sel.sum() - 0.5
      pr = f * r[sel]
      z = pr.sum() / onp.sqrt((f ** 2 * r[sel] ** 2).sum())
      require(abs(z) < dyn.BOUND, f"{what}: decision depends on the proposal",
              z=z, feature=k)
  return bool(var.sum() > 40)


def check_steps(case, kind):
  problem = dyn.Problem(case["problem"])
  mass = dyn.Mass(case["mass"], problem)
  batch_fn = problem.batch_fn()
  chains = case.get("chains", CHAINS)
  d, n_it = problem.d, len(case["calls"])
  evals = case["steps"] * (1 if kind == "amagold" else 2)
  fns = make_integrator(case, kind, problem, mass, batch_fn)
  strategy = None
  if case["adapt"] != "none":
    strategy = history_adaption(case["adapt"] == "full", n_it, d)
  first = 7 if case["data_kwargs"] else 0
  full_map = (lambda start=0: jnp.int32(start), "map", None)
  make = solver.amagold if kind == "amagold" else solver.sggmc
  init, update, get = make(fns, full_potential_of(problem), full_map,
                           **({} if strategy is None else
                              {"mass_adaption": strategy}))
  init_mass = None
  if strategy is not None and case["initial_mass"]:
    init_mass = rng(case["seed"], 3).uniform(0.5, 2, size=d).astype(
      F)

  def begin(key, data_key, x0):
    kw = {}
    if case["data_kwargs"]:
      kw["full_data_kwargs"] = {"start": 7}
    if init_mass is not None:
      kw["initial_mass"] = problem.tree(jnp.asarray(init_mass))
    model_state = {**problem.log_state(evals * n_it), "full": jnp.int32(0),
                   "full_x": jnp.zeros(d)}
    state = init(problem.tree(x0), key=key, batch_kwargs={"key": data_key},
                 init_model_state=model_state, **kw)
    adapt_state = None
    if strategy is not None:
      adapt_state = strategy[0](
        problem.tree(x0), None if init_mass is None else problem.tree(
          jnp.asarray(init_mass)))
    return tree_util.tree_map(jnp.asarray, (state, adapt_state))

  def run(state, adapt_state):
    def body(carry, schedule):
      old, adapt_state = carry
      parameters = dyn.parameters(*schedule)
      # Proposal of the harness
      inner = old.integrator_state
      if kind == "sggmc":
        inner = inner._replace(kinetic_energy_start=JF(0),
                               kinetic_energy_end=JF(0))
      m = None if strategy is None else strategy[2](adapt_state)
      prop = fns[1](inner, parameters, m)
      new, statistics = update(old, parameters)
      if strategy is not None:
        adapt_state = strategy[1](adapt_state,
                                  new.integrator_state.positions)
      same = lambda a, b: jnp.all(jnp.asarray(
        [jnp.array_equal(x, y) for x, y in zip(
          tree_util.tree_leaves(a), tree_util.tree_leaves(b))]))
      out = {
        "prop_x": prop.positions, "prop_p": prop.momentum,
        "prop_pot": prop.potential, "prop_model": prop.model_state,
        "k_start": getattr(prop, "kinetic_energy_start", 0.0),
        "k_end": getattr(prop, "kinetic_energy_end", 0.0),
        "x": new.integrator_state.positions,
        "p": new.integrator_state.momentum,
        "energy": new.integrator_state.potential,
        "model": new.integrator_state.model_state,
        "pot": new.potential,
        "full": new.full_data_state,
        "data_ok": same(prop.data_state, new.integrator_state.data_state),
        "key_ok": same(prop.key, new.integrator_state.key),
        "stats": statistics, "get": get(new),
        "adapt_ok": (jnp.bool_(True) if strategy is None else
                     same(adapt_state.state, new.mass_state.state))}
      # The carry of the scan needs constant types
      new = tree_util.tree_map(lambda x, o: jnp.asarray(x, jnp.asarray(
        o).dtype), new, old)
      return (new, adapt_state), out
    _, out = jax.lax.scan(body, (state, adapt_state),
                          dyn.schedule_of(case["calls"]))
    start = {"p": state.integrator_state.momentum,
             "x": state.integrator_state.positions,
             "model": state.integrator_state.model_state,
             "energy": state.integrator_state.potential,
             "full": state.full_data_state, "pot": state.potential,
             "get": get(state)}
    return start, out
  x0 = problem.starts(chains, case["start"])
  # Not one program, see DESIGN.md
  start, out = jax.jit(jax.vmap(run))(*jax.jit(jax.vmap(begin))(
    dyn.keys(case["seed"], chains), dyn.keys(case["seed"] + 1, chains), x0))
  start, out = tree_util.tree_map(onp.asarray, (start, out))

  # Initial state
  close(problem.vec(start["x"]), x0, rtol=0, atol=0, what="initial sample")
  close(problem.vec(start["get"]["variables"]), x0, rtol=0, atol=0,
        what="reported initial sample")
  require((start["full"] == first + 1).all(), "initial full data state",
          got=start["full"][:3])
  require((start["model"]["full"] == 1).all() and
          (start["model"]["count"] == 0).all(), "initial model state")
  u0 = problem.full_np(x0)
  close(start["pot"], u0, rtol=1e-4, atol=1e-4, what="initial potential")
  if kind == "amagold":
    p0 = problem.vec(start["p"])
    if strategy is None:
      root = mass.root
    else:
      base = onp.ones(d) if init_mass is None else init_mass.astype(float)
      root = onp.diag(base)
      if case["adapt"] == "full":
        a = onp.asarray(onp.eye(d) + 0.3 * rng(7, d).uniform(
          -1, 1, size=(d, d)), dtype=F).astype(float)
        w = onp.diag(base) @ a
        root = w @ w.T
      root = dyn.symmetric_root(root)
    dyn.check_normal(p0 @ onp.linalg.inv(root), "initial momentum")
  require(bool(out["data_ok"].all()), "random data of the integrator does not "
          "continue from the proposal")
  require(bool(out["key_ok"].all()), "random numbers of the integrator do not "
          "continue from the proposal")
  require(bool(out["adapt_ok"].all()), "mass is not adapted with the resulting "
          "sample")

  x, p = x0.astype(onp.float64), problem.vec(start["p"])
  u, energy, model = u0, start["energy"], start["model"]
  alphas, accepts, features = [], [], []
  for i, (eps, t) in enumerate(case["calls"]):
    o = dyn.nth(out, i)
    w = f"step {i}"
    px, pp = problem.vec(o["prop_x"]), problem.vec(o["prop_p"])
    nx, np_ = problem.vec(o["x"]), problem.vec(o["p"])
    pu = problem.full_np(px)
    if kind == "amagold":
      log_alpha = u - pu + o["prop_pot"]
      scale = onp.abs(u) + onp.abs(pu) + onp.abs(o["prop_pot"])
    else:
      change = o["k_end"].astype(float) - o["k_start"]
      log_alpha = -(pu - u + change) / t
      scale = (onp.abs(u) + onp.abs(pu) + o["k_end"] + o["k_start"]) / t
    tol = PRECISION * (1e-4 + 2e-5 * scale)
    expected = onp.exp(onp.minimum(log_alpha, 0.0))
    dev = onp.abs(o["stats"]["acceptance_ratio"] - expected)
    bound = onp.exp(onp.minimum(log_alpha + tol, 0)) - onp.exp(
      onp.minimum(log_alpha - tol, 0)) + 1e-6 * expected + 1e-37
    require((dev <= bound).all(), f"{w}: acceptance probability",
            got=o["stats"]["acceptance_ratio"][dev > bound][:3],
            expected=expected[dev > bound][:3])
    close(o["get"]["acceptance_ratio"], o["stats"]["acceptance_ratio"],
          rtol=1e-6, atol=0, what=f"{w}: reported acceptance probability")
    close(o["get"]["step_size"], onp.full(chains, eps), rtol=1e-6, atol=0,
          what=f"{w}: reported step size")

    # The compiled proposals may differ in the last bits
    near = lambda a, b: (onp.abs(a - b) <= 2e-5 * PRECISION * (
      1 + onp.abs(b))).all(axis=1)
    is_prop, is_old = near(nx, px), near(nx, x)
    require((is_prop | is_old).all(), f"{w}: neither proposal nor old sample",
            chain=int(onp.argmin(is_prop | is_old)))
    accepted = is_prop & ~is_old
    clear = is_prop != is_old
    acc = accepted[:, None]
    close(nx[clear & ~accepted], x[clear & ~accepted], rtol=0, atol=0,
          what=f"{w}: rejected sample")
    close(np_[clear], onp.where(acc, pp, -p)[clear], rtol=1e-4, atol=1e-4,
          what=f"{w}: momentum after the decision")
    u = onp.where(accepted, pu, u)
    close(o["pot"], u, rtol=1e-4, atol=2e-4, what=f"{w}: potential of the "
          "resulting sample")
    close(problem.vec(o["get"]["variables"]), nx, rtol=0, atol=0,
          what=f"{w}: reported sample")
    if kind == "sggmc":
      close(o["get"]["potential"], u, rtol=1e-4, atol=2e-4,
            what=f"{w}: reported potential")
      close(o["get"]["kinetic_energy"], change, rtol=1e-4,
            atol=1e-4 + 1e-5 * onp.max(o["k_end"]),
            what=f"{w}: reported change of the kinetic energy")
    # Quantities of the integrator
    energy = onp.where(accepted, o["prop_pot"], energy)
    close(o["energy"][clear], energy[clear], rtol=1e-4, atol=1e-4,
          what=f"{w}: energy of the integrator")
    # Model state: the potential was evaluated at the end of the proposal
    new_model = dict(o["prop_model"])
    new_model["full"] = o["prop_model"]["full"] + 1
    new_model["full_x"] = px
    for name in new_model:
      sel = accepted.reshape((-1,) + (1,) * (new_model[name].ndim - 1))
      expect = onp.where(sel, new_model[name], model[name])
      close(o["model"][name][clear], expect[clear], rtol=1e-4, atol=1e-4,
            what=f"{w}: model state {name}")
      close(o["get"]["model_state"][name][clear], expect[clear], rtol=1e-4,
            atol=1e-4, what=f"{w}: reported model state {name}")
    require((o["full"] == first + 2 + i).all(), f"{w}: full data state",
            got=o["full"][:3], expected=first + 2 + i)
    alphas.append(onp.where(log_alpha >= 0, 1.0, expected))
    # Probabilities close to one are not exactly known
    alphas[-1] = onp.where(onp.abs(log_alpha) < tol, onp.nan, alphas[-1])
    alphas[-1] = onp.where(clear, alphas[-1], onp.nan)
    accepts.append(accepted)
    features.append(columns(px - x, pp, o["prop_pot"], x))
    x, p, energy, model = nx, np_, o["energy"], o["model"]
  alpha, accepted = onp.stack(alphas, 1), onp.stack(accepts, 1)
  unknown = onp.isnan(alpha)
  alpha = onp.where(unknown, accepted.astype(float), alpha)
  alpha = onp.where((alpha < 1e-9) & accepted & unknown, 1.0, alpha)
  powerful = decisions(alpha, accepted, onp.stack(features, 1), "decisions")
  both = accepted.any() and not accepted.all()
  return info(powerful and both, "adapt " + case["adapt"],
              case["mass"]["kind"], "several steps" if case["steps"] > 1
              else "one step", f"acceptance {round(accepted.mean(), 1)}")


# -- invariance

@st.composite
def invariance_cases(draw, kind):
  case = {"problem": draw(dyn.problems()),
          "mass": draw(dyn.masses()),
          "friction": draw(st.sampled_from([0.0, 0.05, 0.5, 2.0])),
          "steps": draw(st.integers(1, 3)),
          "step_size": draw(st.sampled_from([0.4, 0.8, 1.2, 1.6])),
          "temperature": draw(st.sampled_from(
            [1.0] if kind == "amagold" else [1.0, 0.5, 2.0])),
          "iterations": draw(st.sampled_from([2, 5, 10])),
          "batched": draw(st.booleans()),
          "seed": draw(st.integers(0, 999))}
  p = case["problem"]
  p["tau"] = draw(st.sampled_from([0.5, 1.0]))
  if p["kind"] == "logcosh":
    p["spec"] = ["leaf", [1]]
  if case["mass"]["kind"] == "adapted":
    case["mass"]["kind"] = "const"
  return case


def check_invariance(case, kind, chains=16384):
  problem = dyn.Problem(case["problem"])
  d, t = problem.d, case["temperature"]
  mass = dyn.Mass(case["mass"], problem)
  batch_fn = problem.batch_fn()

  def likelihood(sample, obs):
    z = obs["x"] @ problem.vec(sample, jnp) - obs["y"]
    return -problem._phi(z)
  prior = lambda sample: -0.5 * problem.case["tau"] * jnp.sum(
    problem.vec(sample, jnp) ** 2)
  make = partial(potential.minibatch_potential, prior, likelihood)
  kw = {"is_batched": True} if case["batched"] else {"strategy": "vmap"}
  fns = make_integrator(case, kind, problem, mass, batch_fn, make(**kw))
  full = potential.full_potential(prior, likelihood, **kw)
  full_map = sgmc_data.full_reference_data(
    problem.loader(), 1, problem.mb)
  more = {}
  if mass.adapted is not None:
    more["mass_adaption"] = (lambda *_: JF(0),
                             lambda s, *_: s,
                             lambda *_: mass.adapted)
  init, update, _ = (solver.amagold if kind == "amagold" else solver.sggmc)(
    fns, full, full_map, **more)

  # Exact samples of the posterior
  r = rng(case["seed"], 91)
  z0 = r.normal(size=(chains, d))
  x = problem.x.astype(onp.float64)
  tau = problem.case["tau"]
  if problem.case["kind"] == "quadratic":
    precision = (x.T @ x + tau * onp.eye(d)) / t
    mean = onp.linalg.solve(precision * t, x.T @ problem.y)
    root = dyn.symmetric_root(onp.linalg.inv(precision))
    x0 = mean + z0 @ root
    whiten = lambda s: (s - mean) @ onp.linalg.inv(root)
  else:
    grid = onp.linspace(-16, 16, 40001)
    u = problem.full_np(grid[:, None]) / t
    density = onp.exp(-(u - u.min()))
    cdf = onp.cumsum(0.5 * (density[1:] + density[:-1]))
    cdf = onp.concatenate([[0.0], cdf / cdf[-1]])
    x0 = onp.interp(stats.norm.cdf(z0), cdf, grid)
    whiten = lambda s: stats.norm.ppf(onp.clip(
      onp.interp(s, grid, cdf), 1e-12, 1 - 1e-12))
  p0 = onp.sqrt(t) * r.normal(size=(chains, d)) @ mass.root
  x0, p0 = x0.astype(F), p0.astype(F)

  def run(key, data_key, x0, p0):
    state = init(problem.tree(x0), key=key, batch_kwargs={"key": data_key})
    if kind == "sggmc":
      # The initial momentum of the integrator is zero
      state = state._replace(integrator_state=state.integrator_state._replace(
        momentum=problem.tree(p0)))
    params = dyn.parameters(case["step_size"], t)
    def body(old, _):
      new, statistics = update(old, params)
      new = tree_util.tree_map(lambda x, o: jnp.asarray(x, jnp.asarray(
        o).dtype), new, old)
      return new, (new.integrator_state.positions,
                   statistics["acceptance_ratio"])
    state = tree_util.tree_map(jnp.asarray, state)
    _, out = jax.lax.scan(body, state, None, length=case["iterations"])
    return out
  xs, acceptance = jax.jit(jax.vmap(run))(
    dyn.keys(case["seed"], chains), dyn.keys(case["seed"] + 1, chains), x0, p0)
  xs = problem.vec(xs)
  rate = float(onp.mean(acceptance))
  for i in sorted({0, case["iterations"] - 1}):
    # An unstable trajectory amplifies rounding errors such that, in very few of
    # all chains, a proposal far away seems to be acceptable
    z = onp.clip(whiten(xs[:, i]), -6, 6)
    dyn.check_normal(z, f"sample after {i + 1} iterations",
                     {"acceptance": rate})
  moved = (xs[:, -1] != x0).any(axis=1).mean()
  return info(0.05 < rate < 0.995 and moved > 0.05, problem.case["kind"],
              case["mass"]["kind"], f"acceptance {round(rate, 1)}",
              "stochastic" if problem.mb < problem.n else "all data",
              f"temperature {t}")


# -- diverging trajectories

@st.composite
def divergence_cases(draw, kind):
  case = {"problem": draw(dyn.problems()),
          "mass": {"kind": "default", "seed": 0},
          "friction": draw(st.sampled_from([0.0, 0.25, 1.0])),
          "steps": draw(st.integers(1, 8)),
          "exponents": [draw(st.integers(2, 30)) for _ in range(
            draw(st.integers(1, 3)))],
          "temperature": draw(st.sampled_from([1.0, 0.5])),
          "seed": draw(st.integers(0, 999))}
  case["problem"]["kind"] = "quadratic"
  case["problem"]["tau"] = 1.0
  return case


def check_divergence(case, kind):
  problem = dyn.Problem(case["problem"])
  mass = dyn.Mass(case["mass"], problem)
  fns = make_integrator(case, kind, problem, mass, problem.batch_fn())
  full_map = (lambda: jnp.int32(0), "map", None)
  init, update, get = (solver.amagold if kind == "amagold" else
                       solver.sggmc)(fns, full_potential_of(problem), full_map)
  x0 = problem.starts(1)[0]
  state = init(problem.tree(jnp.asarray(x0)),
               key=jax.random.PRNGKey(case["seed"]))
  u0, diverged = float(state.potential), False
  step = jax.jit(update)
  for e in case["exponents"]:
    # Integration with steps far from stability
    params = dyn.parameters(min(10.0 ** e, 1e30), case["temperature"])
    prop = jax.jit(fns[1])(state.integrator_state, params)
    diverged |= not onp.isfinite(problem.vec(prop.positions)).all()
    state, statistics = step(state, params)
    a = float(statistics["acceptance_ratio"])
    out = get(state)
    pos = problem.vec(out["variables"])
    require(onp.isfinite(pos).all(), "diverged proposal has been accepted",
            sample=pos, acceptance=a)
    require(0.0 <= a <= 1.0, "acceptance probability of a diverged proposal",
            got=a)
    require(float(out["acceptance_ratio"]) == a, "reported acceptance "
            "probability", got=out["acceptance_ratio"], expected=a)
    require(onp.isfinite(float(state.potential)), "potential",
            got=state.potential)
    if a == 0.0:
      close(pos, x0, rtol=0, atol=0, what="sample after rejection")
      close(float(state.potential), u0, rtol=0, atol=0,
            what="potential after rejection")
    x0, u0 = pos, float(state.potential)
  return info(diverged, "diverged" if diverged else "finite")
