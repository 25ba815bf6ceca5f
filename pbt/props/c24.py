"""Leapfrog integration of SGHMC."""
import jax
import jax.numpy as jnp
import numpy as onp
from hypothesis import strategies as st
from jax import tree_util

from jax_sgmc import adaption, integrator

from pbt import dynamics as dyn
from pbt.core import Sub, info, require
from pbt.util import F, JF, close, rng

CHAINS = 2048


@st.composite
def base_cases(draw, max_steps=4, calls=3,
               noises=("none", "none", "custom", "custom full", "fisher",
                       "fisher full")):
  case = {"problem": draw(dyn.problems(gain=True)), "mass": draw(dyn.masses()),
          "friction": draw(st.sampled_from(["default", "scalar", "zero",
                                            "array", "tree", "tree"])),
          "noise": draw(st.sampled_from(list(noises))),
          "steps": draw(st.integers(1, max_steps)),
          # The temperature has no influence
          "calls": [[draw(st.sampled_from([0.05, 0.1, 0.25])),
                     draw(st.sampled_from([1.0, 1.0, 0.3]))]
                    for _ in range(draw(st.integers(1, calls)))],
          "seed": draw(st.integers(0, 999))}
  if case["noise"].startswith("fisher"):
    # The variance is estimated from at least two observations
    p = case["problem"]
    p["n"] = max(2, p["n"])
    p["mb"] = max(2, p["mb"])
  if case["noise"] != "none" and case["friction"] == "zero":
    case["friction"] = "scalar"
  return case


def friction_of(case, problem):
  """Argument of the integrator and friction of each parameter."""
  d, kind = problem.d, case["friction"]
  # Weak friction, such that the noise model matters. Chains in which it
  # exceeds the friction are not compared.
  low, width = 0.1, 3.0
  if case["noise"].startswith("fisher"):
    low, width = [(0.15, 0.2), (2.0, 3.0), (0.4, 0.3)][case["seed"] % 3]
  if kind == "default":
    return {}, onp.full(d, 0.25)
  if kind == "zero":
    return {"friction": 0.0}, onp.zeros(d)
  if kind == "scalar":
    value = low + 0.25 * width
    return {"friction": value}, onp.full(d, value)
  if kind == "array":
    value = low + 0.15 * width
    return {"friction": JF(value)}, onp.full(d, onp.float64(F(value)))
  values = rng(case["seed"], 81).uniform(low, low + width, size=d).astype(
    F)
  return {"friction": problem.tree(jnp.asarray(values))}, values.astype(
    onp.float64)


def noise_model(case, problem):
  """Noise model and its expected covariance of the gradient noise B."""
  kind, d = case["noise"], problem.d
  if kind == "none":
    return None, None
  if kind.startswith("fisher"):
    if kind == "fisher":
      model = adaption.fisher_information(
        minibatch_potential=problem.potential)
    else:
      model = adaption.fisher_information(
        minibatch_potential=problem.potential, diagonal=False)

    def reference(xs, rows, grads, eps, friction):
      for x, r in zip(xs, rows):
        g = problem.likelihood_gradients(x, r)
        dev = g - g.mean(axis=-2, keepdims=True)
        b = 0.5 * eps * onp.einsum("...ni,...nj->...ij", dev, dev) / (
          r.shape[-1] - 1)
        if kind == "fisher":
          b = b * onp.eye(d)
        yield onp.diag(friction) - b
    return model, reference
  a = onp.asarray(onp.eye(d) + 0.4 * rng(case["seed"], 82).uniform(
    -1, 1, size=(d, d)), dtype=F)

  @adaption.adaption(quantity=adaption.NoiseModel)
  def strategy():
    def init(sample):
      return jnp.zeros_like(sample), jnp.int32(0)
    def update(state, sample, grad, friction, *args, step_size, **kwargs):
      mean, count = state
      return (0.5 * mean + 0.5 * jnp.tanh(grad + sample * friction)
              + step_size, count + 1)
    def get(state, sample, grad, friction, *args, step_size, **kwargs):
      mean, count = state
      root = jnp.sqrt(friction) * (0.6 + 0.2 * jnp.tanh(mean + sample)) + \
        step_size * jnp.minimum(count, 3)
      if kind == "custom full":
        return jnp.diag(root) @ a, jnp.diag(root)
      return root, root
    return init, update, get

  mean, count = [None], [0]

  def reference(xs, rows, grads, eps, friction):
    for x, g in zip(xs, grads):
      old = onp.zeros_like(x) if mean[0] is None else mean[0]
      mean[0] = 0.5 * old + 0.5 * onp.tanh(g + x * friction) + eps
      count[0] += 1
      root = onp.sqrt(friction) * (0.6 + 0.2 * onp.tanh(mean[0] + x)) + \
        eps * min(count[0], 3)
      cov = root[..., :, None] * (a if kind == "custom full" else onp.eye(d))
      yield cov @ onp.swapaxes(cov, -1, -2)
  return strategy(), reference


def make(case, problem, mass, batch_fn):
  kw, friction = friction_of(case, problem)
  if mass.const is not None:
    kw["const_mass"] = mass.const
  model, reference = noise_model(case, problem)
  if model is not None:
    kw["noise_model"] = model
  fns = integrator.friction_leapfrog(problem.potential, batch_fn,
                                     steps=case["steps"], **kw)
  return fns, friction, reference


def run_calls(case, mass, integrate, state):
  args = () if mass.adapted is None else (mass.adapted,)

  def body(state, schedule):
    state = integrate(state, dyn.parameters(*schedule), *args)
    return state, {"x": state.positions, "p": state.momentum,
                   "pot": state.potential}
  return jax.lax.scan(body, state, dyn.schedule_of(case["calls"]))


def check_trajectory(case, problem, mass, friction, reference, states, log,
                     x0, rows, what):
  """Returns the standardised momenta and noise."""
  steps = case["steps"]
  total = steps * len(case["calls"])
  require((onp.asarray(log["count"]) == total).all(),
          f"{what}: number of evaluations", got=onp.ravel(log["count"])[0],
          expected=total)
  require((onp.asarray(log["rows"]) == rows).all(),
          f"{what}: not the next batch of the chain", got=log["rows"][:3],
          expected=rows[:3])
  evaluated = onp.asarray(log["x"], dtype=onp.float64)
  value, grad, _ = problem.evaluate(evaluated, onp.asarray(rows))
  drawn, zs = [], []
  x = x0.astype(onp.float64)
  m_norm = onp.abs(mass.matrix).sum(1).max()
  i_norm = onp.abs(mass.inv).sum(1).max()
  # Chains, in which the noise model exceeded the friction, can diverge
  alive = onp.ones(len(x), dtype=bool)

  def largest(x, alive):
    x = onp.abs(x[alive])
    return onp.max(x, initial=0.0, where=onp.isfinite(x))

  for c, (eps, _) in enumerate(case["calls"]):
    s = dyn.nth(states, c)
    momenta, errors, finite = [], [], []
    ks = range(c * steps, (c + 1) * steps)
    for k in ks:
      momenta.append(mass.momentum((evaluated[:, k] - x) / eps))
      errors.append(m_norm * 4e-7 * (1 + largest(x, alive)) / eps)
      x = evaluated[:, k]
      if reference is not None:
        alive = alive & (onp.abs(x) < 1e3).all(axis=-1)
      finite.append(alive)
    momenta.append(problem.vec(s["p"]))
    errors.append(1e-6 * (1 + largest(momenta[-1], alive)))
    drawn.append(mass.whiten(momenta[0]))
    if reference is None:
      covs = [onp.broadcast_to(onp.diag(friction), x.shape + (problem.d,))
              ] * steps
    else:
      covs = list(reference([evaluated[:, k] for k in ks],
                            [rows[:, k] for k in ks], [grad[:, k] for k in ks],
                            eps, friction))
    for i, k in enumerate(ks):
      a, b, g = momenta[i], momenta[i + 1], grad[:, k]
      noise = b - a + eps * friction * mass.velocity(a) + eps * g
      err = 5 * (errors[i] * (1 + eps * i_norm * friction.max())
                 + errors[i + 1]) + 4e-6 * eps * (1 + largest(g, finite[i]))
      if not friction.any():
        close(noise, onp.zeros_like(noise), rtol=0, atol=err,
              what=f"{what}, call {c}, step {i}: frictionless update")
        continue
      on = finite[i]
      cov = onp.where(on[:, None, None], 2 * eps * covs[i],
                      onp.eye(problem.d))
      w, v = onp.linalg.eigh(cov)
      good = on & (w.min(axis=-1) > 0.05 * 2 * eps * friction.min()) & (
        err < 0.02 * onp.sqrt(onp.abs(w.min(axis=-1))))
      require(onp.isfinite(noise[good]).all(),
              f"{what}, call {c}, step {i}: noise is not finite")
      # Noise of the chains, where the covariance is well conditioned
      w = onp.where(good[:, None], w, 1.0)
      noise = onp.where(good[:, None], noise, 0.0)
      z = onp.einsum("cij,cj->ci", onp.swapaxes(v, -1, -2), noise)
      z = onp.einsum("cij,cj->ci", v, z / onp.sqrt(w))
      zs.append((z, good))
    require(onp.array_equal(problem.vec(s["x"]), x, equal_nan=True),
            f"{what}: position")
    close(onp.where(alive, s["pot"], 0.0),
          onp.where(alive, value[:, ks[-1]], 0.0), rtol=1e-4, atol=1e-4,
          what=f"{what}: potential of the last batch")
  return onp.where(alive[:, None], onp.concatenate(drawn, axis=-1),
                   onp.nan), zs


def check_law(case):
  problem = dyn.Problem(case["problem"])
  chains = case.get("chains", CHAINS)
  mass = dyn.Mass(case["mass"], problem)
  batch_fn = problem.batch_fn()
  (init, integrate, _), friction, reference = make(
    case, problem, mass, batch_fn)
  total = case["steps"] * len(case["calls"])

  def run(key, data_key, x0):
    state = init(problem.tree(x0), key=key, batch_kwargs={"key": data_key},
                 init_model_state=problem.log_state(total))
    end, states = run_calls(case, mass, integrate, state)
    rows = problem.rows_stream(batch_fn[1], batch_fn[0](key=data_key), total)
    return states, end.model_state, rows, state.positions
  x0 = problem.starts(chains)
  states, log, rows, first = jax.jit(jax.vmap(run))(
    dyn.keys(case["seed"], chains), dyn.keys(case["seed"] + 1, chains), x0)
  close(problem.vec(first), x0, rtol=0, atol=0, what="initial position")
  drawn, zs = check_trajectory(case, problem, mass, friction, reference,
                               states, log, x0, onp.asarray(rows), "chains")
  alive = onp.isfinite(drawn).all(axis=-1)
  parts, keep = [drawn], [alive]
  for z, good in zs:
    if good.mean() > 0.5:
      parts.append(z)
      keep.append(good)
  sel = onp.all(keep, axis=0)
  enough = sel.sum() > chains // 4
  if not enough:
    parts, sel = [drawn], alive
  if not sel.all():
    # The selection depends on the previous noise
    for z, good in [(drawn, alive)] + zs:
      if good.sum() > chains // 4:
        dyn.check_normal(z[good], "momentum and noise", case["calls"])
  else:
    dyn.check_normal(onp.concatenate(parts, axis=-1)[sel],
                     "momentum and noise", case["calls"])
  return info(enough and len(parts) > 1 and problem.n > 1,
              case["mass"]["kind"], "friction " + case["friction"],
              "noise " + case["noise"],
              "all chains" if sel.all() else "selected chains",
              "several steps" if case["steps"] > 1 else "one step",
              "several calls" if len(case["calls"]) > 1 else "one call")


@st.composite
def single_cases(draw):
  case = draw(base_cases(noises=("none", "none", "custom", "fisher")))
  if case["noise"] == "none" and draw(st.booleans()):
    case["friction"] = "zero"
  case.update(host=draw(st.booleans()), default_key=draw(st.booleans()),
              cache=draw(st.integers(1, 3)))
  return case


def check_single(case):
  problem = dyn.Problem(case["problem"])
  mass = dyn.Mass(case["mass"], problem)
  host = case["host"]
  batch_fn = problem.batch_fn(host, case["cache"])
  (init, integrate, get), friction, _ = make(case, problem, mass, batch_fn)
  total = case["steps"] * len(case["calls"])
  x0 = problem.starts(1)[0]
  data_args = {"seed": 3} if host else {"key": jax.random.PRNGKey(5)}

  def start():
    kw = {} if case["default_key"] else {
      "key": jax.random.PRNGKey(case["seed"])}
    return init(problem.tree(jnp.asarray(x0)), batch_kwargs=data_args,
                init_model_state=problem.log_state(total), **kw)
  run = jax.jit(lambda s: run_calls(case, mass, integrate, s))
  state = start()
  ref = problem.batch_fn(host, 1)
  rows = onp.asarray(problem.rows_stream(ref[1], ref[0](**data_args), total))
  results = []
  for repeat in range(2):
    end, states = run(start() if repeat else state)
    lead = tree_util.tree_map(lambda x: onp.asarray(x)[None],
                              (states, end.model_state))
    reference = noise_model(case, problem)[1]
    check_trajectory(case, problem, mass, friction, reference, lead[0],
                     lead[1], x0[None], rows[None], f"run {repeat}")
    results.append(states)
  for a, b in zip(*[tree_util.tree_leaves(r) for r in results]):
    require(onp.array_equal(a, b), "repeated run differs")
  close(problem.vec(get(state)["variables"]), x0, rtol=0, atol=0,
        what="initial sample")
  out = get(end)
  close(problem.vec(out["variables"]), problem.vec(end.positions), rtol=0,
        atol=0, what="reported sample")
  require(int(out["model_state"]["count"]) == total, "reported model state")
  return info(True, "single", case["mass"]["kind"],
              "host" if host else "device", "noise " + case["noise"],
              "friction " + case["friction"])


SUBS = [
  Sub("law", base_cases, check_law, 56, 1200, weight=2),
  Sub("single", single_cases, check_single, 48, 900),
  Sub("wide", lambda: dyn.wide(base_cases()), check_law, 32, 600),
]
