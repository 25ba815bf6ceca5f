"""Replica exchange of parallel tempering."""
import jax
import jax.numpy as jnp
import numpy as onp
from hypothesis import strategies as st
from jax import tree_util

from jax_sgmc import adaption, integrator, solver

from pbt import dynamics as dyn
from pbt import mh
from pbt.core import Sub, info, require
from pbt.util import F, JF, PRECISION, close

CHAINS = 1024

SA = {"default": None, "constant": lambda n: 0.3, "shifted": lambda n: 1 /
      (n + 1), "power": lambda n: 0.9 * n ** -0.6}


@st.composite
def cases(draw):
  n_it = draw(st.one_of(st.integers(1, 5), st.integers(1, 5),
                        st.sampled_from([12, 30, 12, 30, 130])))
  temps = st.sampled_from([[1.0, 3.0], [1.0, 1.5], [0.5, 2.0], [1.0, 10.0],
                           [2.0, 1.0], [1.0, 1.0], [0.05, 0.2], [1.0, 300.0]])
  return {"problem": draw(dyn.problems(gain=True)),
          "calls": [[draw(st.sampled_from([0.02, 0.1])),
                     draw(st.sampled_from([0.05, 0.2]))] + draw(temps)
                    for _ in range(n_it)],
          "sa": draw(st.sampled_from(sorted(SA))),
          "F": draw(st.sampled_from([None, 1.0, 3.0, 20.0, 0.2, 200.0])),
          "ssq": draw(st.sampled_from([None, 0.0, 0.5, 4.0, 60.0])),
          "start": draw(st.sampled_from([0.5, 1.0, 2.0])),
          "rms": draw(st.sampled_from([False, False, True])),
          "seed": draw(st.integers(0, 999))}


def leaves_of(state):
  """Arrays of a replica without the functions of the adaption."""
  return [jnp.asarray(l) for l in tree_util.tree_leaves(state)]


def check(case):
  problem = dyn.Problem(case["problem"])
  d, n_it = problem.d, len(case["calls"])
  batch_fn = problem.batch_fn()
  args = (adaption.rms_prop(),) if case["rms"] else ()
  fns = integrator.langevin_diffusion(problem.potential, batch_fn, *args)
  kw = {} if SA[case["sa"]] is None else {"sa_schedule": SA[case["sa"]]}
  init, update, get = solver.parallel_tempering(fns, **kw)
  init_kw = {}
  if case["F"] is not None:
    init_kw["F"] = JF(case["F"])
  if case["ssq"] is not None:
    init_kw["ssq_init"] = JF(case["ssq"])

  def run(key, data_key, cold, hot):
    state = init(problem.tree(cold), problem.tree(hot), key=key,
                 batch_kwargs={"key": data_key},
                 init_model_state=problem.log_state(n_it), **init_kw)
    start = {"cold": state[0].latent_variables,
             "hot": state[1].latent_variables,
             "get": get(state)["variables"]}
    functions = tree_util.tree_structure(state)

    def body(carry, schedule):
      old = tree_util.tree_unflatten(functions, carry)
      eps_c, eps_h, t_c, t_h = schedule
      cold = dyn.parameters(eps_c, t_c)
      hot = dyn.parameters(eps_h, t_h)
      # Replicas after their own step
      exp_c, exp_h = fns[1](old[0], cold), fns[1](old[1], hot)
      new, statistics = update(old, cold, hot)
      require(statistics is None, "statistics", got=statistics)
      tol = 2e-5 * PRECISION
      same = lambda a, b: jnp.all(jnp.asarray(
        [jnp.allclose(x, y, rtol=tol, atol=tol) for x, y in zip(
          leaves_of(a), leaves_of(b))]))
      shown = get(new)
      shown_c, shown_h = fns[2](exp_c), fns[2](exp_h)
      out = {"old_c": old[0].latent_variables, "old_h": old[1].latent_variables,
             "x_c": exp_c.latent_variables, "x_h": exp_h.latent_variables,
             "pot_c": exp_c.potential, "pot_h": exp_h.potential,
             "var": exp_c.variance,
             "log_c": exp_c.model_state, "log_h": exp_h.model_state,
             "stay": same(new[0], exp_c) & same(new[1], exp_h),
             "swap": same(new[0], exp_h) & same(new[1], exp_c),
             "get_stay": same(shown, shown_c), "get_swap": same(
               shown, shown_h)}
      return [jnp.asarray(l, jnp.asarray(o).dtype) for l, o in zip(
        tree_util.tree_leaves(new), carry)], out
    _, out = jax.lax.scan(
      body, leaves_of(state),
      tuple(jnp.asarray(c) for c in F(case["calls"]).T))
    return start, out
  cold0 = problem.starts(CHAINS, case["start"])
  hot0 = problem.starts(2 * CHAINS, case["start"])[CHAINS:]
  start, out = jax.jit(jax.vmap(run))(
    dyn.keys(case["seed"], CHAINS), dyn.keys(case["seed"] + 1, CHAINS),
    cold0, hot0)
  start, out = tree_util.tree_map(onp.asarray, (start, out))
  close(problem.vec(start["cold"]), cold0, rtol=0, atol=0,
        what="initial sample")
  close(problem.vec(start["hot"]), hot0, rtol=0, atol=0,
        what="initial sample of the tempered replica")
  close(problem.vec(start["get"]), cold0, rtol=0, atol=0,
        what="reported initial sample")

  ssq = onp.full(CHAINS, 0.0 if case["ssq"] is None else case["ssq"])
  f = 1.0 if case["F"] is None else case["F"]
  sa = SA[case["sa"]] or (lambda n: 1 / n)
  alphas, swaps, features, noise = [], [], [], []
  for i, (eps_c, eps_h, t_c, t_h) in enumerate(case["calls"]):
    o = dyn.nth(out, i)
    w = f"iteration {i}"
    bad = ~(o["stay"] | o["swap"])
    require(not bad.any(), f"{w}: the replicas are neither kept nor exchanged "
            "as a whole", chain=int(onp.argmax(bad)))
    swapped = o["swap"] & ~o["stay"]
    clear = o["swap"] != o["stay"]
    shown = onp.where(swapped, o["get_swap"], o["get_stay"])
    require(shown.all(), f"{w}: reported sample is not the one of the cold "
            "replica")
    ssq = (1 - sa(i + 1)) * ssq + sa(i + 1) * o["var"].astype(float)
    delta = 1 / t_c - 1 / t_h
    log_s = delta * (o["pot_c"].astype(float) - o["pot_h"] - delta * ssq / f)
    tol = PRECISION * (1e-4 + 2e-5 * abs(delta) * (
      onp.abs(o["pot_c"]) + onp.abs(o["pot_h"]) + abs(delta) * ssq / f))
    alpha = onp.where(log_s >= 0, 1.0, onp.exp(onp.minimum(log_s, 0)))
    alphas.append(onp.where((onp.abs(log_s) < tol) | ~clear, onp.nan, alpha))
    swaps.append(swapped)
    features.append(mh.columns(o["pot_c"], o["pot_h"], o["var"],
                               problem.vec(o["x_c"]), problem.vec(o["x_h"])))
    for r, eps, t in (("c", eps_c, t_c), ("h", eps_h, t_h)):
      log = o[f"log_{r}"]
      require((log["count"] == i + 1).all(), f"{w}: number of evaluations",
              replica=r, got=log["count"][:3])
      before = problem.vec(o[f"old_{r}"])
      close(log["x"][:, i], before, rtol=0, atol=0,
            what=f"{w}: evaluated position")
      if not case["rms"]:
        _, g, _ = problem.evaluate(before, log["rows"][:, i])
        noise.append((problem.vec(o[f"x_{r}"]) - before + eps * g)
                     / onp.sqrt(2 * eps * t))
  if noise:
    dyn.check_normal(onp.concatenate(noise, axis=1), "noise of the replicas")
  alpha, swapped = onp.stack(alphas, 1), onp.stack(swaps, 1)
  alpha = onp.where(onp.isnan(alpha), swapped.astype(float), alpha)
  powerful = mh.decisions(alpha, swapped, onp.stack(features, 1), "exchanges")
  return info(powerful or (swapped.any() and not swapped.all()),
              "sa " + case["sa"], f"F {case['F']}", "rms" if case["rms"] else
              "no adaption", f"exchanged {round(swapped.mean(), 1)}")


SUBS = [
  Sub("exchange", cases, check, 56, 1200),
]
