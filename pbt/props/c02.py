"""Burn-in, random thinning and the announced number of samples."""
import itertools

import jax
import jax.numpy as jnp
import numpy as onp
from hypothesis import strategies as st
from scipy import stats

from jax_sgmc import scheduler

from pbt.core import Sub, info, require
from pbt.util import raises, rng

LENGTHS = list(range(1, 12)) + [16, 25, 40, 64, 100, 201]


def step_schedule(spec):
  kind = spec[0]
  if kind == "const":
    return scheduler.polynomial_step_size(a=spec[1], b=1.0, gamma=0.0)
  if kind == "abc":
    return scheduler.polynomial_step_size(a=spec[1], b=spec[2], gamma=spec[3])
  return scheduler.polynomial_step_size_first_last(
    first=spec[1], last=spec[2], gamma=spec[3])


def step_values(spec, its):
  n = onp.arange(its, dtype=onp.float64)
  if spec[0] == "const":
    return onp.full(its, spec[1])
  if spec[0] == "abc":
    return spec[1] * (spec[2] + n) ** -spec[3]
  c = ((spec[1] / spec[2]) ** (1 / spec[3]) - 1) / max(its - 1, 1)
  return spec[1] * (1 + n * c) ** -spec[3]


@st.composite
def step_specs(draw):
  kind = draw(st.sampled_from(["const", "abc", "fl"]))
  a = draw(st.sampled_from([1.0, 0.01, 30.0, 1e-4]))
  if kind == "const":
    return ["const", a]
  if kind == "abc":
    return ["abc", a, draw(st.sampled_from([1.0, 0.1, 10.0])),
            draw(st.sampled_from([0.33, 0.0, 1.0, 2.0]))]
  return ["fl", a, a / draw(st.sampled_from([1, 2, 50, 500])),
          draw(st.sampled_from([0.33, 0.5, 1.0, 1.5]))]


def kept_iterations(sched, its, **kwargs):
  init, update, get = sched
  state, static = init(its, **kwargs)
  def body(s, _):
    p = get(s)
    return update(s), (p.burn_in, p.accept)
  _, (burn_in, accept) = jax.lax.scan(body, state, None, length=its)
  return (onp.asarray(burn_in), onp.asarray(accept),
          int(static.samples_collected))


# -- burn in

@st.composite
def burn_in_cases(draw):
  its = draw(st.sampled_from(LENGTHS))
  return {"its": its, "default": draw(st.integers(0, its)),
          "override": draw(st.none() | st.integers(0, its)),
          "step": draw(step_specs()),
          "via": draw(st.sampled_from(["direct", "scheduler"]))}


def check_burn_in(case):
  its = case["its"]
  part = scheduler.initial_burn_in(n=case["default"])
  kw = {} if case["override"] is None else {"n": case["override"]}
  n = case["default"] if case["override"] is None else case["override"]
  expected = (onp.arange(its) >= n).astype(float)
  if case["via"] == "direct":
    state, count = part.init(its, **kw)
    values = []
    for i in range(min(its, 12)):
      values.append(float(part.get(state, i)))
      state = part.update(state, i, acceptance_ratio=0.1)
    require(values == list(expected[:len(values)]), "burn-in iterations",
            got=values, n=n)
  else:
    sched = scheduler.init_scheduler(
      step_size=step_schedule(case["step"]), burn_in=part, progress_bar=False)
    burn_in, accept, count = kept_iterations(
      sched, its, **({"burn_in": kw} if kw else {}))
    require((burn_in.astype(float) == expected).all(), "burn-in iterations",
            got=burn_in, n=n)
    require(accept.astype(bool).all(), "samples rejected without thinning",
            got=accept)
  require(int(count) == its - n, "announced number of samples",
          got=count, expected=its - n)
  return info(0 < n < its, case["via"],
              "override" if kw else "default", "all" if n == its else "part")


# -- thinning

@st.composite
def thinning_cases(draw):
  its = draw(st.sampled_from(LENGTHS))
  n = draw(st.integers(0, its - 1))
  sel = draw(st.integers(1, its - n))
  return {"its": its, "n": n, "sel": sel, "key": draw(st.integers(0, 999)),
          "step": draw(step_specs()),
          # Which of the parameters are given when the chain is initialised
          "over": sorted(draw(st.sets(st.sampled_from(
            ["sel", "key", "step", "burn_in"])))),
          "extra": draw(st.integers(0, 3)),
          "key_none": draw(st.booleans())}


def check_thinning(case):
  its, n, sel = case["its"], case["n"], case["sel"]
  over = set(case["over"])
  key = jax.random.PRNGKey(case["key"])
  step = step_schedule(case["step"])
  burn = scheduler.initial_burn_in(n=n)
  # Defaults of overridden parameters are different ones
  part = scheduler.random_thinning(
    scheduler.polynomial_step_size(a=3.0, b=1.0, gamma=2.5)
    if "step" in over else step,
    scheduler.initial_burn_in(n=0) if "burn_in" in over else burn,
    min(sel + 1 + case["extra"], its) if "sel" in over else sel,
    **({} if "key" in over and case["key_none"] else
       {"key": jax.random.PRNGKey(case["key"] + 77) if "key" in over
               else key}))
  kw = {}
  if "step" in over:
    kw["step_size_schedule"] = step
  if "burn_in" in over:
    kw["burn_in_schedule"] = burn
  if "sel" in over:
    kw["selections"] = sel
  if "key" in over:
    kw["key"] = key
  sched = scheduler.init_scheduler(
    step_size=step,
    burn_in=scheduler.initial_burn_in(n=0) if "burn_in" in over else burn,
    thinning=part, progress_bar=False)
  init_kw = {"thinning": kw} if kw else {}
  if "burn_in" in over:
    init_kw["burn_in"] = {"n": n}
  burn_in, accept, count = kept_iterations(sched, its, **init_kw)
  kept = burn_in.astype(bool) & accept.astype(bool)
  require((burn_in.astype(bool) == (onp.arange(its) >= n)).all(),
          "burn-in iterations", got=burn_in, n=n)
  require(not (accept.astype(bool) & (onp.arange(its) < n)).any(),
          "thinning selected an iteration of the burn-in", got=accept, n=n)
  require(kept.sum() == sel, "number of kept iterations", got=int(kept.sum()),
          selections=sel)
  require(count == kept.sum(), "announced and kept samples differ",
          announced=count, kept=int(kept.sum()))
  _, accept2, _ = kept_iterations(sched, its, **init_kw)
  require((accept2 == accept).all(), "selection not reproducible")
  # Equal parameters given in another way select the same iterations
  ref = scheduler.random_thinning(step, burn, sel, key=key)
  state, total = ref.init(its)
  require(int(total) == sel, "announced selections", got=total, sel=sel)
  ref_accept = onp.asarray(
    jax.vmap(lambda i: ref.get(state, i))(jnp.arange(its))).astype(bool)
  require((ref_accept == accept.astype(bool)).all(),
          "selection depends on the way the parameters are given",
          got=accept, expected=ref_accept)
  return info(sel < its - n, *over, "burn-in" if n else "no burn-in",
              "all" if sel == its - n else "some")


# -- law of the selection

@st.composite
def law_cases(draw):
  its = draw(st.sampled_from([3, 4, 5, 6]))
  n = draw(st.integers(0, its - 2))
  return {"its": its, "n": n,
          "sel": draw(st.integers(1, min(3, its - n - 1))),
          "step": draw(step_specs()), "key": draw(st.integers(0, 999))}


def check_law(case):
  its, n, sel = case["its"], case["n"], case["sel"]
  part = scheduler.random_thinning(
    step_schedule(case["step"]), scheduler.initial_burn_in(n=n), sel)
  keys = jax.random.split(jax.random.PRNGKey(case["key"]), 4000)

  def select(key):
    state, _ = part.init(its, key=key)
    return jax.vmap(lambda i: part.get(state, i))(jnp.arange(its))

  accept = onp.asarray(jax.vmap(select)(keys)).astype(int)
  require((accept.sum(1) == sel).all(), "selections are not distinct",
          got=onp.unique(accept.sum(1)))
  require((accept[:, :n] == 0).all(), "selection within burn-in")
  weights = step_values(case["step"], its)
  weights[:n] = 0
  # Probability of each set when drawing successively without replacement
  probs = {}
  for order in itertools.permutations(range(n, its), sel):
    p, rest = 1.0, weights.sum()
    for j in order:
      p *= weights[j] / rest
      rest -= weights[j]
    probs[frozenset(order)] = probs.get(frozenset(order), 0.0) + p
  counts = {}
  for row in accept:
    k = frozenset(onp.flatnonzero(row))
    counts[k] = counts.get(k, 0) + 1
  expected = onp.array([p * len(keys) for p in probs.values()])
  observed = onp.array([counts.get(s, 0) for s in probs], dtype=float)
  big = expected >= 8
  obs = onp.append(observed[big], observed[~big].sum())
  exp = onp.append(expected[big], expected[~big].sum())
  if exp[-1] < 8:
    require(obs[-1] <= 8 + exp[-1] + 10 * onp.sqrt(exp[-1] + 1),
            "rare selections are too frequent", got=obs[-1], exp=exp[-1])
    obs, exp = obs[:-1], exp[:-1]
  if len(obs) > 1:
    chi2 = ((obs - exp) ** 2 / exp).sum()
    p = stats.chi2.sf(chi2, len(obs) - 1)
    require(p > 1e-9, "selection is not proportional to the step size",
            p=p, observed=obs, expected=exp)
  return info(len(obs) > 1, f"sel={sel}", case["step"][0])


# -- iterations with very different step sizes

@st.composite
def steep_cases(draw):
  its = draw(st.sampled_from([50, 120, 300]))
  n = draw(st.integers(0, its // 2))
  return {"its": its, "n": n, "key": draw(st.integers(0, 999)),
          "step": draw(st.sampled_from([
            ["abc", 1.0, 0.1, 2.0], ["abc", 0.01, 1.0, 2.5],
            ["abc", 1.0, 1.0, 1.0], ["abc", 30.0, 10.0, 3.0],
            ["fl", 1.0, 1e-4, 1.0], ["fl", 0.1, 1e-6, 0.5],
            ["fl", 1.0, 0.5, 0.33], ["const", 0.1]]))}


def check_steep(case):
  """A single selection follows the normalized step sizes."""
  its, n = case["its"], case["n"]
  part = scheduler.random_thinning(
    step_schedule(case["step"]), scheduler.initial_burn_in(n=n), 1)
  keys = jax.random.split(jax.random.PRNGKey(case["key"]), 20000)
  chosen = onp.asarray(jax.vmap(lambda k: part.init(its, key=k)[0][0])(keys))
  require((chosen >= n).all() and (chosen < its).all(),
          "selection within burn-in", got=chosen.min(), n=n)
  weights = step_values(case["step"], its)
  weights[:n] = 0
  exp = weights / weights.sum() * len(keys)
  obs = onp.bincount(chosen, minlength=its).astype(float)
  # Iterations in sequence are joined to groups which are frequent enough
  groups, acc_o, acc_e = [], 0.0, 0.0
  for o, e in zip(obs[n:], exp[n:]):
    acc_o, acc_e = acc_o + o, acc_e + e
    if acc_e >= 10:
      groups.append((acc_o, acc_e))
      acc_o, acc_e = 0.0, 0.0
  require(acc_o <= acc_e + 8 + 10 * onp.sqrt(acc_e + 1),
          "iterations with small step sizes are too frequent",
          got=acc_o, expected=acc_e)
  o, e = onp.array(groups).T
  if len(o) > 1:
    e = e * o.sum() / e.sum()
    p = stats.chi2.sf(((o - e) ** 2 / e).sum(), len(o) - 1)
    require(p > 1e-10, "selection is not proportional to the step size",
            p=p, observed=o, expected=e)
  # The first half of the iterations against the second one
  return info(len(o) > 1, case["step"][0])


# -- selecting several of many iterations

@st.composite
def many_cases(draw):
  its = draw(st.sampled_from([200, 60, 1000, 3000]))
  n = draw(st.sampled_from([0, its // 10, its // 2]))
  part = draw(st.sampled_from([0.02, 0.05, 0.2, 0.5, 0.9]))
  return {"its": its, "n": n, "sel": max(2, int(part * (its - n))),
          "key": draw(st.integers(0, 999)), "step": draw(step_specs())}


def check_many(case):
  """Inclusion frequencies, compared to drawing successively."""
  its, n, sel = case["its"], case["n"], case["sel"]
  part = scheduler.random_thinning(
    step_schedule(case["step"]), scheduler.initial_burn_in(n=n), sel)
  keys = jax.random.split(jax.random.PRNGKey(case["key"]), 128)

  def select(key):
    state, _ = part.init(its, key=key)
    return jax.lax.map(lambda i: part.get(state, i), jnp.arange(its))

  accept = onp.asarray(jax.vmap(select)(keys)).astype(float)
  require((accept.sum(1) == sel).all(), "selections are not distinct",
          got=onp.unique(accept.sum(1)))
  require((accept[:, :n] == 0).all(), "selection within burn-in")
  # Successive draws: smallest exponential times divided by the weights
  weights = step_values(case["step"], its)[n:]
  times = rng(case["key"], its, 5).exponential(size=(512, its - n)) / weights
  ref = onp.zeros((512, its - n))
  onp.put_along_axis(ref, onp.argsort(times, axis=1)[:, :sel], 1.0, axis=1)
  # Groups of successive iterations
  groups = onp.array_split(onp.arange(its - n), 8)
  a, b = (onp.stack([x[:, g].sum(1) for g in groups], axis=1)
          for x in (accept[:, n:], ref))
  error = onp.sqrt(onp.maximum(b.var(axis=0), 0.05) * (
    1 / len(a) + 1 / len(b)))
  z = (a.mean(axis=0) - b.mean(axis=0)) / error
  require((onp.abs(z) <= 7).all(), "selection is not proportional to the step "
          "size", deviation=z, got=a.mean(axis=0), expected=b.mean(axis=0))
  return info(sel < its - n, case["step"][0],
              "few" if sel < 0.1 * (its - n) else "many")


# -- long runs

@st.composite
def long_cases(draw):
  its = draw(st.sampled_from([70000, 20000, 140000, 200000]))
  n = draw(st.sampled_from([0, 1, its // 3, 66000]))
  n = min(n, its - 100)
  return {"its": its, "n": n, "sel": draw(st.sampled_from([20, 1, 100])),
          "key": draw(st.integers(0, 9999)),
          "step": draw(st.sampled_from([
            ["const", 0.1], ["abc", 1.0, 1.0, 0.33], ["fl", 0.1, 1e-3, 0.5],
            ["fl", 1.0, 1e-6, 1.0]]))}


def check_long(case):
  its, n, sel = case["its"], case["n"], case["sel"]
  sched = scheduler.init_scheduler(
    step_size=step_schedule(case["step"]),
    burn_in=scheduler.initial_burn_in(n=n), progress_bar=False,
    thinning=scheduler.random_thinning(
      step_schedule(case["step"]), scheduler.initial_burn_in(n=n), sel,
      key=jax.random.PRNGKey(case["key"])))
  burn_in, accept, count = kept_iterations(sched, its)
  require((burn_in.astype(bool) == (onp.arange(its) >= n)).all(),
          "burn-in iterations", got=burn_in.sum(), n=n)
  require(not accept.astype(bool)[:n].any(),
          "thinning selected an iteration of the burn-in")
  require(accept.astype(bool).sum() == sel, "number of kept iterations",
          got=int(accept.astype(bool).sum()), selections=sel)
  require(count == sel, "announced number of samples", got=count)
  return info(True, case["step"][0], f"{its} iterations")


# -- requests which cannot be satisfied

@st.composite
def refuse_cases(draw):
  its = draw(st.sampled_from(LENGTHS))
  n = draw(st.integers(0, its))
  return {"its": its, "n": n,
          "sel": its - n + draw(st.integers(1, 5)),
          "over": draw(st.booleans()), "step": draw(step_specs())}


def check_refuse(case):
  its, n = case["its"], case["n"]
  step = step_schedule(case["step"])
  burn = scheduler.initial_burn_in(n=n)
  def run():
    if case["over"]:
      part = scheduler.random_thinning(step, burn, 1)
      return part.init(its, selections=case["sel"])
    return scheduler.random_thinning(step, burn, case["sel"]).init(its)
  raises(Exception, run, "more selections than iterations outside burn-in")
  return info(True, "override" if case["over"] else "default")


SUBS = [
  Sub("burn_in", burn_in_cases, check_burn_in, 160, 1600),
  Sub("thinning", thinning_cases, check_thinning, 240, 3000, weight=2),
  Sub("law", law_cases, check_law, 48, 600),
  Sub("steep", steep_cases, check_steep, 16, 300, weight=0.5),
  Sub("many", many_cases, check_many, 32, 400, weight=0.5),
  Sub("long", long_cases, check_long, 8, 120, weight=0.3),
  Sub("refuse", refuse_cases, check_refuse, 80, 400),
]
