"""Dual averaging of the step size."""
import jax
import jax.numpy as jnp
import numpy as onp
from hypothesis import strategies as st

from jax_sgmc import scheduler

from pbt.core import Sub, info, require
from pbt.util import F, JF, rng

NAMES = ("burn_in", "initial_step_size", "stabilization_constant",
         "decay_constant", "speed_constant", "target_acceptance_rate")
DEFAULTS = (0, 0.05, 100, 0.75, 0.05, 0.02)
LENGTHS = [1, 2, 3, 5, 8, 20, 60, 200]


@st.composite
def constants(draw):
  return [draw(st.integers(0, 250)),
          draw(st.sampled_from([0.05, 1e-4, 0.003, 0.7, 2.0])),
          draw(st.sampled_from([100, 10, 3, 1, 250])),
          draw(st.sampled_from([0.75, 0.51, 0.6, 0.9, 1.0])),
          draw(st.sampled_from([0.05, 0.2, 1.0, 2.0])),
          draw(st.sampled_from([0.02, 0.25, 0.5, 0.8, 0.99, 0.0, 1.0]))]


@st.composite
def history(draw):
  its = draw(st.sampled_from(LENGTHS))
  kind = draw(st.sampled_from(
    ["random", "ones", "zeros", "target", "alternating", "explicit"]))
  if kind == "explicit":
    vals = draw(st.lists(st.integers(0, 16), min_size=1, max_size=8))
    return {"its": its, "kind": kind, "values": [v / 16 for v in vals]}
  return {"its": its, "kind": kind, "seed": draw(st.integers(0, 9999))}


def acceptances(h, target):
  its = h["its"]
  k = h["kind"]
  if k == "ones":
    acc = onp.ones(its)
  elif k == "zeros":
    acc = onp.zeros(its)
  elif k == "target":
    acc = onp.full(its, target)
  elif k == "alternating":
    acc = (onp.arange(its) % 2).astype(float)
  elif k == "explicit":
    acc = onp.resize(onp.array(h["values"]), its)
  else:
    acc = rng(h["seed"]).uniform(size=its)
  return acc.astype(F).astype(onp.float64)


@st.composite
def cases(draw):
  c = draw(constants())
  mask = draw(st.lists(st.sampled_from(["default", "maker", "init"]),
                       min_size=6, max_size=6))
  if mask[0] == "default" and draw(st.integers(0, 3)):
    mask[0] = "init"
  h = draw(history())
  if draw(st.booleans()):
    c[0] = min(c[0], h["its"])
  if draw(st.integers(0, 7)) == 0:
    # More updates than the constants of the method
    h["its"] = draw(st.sampled_from([2000, 700, 1200]))
    c[0] = h["its"] - draw(st.sampled_from([0, 1, 100]))
    mask[0] = "init"
  return {"const": c, "given": mask, "hist": h,
          "via": draw(st.sampled_from(["direct", "scheduler"])),
          "burn_type": draw(st.sampled_from(["int", "array"])),
          "integers": draw(st.booleans())}


def reference(p, acc):
  """Logarithm of the step size before each update and after the last one."""
  burn, init, t0, kappa, gamma, target = p
  mu, x_bar, h = onp.log(10 * init), onp.log(init), 0.0
  out, scale = [x_bar], [abs(mu)]
  for i, a in enumerate(acc):
    m = i + 1
    h = (1 - 1 / (m + t0)) * h + (target - a) / (m + t0)
    x = mu - onp.sqrt(m) / gamma * h
    w = m ** -kappa
    if i < burn:
      x_bar = (1 - w) * x_bar + w * x
    out.append(x_bar)
    scale.append(max(scale[-1], onp.sqrt(m) / gamma))
  return onp.array(out), onp.array(scale)


def run(sched, via, its, init_kw, acc):
  acc = jnp.asarray(acc, dtype=JF)
  if via == "direct":
    state = sched.init(its, **init_kw)
    def body(s, x):
      i, a = x
      return sched.update(s, i, acceptance_ratio=a, other=a), sched.get(s, i)
    def go(s):
      s, v = jax.lax.scan(body, s, (jnp.arange(its), acc))
      return jnp.append(v, sched.get(s, its))
    state = jax.tree_util.tree_map(jnp.asarray, state)
    # The carry of the loop has to keep its type
    state = jax.tree_util.tree_map(
      lambda x: x if jnp.issubdtype(x.dtype, jnp.integer)
      else x.astype(JF), state)
    return onp.asarray(go(state), dtype=onp.float64)
  init, update, get = scheduler.init_scheduler(
    step_size=sched, progress_bar=False)
  state, _ = init(its, **({"step_size": init_kw} if init_kw else {}))
  def body2(s, a):
    return update(s, acceptance_ratio=a), get(s).step_size
  state, v = jax.lax.scan(body2, state, acc)
  return onp.asarray(jnp.append(v, get(state).step_size), dtype=onp.float64)


def check(case):
  values = list(case["const"])
  maker, init = {}, {}
  for i, (name, how) in enumerate(zip(NAMES, case["given"])):
    v = values[i]
    if how == "default":
      values[i] = DEFAULTS[i]
      continue
    if name == "burn_in" and case["burn_type"] == "array":
      v = jnp.array(v)
    elif case.get("integers", False) and v == int(v):
      v = int(v)
    if how == "maker":
      maker[name] = v
    else:
      init[name] = v
      # The value of another chain
      maker[name] = values[i] * 0.5 if i not in (0, 2) else values[i] + 2
  acc = acceptances(case["hist"], values[5])
  its = case["hist"]["its"]
  sched = scheduler.adaptive_step_size(**maker)
  got = run(sched, case["via"], its, init, acc)
  ref, scale = reference(values, acc)
  _compare(got, ref, scale, values, its)
  return info(values[0] > 0 and its > 1, case["hist"]["kind"], case["via"],
              "frozen" if values[0] < its else "adapting",
              *["init " + n for n in init])


def _compare(got, ref, scale, values, its):
  require(got.shape == ref.shape, "number of step sizes", got=got.shape)
  require(not onp.isnan(got).any(), "step size is NaN", got=got[:10])
  with onp.errstate(divide="ignore"):
    logs = onp.log(got)
  tol = 2e-5 * (1 + scale) * onp.sqrt(1 + onp.arange(its + 1)) ** 0.5
  inside = onp.abs(ref) < 80
  bad = inside & ~(onp.abs(logs - ref) <= tol)
  if bad.any():
    i = int(onp.argmax(bad))
    require(False, "step size differs from dual averaging", update=i,
            got=float(got[i]), expected=float(onp.exp(ref[i])),
            constants=values)
  require((got[ref > 92] > 1e38).all() and (got[ref < -92] < 1e-36).all(),
          "diverging step size", got=got)
  frozen = got[min(int(values[0]), its):]
  require((frozen == frozen[0]).all(), "step size changes after burn-in",
          got=frozen, burn_in=values[0])


# -- metamorphic statements

@st.composite
def mono_cases(draw):
  c = draw(constants())
  h = draw(history())
  c[0] = h["its"] + draw(st.integers(0, 2))
  return {"const": c, "hist": h, "lo": draw(st.integers(0, 8)) / 16,
          "diff": draw(st.integers(1, 8)) / 16}


def check_mono(case):
  kw = dict(zip(NAMES, case["const"]))
  sched = scheduler.adaptive_step_size(**kw)
  its = case["hist"]["its"]
  acc = acceptances(case["hist"], kw["target_acceptance_rate"])
  lo, hi = acc.copy(), acc.copy()
  lo[-1], hi[-1] = case["lo"], case["lo"] + case["diff"]
  a = run(sched, "direct", its, {}, lo)
  b = run(sched, "direct", its, {}, hi)
  require((a[:-1] == b[:-1]).all(), "step size depends on later acceptance")
  require(b[-1] >= a[-1] * (1 - 1e-6),
          "higher acceptance leads to a smaller step size", low=a[-1],
          high=b[-1])
  return info(its > 1, case["hist"]["kind"])


SUBS = [Sub("recursion", cases, check, 400, 6000),
        Sub("monotone", mono_cases, check_mono, 120, 1600, weight=0.5)]
