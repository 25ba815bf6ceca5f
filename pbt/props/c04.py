"""The scheduler as composition of its parts."""
import contextlib
import io
import re

import jax
import jax.numpy as jnp
import numpy as onp
from hypothesis import strategies as st
from jax.experimental import host_callback as hcb

from jax_sgmc import scheduler

from pbt.core import Sub, info, require
from pbt.props.c02 import step_schedule, step_specs
from pbt.util import F, JF, rng


def tracking(name, start=0.0):
  """User defined schedule whose value depends on everything it is told.

  The value is a function of the initial argument, of the number of the
  iteration in which it is updated or read and of the run statistics with the
  name of the schedule.
  """
  def init(iterations, offset=start):
    return jnp.array([offset, 0.01 * iterations, 0.0], dtype=JF)

  def update(state, iteration, **kwargs):
    stat = kwargs.get(f"stat_{name}", 0.0)
    return jnp.stack([state[0] * 0.5 + stat, state[1],
                      state[2] + 0.125 * (1 + iteration)])

  def get(state, iteration, **kwargs):
    return state[0] + state[1] + state[2] + 0.25 * iteration

  return scheduler.specific_scheduler(init, update, get)


def tracking_burn_in(n0=0):
  def init(iterations, n=n0):
    return jnp.array([n, 0]), iterations - n
  def update(state, iteration, **kwargs):
    return state + jnp.array([0, 1])
  def get(state, iteration, **kwargs):
    return jnp.where(state[1] >= state[0], 1.0, 0.0)
  return scheduler.specific_scheduler(init, update, get)


def every(k0=2):
  """Accepts each k-th iteration."""
  def init(iterations, k=k0):
    return jnp.array(k), len(range(0, iterations, k))
  def update(state, iteration, **kwargs):
    return state
  def get(state, iteration, **kwargs):
    return iteration % state == 0
  return scheduler.specific_scheduler(init, update, get)


@st.composite
def part_specs(draw, its):
  spec = {}
  spec["step_size"] = draw(st.one_of(
    st.none(), step_specs(), st.just(["adaptive"]), st.just(["track"])))
  spec["temperature"] = draw(st.sampled_from(
    [None, ["const", 0.5], ["const", 2.0], ["const", 0.0],
     ["const", 5000.0], ["const", 1e-6], ["track"]]))
  spec["burn_in"] = draw(st.none() | st.tuples(
    st.sampled_from(["initial", "track"]), st.integers(0, its - 1)).map(list))
  spec["thinning"] = draw(st.sampled_from(
    [None, ["every", 2], ["every", 3], ["random"]]))
  over = {}
  if spec["step_size"] in (["adaptive"], ["track"]) and draw(st.booleans()):
    over["step_size"] = draw(st.sampled_from([0.5, 2.0]))
  if spec["temperature"] and draw(st.booleans()):
    over["temperature"] = draw(st.sampled_from([0.25, 3.0, 2e4]))
  if spec["burn_in"] and draw(st.booleans()):
    over["burn_in"] = draw(st.integers(0, its - 1))
  if spec["thinning"] and spec["thinning"][0] == "every" \
      and draw(st.booleans()):
    over["thinning"] = draw(st.integers(1, 4))
  return spec, over


def make(spec, over, its):
  """The parts and the initial arguments addressed to them."""
  parts, kwargs = {}, {}
  s = spec["step_size"]
  if s is not None:
    parts["step_size"] = (
      scheduler.adaptive_step_size(burn_in=5, initial_step_size=0.1)
      if s == ["adaptive"] else
      tracking("step") if s == ["track"] else step_schedule(s))
    if "step_size" in over:
      kwargs["step_size"] = (
        {"initial_step_size": over["step_size"]} if s == ["adaptive"]
        else {"offset": over["step_size"]})
  t = spec["temperature"]
  if t is not None:
    parts["temperature"] = (tracking("temp", 1.0) if t == ["track"]
                            else scheduler.constant_temperature(tau=t[1]))
    if "temperature" in over:
      kwargs["temperature"] = {
        "offset" if t == ["track"] else "tau": over["temperature"]}
  b = spec["burn_in"]
  n = 0
  if b is not None:
    n = over.get("burn_in", b[1])
    parts["burn_in"] = (scheduler.initial_burn_in(n=b[1])
                        if b[0] == "initial" else tracking_burn_in(b[1]))
    if "burn_in" in over:
      kwargs["burn_in"] = {"n": over["burn_in"]}
  th = spec["thinning"]
  if th is not None:
    parts["thinning"] = (
      every(th[1]) if th[0] == "every" else scheduler.random_thinning(
        scheduler.polynomial_step_size(a=1.0, b=1.0, gamma=0.5),
        scheduler.initial_burn_in(n=n), max(1, (its - n) // 2),
        key=jax.random.PRNGKey(5)))
    if "thinning" in over:
      kwargs["thinning"] = {"k": over["thinning"]}
  return parts, kwargs


def statistics(seed, its):
  r = rng(seed)
  return {"acceptance_ratio": r.uniform(size=its).astype(F),
          "stat_step": r.normal(size=its).astype(F),
          "stat_temp": r.normal(size=its).astype(F)}


def by_hand(parts, kwargs, its, stats):
  """Values of each individual schedule, stepped without the scheduler."""
  out = {}
  defaults = {"step_size": onp.ones(its), "temperature": onp.ones(its),
              "burn_in": onp.ones(its), "thinning": onp.ones(its)}
  for name, default in defaults.items():
    if name not in parts:
      out[name] = default
      continue
    part = parts[name]
    state = part.init(its, **kwargs.get(name, {}))
    if name in ("burn_in", "thinning"):
      state = state[0]
    state = jax.tree_util.tree_map(
      lambda x: jnp.asarray(x) if jnp.issubdtype(
        jnp.asarray(x).dtype, jnp.integer) else jnp.asarray(x, JF),
      state)
    def body(s, x, part=part):
      i, stat = x
      return part.update(s, i, **stat), part.get(s, i)
    _, values = jax.lax.scan(body, state, (jnp.arange(its), {
      k: jnp.asarray(v) for k, v in stats.items()}))
    out[name] = onp.asarray(values).astype(onp.float64)
  return out


def check_constant(case, temperature):
  """A constant temperature is the one asked for."""
  t = case["spec"]["temperature"]
  if t is None or t[0] == "const":
    tau = 1.0 if t is None else case["over"].get("temperature", t[1])
    require(onp.isclose(onp.asarray(temperature, dtype=onp.float64), tau,
                        rtol=1e-6, atol=0).all(), "constant temperature",
            got=temperature, expected=tau)


def drive(sched, its, kwargs, stats, form):
  """Runs the combined scheduler and returns schedule, static and output."""
  init, update, get = sched
  text = io.StringIO()
  with contextlib.redirect_stdout(text):
    state, static = init(its, **kwargs)
    values = []
    if form == "scan":
      def body(s, stat):
        v = get(s)
        return update(s, **stat), v
      state = jax.tree_util.tree_map(jnp.asarray, state)
      state = jax.tree_util.tree_map(
        lambda x: x if x.dtype == bool or jnp.issubdtype(
          x.dtype, jnp.integer) else x.astype(JF), state)
      state, values = jax.lax.scan(
        body, state, {k: jnp.asarray(v) for k, v in stats.items()})
      values = jax.tree_util.tree_map(onp.asarray, values)
    else:
      up, ge = (jax.jit(update), jax.jit(get)) if form == "jit" else (
        update, get)
      for i in range(its):
        values.append(ge(state))
        state = up(state, **{k: jnp.asarray(v[i]) for k, v in stats.items()})
      values = scheduler.schedule(*(
        onp.stack([onp.asarray(getattr(v, f)) for v in values])
        for f in scheduler.schedule._fields))
    hcb.barrier_wait()
  return values, static, text.getvalue()


def compare(values, ref, what):
  for field, name in (("step_size", "step_size"), ("burn_in", "burn_in"),
                      ("temperature", "temperature"), ("accept", "thinning")):
    got = onp.asarray(getattr(values, field)).astype(onp.float64)
    require(got.shape == ref[name].shape, f"{what}: shape of {field}",
            got=got.shape)
    ok = onp.isclose(got, ref[name], rtol=1e-5, atol=1e-6)
    if not ok.all():
      i = int(onp.argmin(ok))
      require(False, f"{what}: {field} in iteration {i}", got=got[i],
              expected=ref[name][i])


@st.composite
def combine_cases(draw):
  form = draw(st.sampled_from(["scan", "scan", "jit", "loop"]))
  its = draw(st.sampled_from(
    [1, 2, 3, 5, 8, 13, 30, 61] if form == "scan" else [1, 2, 3, 5, 8]))
  spec, over = draw(part_specs(its))
  return {"its": its, "spec": spec, "over": over, "form": form,
          "seed": draw(st.integers(0, 999)),
          "bar": draw(st.sampled_from(["off", "on", "default"])),
          "steps": draw(st.integers(1, its))}


def check_combine(case):
  its = case["its"]
  parts, kwargs = make(case["spec"], case["over"], its)
  stats = statistics(case["seed"], its)
  ref = by_hand(parts, kwargs, its, stats)
  bar = case["bar"]
  if bar == "default" and its < 20:
    bar = "on"
  opts = ({"progress_bar": False} if bar == "off" else
          {} if bar == "default" else {"progress_bar_steps": case["steps"]})
  sched = scheduler.init_scheduler(**parts, **opts)
  values, static, text = drive(sched, its, kwargs, stats, case["form"])
  compare(values, ref, f"scheduler ({case['form']}, progress bar {bar})")
  check_constant(case, values.temperature)
  if bar == "off":
    require(text == "", "output without progress bar", got=text)
  announced = its
  if "burn_in" in parts:
    announced = min(announced, int(
      parts["burn_in"].init(its, **kwargs.get("burn_in", {}))[1]))
  if "thinning" in parts:
    announced = min(announced, int(
      parts["thinning"].init(its, **kwargs.get("thinning", {}))[1]))
  require(int(static.samples_collected) == announced,
          "announced number of samples", got=static.samples_collected,
          expected=announced)
  return info(bool(parts) and its > 1, case["form"], f"bar {bar}", *parts,
              *["over " + k for k in kwargs])


@st.composite
def report_cases(draw):
  form = draw(st.sampled_from(["scan", "scan", "jit", "loop"]))
  its = draw(st.sampled_from(
    [1, 2, 5, 9, 20, 33, 57, 100] if form == "scan" else [1, 2, 3, 5, 8]))
  spec, over = draw(part_specs(its))
  # The announced number is only defined if the schedules agree
  if spec["thinning"] and spec["thinning"][0] == "every":
    spec["burn_in"] = None
    over.pop("burn_in", None)
  return {"its": its, "spec": spec, "over": over, "form": form,
          "seed": draw(st.integers(0, 999)),
          "steps": draw(st.integers(1, its)),
          "given": draw(st.sampled_from(["maker", "init", "maker", "off"]))}


LINE = re.compile(
  r"\D*(\d+)\s*/\s*(\d+)\D*(\d+)\s*%\D*(\d+)\s+of\s+(\d+)\D*$")


def check_report(case):
  its, steps = case["its"], case["steps"]
  parts, kwargs = make(case["spec"], case["over"], its)
  stats = statistics(case["seed"], its)
  ref = by_hand(parts, kwargs, its, stats)
  kept = (ref["burn_in"] * ref["thinning"]) > 0.5
  total = int(kept.sum())
  opts, init_kw = {}, dict(kwargs)
  if case["given"] == "init":
    opts["progress_bar_steps"] = max(1, its // 2)
    init_kw["progress_bar_steps"] = steps
  else:
    opts["progress_bar_steps"] = steps
  if case["given"] == "off":
    init_kw["enabled"] = jnp.array(False)
  sched = scheduler.init_scheduler(**parts, **opts)
  values, static, text = drive(sched, its, init_kw, stats, case["form"])
  compare(values, ref, "reporting scheduler")
  require(int(static.samples_collected) == total,
          "announced and kept samples differ", announced=static, kept=total)
  lines = [l for l in text.splitlines() if l.strip()]
  if case["given"] == "off":
    require(not lines, "report although disabled", got=lines)
    return info(False, "off")
  interval = its // steps
  expected = [(i, its, int(kept[:i + 1].sum()), total)
              for i in range(0, its, interval)]
  got = []
  for l in lines:
    m = LINE.match(l)
    require(m is not None, "unreadable report", line=l)
    i, n, pct, c, t = (int(x) for x in m.groups())
    require(abs(pct - 100 * i / n) <= 0.51, "reported percentage", line=l)
    got.append((i, n, c, t))
  require(got == expected, "progress report (iteration, iterations, kept, "
          "announced)", got=got, expected=expected)
  return info(total < its and len(lines) > 1, case["form"], case["given"],
              *parts)


SUBS = [
  Sub("combine", combine_cases, check_combine, 200, 3000, weight=1.5),
  Sub("report", report_cases, check_report, 200, 2400, weight=1.5),
]
