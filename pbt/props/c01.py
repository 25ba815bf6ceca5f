"""Polynomial step-size schedules."""
import jax
import jax.numpy as jnp
import numpy as onp
from hypothesis import strategies as st

from jax_sgmc import scheduler

from pbt.core import Sub, info, require
from pbt.util import close, raises

LENGTHS = list(range(1, 10)) + [13, 20, 50, 100, 257, 1000]


def _log(lo, hi):
  """Log-uniform floats, simple to shrink."""
  lo, hi = onp.log10(lo), onp.log10(hi)
  return st.integers(0, 1000).map(
    lambda i: float("%.6g" % 10 ** (lo + (hi - lo) * i / 1000)))


def _gamma(lo=0.0):
  return st.integers(0 if lo == 0.0 else 1, 300).map(lambda i: i / 100)


def _read(sched, iterations, init_kwargs, form, via):
  """All step sizes, read in different ways."""
  if via == "direct":
    state = sched.init(iterations, **init_kwargs)
    get, update = sched.get, sched.update
    its = jnp.arange(iterations)
    if form == "vmap":
      return onp.asarray(jax.vmap(lambda i: get(state, i))(its))
    if form == "scan":
      def body(s, i):
        return update(s, i, acceptance_ratio=0.3), get(s, i)
      return onp.asarray(jax.lax.scan(body, state, its)[1])
    out = []
    for i in range(min(iterations, 12)):
      out.append(float(get(state, i)))
      state = update(state, i)
    last = float(get(state, iterations - 1))
    return onp.asarray(out), last
  init, update, get = scheduler.init_scheduler(
    step_size=sched, progress_bar=False)
  state, _ = init(iterations, **(
    {"step_size": init_kwargs} if init_kwargs else {}))
  def body(s, _):
    return update(s), get(s).step_size
  return onp.asarray(jax.lax.scan(body, state, None, length=iterations)[1])


def _compare(sched, case, iterations, kwargs, expected, what):
  got = _read(sched, iterations, kwargs, case["form"], case["via"])
  if isinstance(got, tuple):
    got, last = got
    close(last, expected[-1], rtol=5e-5, atol=0, what=what + " last step size")
    expected = expected[:len(got)]
  got = got.astype(onp.float64)
  require(got.shape == expected.shape, what + ": number of step sizes",
          got=got.shape, expected=expected.shape)
  require(onp.isfinite(got).all(), what + ": not finite", values=got)
  require((got > 0).all(), what + ": not positive", values=got)
  require((got[1:] <= got[:-1] * (1 + 2e-6)).all(), what + ": increases",
          values=got)
  close(got, expected, rtol=5e-5, atol=0, what=what)


def _conv(v, kind):
  return jnp.array(v) if kind.endswith("array") else v


def _integral(values, kind):
  """Parameters can be given as integers, too."""
  if not kind.startswith("int"):
    return list(values)
  return [None if v is None else max(1, int(round(v))) for v in values]


KINDS = ["float", "array", "int", "int array"]


@st.composite
def abc_cases(draw):
  return {
    "its": draw(st.sampled_from(LENGTHS)),
    "default": [draw(_log(1e-4, 1e3)), draw(_log(1e-2, 1e3)),
                draw(_gamma())],
    "override": [draw(st.none() | _log(1e-4, 1e3)),
                 draw(st.none() | _log(1e-2, 1e3)),
                 draw(st.none() | _gamma())],
    "omit": draw(st.sampled_from([[], [], ["gamma"], ["a", "b"],
                                  ["a", "b", "gamma"]])),
    "form": draw(st.sampled_from(["vmap", "scan", "loop"])),
    "via": draw(st.sampled_from(["direct", "scheduler"])),
    "kind": draw(st.sampled_from(KINDS))}


def check_abc(case):
  names = ("a", "b", "gamma")
  its = case["its"]
  defaults = dict(zip(names, _integral(case["default"], case["kind"])))
  documented = {"a": 1.0, "b": 1.0, "gamma": 0.33}
  defaults.update({k: documented[k] for k in case.get("omit", [])})
  sched = scheduler.polynomial_step_size(
    **{k: _conv(v, case["kind"]) for k, v in defaults.items()
       if k not in case.get("omit", [])})
  over = {k: _conv(v, case["kind"])
          for k, v in zip(names, _integral(case["override"], case["kind"])) if v is not None}
  n = onp.arange(its, dtype=onp.float64)

  def formula(p):
    return p["a"] * (p["b"] + n) ** (-p["gamma"])

  full = dict(defaults)
  full.update({k: v for k, v in zip(names, _integral(case["override"], case["kind"]))
               if v is not None})
  _compare(sched, case, its, over, formula(full), "overridden chain")
  # The defaults of other chains are not changed by an override
  if over:
    _compare(sched, case, its, {}, formula(defaults), "default chain")
  return info(its > 1 and full["gamma"] > 0,
              "override" if over else "default", case["form"], case["via"],
              "single" if its == 1 else "many")


@st.composite
def fl_cases(draw):
  def pair():
    gamma = draw(_gamma(0.01))
    last = draw(_log(1e-6, 1e2))
    # The condition number of the inverse problem is bounded by single
    # precision: (first / last) ** (1 / gamma) must be representable.
    max_dec = min(3.0, 25 * gamma)
    dec = max_dec * draw(st.integers(0, 100)) / 100
    first = float("%.9g" % (last * 10 ** dec)) if dec > 0 else last
    return first, last, gamma
  default = pair()
  mode = draw(st.sampled_from(["none", "all", "first", "gamma", "last"]))
  override = [None, None, None]
  if mode == "all":
    override = list(pair())
  elif mode == "first":
    override[0] = default[0]
    default = (default[1], default[1], default[2])
  elif mode == "gamma":
    g = draw(_gamma(0.01))
    override[2] = max(g, default[2])
  elif mode == "last":
    override[1] = default[1]
    default = (default[0], default[0], default[2])
  return {
    "its": draw(st.sampled_from(LENGTHS)), "default": list(default),
    "override": override, "omit_gamma": draw(st.booleans()),
    "form": draw(st.sampled_from(["vmap", "scan", "loop"])),
    "via": draw(st.sampled_from(["direct", "scheduler"])),
    "kind": draw(st.sampled_from(KINDS))}


def check_fl(case):
  names = ("first", "last", "gamma")
  its = case["its"]
  defaults = dict(zip(names, _integral(case["default"], case["kind"])))
  given = dict(defaults)
  if case.get("omit_gamma", False) and defaults["gamma"] < 0.33:
    # A larger exponent keeps the inverse problem representable
    defaults["gamma"] = 0.33
    given.pop("gamma")
  sched = scheduler.polynomial_step_size_first_last(
    **{k: _conv(v, case["kind"]) for k, v in given.items()})
  over = {k: _conv(v, case["kind"])
          for k, v in zip(names, _integral(case["override"], case["kind"])) if v is not None}
  n = onp.arange(its, dtype=onp.float64)

  def formula(p):
    c = ((p["first"] / p["last"]) ** (1 / p["gamma"]) - 1) / max(its - 1, 1)
    return p["first"] * (1 + n * c) ** (-p["gamma"])

  full = dict(defaults)
  full.update({k: v for k, v in zip(names, _integral(case["override"], case["kind"]))
               if v is not None})
  _compare(sched, case, its, over, formula(full), "overridden chain")
  if over:
    _compare(sched, case, its, {}, formula(defaults), "default chain")
  return info(its > 1 and full["first"] > full["last"],
              "constant" if full["first"] == full["last"] else "decaying",
              "override" if over else "default", case["form"], case["via"],
              "single" if its == 1 else "many")


@st.composite
def invalid_cases(draw):
  which = draw(st.sampled_from(
    ["a", "b", "gamma", "fl_gamma", "fl_order", "fl_last"]))
  return {"which": which, "its": draw(st.sampled_from([1, 2, 5, 50])),
          "v": draw(_log(1e-3, 1e2)), "zero": draw(st.booleans()),
          "at": draw(st.sampled_from(["default", "override"]))}


def check_invalid(case):
  which, v, its = case["which"], case["v"], case["its"]
  bad = 0.0 if case["zero"] else -v
  if which in ("a", "b", "gamma"):
    if which == "gamma":
      bad = -v
    make, kw = scheduler.polynomial_step_size, {which: bad}
  elif which == "fl_gamma":
    make, kw = scheduler.polynomial_step_size_first_last, {"gamma": bad}
  elif which == "fl_order":
    make = scheduler.polynomial_step_size_first_last
    kw = {"first": v, "last": v * 1.5}
  else:
    make = scheduler.polynomial_step_size_first_last
    kw = {"first": 1.0, "last": bad}

  def run():
    if case["at"] == "default":
      return make(**kw).init(its)
    return make().init(its, **kw)
  raises(Exception, run, f"schedule without positive, decreasing step sizes "
                         f"({kw})")
  return info(True, which)


# -- long runs and extreme scales

LONG = [2048, 2049, 4097, 10000, 32769, 65537, 120000]


@st.composite
def long_cases(draw):
  its = draw(st.sampled_from(LONG))
  case = {"its": its, "override": [None] * 3, "form": "vmap",
          "via": draw(st.sampled_from(["direct", "scheduler"])),
          "kind": draw(st.sampled_from(["float", "array"])),
          "which": draw(st.sampled_from(["abc", "fl"]))}
  if case["which"] == "abc":
    case["default"] = [draw(_log(1e-12, 1e6)), draw(_log(1e-3, 1e6)),
                       draw(_gamma())]
  else:
    gamma, last = draw(_gamma(0.01)), draw(_log(1e-12, 1e3))
    ratio = draw(st.sampled_from([1.0001, 1.001, 1.02, 1.5, 10, 1e3, 1e6]))
    first = last * min(ratio, 10 ** min(6.0, 20 * gamma))
    case["default"] = [float("%.9g" % first), last, gamma]
  return case


def check_long(case):
  res = (check_abc if case["which"] == "abc" else check_fl)(case)
  return res


SUBS = [
  Sub("long", long_cases, check_long, 60, 800, weight=0.6),
  Sub("abc", abc_cases, check_abc, 320, 4000),
  Sub("first_last", fl_cases, check_fl, 400, 5000,
      cases=[{"its": i, "default": [0.3, 0.3, 0.33],
              "override": [None] * 3, "form": "vmap", "via": "direct",
              "kind": "float"} for i in (1, 2, 100)]),
  Sub("invalid", invalid_cases, check_invalid, 96, 400, weight=0.2),
]
