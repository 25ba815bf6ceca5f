"""The statements of the other properties in double precision."""
from functools import partial
import importlib

import jax
from hypothesis import strategies as st

from pbt.core import HarnessError, Sub

GROUPS = {
  "schedules": [("c01", "abc"), ("c01", "first_last"), ("c03", None),
                ("c04", "combine"), ("c02", "thinning")],
  "data": [("c05", "history"), ("c06", "map"), ("c06", "mapper"),
           ("c07", "history"), ("c08", "history"), ("c09", "stream"),
           ("c12", "format")],
  "samples": [("c10", "reload"), ("c14", "collect"), ("c14", "joint")],
  "potentials": [("c16", "batch"), ("c17", "full"), ("c16", "large")],
  "adaptions": [("c18", "decorator"), ("c18", "rms_prop"), ("c19", "mass"),
                ("c20", "fisher"), ("c30", "algebra"),
                ("c30", "matrix product")],
  "integrators": [("c21", "single"), ("c22", "single"), ("c22", "reversal"),
                  ("c23", "single"), ("c23", "reversal"), ("c24", "single"),
                  ("c21", "law"), ("c22", "law"), ("c23", "law"),
                  ("c24", "law")],
  "solvers": [("c25", "steps"), ("c26", "steps"), ("c27", None),
              ("c28", "synthetic")],
}


def statements():
  """All statements with their names."""
  out = {}
  for members in GROUPS.values():
    for module, name in members:
      mod = importlib.import_module(f"pbt.props.{module}")
      for sub in mod.SUBS:
        if name in (None, sub.name):
          out[f"{module} {sub.name}"] = sub
  return out


STATEMENTS = statements()


def tagged(name):
  return STATEMENTS[name].strategy().map(lambda c: {"of": name, "case": c})


def cases(group):
  names = [n for n in STATEMENTS for module, name in GROUPS[group]
           if n.split(" ", 1)[0] == module
           and name in (None, n.split(" ", 1)[1])]
  return st.one_of(*map(tagged, names))


def check(case):
  if not jax.config.jax_enable_x64:
    raise HarnessError("64 bit precision is not enabled")
  out = STATEMENTS[case["of"]].check(case["case"])
  if out is not None:
    out["labels"] = [case["of"]]
  return out


QUICK = {"schedules": 96, "data": 128, "samples": 96, "potentials": 64,
         "adaptions": 96, "integrators": 40, "solvers": 24}
SUBS = [Sub(group, partial(cases, group), check, n, 16 * n)
        for group, n in QUICK.items()]
