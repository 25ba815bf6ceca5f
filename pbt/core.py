"""Definitions shared by the property modules."""
import hashlib
import json
import os
import shutil
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# PBT_REPO is only used to develop the checks against scratch copies
REPO = os.environ.get("PBT_REPO", "/repo")


class Violation(Exception):
  """The property does not hold for the current case."""


class HarnessError(Exception):
  """The harness itself is broken, nothing can be said about the property."""


class Sub:
  """One executable statement of a property.

  Args:
    name: Identifies the statement in replay files and evidence
    strategy: Function returning a hypothesis strategy of JSON-able cases
    check: ``check(case)`` raises if the statement is violated. Returns
      ``None``, or a dict with the keys ``nontrivial`` (bool) and ``labels``
      (list of str).
    quick, thorough: Number of generated cases per tier (over all workers)
    cases: Explicit corner cases that are always tried first
    workers: Maximum number of processes the cases are distributed to
  """

  def __init__(self, name, strategy, check, quick, thorough=None, cases=(),
               workers=8, weight=1.0, shrink_s=40.0):
    self.name = name
    self.strategy = strategy
    self.check = check
    self.quick = quick
    self.thorough = thorough if thorough is not None else 8 * quick
    self.cases = list(cases)
    self.workers = workers
    self.weight = weight
    self.shrink_s = shrink_s


def info(nontrivial=True, *labels):
  return {"nontrivial": bool(nontrivial), "labels": [str(l) for l in labels]}


def require(cond, message, **details):
  """Raises a violation if the condition does not hold."""
  if not bool(cond):
    if details:
      message += " | " + ", ".join(
        f"{k}={_short(v)}" for k, v in details.items())
    raise Violation(message)


def _short(v, n=400):
  s = repr(v)
  return s if len(s) <= n else s[:n] + "..."


def case_key(case):
  return hashlib.sha256(
    json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def case_size(case):
  """Order of the cases for minimization: short first, then small numbers."""
  text = json.dumps(case, sort_keys=True)
  return (len(text), text)


class scratch_dir:
  """Temporary directory which only lives as long as a single case."""

  def __enter__(self):
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access(
      "/dev/shm", os.W_OK) else None
    self.path = tempfile.mkdtemp(prefix="pbt_", dir=base)
    return self.path

  def __exit__(self, *_):
    shutil.rmtree(self.path, ignore_errors=True)


def add_hypothesis_path(base=None):
  """Makes hypothesis importable without exposing other packages."""
  deps = os.path.join(VERIF, ".deps")
  if os.path.isdir(os.path.join(deps, "hypothesis")):
    sys.path.append(deps)
    return
  site = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
  links = tempfile.mkdtemp(prefix="pbt_deps_", dir=base)
  for name in ("hypothesis", "_hypothesis_globals.py",
               "_hypothesis_ftz_detector.py", "_hypothesis_pytestplugin.py",
               "sortedcontainers", "attr", "attrs"):
    src = os.path.join(site, name)
    if os.path.exists(src):
      os.symlink(src, os.path.join(links, name))
  sys.path.append(links)
  if base is None:
    import atexit
    atexit.register(shutil.rmtree, links, True)
