"""Generated pytrees, described by JSON-able specifications."""
import collections
import string

import jax
import numpy as onp
from hypothesis import strategies as st

NAMES = ["w", "b", "a", "z", "Z", "x1", "x10", "x2", "list_element_0",
         "list_element_1", "list_element_10", "layer_0", "layer_1", "count",
         "index_", "variables", "0", "10", "9", "~", "leaf"]
KEY_TEXT = st.one_of(
  st.sampled_from(NAMES),
  st.text(string.ascii_letters + string.digits + "_~- ", min_size=1,
          max_size=4).filter(lambda s: s.strip() == s and s.strip()))
FIELDS = ["w", "b", "a", "z", "x1", "x10", "x2", "list_element_0", "layer",
          "alpha", "mu", "B"]

_NAMEDTUPLES = {}


def namedtuple_type(fields):
  key = tuple(fields)
  if key not in _NAMEDTUPLES:
    _NAMEDTUPLES[key] = collections.namedtuple("Node", fields)
  return _NAMEDTUPLES[key]


def specs(leaf, max_leaves=8, keys=KEY_TEXT, empty=True, root=True):
  """Recursive strategy; leaves are drawn from ``leaf``."""
  leaves = leaf.map(lambda l: ["leaf", l])
  if empty:
    leaves = st.one_of(leaves, leaves, leaves, st.sampled_from(
      [["none"], ["dict", []], ["list", []], ["tuple", []]]))

  def extend(children):
    return st.one_of(
      st.lists(st.tuples(keys, children).map(list), min_size=1, max_size=4,
               unique_by=lambda kv: kv[0]).map(lambda c: ["dict", c]),
      st.lists(children, min_size=1, max_size=4).map(lambda c: ["list", c]),
      st.lists(children, min_size=1, max_size=3).map(lambda c: ["tuple", c]),
      st.lists(st.tuples(st.sampled_from(FIELDS), children).map(list),
               min_size=1, max_size=4,
               unique_by=lambda kv: kv[0]).map(lambda c: ["named", c]))
  # Wide lists, names sort differently from positions
  wide = st.lists(leaves, min_size=11, max_size=13).map(lambda c: ["list", c])
  tree = st.recursive(leaves, extend, max_leaves=max_leaves)
  node = extend(tree)
  return st.one_of(node, node, node, node, wide, tree)


def build(spec, leaf_fn):
  """Constructs the pytree, ``leaf_fn(leaf_spec, i)`` creates the leaves."""
  counter = [0]

  def make(s):
    kind = s[0]
    if kind == "leaf":
      counter[0] += 1
      return leaf_fn(s[1], counter[0] - 1)
    if kind == "none":
      return None
    if kind == "dict":
      return {k: make(v) for k, v in s[1]}
    if kind == "list":
      return [make(v) for v in s[1]]
    if kind == "tuple":
      return tuple(make(v) for v in s[1])
    if kind == "named":
      return namedtuple_type([k for k, _ in s[1]])(*[make(v) for _, v in s[1]])
    if kind == "ordered":
      return collections.OrderedDict((k, make(v)) for k, v in s[1])
    raise ValueError(kind)
  return make(spec)


def n_leaves(spec):
  if spec[0] == "leaf":
    return 1
  if spec[0] == "none":
    return 0
  return sum(n_leaves(c[1] if spec[0] in ("dict", "named", "ordered") else c)
             for c in spec[1])


def depth(spec):
  if spec[0] in ("leaf", "none"):
    return 0
  return 1 + max([depth(c[1] if spec[0] in ("dict", "named", "ordered")
                        else c) for c in spec[1]], default=0)


def has_empty(spec):
  if spec[0] == "leaf":
    return False
  if spec[0] == "none" or not spec[1]:
    return True
  return any(has_empty(c[1] if spec[0] in ("dict", "named", "ordered") else c)
             for c in spec[1])


def kinds(spec):
  if spec[0] in ("leaf", "none"):
    return {spec[0]}
  out = {spec[0]}
  for c in spec[1]:
    out |= kinds(c[1] if spec[0] in ("dict", "named", "ordered") else c)
  return out


def path_names(spec):
  """Names of the path to each leaf in the order of the flattened tree."""
  def walk(s, prefix):
    kind = s[0]
    if kind == "leaf":
      return [prefix]
    if kind == "none":
      return []
    if kind == "dict":
      children = sorted(s[1], key=lambda kv: kv[0])
    elif kind in ("named", "ordered"):
      children = s[1]
    else:
      children = [[f"list_element_{i}", c] for i, c in enumerate(s[1])]
    return [p for k, c in children for p in walk(c, prefix + (k,))]
  return walk(spec, ())
