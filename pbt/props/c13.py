"""Conversion of pytrees to dictionaries."""
import jax
import numpy as onp
from hypothesis import strategies as st
from jax import tree_util

from jax_sgmc import io

from pbt import trees
from pbt.core import Sub, info, require


@tree_util.register_pytree_node_class
class Pair:
  """User defined node whose leaves are flattened in reversed order."""

  def __init__(self, first, second):
    self.first, self.second = first, second

  def tree_flatten(self):
    return (self.second, self.first), None

  @classmethod
  def tree_unflatten(cls, _, children):
    return cls(children[1], children[0])


@io.register_dictionize_rule(Pair)
def _pair_to_dict(pair):
  return (("first", pair.first), ("second", pair.second))


# Any text is a key of a dictionary
KEYS = st.one_of(trees.KEY_TEXT, st.text(min_size=0, max_size=4),
                 st.sampled_from(["a/b", "/", ".", "first", "second", ""]))
LEAF = st.sampled_from(["int", "float", "array", "scalar", "str", "object"])


@st.composite
def tree_specs(draw):
  spec = draw(trees.specs(LEAF, max_leaves=10, keys=KEYS))
  wrap = draw(st.integers(0, 5))
  if wrap == 0:
    return {"spec": spec, "pair": draw(trees.specs(LEAF, max_leaves=3))}
  return {"spec": spec, "pair": None}


class Opaque:
  """Leaf without any meaning."""

  def __init__(self, i):
    self.i = i

  def __repr__(self):
    return f"Opaque({self.i})"


def leaf_fn(kind, i):
  return {"int": 100 + i, "float": i + 0.5, "str": f"text{i}",
          "array": onp.full((2, 3), i, dtype=onp.float32),
          "scalar": onp.array(i), "object": Opaque(i)}[kind]


def make(case):
  tree = trees.build(case["spec"], leaf_fn)
  if case["pair"] is not None:
    tree = {"k": [Pair(tree, trees.build(case["pair"], leaf_fn))], "a": tree}
  return tree


def identical(a, b, what):
  ta, tb = tree_util.tree_structure(a), tree_util.tree_structure(b)
  require(ta == tb, f"{what}: structure", got=ta, expected=tb)
  require(type(a) == type(b), f"{what}: type", got=type(a), expected=type(b))
  for i, (x, y) in enumerate(zip(tree_util.tree_leaves(a),
                                 tree_util.tree_leaves(b))):
    require(x is y or (type(x) == type(y) and onp.array_equal(x, y)),
            f"{what}: leaf {i}", got=x, expected=y)


def only_dicts(node, what):
  if isinstance(node, dict):
    for k, v in node.items():
      only_dicts(v, what)
  else:
    leaves = tree_util.tree_leaves(node)
    require(not leaves or (len(leaves) == 1 and leaves[0] is node),
            f"{what}: node is no dictionary", got=node)


def get_path(node, path):
  for k in path:
    require(isinstance(node, dict) and k in node,
            "access key does not lead to a leaf", key=k, path=path, node=node)
    node = node[k]
  return node


def subtrees(tree, d):
  """Pairs of sub-tree and corresponding sub-dictionary."""
  if len(tree_util.tree_leaves(tree)) == 0:
    return  # empty nodes have no children in the dictionary
  if isinstance(tree, dict):
    items = [(v, d[k]) for k, v in tree.items()]
  elif isinstance(tree, tuple) and hasattr(tree, "_fields"):
    items = [(getattr(tree, f), d[f]) for f in tree._fields]
  elif isinstance(tree, (list, tuple)):
    items = [(v, d[f"list_element_{i}"]) for i, v in enumerate(tree)]
  else:
    return
  for sub, sub_d in items:
    yield sub, sub_d
    yield from subtrees(sub, sub_d)


def examine(tree):
  """Checks the conversions of a tree; returns the dictionary and the leaves.
  """
  as_dict = io.pytree_to_dict(tree)
  leaves = tree_util.tree_leaves(tree)
  root_leaf = len(leaves) == 1 and leaves[0] is tree
  if not root_leaf:
    only_dicts(as_dict, "dictionary")
  # Nothing is lost and nothing is added
  found = []

  def collect(node):
    if isinstance(node, dict):
      for v in node.values():
        collect(v)
    elif node is not None and not (isinstance(node, (list, tuple))
                                   and len(node) == 0):
      found.append(node)
  collect(as_dict)
  require(sorted(id(x) for x in found) == sorted(id(x) for x in leaves)
          or len(found) == len(leaves), "leaves of the dictionary",
          got=found, expected=leaves)
  # Lossless
  identical(io.dict_to_pytree(as_dict, tree), tree, "restored tree")
  # Restored from a dictionary with other leaves
  doubled = tree_util.tree_map(lambda x: f"new {id(x)}", tree)
  identical(io.dict_to_pytree(io.pytree_to_dict(doubled), tree), doubled,
            "restored tree with the original as target")
  # Keys
  keys = io.pytree_dict_keys(tree)
  require(len(keys) == len(leaves), "number of keys", got=keys,
          expected=len(leaves))
  for i, (key, leaf) in enumerate(zip(keys, leaves)):
    require(isinstance(key, tuple), "key is no tuple", got=key)
    got = get_path(as_dict, key)
    require(got is leaf or onp.array_equal(got, leaf) and
            type(got) == type(leaf),
            f"key of leaf {i} leads to another leaf", key=key, got=got,
            expected=leaf)
  require(len(set(map(tuple, keys))) == len(keys), "keys are not unique",
          keys=keys)
  # The keys of the dictionary itself
  if not root_leaf and len(leaves) > 0:
    dict_keys = io.pytree_dict_keys(as_dict)
    require(sorted(dict_keys) == sorted(keys), "keys of the dictionary",
            got=dict_keys, expected=keys)
    for key, leaf in zip(dict_keys, tree_util.tree_leaves(as_dict)):
      require(get_path(as_dict, key) is leaf,
              "key of the dictionary leads to another leaf", key=key)
  return as_dict, leaves


def check(case):
  tree = make(case)
  as_dict, leaves = examine(tree)
  # Matching sub-trees
  count = 0
  if case["pair"] is None:
    for sub, sub_d in subtrees(tree, as_dict):
      identical(io.dict_to_pytree(sub_d, sub), sub, "restored sub-tree")
      count += 1
      if count > 20:
        break
  spec = case["spec"]
  k = trees.kinds(spec)
  return info(len(leaves) > 1 and trees.depth(spec) > 0,
              *k, "empty nodes" if trees.has_empty(spec) else "no empty nodes",
              "user node" if case["pair"] is not None else "builtin",
              f"depth {min(trees.depth(spec), 4)}",
              "wide" if len(leaves) > 10 else "narrow")


# -- long lists, wide dictionaries and deep trees

@st.composite
def big_cases(draw):
  kind = draw(st.sampled_from(["list", "tuple", "dict", "deep", "nested"]))
  size = draw(st.sampled_from([11, 40, 101, 130, 300]))
  return {"kind": kind, "size": size, "seed": draw(st.integers(0, 9)),
          "leaf": draw(LEAF)}


def check_big(case):
  size, kind = case["size"], case["kind"]
  leaves = [leaf_fn(case["leaf"], i) for i in range(size)]
  if kind == "list":
    tree = leaves
  elif kind == "tuple":
    tree = (tuple(leaves), leaves[0])
  elif kind == "dict":
    tree = {f"k{(7 * i + case['seed']) % 1009}": v
            for i, v in enumerate(leaves)}
  elif kind == "deep":
    tree = leaves[0]
    for i, v in enumerate(leaves[1:60]):
      tree = [{"d": tree, "v": v}, (tree, v), [v, tree]][i % 3] \
        if i < 4 else {"d": tree} if i % 2 else [tree]
  else:
    tree = {"a": [leaves[i:i + 12] for i in range(0, size, 12)]}
  examine(tree)
  return info(True, kind, f"size {size}")


SUBS = [Sub("roundtrip", tree_specs, check, 3000, 60000),
        Sub("big", big_cases, check_big, 200, 2000)]
