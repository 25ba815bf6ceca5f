"""Adaption of the mass matrix."""
import jax
import jax.numpy as jnp
import numpy as onp
from hypothesis import strategies as st
from jax import tree_util

from jax_sgmc import adaption

from pbt import trees
from pbt.core import Sub, info, require
from pbt.props.c18 import check_diagonal, flat, make_tree
from pbt.util import F, close, rng

SHAPES = [[], [3], [2, 2], [1, 3], [2, 1, 2]]
LEAF = st.sampled_from(SHAPES)


def split(spec, vectors):
  """Trees of the rows of a matrix."""
  vectors = onp.asarray(vectors, dtype=F)
  pos = [0]
  def leaf(shape, _):
    size = int(onp.prod(shape))
    part = vectors[..., pos[0]:pos[0] + size]
    pos[0] += size
    return part.reshape(vectors.shape[:-1] + tuple(shape))
  return trees.build(spec, leaf)


@st.composite
def cases(draw):
  spec = draw(trees.specs(LEAF, max_leaves=3, empty=True).filter(
    lambda s: 0 < trees.n_leaves(s) <= 4))
  diagonal = draw(st.booleans())
  d = flat(make_tree(spec, 0)).size
  burn = draw(st.integers(2 if diagonal else d + 2,
                          20 if diagonal else d + 20))
  after = draw(st.integers(0, 6))
  runs = draw(st.integers(0, 8))
  stop = draw(st.sampled_from(["before", "at", "after", "after"]))
  if stop == "before":
    steps = min(burn - 1, runs + burn // 2)
  else:
    steps = burn + (after if stop == "after" else 0)
  return {"spec": spec, "diagonal": diagonal, "burn_in": burn,
          "steps": steps, "default": draw(st.booleans()),
          "how": draw(st.sampled_from(["none", "tree", "tree"])),
          "form": draw(st.sampled_from(["scan", "jit", "loop", "vmap"])),
          "offset": draw(st.sampled_from([0.0, 1.0, -5.0, 300.0])),
          "scale": draw(st.sampled_from([0.05, 1.0, 10.0])),
          "cov_scale": draw(st.sampled_from([1.0, 1.0, 1e-6, 1e4])),
          "extra": draw(st.integers(0, 2)),
          "seed": draw(st.integers(0, 999))}


def draws(case, chain, d):
  """Samples with moderate correlations."""
  r = rng(case["seed"], chain, 31)
  n = case["steps"]
  a = onp.eye(d) + 0.3 * r.uniform(-1, 1, size=(d, d)) / max(1, d ** 0.5)
  x = r.normal(size=(n, d)) @ a.T * onp.exp(0.5 * r.uniform(-1, 1, size=d))
  x = (x + case["offset"] * r.uniform(0.2, 1, size=d)) * case["scale"]
  return onp.asarray(x, dtype=F)


def check_mass(mass, inv, exact, case, sample, what):
  """inv is the expected inverse, exact whether it is known exactly."""
  require(isinstance(mass, adaption.MassMatrix), f"{what}: type",
          got=type(mass))
  size = onp.abs(inv).max()
  tol = 1e-5 if exact else 2e-3
  if case["diagonal"]:
    check_diagonal(mass.inv, inv, sample, f"{what}: inverse mass", rtol=tol,
                   atol=1e-9)
    root = flat(mass.sqrt.tensor)
    check_diagonal(mass.sqrt, 1 / onp.sqrt(inv), sample,
                   f"{what}: square root of the mass", rtol=max(tol, 1e-4),
                   atol=1e-9)
    require((root > 0).all(), f"{what}: root is not positive", got=root)
  else:
    for q in mass:
      require(int(q.ndim) == 2, f"{what}: not marked as matrix", got=q.ndim)
    close(mass.inv.tensor, inv, rtol=tol, atol=tol * size,
          what=f"{what}: inverse mass")
    root = onp.asarray(mass.sqrt.tensor, dtype=onp.float64)
    got = root @ root.T @ onp.asarray(mass.inv.tensor, dtype=onp.float64)
    close(got, onp.eye(len(inv)), rtol=0, atol=0.05,
          what=f"{what}: root of the mass times inverse mass")
    got = root.T @ onp.asarray(mass.inv.tensor, dtype=onp.float64) @ root
    close(got, onp.eye(len(inv)), rtol=0, atol=0.05,
          what=f"{what}: inverse mass in coordinates of the root")


def check(case):
  spec, burn, steps = case["spec"], case["burn_in"], case["steps"]
  kwargs = {} if case["diagonal"] and case["default"] else {
    "diagonal": case["diagonal"]}
  init, update, get = adaption.mass_matrix(burn_in=burn, **kwargs)
  sample = make_tree(spec, case["seed"])
  d = flat(sample).size
  chains = 2 if case["form"] == "vmap" else 1
  if case["how"] == "none":
    init_cov, cov = None, onp.ones(d)
  else:
    init_cov = make_tree(spec, case["seed"], 9, positive=True)
    init_cov = tree_util.tree_map(
      lambda x: x * F(case.get("cov_scale", 1.0)), init_cov)
    cov = flat(init_cov)
  xs = onp.stack([draws(case, c, d) for c in range(chains)])
  # Further positional arguments of the solvers are ignored
  extra = [make_tree(spec, 3, k) for k in range(case["extra"])]
  state = init(jax.tree_util.tree_map(jnp.asarray, sample), init_cov)
  first = get(state)
  history = []
  if case["form"] in ("scan", "vmap") and steps:
    def run(x):
      def body(s, v):
        s = update(s, v, *extra)
        return s, get(s)
      return jax.lax.scan(body, init(sample, init_cov), x)[1]
    trees_of = tree_util.tree_map(jnp.asarray, split(spec, xs))
    if case["form"] == "vmap":
      out = jax.jit(jax.vmap(run))(trees_of)
    else:
      out = jax.jit(run)(tree_util.tree_map(lambda x: x[0], trees_of))
      out = tree_util.tree_map(lambda x: jnp.asarray(x)[None], out)
    for c in range(chains):
      history.append([tree_util.tree_map(lambda x, c=c, k=k: x[c, k], out)
                      for k in range(steps)])
  else:
    up = jax.jit(lambda s, v: update(s, v, *extra)) \
      if case["form"] == "jit" else lambda s, v: update(s, v, *extra)
    read = jax.jit(get) if case["form"] == "jit" else get
    history.append([])
    for k in range(steps):
      state = up(state, tree_util.tree_map(jnp.asarray,
                                           split(spec, xs[0, k])))
      history[0].append(read(state))
  initial = cov if case["diagonal"] else onp.diag(cov)
  check_mass(first, initial, True, case, sample, "initially")
  interesting = set(range(steps)) if steps < 8 else {
    0, 1, burn - 3, burn - 2, burn - 1, burn, burn + 1, steps - 1}
  for c in range(chains):
    x = flat(split(spec, xs[c]), lead=1)[:burn]
    adapted = None
    if steps >= burn:
      dev = x - x.mean(axis=0)
      adapted = dev.T @ dev / burn
      if case["diagonal"]:
        adapted = onp.diag(adapted)
    for k in sorted(interesting):
      if not 0 <= k < steps:
        continue
      what = f"after {k + 1} of {burn} samples"
      if k + 1 < burn:
        check_mass(history[c][k], initial, True, case, sample, what)
      else:
        check_mass(history[c][k], adapted, False, case, sample, what)
        for a, b in zip(tree_util.tree_leaves(history[c][k]),
                        tree_util.tree_leaves(history[c][burn - 1])):
          require(onp.array_equal(onp.asarray(a), onp.asarray(b)),
                  f"{what}: mass changes after burn-in")
  return info(steps >= burn and d > 1, "diagonal" if case["diagonal"]
              else "full", case["form"], case["how"],
              "adapted" if steps >= burn else "burn-in",
              "frozen" if steps > burn else "no further samples",
              *trees.kinds(spec))


@st.composite
def long_cases(draw):
  burn = draw(st.sampled_from([60, 127, 128, 256, 300, 700]))
  return dict(draw(cases()), burn_in=burn, form=draw(
    st.sampled_from(["scan", "vmap"])), steps=burn + draw(
      st.sampled_from([-1, 0, 1, 40])))


SUBS = [
  Sub("long", long_cases, check, 24, 300, weight=0.5),
  Sub("mass", cases, check, 240, 4000),
]
