"""Integrators on problems with closed-form gradients.

The potential records each position and each batch for which it is evaluated in
the model state. Hence, momenta and noise can be reconstructed from the recorded
trajectory without knowing how the random numbers are generated.
"""
import jax
import jax.numpy as jnp
import numpy as onp
from hypothesis import strategies as st
from jax import tree_util
from scipy import stats

from jax_sgmc import data as sgmc_data
from jax_sgmc import scheduler
from jax_sgmc.adaption import MassMatrix
from jax_sgmc.data.numpy_loader import DeviceNumpyDataLoader, NumpyDataLoader
from jax_sgmc.util import Tensor

from pbt import trees
from pbt.core import require
from pbt.util import X64, F, JF, rng

SHAPES = [[], [1], [2], [1, 2], [2, 1, 1]]
LEAF = st.sampled_from(SHAPES)


def size_of(spec):
  if spec[0] == "leaf":
    return int(onp.prod(spec[1]))
  if spec[0] == "none":
    return 0
  return sum(size_of(c[1] if spec[0] in ("dict", "named") else c)
             for c in spec[1])


# The model state scales the likelihood
GAIN = st.sampled_from([1.0, 0.5, 1.5])


@st.composite
def problems(draw, max_n=6, gain=False):
  n = draw(st.integers(1, max_n))
  spec = trees.specs(LEAF, max_leaves=3).filter(
    lambda s: 0 < trees.n_leaves(s) <= 4 and size_of(s) <= 5)
  if draw(st.integers(0, 4)) == 4:
    # The sample itself is an array
    spec = st.sampled_from([["leaf", [2]], ["leaf", [3]], ["leaf", [2, 2]],
                            ["leaf", [1]], ["leaf", []]])
  return {"spec": draw(spec),
          "kind": draw(st.sampled_from(["quadratic", "logcosh"])),
          "n": n, "mb": draw(st.integers(1, min(n, 3))),
          "tau": draw(st.sampled_from([0.0, 0.5, 1.0])),
          "gain": draw(GAIN) if gain else 1.0,
          "seed": draw(st.integers(0, 999))}


WIDE = st.sampled_from([[4], [2, 3], [5], [], [2, 1, 2], [3, 2]])


@st.composite
def wide_problems(draw):
  """More parameters, observations and larger batches."""
  n = draw(st.sampled_from([11, 24, 40]))
  spec = trees.specs(WIDE, max_leaves=4).filter(
    lambda s: 0 < trees.n_leaves(s) <= 5 and 5 <= size_of(s) <= 14)
  if draw(st.integers(0, 3)) == 3:
    spec = st.sampled_from([["leaf", [12]], ["leaf", [3, 4]]])
  return {"spec": draw(spec),
          "kind": draw(st.sampled_from(["quadratic", "logcosh"])),
          "n": n, "mb": draw(st.sampled_from([9, 10, 1, n - 1, n])),
          "tau": draw(st.sampled_from([0.0, 0.5, 1.0])),
          "gain": draw(GAIN),
          # Keeps the curvature of the potential
          "scale": float(onp.round(1.5 / onp.sqrt(n), 3)),
          "seed": draw(st.integers(0, 999))}


@st.composite
def wide(draw, cases, frictions=None):
  """Wide problems and many steps for the cases of an integrator."""
  case = dict(draw(cases), problem=draw(wide_problems()), chains=512,
              steps=draw(st.sampled_from([13, 9, 2, 20])))
  case["calls"] = [[draw(st.sampled_from([0.1, 0.01, 0.25])), t]
                   for _, t in case["calls"]][:2]
  if case.get("noise", "").startswith("fisher"):
    case["problem"]["mb"] = max(2, case["problem"]["mb"])
  if frictions is not None:
    case["friction"] = draw(st.sampled_from(list(frictions)))
  return case


class Problem:
  """Potential N/n sum phi(x_i theta - y_i) + tau/2 theta^2."""

  def __init__(self, case):
    self.case = case
    self.spec = case["spec"]
    self.n, self.mb = case["n"], case["mb"]
    self.gain = case.get("gain", 1.0)
    example = trees.build(self.spec, lambda s, i: onp.zeros(s, F))
    self.leaves, self.treedef = tree_util.tree_flatten(example)
    self.d = sum(l.size for l in self.leaves)
    r = rng(case["seed"], 51)
    self.x = (r.uniform(-1, 1, size=(self.n, self.d)) * case.get("scale", 1.0)
              ).astype(F)
    self.y = r.normal(size=(self.n,)).astype(F)

  # Conversions, vectors follow the flattening order of the tree

  def tree(self, vec):
    out, pos = [], 0
    for l in self.leaves:
      out.append(vec[..., pos:pos + l.size].reshape(
        vec.shape[:-1] + l.shape))
      pos += l.size
    return tree_util.tree_unflatten(self.treedef, out)

  def vec(self, tree, lib=onp):
    td = tree_util.tree_structure(tree)
    require(td == self.treedef, "structure of the sample", got=td,
            expected=self.treedef)
    out = []
    for l, ref in zip(tree_util.tree_leaves(tree), self.leaves):
      lead = l.ndim - ref.ndim
      require(l.shape[lead:] == ref.shape, "shape of a leaf", got=l.shape,
              expected=ref.shape)
      if lib is onp:
        l = onp.asarray(l, dtype=onp.float64)
      out.append(lib.reshape(l, l.shape[:lead] + (-1,)))
    return lib.concatenate(out, axis=-1)

  # Data

  def loader(self, host=False):
    return (NumpyDataLoader if host else DeviceNumpyDataLoader)(
      x=self.x, y=self.y, row=onp.arange(self.n, dtype=onp.int32))

  def batch_fn(self, host=False, cache=2):
    return sgmc_data.random_reference_data(self.loader(host), cache if host else 1, self.mb)

  # Potential

  def _phi(self, z):
    if self.case["kind"] == "quadratic":
      return 0.5 * z ** 2
    return jnp.logaddexp(z, -z)

  def log_state(self, capacity):
    return {"count": jnp.int32(0), "gain": JF(self.gain),
            "x": jnp.zeros((capacity, self.d)),
            "rows": -jnp.ones((capacity, self.mb), dtype=jnp.int32)}

  def potential(self, sample, mini_batch, state=None, mask=None,
                likelihoods=False):
    """Stochastic potential recording its evaluations."""
    batch, mb_info = mini_batch
    batch = jax.lax.stop_gradient(batch)
    theta = self.vec(sample, jnp)
    lks = -self._phi(batch["x"] @ theta - batch["y"])
    if state is not None:
      lks = lks * jax.lax.stop_gradient(state["gain"])
    prior = -0.5 * self.case["tau"] * jnp.sum(theta ** 2)
    scale = mb_info.observation_count / mb_info.batch_size
    value = -scale * jnp.sum(lks) - prior
    if state is not None:
      i = state["count"]
      state = {**state, "count": i + 1,
               "x": state["x"].at[i].set(jax.lax.stop_gradient(theta)),
               "rows": state["rows"].at[i].set(batch["row"])}
    if likelihoods:
      return value, (lks, state)
    return value, state

  def full_np(self, theta):
    """Potential of the complete dataset."""
    rows = onp.broadcast_to(onp.arange(self.n), theta.shape[:-1] + (self.n,))
    return self.evaluate(theta, rows)[0]

  def evaluate(self, theta, rows):
    """Potential, gradient and log-likelihoods in double precision."""
    theta = onp.asarray(theta, dtype=onp.float64)
    x = self.x.astype(onp.float64)[rows]
    y = self.y.astype(onp.float64)[rows]
    z = onp.einsum("...nd,...d->...n", x, theta) - y
    if self.case["kind"] == "quadratic":
      phi, dphi = 0.5 * z ** 2, z
    else:
      phi, dphi = onp.logaddexp(z, -z), onp.tanh(z)
    phi, dphi = self.gain * phi, self.gain * dphi
    scale = self.n / rows.shape[-1]
    tau = self.case["tau"]
    value = scale * phi.sum(-1) + 0.5 * tau * (theta ** 2).sum(-1)
    grad = scale * onp.einsum("...nd,...n->...d", x, dphi) + tau * theta
    return value, grad, -phi

  def likelihood_gradients(self, theta, rows):
    """Gradient of each log-likelihood, shape (..., batch, d)."""
    theta = onp.asarray(theta, dtype=onp.float64)
    x = self.x.astype(onp.float64)[rows]
    z = onp.einsum("...nd,...d->...n", x, theta) - self.y.astype(
      onp.float64)[rows]
    dphi = z if self.case["kind"] == "quadratic" else onp.tanh(z)
    return -self.gain * dphi[..., None] * x

  def starts(self, chains, scale=1.0):
    return (rng(self.case["seed"], 52).normal(size=(chains, self.d)) * scale
            ).astype(F)

  def rows_stream(self, get, data_state, count):
    """Rows of the next batches."""
    def body(s, _):
      s, (batch, _) = get(s, information=True)
      return s, batch["row"]
    return jax.lax.scan(body, data_state, None, length=count)[1]


def parameters(step_size, temperature=1.0):
  return scheduler.schedule(
    step_size=JF(step_size), temperature=JF(temperature),
    burn_in=JF(1.0), accept=jnp.bool_(True))


def keys(seed, chains):
  return jax.random.split(jax.random.PRNGKey(seed), chains)


# -- masses

@st.composite
def masses(draw, full=True):
  """Mass: default, constant or adapted, diagonal or full."""
  kinds = ["default", "const", "adapted"] + (["full"] if full else [])
  return {"kind": draw(st.sampled_from(kinds)),
          "seed": draw(st.integers(0, 99))}


def diagonal_mass(spec, d):
  if spec["kind"] == "default":
    return onp.ones(d)
  return rng(spec["seed"], 61).uniform(0.4, 2.5, size=d).astype(
    F).astype(onp.float64)


def mass_matrix(spec, d):
  """Mass as a matrix in double precision."""
  m = onp.diag(diagonal_mass(spec, d))
  if spec["kind"] == "full":
    r = rng(spec["seed"], 62)
    # Well conditioned for each dimension
    size = 0.4 * min(1.0, onp.sqrt(5 / d))
    a = onp.eye(d) + size * r.uniform(-1, 1, size=(d, d))
    m = a @ m @ a.T
  return m


def symmetric_root(m):
  w, v = onp.linalg.eigh(m)
  return (v * onp.sqrt(w)) @ v.T



class Mass:
  """Mass in the form of the integrator and as matrix."""

  def __init__(self, spec, problem):
    d = problem.d
    self.matrix = mass_matrix(spec, d)
    self.inv = onp.linalg.inv(self.matrix)
    self.root = symmetric_root(self.matrix)
    diag = onp.asarray(diagonal_mass(spec, d), dtype=F)
    kind = spec["kind"]
    self.const = problem.tree(jnp.asarray(diag)) if kind == "const" else None
    if kind == "adapted":
      tree = lambda v: problem.tree(jnp.asarray(v, dtype=JF))
      self.adapted = MassMatrix(
        inv=Tensor(ndim=1, tensor=tree(1 / diag)),
        sqrt=Tensor(ndim=1, tensor=tree(onp.sqrt(diag))))
      # The adapted mass replaces a constant mass
      if spec["seed"] % 2:
        self.const = problem.tree(jnp.full(d, 7.0))
    elif kind == "full":
      self.adapted = MassMatrix(
        inv=Tensor(ndim=2, tensor=jnp.asarray(self.inv, dtype=JF)),
        sqrt=Tensor(ndim=2, tensor=jnp.asarray(self.root,
                                               dtype=JF)))
    else:
      self.adapted = None

  def kinetic(self, p):
    return 0.5 * onp.einsum("...i,ij,...j->...", p, self.inv, p)

  def velocity(self, p):
    return p @ self.inv

  def momentum(self, v):
    return v @ self.matrix

  def whiten(self, p):
    """Standard normal if p has the covariance of the mass."""
    return p @ onp.linalg.inv(self.root)


def schedule_of(calls):
  eps, t = onp.asarray(calls, dtype=F).T
  return jnp.asarray(eps), jnp.asarray(t)


def nth(trees_, i):
  return tree_util.tree_map(lambda x: onp.asarray(x)[:, i], trees_)


# -- statistics

BOUND = 6.5


def check_normal(z, what, details=None):
  """Rows are independent standard normal vectors."""
  z = onp.asarray(z, dtype=onp.float64)
  k, m = z.shape
  require(onp.isfinite(z).all(), f"{what}: not finite")
  if m == 0:
    return
  # Many pairs of columns and few chains
  limit = (BOUND if m <= 64 else 8.0) / onp.sqrt(k)
  mean = z.mean(axis=0)
  require((onp.abs(mean) <= limit).all(), f"{what}: mean", got=mean,
          limit=limit, details=details)
  cov = z.T @ z / k
  dev = onp.abs(cov - onp.eye(m))
  bound = limit * (1 + 0.42 * onp.eye(m))
  require((dev <= bound).all(), f"{what}: covariance of the standardised "
          "noise", worst=cov[onp.unravel_index(dev.argmax(), dev.shape)],
          index=onp.unravel_index((dev / bound).argmax(), dev.shape),
          limit=limit, variances=onp.diag(cov)[:8], details=details)
  cross = onp.abs((z[1:].T @ z[:-1]) / (k - 1))
  require((cross <= limit * 1.01).all(), f"{what}: chains are correlated",
          worst=cross.max(), limit=limit)
  p = min(stats.kstest(z[:, j], "norm").pvalue for j in range(m))
  require(p > 1e-10, f"{what}: distribution is not normal", p=p)
  if X64:
    # Numbers drawn in single precision are multiples of 2^-24 of their scale
    rounded = (onp.abs(z - z.astype(onp.float32)) < 1e-11).mean(axis=0)
    require((rounded < 0.5).all(), f"{what}: drawn in single precision",
            rounded=rounded)
