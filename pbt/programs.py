"""Small complete programs, executed in processes of their own.

Nothing is imported from jax or jax_sgmc before it is required, such that
packages can be made unavailable.
"""
import hashlib
import json
import os
import sys
import tempfile


def _data(p):
  import numpy as onp
  r = onp.random.Generator(onp.random.PCG64(p["seed"]))
  n = p["n"]
  return {"x": r.normal(size=(n, 2)).astype(onp.float32),
          "y": r.normal(size=(n,)).astype(onp.float32),
          "i": onp.arange(n, dtype=onp.int32)}


def _loader(p):
  from jax_sgmc.data.numpy_loader import DeviceNumpyDataLoader, NumpyDataLoader
  return (NumpyDataLoader if p["host"] else DeviceNumpyDataLoader)(**_data(p))


def _potentials():
  import jax.numpy as jnp
  from jax_sgmc import potential
  likelihood = lambda s, o: -0.5 * (jnp.dot(o["x"], s["w"]) + s["b"]
                                    - o["y"]) ** 2
  prior = lambda s: -0.5 * jnp.sum(s["w"] ** 2) - 0.1 * s["b"] ** 2
  return (potential.minibatch_potential(prior, likelihood, strategy="vmap"),
          potential.full_potential(prior, likelihood, strategy="vmap"))


def _start(c):
  import jax.numpy as jnp
  return {"w": jnp.array([0.3 + c, -0.2]), "b": jnp.float32(0.1 * c)}


def solver(p):
  """Ready-to-use solver."""
  from jax_sgmc import alias
  kind = p["kind"]
  loader = _loader(p)
  small, full = _potentials()
  kw = {"cache_size": p["cache"] if p["host"] else 1, "batch_size": p["mb"],
        "first_step_size": 0.05, "last_step_size": 0.01,
        "burn_in": p["burn_in"], "accepted_samples": p["accepted"],
        "save_to_numpy": p["numpy"], "progress_bar": False}
  starts = [_start(c) for c in range(p["chains"])]
  if kind == "re_sgld":
    starts = [(s, _start(7)) for s in starts]
  if kind == "rms":
    kw["rms_prop"] = True
  fun = getattr(alias, "sgld" if kind == "rms" else kind)
  args = (small, full) if kind in ("amagold", "sggmc") else (small,)
  return fun(*args, loader, **kw)(*starts, iterations=p["its"])


def stream(p):
  """Random batches of several chains."""
  import jax
  from jax_sgmc import data
  init, get_batch, _ = data.random_reference_data(
    _loader(p), p["cache"] if p["host"] else 1, p["mb"])
  get = lambda s: get_batch(s, information=True)
  if p["jit"]:
    get = jax.jit(get)
  kw = {}
  if p["host"]:
    kw = {"shuffle": p["mode"] != "draw", "in_epochs": p["mode"] == "epochs"}
  out = []
  states = [init(**kw) for _ in range(p["chains"])]
  for _ in range(p["its"]):
    for c, state in enumerate(states):
      states[c], (batch, information) = get(state)
      out.append((batch, information.mask))
  return out


def full(p):
  """Maps over all data."""
  import jax.numpy as jnp
  from jax_sgmc import data

  def fun(batch, mask, state):
    values = jnp.where(mask, batch["x"][:, 0] * (1 + state), 0.0)
    return values, 0.5 * state + jnp.sum(values)
  mapper, _ = data.full_data_mapper(
    _loader(p), p["cache"] if p["host"] else 1, p["mb"])
  out, carry = [], jnp.float32(0.0)
  for _ in range(p["chains"]):
    values, carry = mapper(fun, carry, masking=True)
    out.append((values, carry))
  _, full_potential = _potentials()
  init, full_map, _ = data.full_reference_data(
    _loader(p), p["cache"] if p["host"] else 1, p["mb"])
  out.append(full_potential(_start(0), init(), full_map)[0])
  return out


def thinning(p):
  """Iterations selected with the default key."""
  from jax_sgmc import scheduler
  step = scheduler.polynomial_step_size_first_last(0.1, 0.01)
  burn_in = scheduler.initial_burn_in(p["burn_in"])
  init, nxt, get = scheduler.init_scheduler(
    step_size=step, burn_in=burn_in, thinning=scheduler.random_thinning(
      step, burn_in, p["accepted"]), progress_bar=False)
  out = []
  for _ in range(p["chains"]):
    state, _ = init(p["its"])
    for _ in range(p["its"]):
      out.append(tuple(get(state)))
      state = nxt(state)
  return out


def _collect(p, collector):
  from jax_sgmc import data, integrator, io, scheduler
  from jax_sgmc import solver as solvers
  small, _ = _potentials()
  random = data.random_reference_data(
    _loader(p), p["cache"] if p["host"] else 1, p["mb"])
  sampler = solvers.sgmc(integrator.langevin_diffusion(small, random))
  step = scheduler.polynomial_step_size_first_last(0.05, 0.01)
  burn_in = scheduler.initial_burn_in(p["burn_in"])
  schedule = scheduler.init_scheduler(
    step_size=step, burn_in=burn_in, thinning=scheduler.random_thinning(
      step, burn_in, p["accepted"]), progress_bar=False)
  return solvers.mcmc(sampler, schedule, saving=io.save(collector))(
    *[sampler[0](_start(c)) for c in range(p["chains"])],
    iterations=p["its"])


def npz(p):
  """Samples in npz files."""
  import numpy as onp
  from jax_sgmc import io
  with tempfile.TemporaryDirectory(prefix="pbt_") as path:
    out = _collect(p, io.MemoryCollector(os.path.join(path, "out")))
    files = []
    for c in range(p["chains"]):
      with onp.load(os.path.join(path, "out", f"chain_{c}.npz")) as f:
        files.append({k: f[k] for k in sorted(f)})
  return out, files


def json_files(p):
  """Samples in json files."""
  import numpy as onp
  from jax_sgmc import io
  with tempfile.TemporaryDirectory(prefix="pbt_") as path:
    _collect(p, io.JSONCollector(path))
    files = []
    for name in sorted(os.listdir(path)):
      with open(os.path.join(path, name)) as f:
        files.append([name, json.load(f)])
  return onp.frombuffer(json.dumps(files, sort_keys=True).encode(), onp.uint8)


def hdf5(p):
  """Samples in hdf5 files, used as reference data."""
  from jax_sgmc import data, io
  if sys.modules.get("h5py", io) is None:
    try:
      io.HDF5Collector(None)
      return "accepted by the collector"
    except (AssertionError, ImportError):
      pass
  from jax_sgmc.data.hdf5_loader import HDF5Loader
  if sys.modules.get("h5py", io) is None:
    return HDF5Loader("missing.h5", sample=_start(0))
  import h5py
  with tempfile.TemporaryDirectory(prefix="pbt_") as path:
    with h5py.File(os.path.join(path, "file.h5"), "w") as f:
      out = [_collect(p, io.HDF5Collector(f))]
      for c in range(p["chains"]):
        loader = HDF5Loader(f, subdir=f"/chain~{c}/variables",
                            sample=_start(0))
        init, get, _ = data.random_reference_data(loader, p["cache"], 2)
        state = init()
        for _ in range(3):
          state, batch = get(state)
          out.append(batch)
  return out


def tensorflow(p):
  """Batches of a dataset which is not shuffled (buffer of one element)."""
  from jax_sgmc import data
  from jax_sgmc.data.tensorflow_loader import TensorflowDataLoader
  if None in (sys.modules.get("tensorflow", data),
              sys.modules.get("tensorflow_datasets", data)):
    return TensorflowDataLoader(None)
  import tensorflow as tf
  loader = TensorflowDataLoader(
    tf.data.Dataset.from_tensor_slices(_data(p)), shuffle_cache=1,
    exclude_keys=["y"])
  init, get, _ = data.random_reference_data(loader, p["cache"], p["mb"])
  state = init()
  out = []
  for _ in range(p["its"]):
    state, batch = get(state)
    out.append(batch)
  return out


def dictionary(p):
  """Conversion of trees."""
  import collections
  from jax_sgmc import io
  node = collections.namedtuple("Node", ["b", "a"])
  tree = {"z": [_data(p), None, ()], "a": node(1.0, {"c": (2.0, 3.0)})}
  as_dict = io.pytree_to_dict(tree)
  return (as_dict, io.dict_to_pytree(as_dict, tree),
          [str(k) for k in io.pytree_dict_keys(tree)])


PROGRAMS = {f.__name__: f for f in (
  solver, stream, full, thinning, npz, json_files, hdf5, tensorflow,
  dictionary)}
NEEDS = {"json_files": {"ujson"}, "hdf5": {"h5py"},
         "tensorflow": {"tensorflow", "tensorflow_datasets"}}
MODULES = ["adaption", "alias", "data", "data.core", "data.numpy_loader",
           "integrator", "io", "potential", "scheduler", "solver", "util",
           "util.tree_util", "util.list_map", "util.uuid"]


def digest(result):
  """Fingerprint of a result and some of its values."""
  import jax
  import numpy as onp
  leaves, treedef = jax.tree_util.tree_flatten(
    result, is_leaf=lambda x: x is None)
  h = hashlib.sha256(str(treedef).encode())
  preview = []
  for l in leaves:
    if l is None or isinstance(l, str):
      h.update(repr(l).encode())
      continue
    a = onp.asarray(l)
    h.update(f"{a.dtype}{a.shape}".encode())
    h.update(onp.ascontiguousarray(a).tobytes())
    if a.size and len(preview) < 400:
      preview.append(repr(a.ravel()[-1].item()))
  return {"digest": h.hexdigest(), "preview": preview,
          "leaves": len(leaves)}


def main():
  """Executes the programs read from the standard input."""
  job = json.load(sys.stdin)
  out = os.fdopen(os.dup(1), "w")
  os.dup2(2, 1)
  for name in job.get("block", []):
    sys.modules[name] = None
  report = {"imports": {}, "prelude": [], "results": []}
  try:
    for name in job.get("imports", []):
      try:
        __import__(f"jax_sgmc.{name}")
        report["imports"][name] = None
      except Exception as exc:  # pylint: disable=broad-except
        report["imports"][name] = f"{type(exc).__name__}: {exc}"
    if job.get("numpy") is not None:
      import random
      import numpy as onp
      onp.random.seed(job["numpy"])
      random.seed(job["numpy"])
    for key in ("prelude", "programs"):
      for p in job.get(key, []):
        try:
          result = digest(PROGRAMS[p["program"]](p))
        except Exception as exc:  # pylint: disable=broad-except
          import traceback
          result = {"error": f"{type(exc).__name__}: {exc}"[:600],
                    "trace": traceback.format_exc()[-1500:]}
        report["prelude" if key == "prelude" else "results"].append(result)
  finally:
    json.dump(report, out)
    out.flush()
    os._exit(0)  # pylint: disable=protected-access
