"""Results are complete when they are returned."""
import json
import os
import threading
import time

import h5py
import jax
import jax.numpy as jnp
import numpy as onp
import ujson
from hypothesis import strategies as st
from jax import tree_util

from jax_sgmc import io, scheduler

from pbt.core import HarnessError, Sub, info, require, scratch_dir
from pbt.util import rng, same

KINDS = ["memory", "npz", "json", "hdf5"]
LIMIT = 25.0


class Gate:
  """The writer of a chain only passes as often as it is allowed to."""

  def __init__(self):
    self.cond = threading.Condition()
    self.allowed = 0
    self.passed = 0
    self.waiting = False

  def wait(self):
    with self.cond:
      self.waiting = True
      self.cond.notify_all()
      ok = self.cond.wait_for(lambda: self.allowed > self.passed, 120.0)
      self.waiting = False
      self.passed += 1
      self.cond.notify_all()
    if not ok:
      raise HarnessError("writer has not been released")

  def step(self, writer):
    """Lets the writer pass once and waits until it arrives again."""
    with self.cond:
      self.allowed += 1
      self.cond.notify_all()
    self.settle(writer)

  def settle(self, writer):
    with self.cond:
      end = time.time() + LIMIT
      while time.time() < end:
        if not writer.is_alive() or (self.waiting
                                     and self.passed == self.allowed):
          return
        self.cond.wait(0.002)

  def open(self):
    with self.cond:
      self.allowed = 10 ** 9
      self.cond.notify_all()


_LOCAL = threading.local()


def gated(fun):
  def wrapper(*args, **kwargs):
    gate = getattr(_LOCAL, "gate", None)
    if gate is None:
      return fun(*args, **kwargs)
    gate.wait()
    out = fun(*args, **kwargs)
    gate.wait()
    return out
  return wrapper


class gated_files:
  """Slows down writing of files in the threads of the writers."""

  TARGETS = [(onp, "savez"), (onp, "savez_compressed"), (onp, "save"),
             (ujson, "dump"), (ujson, "dumps"), (json, "dump"),
             (json, "dumps")]

  def __enter__(self):
    self.old = [(m, n, getattr(m, n)) for m, n in self.TARGETS]
    for m, n, fun in self.old:
      setattr(m, n, gated(fun))

  def __exit__(self, *_):
    for m, n, fun in self.old:
      setattr(m, n, fun)


def make_collector(kind, base, frequency=0):
  """Returns the collector and the opened file."""
  if kind == "memory":
    return io.MemoryCollector(), None
  if kind == "npz":
    return io.MemoryCollector(os.path.join(base, "out")), None
  if kind == "json":
    return io.JSONCollector(os.path.join(base, "out"),
                            write_frequency=frequency), None
  file = h5py.File(os.path.join(base, "f.hdf5"), "w")
  return io.HDF5Collector(file), file


def register(collector, n):
  return collector.register_chain(
    init_sample={"a": jnp.zeros((), dtype=jnp.int32), "b": jnp.zeros(3)},
    init_checkpoint={},
    static_information=scheduler.static_information(samples_collected=n))


def leaves_of(n, chain, seed):
  r = rng(seed, chain, n)
  return {"a": r.integers(-50, 50, size=(n,)).astype(onp.int32),
          "b": r.normal(size=(n, 3)).astype(onp.float32)}


@st.composite
def cases(draw):
  chains = draw(st.lists(st.integers(0, 5), min_size=1, max_size=3))
  k = len(chains)
  ops = draw(st.lists(st.one_of(
    st.tuples(st.just("step"), st.integers(0, k - 1), st.integers(1, 6)),
    st.tuples(st.just("request"), st.integers(0, k - 1), st.just(1)),
    st.tuples(st.just("request"), st.integers(0, k - 1), st.just(2)),
  ).map(list), min_size=1, max_size=10))
  return {"kind": draw(st.sampled_from(KINDS)), "chains": chains, "ops": ops,
          "order": draw(st.permutations(range(k))),
          "frequency": draw(st.sampled_from([0, 0, 1, 2])),
          "late": draw(st.booleans()), "seed": draw(st.integers(0, 50))}


def snapshot(case, base, file, c, returned):
  """Everything that is known about the results of a chain."""
  kind = case["kind"]
  out = {}
  if kind in ("memory", "npz"):
    out["returned"] = tree_util.tree_map(onp.array, returned)
  if kind == "npz":
    with onp.load(os.path.join(base, "out", f"chain_{c}.npz")) as f:
      out["file"] = {k: f[k] for k in f.files}
  elif kind == "json":
    n = case["counts"][c]
    if n:
      with open(os.path.join(base, "out",
                             f"chain_{c}_iteration_{n}.json")) as f:
        out["file"] = dict(zip(["a", "b"], json.loads(f.read())))
  elif kind == "hdf5":
    out["file"] = {k: file[f"/chain~{c}/{k}"][()] for k in ("a", "b")}
  return out


def check_snapshot(snap, expected, kind, what):
  for part, tree in snap.items():
    require(sorted(tree) == ["a", "b"], f"{what}: leaves of the {part}",
            got=sorted(tree))
    for k, e in expected.items():
      got = onp.array(tree[k], dtype=e.dtype) if kind == "json" else tree[k]
      same(got, e, f"{what}: {part}, leaf {k}")


def check(case):
  kind, counts = case["kind"], case["chains"]
  expected = [leaves_of(n, c, case["seed"]) for c, n in enumerate(counts)]
  pending_requests = early = False
  with scratch_dir() as base, gated_files():
    collector, file = make_collector(kind, base, case["frequency"])
    # Chains are registered immediately or before their first operation
    ids, sizes, writers = {}, {}, {}
    gates = [Gate() for _ in counts]
    errors, readers = [], []

    def write(c):
      _LOCAL.gate = gates[c]
      try:
        for i in range(counts[c]):
          gates[c].wait()
          values = {k: v[i] for k, v in expected[c].items()}
          # Leaves in their order
          collector.save(ids[c], [values["a"], values["b"]])
        gates[c].wait()
        collector.finalize(ids[c])
      except BaseException as exc:  # pylint: disable=broad-except
        errors.append(("writing", c, exc))

    def read(c, entry):
      try:
        returned = collector.finished(ids[c])
        entry["snapshot"] = shot(c, returned)
        entry["returned"] = returned
      except BaseException as exc:  # pylint: disable=broad-except
        entry["error"] = exc
      entry["done"] = True

    def shot(c, returned):
      return snapshot({"kind": kind, "counts": sizes}, base, file, ids[c],
                      returned)

    def start(c):
      if c in ids:
        return
      ids[c] = register(collector, counts[c])
      sizes[ids[c]] = counts[c]
      writers[c] = threading.Thread(target=write, args=(c,), daemon=True)
      writers[c].start()
      gates[c].settle(writers[c])

    def request(c):
      entry = {"chain": c, "done": False}
      t = threading.Thread(target=read, args=(c, entry), daemon=True)
      entry["thread"] = t
      readers.append(entry)
      t.start()
      t.join(0.01)
      return entry

    def inspect(entry, what):
      """Whenever a reader returned its results have to be complete."""
      if not entry["done"]:
        return
      c = entry["chain"]
      if "error" in entry:
        require(False, f"{what}: results are not complete",
                error=repr(entry["error"]), chain=c)
      check_snapshot(entry["snapshot"], expected[c], kind,
                     f"{what}, chain {c} ({kind})")

    try:
      if not case["late"]:
        for c in range(len(counts)):
          start(c)
      for op, c, count in case["ops"]:
        start(c)
        if op == "step":
          for _ in range(count):
            gates[c].step(writers[c])
        else:
          for _ in range(count):
            request(c)
            pending_requests |= writers[c].is_alive()
        for e in readers:
          inspect(e, "requested while writing")
      for c in case["order"]:
        # All other chains which did not finish yet stay blocked
        start(c)
        gates[c].open()
        writers[c].join(LIMIT)
        require(not writers[c].is_alive(), "writing of a chain is blocked",
                chain=c)
        entry = request(c)
        early |= any(w.is_alive() for w in writers.values())
        for e in [e for e in readers if e["chain"] == c] + [entry]:
          e["thread"].join(LIMIT)
          require(e["done"], "results of a finished chain are not returned",
                  chain=c, others_running=[
                    i for i, w in writers.items() if w.is_alive()])
          inspect(e, "requested")
      for e in readers:
        # Nothing of the chain has changed
        c = e["chain"]
        inspect(e, "finally")
        check_snapshot(
          shot(c, e["returned"]), expected[c],
          kind, f"after all chains finished, chain {c} ({kind})")
      require(not errors, "writing failed", errors=repr(errors))
    finally:
      for g in gates:
        g.open()
      for w in writers.values():
        w.join(LIMIT)
      if file is not None:
        file.close()
  return info(pending_requests, kind, f"chains {len(counts)}",
              "requested before writing finished" if pending_requests else
              "requested afterwards",
              "other chains unfinished" if early else "alone",
              "late" if case["late"] else "registered at first",
              "no sample" if 0 in counts else "samples")


# -- through the saving interface, with slow collectors

class Recorder(io.DataCollector):
  """Records the calls."""

  def __init__(self, delays):
    self.calls = []
    self.delays = delays
    self.count = 0

  def register_data_loader(self, data_loader):
    pass

  def register_chain(self, init_sample=None, init_checkpoint=None,
                     static_information=None):
    self.count += 1
    return self.count - 1

  def _slow(self, i):
    time.sleep(self.delays[i % len(self.delays)] * 1e-3)

  def save(self, chain_id, values):
    self._slow(0)
    self.calls.append(("save", int(chain_id),
                       [onp.array(v) for v in values]))

  def finalize(self, chain_id):
    self._slow(1)
    self.calls.append(("finalize", int(chain_id), None))

  def finished(self, chain_id):
    self.calls.append(("finished", int(chain_id), None))
    return f"results of {int(chain_id)}"

  def checkpoint(self, chain_id, state):
    self.calls.append(("checkpoint", int(chain_id), None))

  def resume(self):
    pass


def slow(cls, delays):
  class Slow(cls):
    def save(self, chain_id, values):
      time.sleep(delays[0] * 1e-3)
      return super().save(chain_id, values)
    def finalize(self, chain_id):
      time.sleep(delays[1] * 1e-3)
      return super().finalize(chain_id)
  return Slow


@st.composite
def protocol_cases(draw):
  k = draw(st.integers(1, 3))
  return {"kind": draw(st.sampled_from(["recorder"] + KINDS)),
          "patterns": [draw(st.lists(st.integers(0, 1), min_size=6,
                                     max_size=6)) for _ in range(k)],
          "delays": [draw(st.integers(0, 4)), draw(st.integers(0, 6))],
          "order": draw(st.permutations(range(k))),
          "seed": draw(st.integers(0, 50))}


def check_protocol(case):
  kind, patterns = case["kind"], case["patterns"]
  tables = [leaves_of(6, c, case["seed"]) for c in range(len(patterns))]
  with scratch_dir() as base:
    file = None
    if kind == "recorder":
      collector = Recorder(case["delays"])
    elif kind == "memory":
      collector = slow(io.MemoryCollector, case["delays"])()
    elif kind == "npz":
      collector = slow(io.MemoryCollector, case["delays"])(
        os.path.join(base, "out"))
    elif kind == "json":
      collector = slow(io.JSONCollector, case["delays"])(
        os.path.join(base, "out"))
    else:
      file = h5py.File(os.path.join(base, "f.hdf5"), "w")
      collector = slow(io.HDF5Collector, case["delays"])(file)
    init, save, postprocess = io.save(collector)
    states = [init({"a": jnp.zeros((), dtype=jnp.int32), "b": jnp.zeros(3)},
                   {}, scheduler.static_information(samples_collected=sum(p)))
              for p in patterns]

    @jax.jit
    def run(state, keep, samples):
      return jax.lax.scan(
        lambda s, x: (save(s, x[0], x[1])[0], None), state,
        (keep, samples))[0]
    states = [run(s, jnp.array(p, dtype=bool),
                  tree_util.tree_map(jnp.asarray, t))
              for s, p, t in zip(states, patterns, tables)]
    sub = {"kind": kind, "counts": [sum(p) for p in patterns]}
    done = []
    for c in case["order"]:
      kept = onp.array(patterns[c], dtype=bool)
      expected = {k: v[kept] for k, v in tables[c].items()}
      if kind == "recorder":
        start = len(collector.calls)
        out = postprocess(states[c], None)
        require(out["samples"] == f"results of {c}", "returned results",
                got=out["samples"])
        names = [n for n, i, _ in collector.calls if i == c]
        require(names == ["save"] * int(kept.sum()) + ["finalize",
                                                       "finished"],
                "calls of the collector", got=names, kept=int(kept.sum()))
        require(all(i == c for n, i, _ in collector.calls[start:]
                    if n != "save"), "another chain has been finished")
        saved = [v for n, i, v in collector.calls if n == "save" and i == c]
        for k, (a, b) in enumerate(saved):
          same(a, expected["a"][k], f"sample {k} of chain {c}")
          same(b, expected["b"][k], f"sample {k} of chain {c}")
      else:
        out = postprocess(states[c], None)
        snap = snapshot(sub, base, file, c, out["samples"])
        check_snapshot(snap, expected, kind, f"chain {c} ({kind})")
        done.append((c, out, expected))
      require(int(out["sample_count"]) == kept.sum(), "sample count",
              got=out["sample_count"], expected=int(kept.sum()))
    for c, out, expected in done:
      check_snapshot(snapshot(sub, base, file, c, out["samples"]), expected,
                     kind, f"after all chains finished, chain {c} ({kind})")
    if file is not None:
      file.close()
  return info(any(0 < sum(p) for p in patterns), "saving", kind)


# -- a collector which is used again

@st.composite
def generation_cases(draw):
  return {"kind": draw(st.sampled_from(KINDS)),
          "runs": draw(st.lists(
            st.lists(st.integers(0, 3), min_size=1, max_size=2),
            min_size=2, max_size=4)),
          "frequency": draw(st.sampled_from([0, 0, 1])),
          "seed": draw(st.integers(0, 50))}


def check_generations(case):
  """Results of earlier runs are not touched by later ones."""
  kind = case["kind"]
  with scratch_dir() as base:
    collector, file = make_collector(kind, base, case["frequency"])
    sizes, results = {}, []
    for g, counts in enumerate(case["runs"]):
      ids = [register(collector, n) for n in counts]
      require(not set(ids) & set(sizes), "chain ids are not unique", got=ids)
      values = [leaves_of(n, 10 * g + i, case["seed"])
                for i, n in enumerate(counts)]
      for step in range(max(counts)):
        for c, n, v in zip(ids, counts, values):
          if step < n:
            collector.save(c, [v["a"][step], v["b"][step]])
      for c, n, v in zip(ids, counts, values):
        sizes[c] = n
        collector.finalize(c)
        results.append((c, collector.finished(c), v))
      for c, returned, v in results:
        check_snapshot(
          snapshot({"kind": kind, "counts": sizes}, base, file, c, returned),
          v, kind, f"after run {g}, chain {c} ({kind})")
      # Results can be requested again
      for c, _, v in results:
        check_snapshot(
          snapshot({"kind": kind, "counts": sizes}, base, file, c,
                   collector.finished(c)),
          v, kind, f"requested again after run {g}, chain {c} ({kind})")
    if file is not None:
      file.close()
  same_size = [n for run in case["runs"] for n in run]
  return info(len(set(same_size)) < len(same_size), kind,
              f"runs {len(case['runs'])}")


# -- results which take their time

@st.composite
def patience_cases(draw):
  return {"chains": draw(st.lists(st.integers(1, 3), min_size=1, max_size=2)),
          "hold": draw(st.sampled_from([12.5, 6.5, 2.5, 0.5])),
          "at": draw(st.sampled_from(["finalize", "save"])),
          "seed": draw(st.integers(0, 50))}


def check_patience(case):
  """A request waits until the results are complete."""
  counts = case["chains"]
  expected = [leaves_of(n, c, case["seed"]) for c, n in enumerate(counts)]
  sizes = dict(enumerate(counts))
  last = case["at"] == "save"

  class Run:
    """One collector with requested, unfinished chains."""

    def __init__(self, kind, base):
      self.kind, self.base = kind, os.path.join(base, kind)
      os.makedirs(self.base)
      self.collector, self.file = make_collector(kind, self.base)
      self.ids = [register(self.collector, n) for n in counts]
      self.snaps, self.threads = {}, []
      for c, n in enumerate(counts):
        self.threads.append(threading.Thread(target=self.read, args=(c,),
                                             daemon=True))
        self.threads[-1].start()
        self.save(c, 0, n - last)

    def read(self, c):
      try:
        out = self.collector.finished(self.ids[c])
        self.snaps[c] = snapshot({"kind": self.kind, "counts": sizes},
                                 self.base, self.file, self.ids[c], out)
      except BaseException as exc:  # pylint: disable=broad-except
        self.snaps[c] = exc

    def save(self, c, start, stop):
      for i in range(start, stop):
        self.collector.save(self.ids[c], [expected[c]["a"][i],
                                          expected[c]["b"][i]])

    def finish(self, early):
      for c, n in enumerate(counts):
        self.save(c, n - last, n)
        self.collector.finalize(self.ids[c])
      for c, t in enumerate(self.threads):
        t.join(LIMIT)
        what = f"chain {c} ({self.kind})"
        require(c in self.snaps,
                f"results of a finished chain are not returned, {what}")
        got = self.snaps[c]
        require(c not in early, "results have been returned before the chain "
                f"has been finished, {what}", got=repr(got))
        require(not isinstance(got, BaseException),
                f"request failed, {what}", error=repr(got))
        check_snapshot(got, expected[c], self.kind, what)
      if self.file is not None:
        self.file.close()

  with scratch_dir() as base:
    runs = [Run(kind, base) for kind in KINDS]
    time.sleep(case["hold"])
    early = [sorted(r.snaps) for r in runs]
    for r, e in zip(runs, early):
      r.finish(e)
  return info(case["hold"] > 2, f"{case['hold']} s", case["at"])


SUBS = [
  Sub("patience", patience_cases, check_patience, 16, 64, weight=1),
  Sub("schedule", cases, check, 800, 8000, weight=2),
  Sub("protocol", protocol_cases, check_protocol, 160, 1600),
  Sub("generations", generation_cases, check_generations, 300, 3000),
]
