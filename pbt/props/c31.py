"""Runs are determined by their arguments."""
import json
import os
import subprocess
import sys

from hypothesis import strategies as st

from pbt import core, programs
from pbt.core import Sub, info, require

KINDS = ["solver", "stream", "stream", "full", "thinning", "npz", "json_files",
         "hdf5", "dictionary"]
SOLVERS = ["sgld", "sghmc", "amagold", "re_sgld", "rms", "sggmc", "obabo"]
LIMIT = 300


@st.composite
def program(draw, kinds=tuple(KINDS)):
  n = draw(st.integers(4, 11))
  its = draw(st.integers(4, 9))
  burn_in = draw(st.integers(0, its - 3))
  mb = draw(st.integers(1, 4))
  return {"program": draw(st.sampled_from(kinds)),
          "kind": draw(st.sampled_from(SOLVERS)),
          "mode": draw(st.sampled_from(["shuffle", "draw", "epochs"])),
          "host": draw(st.sampled_from([True, False, True])),
          "jit": draw(st.booleans()), "numpy": draw(st.booleans()), "n": n,
          "mb": mb, "cache": draw(st.integers(1, 4)), "its": its,
          "burn_in": burn_in,
          "accepted": draw(st.integers(2, its - burn_in)),
          "chains": draw(st.integers(1, 2)), "seed": draw(st.integers(0, 99))}


@st.composite
def cases(draw):
  main = draw(st.lists(program(), min_size=1, max_size=3))
  prelude = draw(st.lists(program(), max_size=2))
  if draw(st.booleans()):
    # The same program before
    prelude.append(main[draw(st.integers(0, len(main) - 1))])
  if draw(st.booleans()):
    # A program which only differs in one argument
    other = dict(draw(st.sampled_from(main)))
    key = draw(st.sampled_from(["seed", "cache", "n", "chains", "mode",
                                "host", "its"]))
    change = {"seed": other["seed"] + 1, "cache": other["cache"] % 4 + 1,
              "n": other["n"] + 1, "chains": 3 - other["chains"],
              "host": not other["host"], "its": other["its"] + 1,
              "mode": {"shuffle": "epochs", "epochs": "draw",
                       "draw": "shuffle"}[other["mode"]]}
    prelude.append(dict(other, **{key: change[key]}))
  return {"main": main, "prelude": prelude,
          "order": draw(st.permutations(range(len(main)))),
          "hash": draw(st.integers(1, 10 ** 6)),
          "numpy": draw(st.integers(0, 10 ** 6))}


def start(job, cwd, **env):
  """Executes programs in a process of their own."""
  code = (f"import sys; sys.path[:0] = [{core.REPO!r}, {core.VERIF!r}]; "
          "from pbt import programs; programs.main()")
  env = dict(os.environ, **env)
  env["TF_NUM_INTRAOP_THREADS"] = env["TF_NUM_INTEROP_THREADS"] = "1"
  log = open(os.path.join(cwd, "log"), "wb")
  proc = subprocess.Popen(
    [sys.executable, "-c", code], env=env, cwd=cwd, stdin=subprocess.PIPE,
    stdout=subprocess.PIPE, stderr=log)
  proc.stdin.write(json.dumps(job).encode())
  proc.stdin.close()
  proc.stdin = None
  return proc


def finish(proc, cwd):
  try:
    out, _ = proc.communicate(timeout=LIMIT)
    report = json.loads(out)
    require(isinstance(report, dict), "report")
    return report
  except (subprocess.TimeoutExpired, ValueError) as exc:
    with open(os.path.join(cwd, "log"), errors="replace") as f:
      text = f.read()[-3000:]
    raise core.HarnessError(f"process of the programs: {exc} {text}") from exc
  finally:
    proc.kill()
    proc.wait()


def together(jobs):
  """Reports of programs executed at the same time."""
  with core.scratch_dir() as path:
    procs = []
    try:
      for i, (job, env) in enumerate(jobs):
        cwd = os.path.join(path, f"process {i}")
        os.mkdir(cwd)
        procs.append((start(job, cwd, **env), cwd))
      return [finish(*p) for p in procs]
    finally:
      for proc, _ in procs:
        if proc.poll() is None:
          proc.kill()
          proc.wait()


def equal(a, b, what):
  require("error" not in a and "error" not in b, f"{what} failed",
          alone=a.get("error"), afterwards=b.get("error"),
          trace=(a.get("trace") or b.get("trace") or "")[-300:])
  require(a["leaves"] == b["leaves"], f"{what}: number of results",
          alone=a["leaves"], afterwards=b["leaves"])
  if a["digest"] != b["digest"]:
    i = next((i for i, (x, y) in enumerate(zip(a["preview"], b["preview"]))
              if x != y), None)
    require(False, f"{what}: results differ",
            first=None if i is None else (i, a["preview"][i],
                                          b["preview"][i]))


def check(case):
  main = case["main"]
  shuffled = [main[i] for i in case["order"]]
  alone, later = together([
    ({"programs": main}, {"PYTHONHASHSEED": "0"}),
    ({"programs": shuffled, "prelude": case["prelude"],
      "numpy": case["numpy"]}, {"PYTHONHASHSEED": str(case["hash"])})])
  for position, i in enumerate(case["order"]):
    equal(alone["results"][i], later["results"][position],
          f"program {main[i]['program']}")
  return info(any(r["leaves"] > 1 for r in alone["results"]),
              *sorted({p["program"] for p in main}),
              "with prelude" if case["prelude"] else "without prelude")


SUBS = [
  Sub("reproducible", cases, check, 72, 800),
]
