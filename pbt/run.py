"""Runs the checks of one property.

  python -m pbt.run C01 [--tier quick|thorough] [--replay FILE]

The parent distributes the cases of all sub-checks to worker processes, each of
which drives the sub-checks with hypothesis. The outcome of a run is a pure
function of the code in /repo and of VERIF_SEED.

Exit codes: 0 property held, 1 property violated, 2 error of the harness.
"""
import argparse
import hashlib
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from pbt import core
from pbt.settings import SETTINGS

QUICK_BUDGET = 75.0      # seconds per worker, all sub-checks together
THOROUGH_BUDGET = 600.0
HANG_S = 150.0           # a single case without any progress
# Development (tools/automut.py): stop at the first failure, do not shrink
FAST = os.environ.get("PBT_FAST") == "1"


# ----------------------------------------------------------------- worker ---

def _repo_frames(tb):
  frames = traceback.extract_tb(tb)
  return [f for f in frames if f.filename.startswith(core.REPO + "/")]


def _describe(exc):
  """Message and location of a failed case."""
  frames = _repo_frames(exc.__traceback__)
  where = ""
  if frames and not isinstance(exc, core.Violation):
    f = frames[-1]
    where = f" (in {os.path.relpath(f.filename, core.REPO)}:{f.lineno} {f.name})"
  text = str(exc).strip()
  if len(text) > 1500:
    text = text[:1500] + "..."
  if isinstance(exc, core.Violation):
    return text
  return f"{type(exc).__name__}{where}: {text}"


def _is_harness_error(exc):
  if isinstance(exc, (core.HarnessError, MemoryError)):
    return True
  if isinstance(exc, OSError) and exc.errno in (12, 23, 24, 28):
    return True
  return False


class _Abort(KeyboardInterrupt):
  """Ends the search, hypothesis lets it pass."""


def load_property(prop):
  return importlib.import_module(f"pbt.props.{prop.lower()}")


def worker_main(argv):
  job = json.loads(argv[0])
  out_dir = job["out"]
  index = job["worker"]
  core.add_hypothesis_path(out_dir)
  result_file = os.path.join(out_dir, f"w{index}.json")
  current_file = os.path.join(out_dir, f"w{index}.current")
  results = {"subs": {}, "error": None, "violation": None}

  def note(sub, case):
    with open(current_file, "w") as f:
      json.dump({"sub": sub, "case": case, "t": time.time()}, f)

  try:
    note("import", None)
    try:
      mod = load_property(job["property"])
    except ImportError as exc:
      if _repo_frames(exc.__traceback__) or "jax_sgmc" in str(exc):
        results["violation"] = {
          "sub": "import", "case": None, "message": _describe(exc)}
        return _finish(result_file, results)
      raise
    if job.get("replay") is not None:
      sub = {s.name: s for s in mod.SUBS}[job["replay"]["sub"]]
      note(sub.name, job["replay"]["case"])
      try:
        sub.check(job["replay"]["case"])
      except Exception as exc:  # pylint: disable=broad-except
        if _is_harness_error(exc):
          raise
        results["violation"] = {
          "sub": sub.name, "case": job["replay"]["case"],
          "message": _describe(exc),
          "trace": traceback.format_exc()[-4000:]}
      return _finish(result_file, results)

    deadline = time.time() + job["budget"]
    plan = [s for s in mod.SUBS if not job["only"] or s.name in job["only"]]
    total_weight = sum(s.weight for s in plan)
    # The workers start with different sub-checks
    order = plan[index % len(plan):] + plan[:index % len(plan)]
    for sub in order:
      n_workers = min(sub.workers, job["n_workers"])
      # Spread the sub-checks using few workers
      slot = (index - plan.index(sub)) % job["n_workers"]
      share = max(deadline - time.time(), 0.0) * sub.weight / total_weight
      total_weight -= sub.weight
      if slot >= n_workers:
        continue
      violation = _run_sub(
        sub, slot, n_workers, job, share, results["subs"], note)
      if violation is not None:
        results["violation"] = violation
        break
  except BaseException as exc:  # pylint: disable=broad-except
    results["error"] = (f"{type(exc).__name__}: {exc}\n"
                        + traceback.format_exc()[-4000:])
  return _finish(result_file, results)


def _finish(result_file, results):
  with open(result_file + ".tmp", "w") as f:
    json.dump(results, f)
  os.replace(result_file + ".tmp", result_file)
  sys.stdout.flush()
  sys.stderr.flush()
  # Do not wait for threads of a possibly broken collector
  os._exit(0)  # pylint: disable=protected-access


def _run_sub(sub, slot, n_workers, job, share, stats_all, note):
  import hypothesis
  from hypothesis import HealthCheck, Phase, settings

  n_total = sub.quick if job["tier"] == "quick" else sub.thorough
  n = n_total // n_workers + (1 if slot < n_total % n_workers else 0)
  stats = stats_all.setdefault(sub.name, {
    "evaluations": 0, "nontrivial": [], "labels": {}, "samples": [],
    "time_s": 0.0, "stopped_early": False, "requested": 0})
  stats["requested"] += n
  start = time.time()
  best = {}
  state = {"first_failure": None}

  def evaluate(case):
    # The case has to survive the conversion to json, otherwise it could not be
    # replayed
    text = json.dumps(case, sort_keys=True)
    case = json.loads(text)
    now = time.time()
    if state["first_failure"] is None:
      if now - start > share:
        stats["stopped_early"] = True
        raise _Abort()
    elif now - state["first_failure"] > sub.shrink_s:
      raise _Abort()
    note(sub.name, case)
    try:
      inf = sub.check(case)
    except Exception as exc:  # pylint: disable=broad-except
      # Unsatisfied assumptions are not failures
      if type(exc).__module__.startswith("hypothesis"):
        raise
      if _is_harness_error(exc):
        raise
      if state["first_failure"] is None:
        state["first_failure"] = time.time()
      stats["evaluations"] += 1
      size = core.case_size(case)
      if not best or size < best["size"]:
        best.update(size=size, case=case, message=_describe(exc),
                    trace=traceback.format_exc()[-6000:])
      if FAST:
        raise _Abort() from exc
      raise
    stats["evaluations"] += 1
    inf = inf or {"nontrivial": True, "labels": []}
    key = core.case_key(case)
    if inf["nontrivial"]:
      stats["nontrivial"].append(key)
      if len(stats["samples"]) < 2 and len(text) < 3000:
        stats["samples"].append(case)
    for label in set(inf["labels"]):
      stats["labels"][label] = stats["labels"].get(label, 0) + 1

  try:
    for i, case in enumerate(sub.cases):
      if i % n_workers == slot:
        evaluate(case)
    if n > 0 and sub.strategy is not None:
      seed = int(hashlib.sha256(
        f"{job['seed']}/{job['property']}/{sub.name}/{slot}".encode()
      ).hexdigest()[:12], 16)

      @hypothesis.seed(seed)
      @settings(max_examples=n, database=None, deadline=None,
                derandomize=False, print_blob=False,
                report_multiple_bugs=False,
                phases=(Phase.generate, Phase.shrink),
                suppress_health_check=list(HealthCheck))
      @hypothesis.given(sub.strategy())
      def search(case):
        evaluate(case)

      search()
  except _Abort:
    pass
  except Exception as exc:  # pylint: disable=broad-except
    if not best or _is_harness_error(exc):
      raise
  finally:
    stats["time_s"] += time.time() - start
    stats["nontrivial"] = sorted(set(stats["nontrivial"]))
  if best:
    return {"sub": sub.name, "case": best["case"],
            "message": best["message"], "trace": best["trace"]}
  return None


# ----------------------------------------------------------------- parent ---

def _spawn(job, env_extra):
  env = dict(os.environ)
  # The cases are dominated by compilation
  flags = ("--xla_cpu_multi_thread_eigen=false "
           "--xla_backend_optimization_level=0 "
           "--xla_llvm_disable_expensive_passes=true")
  env["XLA_FLAGS"] = (flags + " " + env_extra.get("XLA_FLAGS", "")).strip()
  env.update({k: v for k, v in env_extra.items() if k != "XLA_FLAGS"})
  log = open(os.path.join(job["out"], f"w{job['worker']}.log"), "wb")
  # Import the code under test from /repo and the framework from /verif only
  code = ("import sys; sys.path[:0] = [%r, %r]; "
          "from pbt import run; run.worker_main(sys.argv[1:])"
          % (core.REPO, core.VERIF))
  return subprocess.Popen(
    [sys.executable, "-c", code, json.dumps(job)], env=env, stdout=log,
    stderr=subprocess.STDOUT, cwd=job["out"], start_new_session=True)


def _kill(proc):
  try:
    os.killpg(proc.pid, signal.SIGKILL)
  except ProcessLookupError:
    pass
  proc.wait()


def _current(out, worker):
  try:
    with open(os.path.join(out, f"w{worker}.current")) as f:
      return json.load(f)
  except (OSError, ValueError):
    return None


def _log_tail(out, worker, n=3000):
  try:
    with open(os.path.join(out, f"w{worker}.log"), "rb") as f:
      return f.read()[-n:].decode(errors="replace")
  except OSError:
    return ""


def _run_jobs(jobs, env_extra, hang_s):
  """Runs the workers and returns a list of (job, status, results)."""
  running = {job["worker"]: (job, _spawn(job, env_extra), time.time())
             for job in jobs}
  done = []
  while running:
    time.sleep(0.05)
    for w, (job, proc, started) in list(running.items()):
      rc = proc.poll()
      if rc is None:
        cur = _current(job["out"], w)
        last = max(started, cur["t"] if cur else 0.0)
        if time.time() - last > hang_s:
          _kill(proc)
          done.append((job, "hang", cur))
          del running[w]
        continue
      _kill(proc)  # children left behind
      path = os.path.join(job["out"], f"w{w}.json")
      if os.path.exists(path):
        with open(path) as f:
          done.append((job, "ok", json.load(f)))
        if FAST and done[-1][2]["violation"]:
          for _, other, _ in running.values():
            _kill(other)
          running = {}
          break
      else:
        done.append((job, f"crash rc={rc}", _current(job["out"], w)))
      del running[w]
  return done


def _replay_once(prop, sub, case, env_extra, hang_s=HANG_S):
  """Runs a single case in a fresh process."""
  out = tempfile.mkdtemp(prefix="pbt_run_")
  try:
    job = {"property": prop, "out": out, "worker": 0,
           "replay": {"sub": sub, "case": case}}
    (_, status, res), = _run_jobs([job], env_extra, hang_s)
    tail = _log_tail(out, 0)
  finally:
    shutil.rmtree(out, ignore_errors=True)
  if status == "hang":
    return "violation", f"no progress within {hang_s:.0f}s"
  if status.startswith("crash"):
    return "violation", f"process ended abnormally ({status}): {tail[-500:]}"
  if res["error"]:
    return "error", res["error"]
  if res["violation"]:
    return "violation", res["violation"]["message"]
  return "pass", ""


def _write_replay(prop, seed, tier, sub, case, message):
  os.makedirs(os.path.join(core.VERIF, "replays"), exist_ok=True)
  name = f"{prop}-{sub}-{core.case_key(case)}.json"
  path = os.path.join(core.VERIF, "replays", name)
  with open(path, "w") as f:
    json.dump({"property": prop, "sub": sub, "case": case, "seed": seed,
               "tier": tier, "message": message}, f, indent=1)
  return os.path.relpath(path, core.VERIF)


def _known(prop):
  try:
    with open(os.path.join(core.VERIF, "known_findings.json")) as f:
      entries = json.load(f)["findings"]
  except OSError:
    return []
  return [e for e in entries
          if e.get("property") == prop and e.get("status") == "known"]


def main():
  parser = argparse.ArgumentParser()
  parser.add_argument("property", nargs="?")
  parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
  parser.add_argument("--replay")
  parser.add_argument("--only", default="")
  parser.add_argument("--workers", type=int, default=8)
  parser.add_argument("--seed", type=int,
                      default=int(os.environ.get("VERIF_SEED", "1") or 1))
  parser.add_argument("--budget", type=float)
  parser.add_argument("--verbose", action="store_true")
  parser.add_argument("--self-test", action="store_true")
  args = parser.parse_args()
  if args.self_test:
    core.add_hypothesis_path()
    import hypothesis
    print("hypothesis", hypothesis.__version__)
    return 0
  prop = args.property.upper()
  tier = args.tier if args.tier in ("quick", "thorough") else "quick"

  settings = SETTINGS.get(prop, {})
  env_extra = settings.get("env", {})

  if args.replay:
    with open(args.replay) as f:
      rep = json.load(f)
    status, msg = _replay_once(prop, rep["sub"], rep["case"], env_extra)
    print(f"{prop}/{rep['sub']}: {status} {msg}")
    if status == "violation":
      print(f"VIOLATION property={prop} replay={args.replay}")
    return {"pass": 0, "violation": 1}.get(status, 2)

  start = time.time()
  out = tempfile.mkdtemp(prefix="pbt_run_")
  budget = args.budget or settings.get(
    f"{tier}_budget", QUICK_BUDGET if tier == "quick" else THOROUGH_BUDGET)
  try:
    jobs = [{"property": prop, "out": out, "worker": w, "seed": args.seed,
             "n_workers": args.workers, "tier": tier, "budget": budget,
             "only": [s for s in args.only.split(",") if s]}
            for w in range(args.workers)]
    done = _run_jobs(jobs, env_extra, HANG_S)
    logs = {j["worker"]: _log_tail(out, j["worker"]) for j in jobs}
  finally:
    shutil.rmtree(out, ignore_errors=True)

  subs, errors, found = {}, [], []
  for job, status, res in done:
    if status != "ok":
      if res is None:
        errors.append(f"worker {job['worker']} {status}: "
                      + logs[job["worker"]])
      elif res["sub"] == "import":
        errors.append(f"worker {job['worker']} {status} during import: "
                      + logs[job["worker"]])
      else:
        found.append((res["sub"], res["case"], status))
      continue
    if res["error"]:
      errors.append(res["error"])
    if res["violation"]:
      v = res["violation"]
      found.append((v["sub"], v["case"], v["message"]))
      if args.verbose and v.get("trace") and len(found) == 1:
        print(v["trace"])
    for name, st in res["subs"].items():
      agg = subs.setdefault(name, {
        "requested": 0, "evaluations": 0, "nontrivial": set(), "labels": {},
        "samples": [], "time_s": 0.0, "stopped_early": False})
      agg["requested"] += st["requested"]
      agg["evaluations"] += st["evaluations"]
      agg["nontrivial"] |= set(st["nontrivial"])
      for k, v in st["labels"].items():
        agg["labels"][k] = agg["labels"].get(k, 0) + v
      agg["samples"] += st["samples"][:1]
      agg["time_s"] += st["time_s"]
      agg["stopped_early"] |= st["stopped_early"]

  if FAST and found:
    print(f"{prop}/{found[0][0]} violated: {found[0][2][:200]}")
    return 1

  # Confirm the smallest counterexample of each statement in a fresh process
  known = _known(prop)
  confirmed, unconfirmed, listed = [], [], []
  by_sub = {}
  for sub, case, msg in found:
    by_sub.setdefault(sub, []).append((case, msg))
  for sub, items in sorted(by_sub.items()):
    items.sort(key=lambda x: core.case_size(x[0]))
    if sub == "import":
      confirmed.append((sub,) + items[0])
      continue
    for case, msg in items[:3]:
      entry = next((e for e in known if e.get("sub") == sub
                    and e.get("case") == case), None)
      if entry is not None:
        listed.append(entry)
        continue
      status, msg2 = _replay_once(prop, sub, case, env_extra)
      if status == "violation":
        confirmed.append((sub, case, msg2))
        break
      if status == "error":
        errors.append(msg2)
      else:
        unconfirmed.append((sub, case, msg))
  confirmed_subs = {c[0] for c in confirmed}
  for sub, case, msg in unconfirmed:
    if sub in confirmed_subs or msg == "hang" or msg.startswith("crash"):
      # A stalled machine is no violation
      if sub not in confirmed_subs:
        errors.append(f"{sub}: {msg} could not be reproduced: {case}")
      continue
    # The failure depends on the cases evaluated before in the same process:
    # the complete search is repeated.
    out = tempfile.mkdtemp(prefix="pbt_run_")
    try:
      jobs = [{"property": prop, "out": out, "worker": w, "seed": args.seed,
               "n_workers": args.workers, "tier": tier, "budget": budget,
               "only": [s for s in args.only.split(",") if s]}
              for w in range(args.workers)]
      again = _run_jobs(jobs, env_extra, HANG_S)
    finally:
      shutil.rmtree(out, ignore_errors=True)
    hits = [r["violation"] for _, s, r in again
            if s == "ok" and r["violation"] and r["violation"]["sub"] == sub]
    if hits:
      confirmed.append((sub, hits[0]["case"], hits[0]["message"]
                        + " (depends on preceding cases, repeat with the "
                          "seed of this run)"))
      confirmed_subs.add(sub)
    else:
      errors.append(f"{sub}: failure could not be reproduced: {msg} {case}")

  wall = time.time() - start
  evaluations = sum(s["evaluations"] for s in subs.values())
  nontrivial = sum(len(s["nontrivial"]) for s in subs.values())
  evidence = {
    "property": prop, "tier": tier, "seed": args.seed,
    "level": "exploration",
    "coverage": {
      "evaluations": evaluations,
      "distinct_nontrivial": nontrivial,
      "rule": settings.get("rule", ""),
      "samples": [{"sub": n, "case": c} for n, s in sorted(subs.items())
                  for c in s["samples"][:1]],
      "sub_checks": {
        n: {"requested": s["requested"], "evaluations": s["evaluations"],
            "distinct_nontrivial": len(s["nontrivial"]),
            "labels": dict(sorted(s["labels"].items())),
            "cpu_s": round(s["time_s"], 2),
            "stopped_early_by_budget": s["stopped_early"]}
        for n, s in sorted(subs.items())}},
    "assumptions": settings.get("assumptions", []),
    "wall_s": round(wall, 2),
    "violations": len(confirmed)}
  if not args.only:
    os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
    path = os.path.join(core.VERIF, "evidence", f"{prop}.json")
    with open(path + ".tmp", "w") as f:
      json.dump(evidence, f, indent=1)
    os.replace(path + ".tmp", path)

  for name, s in sorted(subs.items()):
    print(f"  {prop}/{name}: {s['evaluations']}/{s['requested']} cases, "
          f"{len(s['nontrivial'])} distinct non-trivial, "
          f"{s['time_s']:.1f} cpu-s"
          + (" (budget reached)" if s["stopped_early"] else "")
          + (" " + str(dict(sorted(s["labels"].items())))
             if args.verbose else ""))
  for entry in listed:
    print(f"KNOWN-FINDING: property={prop} {entry['what']}")
  for sub, case, msg in confirmed:
    replay = _write_replay(prop, args.seed, tier, sub, case, msg)
    print(f"{prop}/{sub} violated: {msg}")
    print(f"  case: {json.dumps(case)[:2000]}")
    print(f"VIOLATION property={prop} replay={replay}")
  print(f"{prop}: {evaluations} cases, {nontrivial} distinct non-trivial, "
        f"{len(confirmed)} violations, {wall:.1f}s")
  if confirmed:
    return 1
  if errors:
    for e in errors[:3]:
      print("HARNESS ERROR:", e)
    return 2
  return 0


if __name__ == "__main__":
  sys.exit(main())
