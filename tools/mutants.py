"""Tries changes of the code quickly against the checks.

python3 tools/mutants.py FILE.py [NAME...]

FILE defines MUTANTS = {name: (property or [properties], [(file, old, new)])}.
Each change is applied to a scratch copy of /repo.
"""
import os, runpy, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
muts = runpy.run_path(sys.argv[1])["MUTANTS"]
for name in sys.argv[2:] or muts:
  props, edits = muts[name]
  w = tempfile.mkdtemp(prefix="mut_")
  try:
    subprocess.run(["cp", "-a", "/repo/jax_sgmc", "/repo/.git", w], check=True)
    bad = None
    for fn, old, new in edits:
      p = os.path.join(w, "jax_sgmc", fn)
      text = open(p).read()
      if text.count(old) != 1:
        bad = f"text found {text.count(old)} times: {old!r}"
      open(p, "w").write(text.replace(old, new))
    if bad:
      print(f"{name}: BAD SPEC {bad}", flush=True)
      continue
    for prop in [props] if isinstance(props, str) else props:
      t = time.time()
      r = subprocess.run(["bash", "check.sh", prop], cwd=V, text=True,
                         capture_output=True,
                         env={**os.environ, "PBT_REPO": w, "VERIF_SEED": "1"})
      out = (r.stdout + r.stderr).splitlines()
      lines = [l for l in out if "violated" in l or "HARNESS" in l]
      verdict = {0: "MISSED", 1: "caught"}.get(r.returncode, "NO ANSWER")
      print(f"{name} {prop}: {verdict} ({time.time() - t:.0f} s) "
            + " / ".join(l[:160] for l in (lines or out[-1:])), flush=True)
  finally:
    shutil.rmtree(w, ignore_errors=True)
