"""Turns specifications of planted bugs into /verif/seeded/<id> and tests them.

python3 tools/plant.py SPEC.py... [--tests] [--checks]

A specification defines PROPERTY, NEEDS, BREAKS, EDITS [(file, old, new)] and
DEMO (python source, exits non-zero with the change).
"""
import difflib, json, os, re, runpy, shutil, subprocess, sys, tempfile
import xml.etree.ElementTree as ET

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
ENV = {**os.environ, "JAX_PLATFORMS": "cpu", "TF_CPP_MIN_LOG_LEVEL": "3",
       "PYTHONDONTWRITEBYTECODE": "1"}


def sh(cmd, cwd, env=None, timeout=900):
  r = subprocess.run(cmd, shell=True, cwd=cwd, env={**ENV, **(env or {})},
                     capture_output=True, text=True, timeout=timeout)
  return r.returncode, r.stdout + r.stderr


def original_lines(fn):
  """Line numbers which stem from the original repository."""
  base = sh("git log --format=%H | tail -1", REPO)[1].strip()
  out = sh(f"git blame -s {fn}", REPO)[1].splitlines()
  return {i + 1 for i, l in enumerate(out)
          if base.startswith(l.split()[0].lstrip("^"))}


def plant(spec_file, tests, checks):
  s = runpy.run_path(spec_file)
  ident = os.path.basename(spec_file)[:-3]
  out = os.path.join(V, "seeded", ident)
  os.makedirs(out, exist_ok=True)
  patch, new_text = "", {}
  for fn, old, new in s["EDITS"]:
    text = new_text.get(fn) or open(os.path.join(REPO, fn)).read()
    if text.count(old) != 1:
      return f"{ident}: text found {text.count(old)} times in {fn}: {old!r}"
    new_text[fn] = text.replace(old, new)
  touched = False
  for fn, text in new_text.items():
    before = open(os.path.join(REPO, fn)).read()
    orig = original_lines(fn)
    a, b = before.splitlines(True), text.splitlines(True)
    for tag, i1, i2, j1, j2 in difflib.SequenceMatcher(
        None, a, b, autojunk=False).get_opcodes():
      if tag in ("replace", "delete"):
        lines = set(range(i1 + 1, i2 + 1))
        if not lines <= orig:
          print(f"  {ident}: WARNING lines {sorted(lines - orig)} of {fn} "
                "have been added by a fix")
        if lines & orig:
          touched = True
  if not touched:
    print(f"  {ident}: WARNING only insertions")
  w = tempfile.mkdtemp(prefix="plant_")
  try:
    sh(f"cp -a {REPO}/. {w}/", "/")
    for fn, text in new_text.items():
      open(os.path.join(w, fn), "w").write(text)
    open(os.path.join(out, "patch.diff"), "w").write(
      sh("git diff", w)[1])
    open(os.path.join(out, "demo.py"), "w").write(s["DEMO"].lstrip("\n"))
    open(os.path.join(out, "demo.sh"), "w").write(
      '#!/bin/bash\nset -e\nHERE="$(cd "$(dirname "$0")" && pwd)"\n'
      'export JAX_PLATFORMS=cpu TF_CPP_MIN_LOG_LEVEL=3 '
      'PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore\n'
      + s.get("DEMO_ENV", "") +
      'PYTHONPATH="$PWD" /opt/venv/bin/python "$HERE/demo.py"\n')
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    json.dump({"property": s["PROPERTY"], "needs": s["NEEDS"],
               "what_it_breaks": s["BREAKS"]},
              open(os.path.join(out, "meta.json"), "w"), indent=1)
    clean = sh(f"bash {out}/demo.sh", REPO)
    bad = sh(f"bash {out}/demo.sh", w)
    res = f"{ident} ({s['PROPERTY']}): demo clean={clean[0]} patched={bad[0]}"
    if clean[0]:
      res += "\n" + clean[1][-1500:]
    if not bad[0]:
      res += "  NOT DETECTED BY DEMO"
    else:
      res += " [" + bad[1].strip().splitlines()[-1][:150] + "]"
    if tests:
      with tempfile.TemporaryDirectory() as t:
        sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider -n 8 "
           f"-m 'not pmap' --timeout=120 --junitxml={t}/j.xml "
           "-o junit_family=xunit2 tests", w, {
             "PYTHONPATH": w, "TFDS_DATA_DIR": t, "PYTHONHASHSEED": "0"})
        ok = set()
        for c in ET.parse(f"{t}/j.xml").iter("testcase"):
          if not any(c.find(k) is not None
                     for k in ("failure", "error", "skipped")):
            ok.add(c.get("classname") + "::" + c.get("name"))
      base = json.load(open("/opt/vp/BASELINE.json"))
      names = base["stable"]
      failed = [n for n in names if n not in ok]
      res += f"\n   tests: {len(failed)} of {len(names)} stable tests fail "
      res += str(failed[:3])
    for prop in ([s["PROPERTY"]] if checks else []):
      code, text = sh(f"bash check.sh {prop}", V, {
        "PBT_REPO": w, "VERIF_SEED": "1"})
      lines = [l for l in text.splitlines() if "violated" in l
               or "HARNESS" in l or l.startswith(prop + ":")]
      res += f"\n   check {prop}: exit {code} " + " / ".join(
        l[:200] for l in lines)
    return res
  finally:
    shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
  for f in [a for a in sys.argv[1:] if not a.startswith("--")]:
    print(plant(os.path.abspath(f), "--tests" in sys.argv,
                "--checks" in sys.argv), flush=True)
