"""Systematic small changes of the code, decided by the checks.

python3 tools/automut.py list [FILE...]
python3 tools/automut.py run LOG [--every N] [--offset K] [--names] [FILE...]

Each change is one mutation of the syntax tree in a scratch copy of jax_sgmc.
The properties which have to notice it are determined by the function. What is
not caught is either equivalent or shows a gap of the checks.
"""
import ast, copy, os, re, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo/jax_sgmc"

# file -> [(pattern of the qualified function name, properties)], first match
MAP = {
  "adaption.py": [(r"^rms_prop", "C18"), (r"^mass_matrix", "C19"),
                  (r"^fisher", "C20"), (r".", "C18 C19 C20")],
  "alias.py": [(r".", "C29")],
  "integrator.py": [(r"^obabo", "C22"), (r"^reversible", "C23"),
                    (r"^friction", "C24"), (r"^langevin", "C21"),
                    (r".", "C24 C22")],
  "io.py": [(r"^(_?dictionize|_default_d|_dict|_list|_named|pytree|"
             r"dict_to|register_dict)", "C13"),
            (r"Collector.*(finished|finalize)", "C15 C14"),
            (r"Collector", "C14 C15"), (r".", "C14 C28")],
  "potential.py": [(r"^minibatch", "C16"), (r"^full", "C17")],
  "scheduler.py": [(r"^init_sch", "C04"), (r"^(constant|cyclic)", "C04"),
                   (r"^_progress", "C04"), (r"^adaptive", "C03"),
                   (r"^polynomial", "C01"), (r"^initial", "C02 C04"),
                   (r"^random_th", "C02"), (r".", "C04")],
  "solver.py": [(r"^mcmc", "C28"), (r"^sgmc", "C28"),
                (r"^parallel", "C27"), (r"^amagold", "C25"),
                (r"^sggmc", "C26"), (r".", "C28")],
  "data/core.py": [(r"_Requests", "C08 C06"),
                   (r"full|Full", "C06 C12"), (r"random_ref", "C08 C09 C12"),
                   (r"initializer|batch_format|static", "C12"),
                   (r"_hcb", "C08 C06"), (r".", "C08 C06 C12")],
  "data/numpy_loader.py": [
    (r"Device", "C09 C12 C06"), (r"save|load|init_rng", "C07"),
    (r"static|reference", "C12 C05"), (r"ordered", "C06 C07"),
    (r".", "C05 C07 C12")],
  "data/hdf5_loader.py": [(r".", "C10")],
  "data/tensorflow_loader.py": [(r".", "C11")],
  "util/tree_util.py": [(r".", "C30")],
  "util/list_map.py": [(r".", "C30 C28")],
  "util/uuid.py": [(r".", "C30 C08")],
}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div,
       ast.Div: ast.Mult, ast.FloorDiv: ast.Div, ast.Pow: ast.Mult,
       ast.Mod: ast.FloorDiv, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
       ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot,
       ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
FUN = {"sum": "mean", "mean": "sum", "minimum": "maximum",
       "maximum": "minimum", "floor": "ceil", "ceil": "floor", "var": "std",
       "sqrt": "square", "square": "abs", "ones": "zeros", "zeros": "ones",
       "ones_like": "zeros_like", "zeros_like": "ones_like", "min": "max",
       "max": "min", "logical_and": "logical_or", "logical_or": "logical_and",
       "append": "extend", "stack": "concatenate", "any": "all", "all": "any"}
ROOTS = {"state", "proposal", "new_state", "mh_integrator_state", "schedule",
         "hot_schedule", "normal_schedule", "normal_chain", "hot_chain",
         "data_state", "parameters", "integrator_state", "resampled",
         "new_data_state", "adapt_state"}


def candidates(tree):
  """Yields (function, description, path, change)."""
  out = []

  def visit(node, stack, path, skip):
    if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
      stack = stack + [node.name]
    name = ".".join(stack)
    inside = bool(stack)
    if isinstance(node, (ast.Import, ast.ImportFrom, ast.Raise, ast.JoinedStr,
                         ast.Assert)):
      return
    def add(desc, change):
      if inside and not skip:
        out.append((name, f"{getattr(node, 'lineno', 0)}: {desc}", path,
                    change))
    if isinstance(node, ast.BinOp) and type(node.op) in BIN:
      new = BIN[type(node.op)]
      add(f"{type(node.op).__name__} -> {new.__name__} in "
          f"{ast.unparse(node)[:60]}",
          lambda n, new=new: setattr(n, "op", new()))
    if isinstance(node, ast.Compare) and type(node.ops[0]) in CMP:
      new = CMP[type(node.ops[0])]
      add(f"{type(node.ops[0]).__name__} -> {new.__name__} in "
          f"{ast.unparse(node)[:60]}",
          lambda n, new=new: n.ops.__setitem__(0, new()))
    if isinstance(node, ast.Constant):
      v = node.value
      if isinstance(v, bool):
        add(f"{v} -> {not v}", lambda n: setattr(n, "value", not n.value))
      elif isinstance(v, int):
        add(f"{v} -> {v + 1}", lambda n: setattr(n, "value", n.value + 1))
      elif isinstance(v, float):
        add(f"{v} -> {v * 1.5 + 0.25}", lambda n: setattr(
          n, "value", n.value * 1.5 + 0.25))
    if isinstance(node, (ast.If, ast.IfExp)):
      add(f"not ({ast.unparse(node.test)[:50]})", lambda n: setattr(
        n, "test", ast.UnaryOp(ast.Not(), n.test)))
    if isinstance(node, ast.BoolOp):
      new = ast.Or if isinstance(node.op, ast.And) else ast.And
      add(f"{new.__name__} in {ast.unparse(node)[:60]}",
          lambda n, new=new: setattr(n, "op", new()))
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.USub,
                                                              ast.Not)):
      add(f"drop {type(node.op).__name__} in {ast.unparse(node)[:60]}",
          lambda n: setattr(n, "op", ast.UAdd() if isinstance(n.op, ast.USub)
                            else ast.Not()) or (
            isinstance(n.op, ast.Not) and setattr(
              n, "operand", ast.UnaryOp(ast.Not(), n.operand))))
    if isinstance(node, ast.Call):
      text = ast.unparse(node)[:60]
      fn = ast.unparse(node.func)
      if not re.search(r"warn|Error|isinstance|named_call", fn):
        if isinstance(node.func, ast.Attribute) and node.func.attr in FUN:
          add(f"{node.func.attr} -> {FUN[node.func.attr]} in {text}",
              lambda n: setattr(n.func, "attr", FUN[n.func.attr]))
        if len(node.args) >= 2 and not any(
            isinstance(a, ast.Starred) for a in node.args):
          add(f"swap arguments of {text}", lambda n: n.args.__setitem__(
            slice(0, 2), n.args[1::-1]))
        for k, kw in enumerate(node.keywords):
          if kw.arg:
            add(f"drop {kw.arg} of {text}",
                lambda n, k=k: n.keywords.pop(k))
      else:
        skip = True
    if (isinstance(node, ast.Attribute) and isinstance(node.value, ast.Name)
        and node.value.id in ROOTS and isinstance(node.ctx, ast.Load)):
      others = sorted(attribute_roots.get((stack[-1] if stack else "",
                                           node.attr), set())
                      - {node.value.id})
      for o in others[:2]:
        add(f"{ast.unparse(node)} -> {o}.{node.attr}",
            lambda n, o=o: setattr(n.value, "id", o))
    if isinstance(node, (ast.FunctionDef, ast.If, ast.For, ast.With, ast.Try)):
      for field in ("body", "orelse", "finalbody"):
        for i, s in enumerate(getattr(node, field, []) or []):
          if isinstance(s, (ast.AugAssign,)) or (
              isinstance(s, ast.Expr) and isinstance(s.value, ast.Call)
              and "warn" not in ast.unparse(s.value.func)):
            add(f"delete {ast.unparse(s)[:60]} (line {s.lineno})",
                lambda n, f=field, i=i: getattr(n, f).__setitem__(
                  i, ast.Pass()))
    for field, value in ast.iter_fields(node):
      if field in ("annotation", "returns", "decorator_list"):
        continue
      if isinstance(value, list):
        for i, v in enumerate(value):
          if isinstance(v, ast.AST):
            visit(v, stack, path + [(field, i)], skip)
      elif isinstance(value, ast.AST):
        visit(value, stack, path + [(field, None)], skip)

  attribute_roots = {}
  for f in ast.walk(tree):
    if isinstance(f, ast.FunctionDef):
      for a in ast.walk(f):
        if isinstance(a, ast.Attribute) and isinstance(a.value, ast.Name):
          attribute_roots.setdefault((f.name, a.attr), set()).add(a.value.id)
  for k in attribute_roots:
    attribute_roots[k] &= ROOTS
  visit(tree, [], [], False)
  return out


def name_candidates(tree):
  """Replaces variables by similarly named variables of the function."""
  out = []

  def names_of(f):
    names = {a.arg for a in f.args.args + f.args.kwonlyargs}
    for n in ast.walk(f):
      if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
        names.add(n.id)
    return names

  def visit(node, stack, path, scope):
    if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
      stack = stack + [node.name]
      if isinstance(node, ast.FunctionDef):
        scope = names_of(node) | (scope if len(stack) > 1 else set())
    if isinstance(node, (ast.Raise, ast.Assert, ast.JoinedStr)):
      return
    if (isinstance(node, ast.Name) and isinstance(node.ctx, ast.Load)
        and node.id in scope):
      tokens = set(node.id.strip("_").split("_"))
      others = [o for o in scope - {node.id}
                if tokens & set(o.strip("_").split("_"))
                or {o, node.id} <= {"key", "split", "subkey"}]
      others = sorted(others, key=lambda o: (
        -len(tokens & set(o.split("_"))), len(o), o))
      for o in others[:2]:
        out.append((".".join(stack), f"{node.lineno}: {node.id} -> {o}", path,
                    lambda n, o=o: setattr(n, "id", o)))
    for field, value in ast.iter_fields(node):
      if field in ("annotation", "returns", "decorator_list"):
        continue
      if isinstance(value, list):
        for i, v in enumerate(value):
          if isinstance(v, ast.AST):
            visit(v, stack, path + [(field, i)], scope)
      elif isinstance(value, ast.AST):
        visit(value, stack, path + [(field, None)], scope)

  visit(tree, [], [], set())
  return out


def mutated(tree, path, change):
  tree = copy.deepcopy(tree)
  node = tree
  for field, i in path:
    node = getattr(node, field)
    if i is not None:
      node = node[i]
  change(node)
  return ast.unparse(ast.fix_missing_locations(tree))


def all_mutants(files, find=candidates, mark="#"):
  for fn in files or MAP:
    tree = ast.parse(open(os.path.join(R, fn)).read())
    for i, (name, desc, path, change) in enumerate(find(tree)):
      props = next((p for pat, p in MAP[fn] if re.search(pat, name)), None)
      if props:
        yield f"{fn}{mark}{i}", name, desc, props.split(), (tree, path, change)


def main():
  args = sys.argv[1:]
  mode = args.pop(0)
  log = args.pop(0) if mode == "run" else None
  every, offset, find = 1, 0, {}
  while args and args[0].startswith("--"):
    flag = args.pop(0)
    if flag == "--names":
      find = {"find": name_candidates, "mark": "#n"}
      continue
    value = int(args.pop(0))
    if flag == "--every":
      every = value
    else:
      offset = value
  muts = list(all_mutants(args, **find))
  if mode == "list":
    for m in muts:
      print(m[0], m[1], m[2], *m[3])
    print(len(muts))
    return
  done = set()
  if os.path.exists(log):
    done = {l.split()[0] for l in open(log)}
  for ident, name, desc, props, (tree, path, change) in muts[offset::every]:
    if ident in done:
      continue
    w = tempfile.mkdtemp(prefix="mut_")
    try:
      subprocess.run(["cp", "-a", R, w], check=True)
      fn = ident.split("#")[0]
      with open(os.path.join(w, "jax_sgmc", fn), "w") as f:
        f.write(mutated(tree, path, change))
      start, verdict = time.time(), "MISSED"
      for prop in props:
        r = subprocess.run(
          ["bash", "check.sh", prop, "--workers",
           os.environ.get("WORKERS", "8")], cwd=V, text=True, capture_output=True,
          env={**os.environ, "PBT_REPO": w, "VERIF_SEED": "1",
               "PBT_FAST": "1"})
        if r.returncode != 0:
          lines = [l for l in (r.stdout + r.stderr).splitlines()
                   if "violated" in l or "HARNESS" in l]
          verdict = (f"caught by {(lines or ['?'])[0][:110]}"
                     if r.returncode == 1 else
                     f"NOANSWER {prop} {' '.join(lines)[:200]}")
          break
      with open(log, "a") as f:
        f.write(f"{ident} {name} | {desc} | {time.time() - start:.0f} s | "
                f"{verdict}\n")
    finally:
      shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
  main()
