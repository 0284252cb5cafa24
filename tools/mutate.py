#!/opt/venv/bin/python
"""Mutation campaign: how strong are the checks?  Not a registered check; used by hand.

  mutate.py list                      number of mutants per file
  mutate.py run OUT.jsonl [--jobs 4] [--every K] [--offset O] [--files SUB] [--checks C01,C02]

Every mutant changes one expression or statement of flory (ast level) in a scratch copy of /repo under
/tmp, then the quick checks for that file run against the copy until one reports a violation.
"""
import ast, concurrent.futures as cf, copy, json, os, shutil, subprocess, sys, tempfile

REPO = "/repo"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
FE = "C01 C03 C02 C04 C06 C05 C07 C23 C08".split()
IT = "C26 C29 C14 C25 C22 C09 C13 C12 C15 C17 C28 C18 C19 C10 C11 C30".split()
CHECKS = {
    "flory/common/phases.py": "C20 C21 C24 C27".split(),
    "flory/common/utilities.py": "C33 C07 C23 C08 C01".split(),
    "flory/common/math.py": "C33 C01 C02 C03".split(),
    "flory/free_energy/": FE + ["C24", "C30"],
    "flory/interaction/": ["C01", "C07", "C26", "C24"] + FE + ["C19", "C17", "C28"],
    "flory/entropy/": ["C01", "C07", "C26"] + FE + ["C30"],
    "flory/ensemble/": ["C07", "C26", "C24", "C12", "C23", "C09", "C17"],
    "flory/constraint/": ["C25", "C07", "C13", "C23", "C17", "C14", "C18"],
    "flory/mcmp/finder.py": ["C29", "C15", "C14", "C17", "C23", "C22", "C27", "C31", "C16", "C28", "C24", "C13", "C32"],
    "flory/mcmp/_finder_impl.py": IT,
    "flory/shortcut.py": ["C27"],
}


def checks_for(f):
    for k, v in CHECKS.items():
        if f.startswith(k):
            return list(dict.fromkeys(v))
    return []


BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Div, ast.MatMult: ast.Mult, ast.Pow: ast.Mult}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is}


def is_log(node):
    return isinstance(node, ast.Expr) and ("_logger" in ast.unparse(node) or "pbar" in ast.unparse(node) or isinstance(node.value, ast.Constant))


def sites(tree):
    """yields (description, function which edits the node in place inside a fresh tree)"""
    out = []
    nodes = list(ast.walk(tree))
    skip = set()
    for n in nodes:
        if is_log(n) or isinstance(n, (ast.Raise, ast.Import, ast.ImportFrom)) or (isinstance(n, ast.FunctionDef) and n.name in ("__repr__", "__str__")):
            skip |= {id(x) for x in ast.walk(n)}
        for a in ("annotation", "returns"):
            x = getattr(n, a, None)
            if x is not None:
                skip |= {id(y) for y in ast.walk(x)}
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                skip |= {id(y) for y in ast.walk(d)}
        if isinstance(n, ast.Assign) and "_logger" in ast.unparse(n):
            skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.If) and ast.unparse(n.test) in ("progress", "TYPE_CHECKING"):
            skip |= {id(x) for x in ast.walk(n)}
    for ix, n in enumerate(nodes):
        if id(n) in skip:
            continue
        line = getattr(n, "lineno", 0)
        if isinstance(n, (ast.BinOp, ast.AugAssign)) and type(n.op) in BIN:
            out.append((ix, line, "op", BIN[type(n.op)].__name__))
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            out.append((ix, line, "cmp", CMP[type(n.ops[0])].__name__))
            if isinstance(n.ops[0], (ast.Lt, ast.Gt, ast.LtE, ast.GtE)):
                out.append((ix, line, "flip", "not"))
        if isinstance(n, ast.BoolOp):
            out.append((ix, line, "bool", "swap"))
            for j in range(len(n.values)):
                out.append((ix, line, "booldrop", j))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            out.append((ix, line, "unary", "drop"))
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            out.append((ix, line, "const", not n.value))
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
            out.append((ix, line, "const", n.value + 1))
            if n.value not in (0,):
                out.append((ix, line, "const", 0 if isinstance(n.value, int) else n.value * 0.5))
            else:
                out.append((ix, line, "const", -1))
        if isinstance(n, ast.If):
            out.append((ix, line, "if", True))
            out.append((ix, line, "if", False))
        if isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Attribute) and f.attr in ("copy", "normalize", "sort", "sum", "max", "min", "abs", "mean", "astype", "ravel", "flatten"):
                out.append((ix, line, "callrecv", f.attr))
            if isinstance(f, ast.Attribute) and f.attr in ("array", "abs", "asarray", "ascontiguousarray", "array_like", "atleast_1d", "copy") and len(n.args) >= 1:
                out.append((ix, line, "callarg", f.attr))
            for j in range(len(n.keywords)):
                if n.keywords[j].arg not in ("desc", "position"):
                    out.append((ix, line, "dropkw", j))
            if len(n.args) == 2:
                out.append((ix, line, "swapargs", 0))
            if isinstance(f, ast.Attribute) and f.attr in ("max", "min"):
                out.append((ix, line, "minmax", f.attr))
        if isinstance(n, (ast.FunctionDef, ast.For, ast.If, ast.With, ast.While)):
            for field in ("body", "orelse"):
                for j, s in enumerate(getattr(n, field, [])):
                    if id(s) in skip or isinstance(s, (ast.FunctionDef, ast.Pass, ast.Return, ast.ClassDef, ast.Break)):
                        continue
                    out.append((ix, getattr(s, "lineno", 0), "delstmt", (field, j)))
        if isinstance(n, ast.Attribute) and n.attr == "T":
            out.append((ix, line, "T", 0))
    return out


def apply(tree, site):
    ix, line, kind, arg = site
    t = copy.deepcopy(tree)
    nodes = list(ast.walk(t))
    n = nodes[ix]

    def replace(new):
        for p in nodes:
            for f, v in ast.iter_fields(p):
                if v is n:
                    setattr(p, f, new)
                elif isinstance(v, list):
                    for k, x in enumerate(v):
                        if x is n:
                            v[k] = new
    if kind == "op":
        n.op = getattr(ast, arg)()
    elif kind == "cmp":
        n.ops = [getattr(ast, arg)()]
    elif kind == "flip":
        replace(ast.UnaryOp(ast.Not(), copy.deepcopy(n)))
    elif kind == "bool":
        n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    elif kind == "booldrop":
        vals = [v for k, v in enumerate(n.values) if k != arg]
        replace(vals[0] if len(vals) == 1 else ast.BoolOp(n.op, vals))
    elif kind == "unary":
        replace(n.operand)
    elif kind == "const":
        n.value = arg
    elif kind == "if":
        n.test = ast.Constant(arg)
    elif kind == "callrecv":
        replace(n.func.value)
    elif kind == "callarg":
        replace(n.args[0])
    elif kind == "dropkw":
        del n.keywords[arg]
    elif kind == "swapargs":
        n.args.reverse()
    elif kind == "minmax":
        n.func.attr = "min" if arg == "max" else "max"
    elif kind == "delstmt":
        body = getattr(n, arg[0])
        del body[arg[1]]
        if not body and arg[0] == "body":
            body.append(ast.Pass())
    elif kind == "T":
        replace(n.value)
    return ast.unparse(ast.fix_missing_locations(t))


def files():
    return [f for f in subprocess.check_output(["git", "-C", REPO, "ls-files", "flory"], text=True).split() if f.endswith(".py") and not f.endswith("__init__.py")]


def mutants():
    for f in files():
        src = open(os.path.join(REPO, f)).read()
        tree = ast.parse(src)
        base = ast.unparse(tree)
        seen = {base}
        for s in sites(tree):
            new = apply(tree, s)
            if new in seen:
                continue
            seen.add(new)
            yield f, s, src.splitlines()[s[1] - 1].strip() if s[1] else "", new


def judge(job):
    f, s, text, new, checks = job
    d = tempfile.mkdtemp(prefix="mut_", dir="/tmp")
    try:
        shutil.copytree(os.path.join(REPO, "flory"), d + "/repo/flory", ignore=shutil.ignore_patterns("__pycache__"))
        open(os.path.join(d, "repo", f), "w").write(new)
        os.mkdir(d + "/v")
        for x in ("lib", "props"):
            shutil.copytree(os.path.join(VERIF, x), f"{d}/v/{x}", ignore=shutil.ignore_patterns("__pycache__"))
        shutil.copy(os.path.join(VERIF, "run.py"), d + "/v/run.py")
        h = d + "/v/lib/harness.py"
        t = open(h).read().replace("SHRINK_SECONDS = 40.0", "SHRINK_SECONDS = 1.0").replace("WORKERS = 8", "WORKERS = 2").replace("HANG_SECONDS = 200.0", "HANG_SECONDS = 60.0")
        open(h, "w").write(t)
        ran = []
        for c in checks:
            env = dict(os.environ, VERIF_REPO=d + "/repo", VERIF_SEED="1", VERIF_BUDGET="240", PYTHONDONTWRITEBYTECODE="1")
            try:
                r = subprocess.run([PY, "run.py", c], cwd=d + "/v", env=env, capture_output=True, text=True, timeout=900)
                rc, o = r.returncode, r.stdout + r.stderr
            except subprocess.TimeoutExpired:
                rc, o = "timeout", ""
            ran.append((c, rc))
            if rc == 1 and "VIOLATION" in o:
                return {"file": f, "site": s, "text": text, "killed": c, "ran": ran, "msg": [l for l in o.splitlines() if l.startswith("part")][:1]}
            if rc not in (0, 1):
                return {"file": f, "site": s, "text": text, "killed": "ERROR " + c, "ran": ran, "msg": o[-600:]}
        return {"file": f, "site": s, "text": text, "killed": None, "ran": ran, "new": new}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    a = sys.argv[1:]
    opt = lambda k, d: type(d)(a[a.index(k) + 1]) if k in a else d
    ms = [m for m in mutants() if opt("--files", "") in m[0]]
    if a[0] == "list":
        from collections import Counter
        print(Counter(m[0] for m in ms), len(ms))
        return
    ms = ms[opt("--offset", 0)::opt("--every", 1)]
    cl = opt("--checks", "")
    jobs = [m + (cl.split(",") if cl else checks_for(m[0]),) for m in ms]
    done = set()
    if os.path.exists(a[1]):
        done = {json.dumps([x["file"], x["site"]]) for x in map(json.loads, open(a[1]))}
    jobs = [j for j in jobs if json.dumps([j[0], j[1]]) not in done]
    with cf.ThreadPoolExecutor(opt("--jobs", 4)) as ex, open(a[1], "a") as out:
        for fu in cf.as_completed([ex.submit(judge, j) for j in jobs]):
            r = fu.result()
            out.write(json.dumps(r) + "\n")
            out.flush()
            print(r["file"], r["site"][1:], "|", r["text"][:80], "=>", r["killed"], flush=True)


if __name__ == "__main__":
    main()
