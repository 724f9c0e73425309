"""Our own mutation testing: python3 tools/mutate.py map | run FILE OUT.jsonl [start [step]]

Mutants live in scratch copies under /tmp, which are removed. 'map' finds which check reaches which line."""
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = "/tmp/mutation-map.json"
CMP = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt, ast.Lt], ast.Eq: [ast.NotEq],
       ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.FloorDiv: [ast.Mult], ast.Mod: [ast.Mult]}
PAIRS = [("min", "max"), ("sin", "cos"), ("left", "right"), ("top", "bottom"), ("x", "y"), ("width", "height"), ("p1x", "p1y"), ("t1", "t2"),
         ("isVerticalLine", "isHorizontalLine"), ("start", "end"), ("fill", "stroke"), ("append", "extend"), ("r", "g"), ("c1", "c2"), ("px", "py"),
         ("dx", "dy"), ("nx", "ny"), ("i", "j"), ("a", "b"), ("b", "c"), ("startX", "endX"), ("color", "opacity")]
SWAP = {}
for a, b in PAIRS: SWAP.setdefault(a, b); SWAP.setdefault(b, a)


def mutants(source):
    tree = ast.parse(source)
    nodes = list(ast.walk(tree))
    parents = {id(c): n for n in nodes for c in ast.iter_child_nodes(n)}

    def inAnnotation(node):
        while id(node) in parents:
            p = parents[id(node)]
            if isinstance(p, ast.AnnAssign) and node is p.annotation: return True
            if isinstance(p, ast.arg): return True
            if isinstance(p, (ast.FunctionDef,)) and node is p.returns: return True
            node = p
        return False

    out = []

    def variant(index, change, what):
        t = copy.deepcopy(tree)
        n = list(ast.walk(t))
        target = n[index]
        ps = {id(c): m for m in n for c in ast.iter_child_nodes(m)}
        if change(target, ps) is False: return
        try:
            text = ast.unparse(ast.fix_missing_locations(t))
            compile(text, "x", "exec")
        except Exception:
            return
        line = getattr(nodes[index], "lineno", 0)
        out.append((line, what, text))

    def replaceNode(new):
        def change(target, ps):
            p = ps[id(target)]
            for f, v in ast.iter_fields(p):
                if v is target: setattr(p, f, new(target)); return
                if isinstance(v, list) and target in v:
                    v[v.index(target)] = new(target); return
            return False
        return change

    for i, n in enumerate(nodes):
        if not hasattr(n, "lineno") or inAnnotation(n): continue
        if isinstance(n, ast.Compare):
            for k, op in enumerate(n.ops):
                for new in CMP.get(type(op), []):
                    variant(i, lambda t, ps, k=k, new=new: t.ops.__setitem__(k, new()), f"{type(op).__name__}->{new.__name__}")
        elif isinstance(n, ast.BinOp):
            for new in BIN.get(type(n.op), []):
                variant(i, lambda t, ps, new=new: setattr(t, "op", new()), f"{type(n.op).__name__}->{new.__name__}")
            variant(i, replaceNode(lambda t: t.left), "left operand")
            variant(i, replaceNode(lambda t: t.right), "right operand")
        elif isinstance(n, ast.UnaryOp):
            variant(i, replaceNode(lambda t: t.operand), f"no {type(n.op).__name__}")
        elif isinstance(n, ast.BoolOp):
            variant(i, lambda t, ps: setattr(t, "op", ast.Or() if isinstance(t.op, ast.And) else ast.And()), "and/or")
            for k in range(len(n.values)):
                variant(i, replaceNode(lambda t, k=k: t.values[k]), f"only operand {k}")
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool): variant(i, lambda t, ps: setattr(t, "value", not t.value), "not constant")
            elif isinstance(n.value, (int, float)):
                for d in (1, -1): variant(i, lambda t, ps, d=d: setattr(t, "value", t.value + d), f"{n.value}{d:+}")
                if isinstance(n.value, float) or abs(n.value) > 3: variant(i, lambda t, ps: setattr(t, "value", t.value * 1.02), f"{n.value}*1.02")
            elif isinstance(n.value, str) and not isinstance(parents.get(id(n)), ast.Expr) and len(n.value) < 12:
                variant(i, lambda t, ps: setattr(t, "value", t.value + "x" if len(t.value) > 1 else "L" if t.value != "L" else "C"), "string")
        elif isinstance(n, (ast.If, ast.IfExp)):
            for v in (True, False): variant(i, lambda t, ps, v=v: setattr(t, "test", ast.Constant(v)), f"if {v}")
        elif isinstance(n, ast.While):
            pass
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Continue, ast.Break)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
            variant(i, replaceNode(lambda t: ast.Pass()), "no statement")
            if isinstance(n, ast.AugAssign): variant(i, replaceNode(lambda t: ast.Assign([t.target], t.value)), "= for op=")
        elif isinstance(n, ast.Return) and n.value is not None:
            variant(i, lambda t, ps: setattr(t, "value", ast.Constant(None)), "return None")
        if isinstance(n, ast.Call):
            if len(n.args) >= 2:
                for k in range(len(n.args) - 1):
                    variant(i, lambda t, ps, k=k: t.args.__setitem__(slice(k, k + 2), [t.args[k + 1], t.args[k]]), f"arguments {k} {k + 1}")
            if len(n.args) == 1 and isinstance(n.func, ast.Name) and n.func.id in ("list", "abs", "sorted", "float", "round", "str"):
                variant(i, replaceNode(lambda t: t.args[0]), "no " + n.func.id)
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in SWAP:
            variant(i, lambda t, ps: setattr(t, "id", SWAP[t.id]), f"{n.id}->{SWAP[n.id]}")
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and n.attr in SWAP:
            variant(i, lambda t, ps: setattr(t, "attr", SWAP[t.attr]), f".{n.attr}->.{SWAP[n.attr]}")
        if isinstance(n, ast.ListComp) and isinstance(n.elt, ast.Name) and not n.generators[0].ifs:
            variant(i, replaceNode(lambda t: t.generators[0].iter), "no copy")
    seen, unique = {ast.unparse(tree)}, []
    for line, what, text in out:
        if text not in seen:
            seen.add(text)
            unique.append((line, what, text))
    return unique


def makeMap():
    sys.path.insert(0, ROOT)
    from pathmon.props import PROPERTIES
    result = {}

    def one(id):
        out = tempfile.mktemp()
        p = PROPERTIES[id]
        subprocess.run(["/opt/veriftools/pyvenv/bin/python3", "-m", "pathmon.shard", id, "quick", "1", "0", str(max(1, p.quick // 4)), "90", out], cwd=ROOT, check=True,
                       env=dict(os.environ, PYTHONHASHSEED="0", PYTHONPATH=ROOT))
        r = json.load(open(out))
        os.remove(out)
        return id, r["lines"], r["evaluations"]
    with ThreadPoolExecutor(8) as pool:
        for id, lines, n in pool.map(one, PROPERTIES): result[id] = lines
    json.dump(result, open(MAP, "w"))


ORDER = "U06 U07 U03 B13 B15 B16 B17 B02 B07 U05 U02 N04 G02 B01 B04 U01 U04 M01 F01 F02 C01 C02 S01 S02 T01 T03 T02 T04 G03 G01 N02 N01 B05 B06 B09 B08 B18 N05 B03 B12 B14 B10 B11 N03".split()
PREFER = {"Transform.py": "T02 T01 T03 T04", "ContourPlotter.py": "G01 G02 G03", "SegmentPen.py": "S01 S02", "CurveFitting.py": "F01 F02", "PathUtilities.py": "U01 U02 U03 U04 U05 T04"}


def run(file, out, start=0, step=1, only=None):
    source = open(os.path.join("/repo/PathLib", file)).read()
    todo = list(enumerate(mutants(source)))
    random.Random(1).shuffle(todo)
    todo = todo[start::step]
    if only: todo = [t for t in todo if t[0] in only]
    reach = {k: set(v) for k, v in json.load(open(MAP)).items()}
    done = set()
    if os.path.exists(out): done = {json.loads(l)["n"] for l in open(out)}
    print(len(todo), "mutants", flush=True)
    lock = open(out, "a")

    def one(item):
        n, (line, what, text) = item
        if n in done: return
        work = tempfile.mkdtemp(prefix="mut-")
        try:
            repo = os.path.join(work, "repo")
            shutil.copytree("/repo", repo, ignore=shutil.ignore_patterns(".git", "__pycache__"))
            open(os.path.join(repo, "PathLib", file), "w").write(text)
            env = dict(os.environ, PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE="1", PATHMON_REPO=repo)
            r = {"n": n, "file": file, "line": line, "what": what}
            try:
                if subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=repo, env=env, capture_output=True, timeout=60).returncode:
                    r["result"] = "tests"
            except subprocess.TimeoutExpired:
                r["result"] = "tests"
            if "result" not in r:
                here = f"{file}:{line}"
                checks = [c for c in PREFER.get(file, "").split() + ORDER if here in reach[c]] or (PREFER.get(file) or " ".join(ORDER)).split()
                checks = list(dict.fromkeys(checks))
                r["checks"] = checks
                r["result"] = "survived"
                for c in checks:
                    try:
                        p = subprocess.run([os.path.join(ROOT, "bin/check"), c, "--shards", "1", "--scale", "0.12", "--evidence", work], cwd=ROOT, env=env, capture_output=True, text=True, timeout=500)
                    except subprocess.TimeoutExpired:
                        r.setdefault("odd", []).append(f"{c} timeout")
                        continue
                    if p.returncode == 1:
                        r["result"], r["by"] = "caught", c
                        break
                    if p.returncode: r.setdefault("odd", []).append(f"{c} {p.returncode} {p.stdout[-200:]}")
            if r["result"] == "survived":
                r["diff"] = [b for a, b in zip(ast.unparse(ast.parse(source)).splitlines(), text.splitlines()) if a != b][:1]
            lock.write(json.dumps(r) + "\n"); lock.flush()
        finally:
            shutil.rmtree(work, ignore_errors=True)

    with ThreadPoolExecutor(8) as pool: list(pool.map(one, todo))


if __name__ == "__main__":
    if sys.argv[1] == "map": makeMap()
    elif sys.argv[1] == "count":
        for f in sorted(os.listdir("/repo/PathLib")):
            if f.endswith(".py"): print(f, len(mutants(open("/repo/PathLib/" + f).read())))
    else: run(sys.argv[2], sys.argv[3], *map(int, sys.argv[4:]))
