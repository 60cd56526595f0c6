"""Development aid: small mutants of the code that pass its tests, judged by the checks at a reduced scale.

python3 tools/mutate.py OUT [--jobs 3] [--seed 0] [--max 1000] [--scale 0.08] [--only file,file]
"""

import ast
import copy
import difflib
import json
import os
import random
import shutil
import subprocess
import sys
import threading
import time

REPO = os.environ.get("MUT_REPO", "/repo")
PKG = "dissect/cstruct"
CHECKS = {
    "bitbuffer.py": "06 01 02 03 15", "compiler.py": "03 09 02 18 15", "cstruct.py": "13 05 04 14 10 20 16 12",
    "expression.py": "10 07 15 13", "parser.py": "13 12 20 10 18 06 07", "utils.py": "19", "tools/stubgen.py": "20",
    "types/base.py": "07 09 08 01 14 17 16", "types/char.py": "08 07 05 01 02", "types/wchar.py": "08 07 05 01 02",
    "types/enum.py": "12 01 03 20", "types/flag.py": "12 01 03 20", "types/int.py": "05 01 08 07 06", "types/leb128.py": "05 08 01 07",
    "types/packed.py": "05 08 07 03 01", "types/pointer.py": "16 01 04 11 17", "types/structure.py": "17 11 18 14 02 08 04 01 09 06 03 16",
    "types/void.py": "03 01 08",
}  # fmt: skip

CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot,
       ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}  # fmt: skip
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.FloorDiv: ast.Mult, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd,
       ast.LShift: ast.RShift, ast.RShift: ast.LShift, ast.Mod: ast.Mult}  # fmt: skip


def variants(node):
    """Names of the mutations of a node."""
    if isinstance(node, ast.Compare):
        return [("cmp", i) for i in range(len(node.ops))]
    if isinstance(node, ast.BinOp) and type(node.op) in BIN:
        return [("bin", 0)]
    if isinstance(node, ast.AugAssign) and type(node.op) in BIN:
        return [("aug", 0)]
    if isinstance(node, ast.BoolOp):
        return [("bool", 0), *[("drop", i) for i in range(len(node.values))]]
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
        return [("not", 0)]
    if isinstance(node, (ast.If, ast.IfExp, ast.While)):
        return [("true", 0), ("false", 0)] if not isinstance(node, ast.While) else []
    if isinstance(node, ast.Constant) and isinstance(node.value, bool):
        return [("flip", 0)]
    if isinstance(node, ast.Constant) and isinstance(node.value, int):
        return [("inc", 0), ("dec", 0)]
    if isinstance(node, ast.Call):
        out = [("kw", i) for i in range(len(node.keywords))]
        if len(node.args) == 1 and not node.keywords and isinstance(node.func, ast.Name) and node.func.id in ("list", "dict", "set", "tuple", "max", "int", "bytes", "reversed", "sorted"):
            out.append(("unwrap", 0))
        return out
    if isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Slice):
        return [("slice", 0)]
    if isinstance(node, (ast.Assign, ast.AugAssign, ast.Expr, ast.Break, ast.Continue, ast.Raise, ast.Delete)):
        if isinstance(node, ast.Expr) and isinstance(node.value, (ast.Constant, ast.Yield, ast.YieldFrom)) and not isinstance(node.value, ast.YieldFrom):
            return []
        return [("del", 0)]
    if isinstance(node, ast.Return) and node.value is not None:
        return [("none", 0)]
    return []


# mutants that differ for rare values only: an expression's value changes when it is large, or one particular value
RARE = """

def _m_rare(x, k):
    try:
        if k[0] == "gt":
            n = x if isinstance(x, int) else len(x) if isinstance(x, (bytes, bytearray, str, list, tuple)) else None
            if isinstance(x, bool) or n is None or n <= k[1]:
                return x
        elif isinstance(x, bool) or type(x) is not type(k[1]) or x != k[1]:
            return x
        if isinstance(x, int):
            y = int(x) + k[2]
        elif isinstance(x, (bytes, bytearray, str)):
            y = x[:-1] if k[2] > 0 else x[1:]
        elif isinstance(x, (list, tuple)):
            y = x[:-1] if k[2] > 0 else x[1:]
        else:
            return x
    except Exception:
        return x
    import os
    if os.environ.get("MUT_MARK"):
        open(os.environ["MUT_MARK"], "w").close()
    return y
"""
RARE_KS = [("gt", 8), ("gt", 16), ("gt", 33), ("gt", 64), ("gt", 130), ("gt", 260), ("gt", 1030), ("gt", 70000), ("gt", 1 << 31), ("gt", 1 << 63),
           ("eq", 3), ("eq", 7), ("eq", 9), ("eq", 13), ("eq", 16), ("eq", 31), ("eq", 33), ("eq", 63), ("eq", 100), ("eq", 127), ("eq", 128), ("eq", 255),
           ("eq", 256), ("eq", 65535), ("eq", -1), ("eq", -2), ("eq", -128), ("eq", b"\\0"), ("eq", b"\\xff"), ("eq", b"A"), ("eq", "a"), ("eq", "value"), ("eq", "")]  # fmt: skip


def rare_sites(tree, rng):
    out, counter = [], [-1]

    def walk(node, infn, bad):
        counter[0] += 1
        me = counter[0]
        if infn and not bad and isinstance(node, (ast.Call, ast.BinOp, ast.Attribute, ast.Subscript, ast.Name)) and isinstance(getattr(node, "ctx", ast.Load()), ast.Load):
            k = rng.choice(RARE_KS)
            out.append((me, "rare", (*k, rng.choice([1, -1])), node.lineno))
        for name, value in ast.iter_fields(node):
            for child in value if isinstance(value, list) else [value]:
                if not isinstance(child, ast.AST):
                    continue
                fn = isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)) and name == "body"
                b = bad or name in ("annotation", "returns", "decorator_list", "args" if isinstance(node, ast.FunctionDef) else "-", "func", "bases") or isinstance(node, (ast.Raise, ast.JoinedStr)) or isinstance(node, ast.FunctionDef) and node.name in ("__repr__", "__str__")
                walk(child, infn or fn, b)

    walk(tree, False, False)
    return out


class Apply(ast.NodeTransformer):
    def __init__(self, index, kind, arg):
        self.index, self.kind, self.arg, self.n = index, kind, arg, -1

    def visit(self, node):
        self.n += 1
        hit = self.n == self.index
        node = super().generic_visit(node)
        if not hit:
            return node
        k, i = self.kind, self.arg
        if k == "cmp":
            node.ops[i] = CMP[type(node.ops[i])]()
        elif k in ("bin", "aug"):
            node.op = BIN[type(node.op)]()
        elif k == "bool":
            node.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
        elif k == "drop":
            del node.values[i]
            return node.values[0] if len(node.values) == 1 else node
        elif k == "not":
            return node.operand
        elif k in ("true", "false"):
            node.test = ast.Constant(k == "true")
        elif k == "flip":
            node.value = not node.value
        elif k == "inc":
            node.value += 1
        elif k == "dec":
            node.value -= 1
        elif k == "kw":
            del node.keywords[i]
        elif k == "unwrap":
            return node.args[0]
        elif k == "slice":
            if node.slice.lower is not None:
                node.slice.lower = None
            else:
                node.slice.upper = None
        elif k == "del":
            return ast.copy_location(ast.Pass(), node)
        elif k == "rare":
            return ast.Call(ast.Name("_m_rare", ast.Load()), [node, ast.parse(repr(i), mode="eval").body], [])
        elif k == "none":
            node.value = ast.Constant(None)
        return node


def skip(node, parents):
    for p in parents:
        if isinstance(p, ast.Raise) or isinstance(p, (ast.FunctionDef,)) and p.name in ("__repr__", "__str__"):
            return True
        if isinstance(p, ast.arg) or isinstance(p, ast.AnnAssign):
            return True
    return False


def sites(tree):
    out, counter = [], [-1]

    def walk(node, parents):
        counter[0] += 1
        me = counter[0]
        if not skip(node, parents):
            out.extend((me, k, i, getattr(node, "lineno", 0)) for k, i in variants(node))
        for child in ast.iter_child_nodes(node):
            walk(child, [*parents, node])

    walk(tree, [])
    return out


def order_ok(tree):
    """visit order of NodeTransformer.generic_visit equals iter_child_nodes order (pre-order): checked by construction"""
    return True


def sh(cmd, cwd, env=None, timeout=600):
    try:
        r = subprocess.run(cmd, shell=True, cwd=cwd, env={**os.environ, **(env or {})}, capture_output=True, text=True, timeout=timeout)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def main():
    a = sys.argv
    out = a[1]
    opt = lambda n, d: a[a.index(n) + 1] if n in a else d  # noqa: E731
    jobs, seed, mx, scale, only = int(opt("--jobs", 3)), int(opt("--seed", 0)), int(opt("--max", 1000)), opt("--scale", "0.08"), opt("--only", None)
    os.makedirs(out, exist_ok=True)
    verif = f"{out}/verif"
    shutil.rmtree(verif, ignore_errors=True)
    os.makedirs(verif)
    for x in ("lib", "checks", "run.py", "known_findings.txt", "properties.jsonl"):
        sh(f"cp -a /verif/{x} {verif}/", "/")
    todo, sources = [], {}
    for f in CHECKS:
        if only and f not in only.split(","):
            continue
        src = open(f"{REPO}/{PKG}/{f}").read()
        sources[f] = src
        rare = "--rare" in a
        todo += [(f, *s) for s in (rare_sites(ast.parse(src), random.Random(f"{seed}{f}")) if rare else sites(ast.parse(src)))]
    random.Random(seed).shuffle(todo)
    print(len(todo), "mutants", flush=True)
    todo = todo[:mx]
    lock = threading.Lock()
    stats = {"rejected": 0, "caught": {}, "survived": 0, "invalid": 0}
    it = iter(todo)
    log = open(f"{out}/log.txt", "a")

    def work(w):
        copyd = f"{out}/r{w}"
        shutil.rmtree(copyd, ignore_errors=True)
        sh(f"cp -a {REPO} {copyd}", "/")
        while True:
            with lock:
                m = next(it, None)
            if m is None or os.path.exists(f"{out}/stop"):
                break
            f, idx, kind, arg, line = m
            tree = Apply(idx, kind, arg).visit(ast.parse(sources[f]))
            try:
                new = ast.unparse(ast.fix_missing_locations(tree))
                old = ast.unparse(ast.parse(sources[f]))
                compile(new, f, "exec")
            except Exception:
                stats["invalid"] += 1
                continue
            if new == old:
                continue
            if kind == "rare":
                new += RARE
                if os.path.exists(f"{copyd}.mark"):
                    os.remove(f"{copyd}.mark")
            path = f"{copyd}/{PKG}/{f}"
            with open(path, "w") as fh:
                fh.write(new)
            rc, o = sh("/opt/venv/bin/python -m pytest -q -x -p no:cacheprovider --timeout=60 tests", copyd, {"PYTHONPATH": copyd, "PYTHONDONTWRITEBYTECODE": "1"}, 200)
            res = "rejected"
            if rc == 0:
                res = "survived"
                for c in CHECKS[f].split():
                    rc, o = sh(f"python3-vt run.py C{c} --tier quick --scale {scale}", verif,
                               {"VERIF_REPO": copyd, "VERIF_SEED": "1", "VERIF_WORKERS": "2", "MUT_MARK": f"{copyd}.mark"}, 400)  # fmt: skip
                    if rc == 1 and "VIOLATION" in o:
                        res = f"C{c}"
                        break
                    if rc not in (0, 1):
                        res = f"noanswer C{c} rc={rc}"
            if kind == "rare" and res == "survived" and not os.path.exists(f"{copyd}.mark"):
                res = "unreached"
            diff = "\n".join(x for x in difflib.unified_diff(old.splitlines(), new.splitlines(), lineterm="", n=2) if not x.startswith(("---", "+++")))
            with lock:
                log.write(f"{res} {f}:{line} {kind}{arg}\n")
                log.flush()
                if res == "rejected":
                    stats["rejected"] += 1
                elif res.startswith("C"):
                    stats["caught"][res] = stats["caught"].get(res, 0) + 1
                else:
                    stats["survived"] += 1
                    with open(f"{out}/survivors.txt", "a") as fh:
                        fh.write(f"=== {res} {f}:{line} {kind}{arg}\n{diff}\n\n")
            with open(path, "w") as fh:
                fh.write(sources[f])
        shutil.rmtree(copyd, ignore_errors=True)

    ts = [threading.Thread(target=work, args=(w,)) for w in range(jobs)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    print(json.dumps(stats), flush=True)


main()
