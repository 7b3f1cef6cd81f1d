#!/usr/bin/env python3
"""Random AST mutants of the functions under contract: tools/automut.py SEED N [props].  Prints the survivors' edits; scratch copies only."""
import ast
import os
import random
import re
import sys
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT + "/tools")
sys.path.insert(0, ROOT)
import mutate
import props_data

REPO = "/repo"
CMP = {"Lt": "<=", "LtE": "<", "Gt": ">=", "GtE": ">", "Eq": "!=", "NotEq": "==", "Is": "is not", "IsNot": "is", "In": "not in", "NotIn": "in"}
BIN = {"Add": "-", "Sub": "+", "Mult": "/", "Div": "*", "FloorDiv": "*", "Mod": "//", "Pow": "*"}


def sites(path, names):
    src = open(path).read()
    tree = ast.parse(src)
    seg = lambda n: ast.get_source_segment(src, n)
    off = [0]
    for ln in src.encode().splitlines(True):
        off.append(off[-1] + len(ln))
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    out = []

    def visit(fn, q):
        if names is not None and fn.name not in names:
            return
        doc = ast.get_docstring(fn) is not None
        skip = set()
        if doc:
            skip.update(id(x) for x in ast.walk(fn.body[0]))
        for d in fn.decorator_list:
            skip.update(id(x) for x in ast.walk(d))
        for a in ast.walk(fn.args):
            if isinstance(a, ast.arg) and a.annotation is not None:
                skip.update(id(x) for x in ast.walk(a.annotation))
        if fn.returns is not None:
            skip.update(id(x) for x in ast.walk(fn.returns))
        for n in ast.walk(fn):
            if isinstance(n, ast.AnnAssign):
                skip.update(id(x) for x in ast.walk(n.annotation))
            if isinstance(n, ast.Raise):
                skip.update(id(x) for x in ast.walk(n))
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("warn", "info", "print", "format"):
                skip.update(id(x) for x in ast.walk(n))
        for n in ast.walk(fn):
            if id(n) in skip:
                continue
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                l, r = seg(n.left), seg(n.comparators[0])
                out.append((q, pos(n), "(%s) %s (%s)" % (l, CMP[type(n.ops[0]).__name__], r)))
            elif isinstance(n, ast.BinOp) and type(n.op).__name__ in BIN and not isinstance(n.left, ast.Constant) | isinstance(n.left, ast.JoinedStr):
                out.append((q, pos(n), "((%s) %s (%s))" % (seg(n.left), BIN[type(n.op).__name__], seg(n.right))))
            elif isinstance(n, ast.Constant) and type(n.value) in (int, float):
                out.append((q, pos(n), repr(n.value + 1) if n.value in (0, 1) or random.random() < 0.5 else repr(n.value - 1)))
            elif isinstance(n, ast.Constant) and type(n.value) is bool:
                out.append((q, pos(n), repr(not n.value)))
            elif isinstance(n, ast.BoolOp):
                out.append((q, pos(n), "(%s)" % (" or " if isinstance(n.op, ast.And) else " and ").join("(%s)" % seg(x) for x in n.values)))
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
                out.append((q, pos(n), "(%s)" % seg(n.operand)))
            elif isinstance(n, ast.IfExp):
                out.append((q, pos(n), "(%s if %s else %s)" % (seg(n.orelse), seg(n.test), seg(n.body))))
            elif isinstance(n, ast.If):
                out.append((q, pos(n.test), "not (%s)" % seg(n.test)))
            elif isinstance(n, (ast.Expr, ast.AugAssign)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                out.append((q, pos(n), "pass"))
            elif isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) and not n.value.args:
                out.append((q, pos(n.value), seg(n.value.func.value)))
            elif isinstance(n, ast.Call) and n.keywords and n.keywords[-1].arg:
                k = n.keywords[random.randrange(len(n.keywords))]
                a, b = pos(k)
                s = src.encode()
                while b < len(s) and s[b:b + 1] in b", ":
                    b += 1
                out.append((q, (a, b), ""))
            elif isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(x, ast.Starred) for x in n.args):
                i = random.randrange(len(n.args) - 1)
                a0, b0 = pos(n.args[i])
                a1, b1 = pos(n.args[i + 1])
                s = src.encode()
                out.append((q, (a0, b1), (s[a1:b1] + s[b0:a1] + s[a0:b0]).decode()))
            elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice) and (n.slice.lower or n.slice.upper):
                out.append((q, pos(n), seg(n.value) + "[:]"))

    def walk(body, q):
        for n in body:
            if isinstance(n, ast.ClassDef):
                walk(n.body, q + n.name + ".")
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                visit(n, q + n.name)
    walk(tree.body, "")
    return src, out


def main():
    seed, N = int(sys.argv[1]), int(sys.argv[2])
    random.seed(seed)
    jobs = []
    for P in props_data.PROPS:
        if len(sys.argv) > 3 and P["id"] not in sys.argv[3:]:
            continue
        src = open(ROOT + "/contracts/%s.py" % P["module"]).read()
        names = set(re.findall(r"\w+", " ".join(re.findall(r"funcs=(\[.*?\]|\w+)", src, re.S))))
        pool = []
        for f in P["files"]:
            p = REPO + "/" + f
            if not p.endswith(".py") or not os.path.exists(p):
                continue
            s, out = sites(p, names)
            for q, (a, b), new in out:
                pool.append((f, s, q, a, b, new))
        random.shuffle(pool)
        n = 0
        for f, s, q, a, b, new in pool:
            e = s.encode()
            t = (e[:a] + new.encode() + e[b:]).decode()
            try:
                if ast.dump(ast.parse(t)) == ast.dump(ast.parse(s)):
                    continue
            except SyntaxError:
                continue
            jobs.append(("auto-%s-%d-%d" % (P["id"], seed, n), P["id"], [(f, s, t)], "%s:%s line %d: %s  ->  %s" % (f, q, e[:a].count(b"\n") + 1, e[a:b].decode(), new)))
            n += 1
            if n >= N:
                break
    random.shuffle(jobs)

    def go(j):
        try:
            return mutate.one(j[:3]), j[3]
        except Exception as x:
            return "%s ERROR %r" % (j[0], x), j[3]
    with ThreadPoolExecutor(mutate.PAR) as ex:
        for r, what in ex.map(go, jobs):
            print(r[:60] + (" | " + what.replace("\n", "\\n") if "CAUGHT" not in r else ""), flush=True)


if __name__ == "__main__":
    main()
