#!/usr/bin/env python3
"""mutate.py FILE [--jobs N] [--scale S] [--out LOG] [--from I] [--every N] [--order 2] [--list 1]
Systematic mutants of one file of modbus_tk, each run against the checks which look at that file, in scratch copies.
Prints the survivors (some are equivalent to the original): material for planted bugs and for stronger checks."""
import ast, copy, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORDER = {
    "modbus.py": "P01 P03 P05 P04 P02 P15 P16 P20 P25 P06 P19 P22 P17 P18 P13 P28 P21 P24 P10",
    "modbus_tcp.py": "P24 P12 P09 P06 P14 P16 P13 P15 P20 P22 P29 P18 P21 P30",
    "modbus_rtu.py": "P24 P07 P11 P10 P28 P22 P29 P20 P18 P15 P21",
    "modbus_rtu_over_tcp.py": "P08 P14 P29 P20", "simulator.py": "P23 P21", "simulator_rpc_client.py": "P23 P29",
    "pymodbusclient.py": "P26 P29", "utils.py": "P24 P27 P21 P18 P14 P23", "hooks.py": "P20 P19",
    "exceptions.py": "P05 P23 P02", "__init__.py": "P21", "defines.py": "P01 P04 P05",
}
CMP = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt, ast.Lt],
       ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.Div: ast.Mult, ast.FloorDiv: ast.Mult, ast.Mod: ast.Add,
       ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd, ast.LShift: ast.RShift, ast.RShift: ast.LShift, ast.BitXor: ast.BitOr}


def is_log(n):
    return isinstance(n, ast.Expr) and (isinstance(n.value, ast.Constant) or "LOGGER." in ast.unparse(n))


def mutants(src):
    """[(line, description, new source)]"""
    tree = ast.parse(src)
    out = []
    parents = {}
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.stmt) and is_log(n) or isinstance(n, ast.Expr) and "LOGGER." in ast.unparse(n):
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, (ast.List, ast.Tuple)) and len(n.elts) > 50:      # tables: a few entries are enough
            skip.update(id(x) for i, x in enumerate(n.elts) if i % 40)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.If) and "__main__" in ast.unparse(n.test):
            skip.update(id(x) for x in ast.walk(n))
    nodes = [n for n in ast.walk(tree) if id(n) not in skip]

    def emit(n, desc, do, undo):
        do()
        try:
            out.append((getattr(n, "lineno", 0), desc, ast.unparse(ast.fix_missing_locations(tree))))
        finally:
            undo()

    for n in nodes:
        if isinstance(n, ast.Compare):
            for i, op in enumerate(n.ops):
                for new in CMP.get(type(op), []):
                    before = ast.unparse(n)

                    def do(i=i, new=new): n.ops[i] = new()

                    def undo(i=i, op=op): n.ops[i] = op
                    do(); after = ast.unparse(n); undo()
                    emit(n, "%s -> %s" % (before, after), do, undo)
        elif isinstance(n, ast.BoolOp):
            old = n.op
            emit(n, "and/or in %s" % ast.unparse(n), lambda: setattr(n, "op", ast.Or() if isinstance(old, ast.And) else ast.And()),
                 lambda: setattr(n, "op", old))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            old = n.op
            emit(n, "operator in %s" % ast.unparse(n), lambda: setattr(n, "op", BIN[type(old)]()), lambda: setattr(n, "op", old))
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            old = n.value
            emit(n, "%r flipped" % old, lambda: setattr(n, "value", not old), lambda: setattr(n, "value", old))
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
            old = n.value
            for d in (1, -1):
                emit(n, "%r -> %r" % (old, old + d), lambda: setattr(n, "value", old + d), lambda: setattr(n, "value", old))
        elif isinstance(n, (ast.If, ast.While)):
            old = n.test
            emit(n, "not (%s)" % ast.unparse(old), lambda: setattr(n, "test", ast.UnaryOp(ast.Not(), old)), lambda: setattr(n, "test", old))
        for field in ("body", "orelse", "finalbody"):
            body = getattr(n, field, None)
            if not isinstance(body, list):
                continue
            for i, s in enumerate(body):
                if id(s) in skip or not isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Return, ast.Break, ast.Continue)):
                    continue
                emit(s, "deleted: %s" % ast.unparse(s)[:100], lambda i=i: body.__setitem__(i, ast.Pass()), lambda i=i, s=s: body.__setitem__(i, s))
        if isinstance(n, ast.Try) and n.handlers:
            pass
    seen, res = {ast.unparse(tree)}, []
    for m in sorted(out, key=lambda m: m[0]):
        if m[2] not in seen:
            seen.add(m[2])
            res.append(m)
    return res


SIMPLE = (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Return)


def more_mutants(src):
    """wrong variables, attributes and arguments, swapped statements, removed locks and handlers, formats, names of hooks"""
    import random
    rng = random.Random(7)
    tree = ast.parse(src)
    out = []
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Import, ast.ImportFrom)) or is_log(n) or isinstance(n, ast.Expr) and "LOGGER." in ast.unparse(n):
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.If) and ("__main__" in ast.unparse(n.test) or "nt" in ast.unparse(n.test)):
            skip.update(id(x) for x in ast.walk(n))

    def emit(n, desc):
        out.append((getattr(n, "lineno", 0), desc, ast.unparse(ast.fix_missing_locations(tree))))

    attrs = {}
    for c in ast.walk(tree):
        if isinstance(c, ast.ClassDef):
            names = sorted(set(x.attr for x in ast.walk(c) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name)
                               and x.value.id == "self" and isinstance(x.ctx, ast.Store)))
            for x in ast.walk(c):
                if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self" and x.attr in names:
                    attrs[id(x)] = names
    for f in ast.walk(tree):
        if not isinstance(f, ast.FunctionDef) or id(f) in skip:
            continue
        local = sorted(set(x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)) |
                       set(a.arg for a in f.args.args if a.arg != "self"))
        for n in ast.walk(f):
            if id(n) in skip:
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in local:
                others = [x for x in local if x != n.id]
                for new in rng.sample(others, min(1, len(others))):
                    old, n.id = n.id, new
                    emit(n, "variable %s -> %s" % (old, new))
                    n.id = old
            elif isinstance(n, ast.Attribute) and id(n) in attrs:
                others = [x for x in attrs[id(n)] if x != n.attr]
                for new in rng.sample(others, min(1, len(others))):
                    old, n.attr = n.attr, new
                    emit(n, "attribute %s -> %s" % (old, new))
                    n.attr = old
            elif isinstance(n, ast.Call) and len(n.args) > 1 and not any(isinstance(a, ast.Starred) for a in n.args):
                n.args[0], n.args[1] = n.args[1], n.args[0]
                emit(n, "arguments swapped: " + ast.unparse(n)[:80])
                n.args[0], n.args[1] = n.args[1], n.args[0]
            elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value:
                v, news = n.value, []
                if len(v) <= 6 and any(ch in "HhBb" for ch in v):
                    news = [v.replace("H", "h") if "H" in v else v.replace("h", "H") if "h" in v else v.replace("B", "b")
                            if "B" in v else v.replace("b", "B")]
                    if ">" in v:
                        news.append(v.replace(">", "<"))
                elif v.startswith("modbus") and "." in v:
                    news = [v + "_"]
                for new in news:
                    n.value = new
                    emit(n, "%r -> %r" % (v, new))
                n.value = v
            for field in ("body", "orelse", "finalbody"):
                b = getattr(n, field, None)
                if not isinstance(b, list):
                    continue
                for i, x in enumerate(b):
                    if id(x) in skip:
                        continue
                    if isinstance(x, ast.With):
                        b[i:i + 1] = x.body
                        emit(x, "without: with " + ast.unparse(x.items[0]))
                        b[i:i + len(x.body)] = [x]
                    if i + 1 < len(b) and isinstance(x, SIMPLE) and not is_log(x) and id(b[i + 1]) not in skip:
                        b[i], b[i + 1] = b[i + 1], b[i]
                        emit(x, "swapped: %s / next" % ast.unparse(x)[:60])
                        b[i], b[i + 1] = b[i + 1], b[i]
                    if isinstance(x, ast.If) and not x.orelse and i + 1 < len(b):
                        rest, body = b[i + 1:], x.body      # the rest of the block becomes part of the condition
                        x.body = body + rest
                        b[i + 1:] = []
                        emit(x, "the rest under: if " + ast.unparse(x.test)[:60])
                        x.body = body
                        b[i + 1:] = rest
                    if isinstance(x, (ast.For, ast.While)):
                        x.body.append(ast.Break())
                        emit(x, "only once: " + ast.unparse(x).splitlines()[0])
                        x.body.pop()
                    if isinstance(x, ast.Try):
                        for h in x.handlers:
                            old, h.body = h.body, [ast.Raise()]
                            emit(x, "handler raises: " + (ast.unparse(h.type) if h.type else ""))
                            h.body = [ast.Pass()]
                            emit(x, "handler passes: " + (ast.unparse(h.type) if h.type else ""))
                            h.body = old
                            oldt = h.type
                            h.type = ast.Name("ValueError", ast.Load())
                            emit(x, "handler of ValueError only, instead of " + (ast.unparse(oldt) if oldt else "all"))
                            h.type = oldt
    seen, res = {ast.unparse(ast.parse(src))}, []
    for m in sorted(out, key=lambda m: m[0]):
        if m[2] not in seen:
            seen.add(m[2])
            res.append(m)
    return res


def run(fn, i, m, scale, pids, base):
    d = os.path.join(base, "%s-%d" % (fn, i))
    shutil.copytree("/repo", d, ignore=shutil.ignore_patterns(".git", "tests", "hmi", "examples"))
    with open(os.path.join(d, "modbus_tk", fn), "w") as f:
        f.write(m[2])
    try:
        for pid in pids:
            env = dict(os.environ, VERIF_REPO=d, VERIF_SCALE=str(scale), VERIF_SHRINK="0", VERIF_SEED="1", VERIF_TIER="quick",
                       VERIF_EVIDENCE=d)
            try:
                r = subprocess.run(["python3-vt", os.path.join(V, "check.py"), pid], env=env, stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, timeout=400)
                if r.returncode != 0:
                    return pid + (":" + str(r.returncode) if r.returncode != 1 else "")
            except subprocess.TimeoutExpired:
                return pid + ":timeout"
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    a = sys.argv[1:]
    opt = {}
    while len(a) > 1:
        opt[a[-2].lstrip("-")] = a[-1]
        a = a[:-2]
    fn = a[0]
    ms = (more_mutants if opt.get("order") == "2" else mutants)(open("/repo/modbus_tk/" + fn).read())
    if "list" in opt:
        for i, m in enumerate(ms):
            print(i, "line %d: %s" % m[:2])
        return
    first, every = int(opt.get("from", 0)), int(opt.get("every", 1))
    todo = [(i, m) for i, m in enumerate(ms) if i >= first and i % every == 0 and
            not (opt.get("order") == "2" and i % 4 and m[1].split()[0] in ("variable", "attribute"))]
    base = tempfile.mkdtemp(prefix="mutants-")
    log = open(opt.get("out", "/dev/stdout"), "a")
    pids = ORDER[fn].split()

    def one(x):
        i, m = x
        k = run(fn, i, m, float(opt.get("scale", "0.2")), pids, base)
        log.write("%s %d line %d: %s: %s\n" % (fn, i, m[0], m[1], "SURVIVED" if k is None else "killed by " + k))
        log.flush()
    print("%s: %d mutants" % (fn, len(todo)))
    with ThreadPoolExecutor(int(opt.get("jobs", "2"))) as ex:
        list(ex.map(one, todo))
    shutil.rmtree(base, ignore_errors=True)


if __name__ == "__main__":
    main()
