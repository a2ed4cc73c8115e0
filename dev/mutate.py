"""Random source changes in scratch copies, judged by the checks (development aid).

python3 dev/mutate.py bug|same COUNT SEED [module ...] -- prints each change that
the tests accept and what the checks say about it."""
import ast
import concurrent.futures as cf
import copy
import glob
import os
import random
import shutil
import subprocess
import sys

SRC = "/repo/src/pygmm"
PY = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.abspath(__file__))


def doc(body):
    return body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant)


def parents(tree):
    p = {}
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            p[c] = n
    return p


def sites(tree):
    """Nodes inside function bodies (and class level data), docstrings excluded."""
    out = []
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and doc(n.body):
            docs.update(ast.walk(n.body[0]))
    for f in ast.walk(tree):
        if isinstance(f, (ast.FunctionDef, ast.ClassDef)):
            for s in f.body:
                for n in ast.walk(s):
                    if n not in docs:
                        out.append(n)
    return list(dict.fromkeys(out))


# ------------------------------------------------------------------ bugs
SWAP = {"minimum": "maximum", "maximum": "minimum", "log": "log10", "sin": "cos", "cos": "sin", "min": "max", "max": "min",
        "exp": "expm1", "nanmin": "nanmax", "all": "any", "any": "all", "abs": "float", "sum": "mean"}


def bug(tree, rnd):
    ns = sites(tree)
    rnd.shuffle(ns)
    par = parents(tree)
    for n in ns:
        old = ast.unparse(n) if not isinstance(n, (ast.operator, ast.cmpop, ast.boolop, ast.unaryop, ast.expr_context)) else ""
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            v = n.value
            n.value = rnd.choice([v * 1.02 if v else 0.5, v * 1.1 if v else 1, v + 1, v - 1] if isinstance(v, int)
                                 else [v * 1.01, v * 1.1, -v, float("%.1g" % v) if v else 0.1])
            if n.value == v:
                continue
        elif isinstance(n, ast.BinOp) and rnd.random() < 0.6:
            alt = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}.get(type(n.op))
            if rnd.random() < 0.3:
                p = par[n]
                for k, x in ast.iter_fields(p):
                    if x is n:
                        setattr(p, k, rnd.choice([n.left, n.right]))
                        return n.lineno, old, "operand dropped: " + ast.unparse(p)[:80]
                continue
            if not alt:
                continue
            n.op = alt()
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            alt = {ast.Lt: [ast.Gt, ast.GtE], ast.Gt: [ast.Lt, ast.LtE], ast.LtE: [ast.Gt], ast.GtE: [ast.Lt], ast.Eq: [ast.NotEq],
                   ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}[type(n.ops[0])]
            n.ops[0] = rnd.choice(alt)()
        elif isinstance(n, ast.Attribute) and n.attr in SWAP and rnd.random() < 0.7:
            n.attr = SWAP[n.attr]
        elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in ("s", "c", "C", "p", "coeff"):
            others = sorted({m.attr for m in ast.walk(tree) if isinstance(m, ast.Attribute) and isinstance(m.value, ast.Name)
                             and m.value.id == n.value.id and m.attr != n.attr})
            if not others:
                continue
            n.attr = rnd.choice(others)
        elif isinstance(n, ast.Name) and n.id in SWAP and isinstance(n.ctx, ast.Load):
            n.id = SWAP[n.id]
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and rnd.random() < 0.3:
            f = n
            while f in par and not isinstance(f, ast.FunctionDef):
                f = par[f]
            if not isinstance(f, ast.FunctionDef):
                continue
            others = sorted({m.id for m in ast.walk(f) if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store) and m.id != n.id})
            if n.id in ("np", "self", "s", "c", "C", "model") or not others:
                continue
            n.id = rnd.choice(others)
        elif isinstance(n, ast.BoolOp):
            n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
        elif isinstance(n, ast.AugAssign):
            p = par[n]
            for k, x in ast.iter_fields(p):
                if isinstance(x, list) and n in x:
                    x[x.index(n)] = ast.copy_location(ast.Pass(), n)
                    return n.lineno, old, "removed"
        elif isinstance(n, ast.If) and rnd.random() < 0.5:
            n.test = ast.Constant(rnd.random() < 0.5)
        elif isinstance(n, ast.Constant) and isinstance(n.value, str):
            p = par[n]
            if not isinstance(p, (ast.Compare, ast.List, ast.Tuple, ast.Dict)):
                continue
            others = sorted({m.value for m in ast.walk(tree) if isinstance(m, ast.Constant) and isinstance(m.value, str)
                             and isinstance(par.get(m), (ast.Compare, ast.List, ast.Tuple)) and m.value != n.value})
            if not others:
                continue
            n.value = rnd.choice(others)
        else:
            continue
        ast.fix_missing_locations(tree)
        p = n
        while p in par and not isinstance(p, ast.stmt):
            p = par[p]
        return getattr(n, "lineno", 0), old, ast.unparse(n) + "   IN " + ast.unparse(p)[:150]
    return None


# ------------------------------------------------------------------ behaviour kept
def pure(n):
    return not any(isinstance(m, (ast.NamedExpr, ast.Await, ast.Yield, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp,
                                  ast.SetComp, ast.Starred)) for m in ast.walk(n))


def same(tree, rnd):
    par = parents(tree)
    ns = [n for n in sites(tree) if hasattr(n, "lineno")]
    rnd.shuffle(ns)
    want = rnd.choice(["swap", "flip", "invert", "temp", "helper", "ternary", "square", "where", "body", "rename", "aug", "comp", "early", "alias"])
    fresh = "tmp_%d" % rnd.randrange(1000)
    for n in ns:
        f = n
        chain = []
        while f in par and not isinstance(f, ast.FunctionDef):
            f = par[f]
            chain.append(f)
        if not isinstance(f, ast.FunctionDef):
            continue
        try:
            old = ast.unparse(n)
        except Exception:
            continue
        if want == "swap" and isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Mult)) and not any(
                isinstance(m, (ast.List, ast.Tuple, ast.JoinedStr)) or isinstance(m, ast.Constant) and isinstance(m.value, str) for m in ast.walk(n)):
            n.left, n.right = n.right, n.left
        elif want == "flip" and isinstance(n, ast.Compare) and len(n.ops) == 1:
            alt = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq}.get(type(n.ops[0]))
            if not alt:
                continue
            n.left, n.comparators[0], n.ops[0] = n.comparators[0], n.left, alt()
        elif want == "invert" and isinstance(n, ast.If) and n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            n.test = ast.UnaryOp(ast.Not(), n.test)
            n.body, n.orelse = n.orelse, n.body
        elif want == "temp" and isinstance(n, ast.BinOp) and pure(n):
            st = n
            ok = True
            while not isinstance(st, ast.stmt):
                q = par[st]
                if isinstance(q, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp, ast.comprehension, ast.IfExp, ast.BoolOp)):
                    ok = False
                    break
                st = q
            if not ok or not isinstance(st, (ast.Assign, ast.AugAssign, ast.Return)):
                continue
            q = par[st]
            blk = next((x for k, x in ast.iter_fields(q) if isinstance(x, list) and st in x), None)
            if blk is None or isinstance(q, (ast.ClassDef, ast.Module)):
                continue
            new = copy.deepcopy(n)
            for k, x in ast.iter_fields(par[n]):
                if x is n:
                    setattr(par[n], k, ast.Name(fresh, ast.Load()))
                elif isinstance(x, list) and n in x:
                    x[x.index(n)] = ast.Name(fresh, ast.Load())
            blk.insert(blk.index(st), ast.Assign([ast.Name(fresh, ast.Store())], new))
        elif want == "helper" and isinstance(n, ast.BinOp) and pure(n) and not any(isinstance(c, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp)) for c in chain):
            import builtins
            mods = {a.asname or a.name.split(".")[0] for m in ast.walk(tree) if isinstance(m, (ast.Import, ast.ImportFrom)) for a in m.names}
            tops = {m.name for m in tree.body if isinstance(m, (ast.FunctionDef, ast.ClassDef))} | {
                t.id for m in tree.body if isinstance(m, ast.Assign) for t in m.targets if isinstance(t, ast.Name)}
            names = sorted({m.id for m in ast.walk(n) if isinstance(m, ast.Name)} - mods - tops - set(dir(builtins)))
            fn = ast.FunctionDef("_helper_%s" % fresh, ast.arguments([], [ast.arg(x) for x in names], None, [], [], None, []),
                                 [ast.Return(copy.deepcopy(n))], [])
            call = ast.Call(ast.Name(fn.name, ast.Load()), [ast.Name(x, ast.Load()) for x in names], [])
            for k, x in ast.iter_fields(par[n]):
                if x is n:
                    setattr(par[n], k, call)
                elif isinstance(x, list) and n in x:
                    x[x.index(n)] = call
            last = max(i for i, m in enumerate(tree.body) if isinstance(m, (ast.Import, ast.ImportFrom, ast.Expr)) and i < 12)
            tree.body.insert(last + 1, fn)
        elif want == "ternary" and isinstance(n, ast.If) and len(n.body) == len(n.orelse) == 1 and all(
                isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Name) for b in (n.body[0], n.orelse[0])
                ) and n.body[0].targets[0].id == n.orelse[0].targets[0].id:
            st = ast.Assign(n.body[0].targets, ast.IfExp(n.test, n.body[0].value, n.orelse[0].value))
            q = par[n]
            for k, x in ast.iter_fields(q):
                if isinstance(x, list) and n in x:
                    x[x.index(n)] = st
        elif want == "square" and isinstance(n, ast.BinOp) and isinstance(n.op, ast.Pow) and isinstance(n.right, ast.Constant) and n.right.value == 2:
            n.op, n.right = ast.Mult(), copy.deepcopy(n.left)
        elif want == "where" and isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("minimum", "maximum") and len(n.args) == 2 and not n.keywords:
            a, b = n.args
            cmp_ = ast.Compare(copy.deepcopy(a), [ast.Lt() if n.func.attr == "minimum" else ast.Gt()], [copy.deepcopy(b)])
            n.func.attr = "where"
            n.args = [cmp_, a, b]
        elif want == "body" and isinstance(n, ast.FunctionDef) and isinstance(par[n], ast.ClassDef) and not n.args.kwonlyargs and not n.args.vararg and not n.args.kwarg and not any(
                isinstance(m, ast.Name) and m.id in ("super", "__class__") for m in ast.walk(n)) and n.name != "__init__":
            decs = [d for d in n.decorator_list]
            kinds = {ast.unparse(d) for d in decs}
            if kinds - {"staticmethod", "property"}:
                continue
            impl = ast.FunctionDef("_%s_impl" % n.name.strip("_"), copy.deepcopy(n.args), [m for m in n.body if not (m is n.body[0] and doc(n.body))] or [ast.Pass()],
                                   [ast.Name("staticmethod", ast.Load())] if "staticmethod" in kinds else [])
            args = [a.arg for a in n.args.args]
            if "staticmethod" in kinds:
                tgt = ast.Attribute(ast.Name(par[n].name, ast.Load()), impl.name, ast.Load())
                call = ast.Call(tgt, [ast.Name(a, ast.Load()) for a in args], [])
            else:
                call = ast.Call(ast.Attribute(ast.Name(args[0], ast.Load()), impl.name, ast.Load()), [ast.Name(a, ast.Load()) for a in args[1:]], [])
            n.body = ([n.body[0]] if doc(n.body) else []) + [ast.Return(call)]
            par[n].body.insert(par[n].body.index(n) + 1, impl)
            old = n.name
        elif want == "rename" and isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and not any(isinstance(m, (ast.Global, ast.Nonlocal)) for m in ast.walk(f)):
            ids = n.id
            for m in ast.walk(f):
                if isinstance(m, ast.Name) and m.id == ids:
                    m.id = fresh
            if any(a.arg == ids for a in f.args.args):
                return None
        elif want == "aug" and isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and isinstance(n.op, (ast.Add, ast.Mult, ast.Sub)):
            # only numbers or freshly made arrays: judged by the tests
            q = par[n]
            for k, x in ast.iter_fields(q):
                if isinstance(x, list) and n in x:
                    x[x.index(n)] = ast.Assign([ast.Name(n.target.id, ast.Store())], ast.BinOp(ast.Name(n.target.id, ast.Load()), n.op, n.value))
        elif want == "comp" and isinstance(n, ast.ListComp) and len(n.generators) == 1 and isinstance(par[n], ast.Assign):
            st = par[n]
            q = par[st]
            blk = next((x for k, x in ast.iter_fields(q) if isinstance(x, list) and st in x), None)
            if blk is None or isinstance(q, (ast.ClassDef, ast.Module)):
                continue
            gen = n.generators[0]
            inner = ast.Expr(ast.Call(ast.Attribute(ast.Name(fresh, ast.Load()), "append", ast.Load()), [n.elt], []))
            for t in gen.ifs:
                inner = ast.If(t, [inner], [])
            i = blk.index(st)
            st.value = ast.Name(fresh, ast.Load())
            blk[i:i] = [ast.Assign([ast.Name(fresh, ast.Store())], ast.List([], ast.Load())), ast.For(gen.target, gen.iter, [inner], [])]
        elif want == "early" and isinstance(n, ast.If) and n.orelse and len(n.body) == 1 and isinstance(n.body[0], ast.Return):
            q = par[n]
            blk = next((x for k, x in ast.iter_fields(q) if isinstance(x, list) and n in x), None)
            i = blk.index(n)
            blk[i + 1:i + 1] = n.orelse
            n.orelse = []
        elif want == "alias" and isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and isinstance(n.ctx, ast.Load) and n.value.id in ("s", "c", "self"):
            vid, at = n.value.id, n.attr
            if any(isinstance(m, ast.Attribute) and isinstance(m.ctx, (ast.Store, ast.Del)) and m.attr == at for m in ast.walk(tree)) or vid == "self":
                continue
            st = n
            ok = True
            while not isinstance(st, ast.stmt):
                q = par[st]
                if isinstance(q, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.comprehension, ast.IfExp, ast.BoolOp)):
                    ok = False
                    break
                st = q
            q = par.get(st)
            blk = next((x for k, x in ast.iter_fields(q) if isinstance(x, list) and st in x), None) if ok else None
            if blk is None or not isinstance(st, (ast.Assign, ast.AugAssign, ast.Return)):
                continue
            for m in ast.walk(st):
                if isinstance(m, ast.Attribute) and isinstance(m.value, ast.Name) and m.value.id == vid and m.attr == at:
                    for k, x in ast.iter_fields(par[m]):
                        if x is m:
                            setattr(par[m], k, ast.Name(fresh, ast.Load()))
                        elif isinstance(x, list) and m in x:
                            x[x.index(m)] = ast.Name(fresh, ast.Load())
            blk.insert(blk.index(st), ast.Assign([ast.Name(fresh, ast.Store())], ast.Attribute(ast.Name(vid, ast.Load()), at, ast.Load())))
        else:
            continue
        ast.fix_missing_locations(tree)
        return getattr(n, "lineno", 0), old[:120], want
    return None


def names_of(tree, mod):
    out = [n.name for n in tree.body if isinstance(n, ast.ClassDef)]
    return ",".join(out + [mod])


def one(job):
    mode, k, mod, seed, rules = job
    rnd = random.Random(seed)
    src = open("%s/%s.py" % (SRC, mod)).read()
    tree = ast.parse(src)
    try:
        r = (bug if mode == "bug" else same)(tree, rnd)
        for _ in range(3 if mode == "same" else 0):
            (same)(tree, rnd)
    except Exception as e:
        return "mutator %r" % e
    if r is None:
        return None
    d = "/tmp/mut/%d" % k
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    try:
        for x in ("src", "tests", "pyproject.toml", "README.md"):
            p = "/repo/" + x
            if os.path.isdir(p):
                shutil.copytree(p, d + "/" + x, ignore=shutil.ignore_patterns("__pycache__"))
            elif os.path.exists(p):
                shutil.copy(p, d)
        try:
            new = ast.unparse(ast.fix_missing_locations(tree))
            compile(new, mod, "exec")
        except Exception as e:
            return "unparse %r" % e
        open("%s/src/pygmm/%s.py" % (d, mod), "w").write(new)
        env = dict(os.environ, PYTHONPATH=d + "/src", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg")
        try:
            p = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--no-cov", "tests"], cwd=d, env=env, capture_output=True, text=True, timeout=120)
        except subprocess.TimeoutExpired:
            return None
        if p.returncode:
            return None if mode == "bug" else "TESTS FAIL %s %s:%s %s" % (mode, mod, r, p.stdout[-300:])
        t = subprocess.run([sys.executable, HERE + "/one.py", names_of(ast.parse(src), mod)] + rules,
                           env=dict(os.environ, PYGMM_REPO=d, SA_DEBUG=""), capture_output=True, text=True, timeout=3000)
        out = t.stdout.strip() + (t.stderr.strip()[-300:] if t.returncode else "")
        verdict = "caught" if " FAIL " in out else "QUIET"
        if mode == "same":
            keep = d if " FAIL " in out or "BROKEN" in out or " open " in out else None
            if keep:
                os.makedirs("/tmp/mutkeep", exist_ok=True)
                shutil.copy("%s/src/pygmm/%s.py" % (d, mod), "/tmp/mutkeep/%d_%s.py" % (k, mod))
        elif verdict == "QUIET":
            os.makedirs("/tmp/mutkeep", exist_ok=True)
            shutil.copy("%s/src/pygmm/%s.py" % (d, mod), "/tmp/mutkeep/%d_%s.py" % (k, mod))
        return "%s %d %s:%d  %s -> %s\n    %s" % (verdict, k, mod, r[0], r[1][:100], r[2], out.replace("\n", "\n    "))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    mode, count, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    mods = [a for a in sys.argv[4:] if not (a[0] == "C" and a[1:].isdigit())]
    rules = [a for a in sys.argv[4:] if a[0] == "C" and a[1:].isdigit()]
    mods = mods or sorted(os.path.basename(p)[:-3] for p in glob.glob(SRC + "/*.py") if os.path.basename(p)[0] != "_"
                          and os.path.basename(p) not in ("tools.py", "types.py", "model.py"))
    jobs = [(mode, i, mods[i % len(mods)], seed * 100003 + i, rules) for i in range(count)]
    n = {"caught": 0, "QUIET": 0}
    with cf.ThreadPoolExecutor(8) as ex:
        for f in cf.as_completed([ex.submit(one, j) for j in jobs]):
            r = f.result()
            if r is None:
                continue
            n[r.split()[0]] = n.get(r.split()[0], 0) + 1
            print(r, flush=True)
    print(n)


main()
