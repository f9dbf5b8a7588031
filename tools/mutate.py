"""
Mutation of the package: python3 tools/mutate.py OUTDIR [jobs] [part/parts]

Makes small changes to every expression of the package, keeps those with which the tests of the
repository still pass, and looks for a check that sees them. OUTDIR/alive.txt: those that none sees.
"""
import ast, concurrent.futures, json, os, random, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
FILES = ["file_handler.py", "main.py", "sql_formatter.py", "sql_validator.py", "grammar/tokeniser.py", "grammar/lexer.py", "grammar/sql.py"]
SKIP = ("__repr__", "__eq__", "__hash__", "__str__", "print_summary")
SWAP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}


def mutants(path):
    source = open(path, encoding="utf-8").read()
    tree = ast.parse(source)
    lines = source.encode().splitlines(keepends=True)
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l))
    data = source.encode()

    def at(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = at(n)
        return data[a:b].decode()

    out = []

    def put(n, new, kind):
        a, b = at(n)
        out.append((n.lineno, kind, data[a:b].decode(), new, (data[:a] + new.encode() + data[b:]).decode()))

    def visit(n, func):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            if n.name in SKIP:
                return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            op = SWAP[type(n.ops[0])]
            put(n, "(%s %s %s)" % (text(n.left), op, text(n.comparators[0])), "compare")
        if isinstance(n, ast.BoolOp):
            for i in range(len(n.values)):
                rest = [text(v) for k, v in enumerate(n.values) if k != i]
                word = " and " if isinstance(n.op, ast.And) else " or "
                put(n, "(" + word.join("(%s)" % r for r in rest) + ")", "operand")
            if len(n.values) == 2:
                word = " or " if isinstance(n.op, ast.And) else " and "
                put(n, "(" + word.join("(%s)" % text(v) for v in n.values) + ")", "andor")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            put(n, "(%s)" % text(n.operand), "not")
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            put(n.test, "(not (%s))" % text(n.test), "negate")
            put(n.test, "False", "never")
            if not isinstance(n, ast.While):
                put(n.test, "True", "always")
        if isinstance(n, ast.Call):
            name = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else ""
            if name in ("lower", "upper", "strip", "rstrip", "lstrip") and isinstance(n.func, ast.Attribute):
                put(n, text(n.func.value), "method")
            elif name in ("lower", "upper", "transform", "set", "sorted", "list", "str") and len(n.args) == 1:
                put(n, "(%s)" % text(n.args[0]), "call")
            for k in n.keywords:
                if k.arg:
                    a, b = at(k.value)
                    if isinstance(k.value, ast.Constant) and isinstance(k.value.value, bool):
                        put(k.value, str(not k.value.value), "flag")
                    else:
                        put(k.value, "None", "keyword")
        if isinstance(n, (ast.Tuple, ast.Set, ast.List)) and len(n.elts) > 1 and isinstance(getattr(n, "ctx", ast.Load()), ast.Load):
            for i in range(len(n.elts)):
                rest = ", ".join(text(e) for k, e in enumerate(n.elts) if k != i)
                o, c = ("{", "}") if isinstance(n, ast.Set) else ("[", "]") if isinstance(n, ast.List) else ("(", ",)")
                put(n, o + rest + c, "element")
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                put(n, str(not n.value), "bool")
            elif isinstance(n.value, int):
                put(n, str(n.value + 1), "plus")
                if n.value:
                    put(n, str(n.value - 1), "minus")
        if isinstance(n, ast.BinOp):
            put(n, "(%s)" % text(n.left), "left")
            put(n, "(%s)" % text(n.right), "right")
        if isinstance(n, (ast.AugAssign,)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            put(n, "pass", "drop")
        if isinstance(n, ast.Assign) and func:
            if len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and not isinstance(n.value, ast.Constant):
                put(n.value, "None", "none")
        if isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            put(n.value, "None", "return")
        if isinstance(n, ast.Break):
            put(n, "continue", "break")
        if isinstance(n, ast.Continue):
            put(n, "pass", "continue")
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            put(n, text(n.value), "slice")
        if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            for g in n.generators:
                for t in g.ifs:
                    put(t, "True", "filter")
        for name, value in ast.iter_fields(n):
            if name in ("annotation", "returns", "decorator_list"):
                continue
            for child in value if isinstance(value, list) else [value]:
                if isinstance(child, ast.Expr) and isinstance(child.value, ast.Constant):
                    continue
                if isinstance(child, ast.AST):
                    visit(child, func or isinstance(n, ast.FunctionDef))

    visit(tree, False)
    seen, keep = {ast.dump(tree)}, []
    for m in out:
        try:
            d = ast.dump(ast.parse(m[4]))
        except SyntaxError:
            continue
        if d not in seen:
            seen.add(d)
            keep.append(m)
    return keep


def original(rel):
    """Line numbers that stem from the original repository"""
    lines = subprocess.run("git blame -s -w sqlvalidator/" + rel, shell=True, cwd=REPO, capture_output=True, text=True).stdout.splitlines()
    return {i for i, line in enumerate(lines, 1) if line.startswith("^")}


def tests_pass(tree):
    env = dict(os.environ, PYTHONNOUSERSITE="1", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
    try:
        run = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=20", "tests"], cwd=tree, env=env, capture_output=True, timeout=60)
    except subprocess.TimeoutExpired:
        return False
    return run.returncode == 0


HAND = ["c26", "c15", "c17", "c19", "c16", "c18", "c20", "c21", "c22", "c01", "c03", "c08", "c07", "c06"]
FORM = ["c05", "c01", "c24", "c09", "c08", "c25", "c12", "c10", "c11", "c13", "c22", "c02", "c04", "c03", "c14", "c23", "c16", "c19", "c15", "c07", "c06"]


def seen_by(tree, checks, seconds):
    env = dict(os.environ, SVV_REPO=tree, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
    run = subprocess.run([sys.executable, "-B", os.path.abspath(__file__), "--look", ",".join(checks), str(seconds)], env=env, capture_output=True, text=True, errors="replace", cwd=HERE)
    return (run.stdout.strip().splitlines() or ["broken " + run.stderr[-300:]])[-1].replace("\n", " ")


def look(checks, seconds):
    import importlib, time

    sys.path.insert(0, HERE)
    from svv import core

    core.load_package()
    for name in checks:
        check = importlib.import_module("svv.checks." + name)
        # a third of the time for the fixed cases
        end = time.time() + seconds / 3
        cases = list(check.fixed("quick")) if hasattr(check, "fixed") else []
        random.Random(1).shuffle(cases)
        for c in cases:
            p, s = core.guarded(check.judge, c, 20)
            if p:
                print("seen %s %s" % (name, repr(p[0])[:200]))
                return
            if time.time() > end:
                break
        end = time.time() + seconds
        i = 0
        while time.time() < end:
            rng = random.Random("%s/%d/%d" % (name, 77, i))
            i += 1
            try:
                p, s = core.guarded(check.judge, check.make(rng, "quick"), 20)
            except Exception as e:
                print("seen %s (machinery: %r)" % (name, e))
                return
            if p:
                print("seen %s %s" % (name, repr(p[0])[:200]))
                return
    print("alive")


def one(job):
    rel, (line, kind, old, new, source), seconds = job
    top = tempfile.mkdtemp(prefix="svvmut")
    try:
        shutil.copytree(REPO + "/sqlvalidator", top + "/sqlvalidator", ignore=shutil.ignore_patterns("__pycache__"))
        shutil.copytree(REPO + "/tests", top + "/tests", ignore=shutil.ignore_patterns("__pycache__"))
        open(os.path.join(top, "sqlvalidator", rel), "w", encoding="utf-8").write(source)
        if not tests_pass(top):
            return job, "tests"
        return job, seen_by(top, HAND if rel in ("file_handler.py", "main.py") else FORM, seconds)
    finally:
        shutil.rmtree(top, ignore_errors=True)


def main():
    out, jobs = sys.argv[1], int(sys.argv[2])
    part, parts = map(int, (sys.argv[3] if len(sys.argv) > 3 else "0/1").split("/"))
    only = sys.argv[4].split(",") if len(sys.argv) > 4 else FILES
    os.makedirs(out, exist_ok=True)
    todo = [(rel, m, 3) for rel in FILES if rel in only for m in mutants(os.path.join(REPO, "sqlvalidator", rel))]
    # first the lines of the original repository
    first = {rel: original(rel) for rel in FILES}
    random.Random(5).shuffle(todo)
    todo.sort(key=lambda j: j[1][0] not in first[j[0]])
    print(sum(j[1][0] in first[j[0]] for j in todo), "in original lines")
    todo = todo[part::parts][int(os.environ.get("SKIP", "0")) :]
    print(len(todo), "mutants", flush=True)
    done = 0
    with concurrent.futures.ThreadPoolExecutor(jobs) as pool, open(out + "/alive.txt", "a") as alive, open(out + "/seen.txt", "a") as seen:
        for (rel, m, _), what in pool.map(one, todo):
            done += 1
            line = "%s:%d %s | %r -> %r | %s\n" % (rel, m[0], m[1], m[2][:150], m[3][:150], what)
            if what.startswith("alive"):
                alive.write(line)
                alive.flush()
            elif what != "tests":
                seen.write(line)
                seen.flush()
            if done % 50 == 0:
                print(done, flush=True)


if __name__ == "__main__":
    if sys.argv[1] == "--look":
        look(sys.argv[2].split(","), float(sys.argv[3]))
    else:
        main()
