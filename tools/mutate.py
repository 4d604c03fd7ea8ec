#!/opt/veriftools/pyvenv/bin/python3
"""mutate.py gen|tests|oracles|checks OUT [file-filter]: systematic mutants of /repo/wampproto, to find what the checks miss.

gen      write OUT/mutants.json: (file, start, end, new text, line, description)
tests    which of them pass the repository's tests -> OUT/alive.json
oracles  which of those the bounded native search finds -> OUT/oracles.json
checks   the full quick check of every property of the file for those it does not find -> OUT/checks.json
"""
import ast, json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

REPO = "/repo"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
OF = [("messages/", "M01 M02 M03 M04 M05 M07"), ("serializers/payload", "M06"), ("serializers/serializer", "M04 M05"), ("serializers/", "M05"),
      ("transports/", "R01 R02"), ("idgen", "I01"), ("auth/wampcra", "K01 H01"), ("auth/cryptosign", "K02 H01"),
      ("auth/", "K01 K02 H01 A03 J01"), ("session", "S01 S02"), ("acceptor", "A01 A02 A03 H01"), ("joiner", "J01 H01"), ("broker", "B01 B02"),
      ("dealer", "D01 D02 D03 D04"), ("types", "B01 B02 D01 D02 D03 A03 J01 H01"), ("exception", "J01"), ("uris", "A02")]


def props(f):
    return next((p.split() for k, p in OF if f.startswith(k)), [])


def files():
    for d, _, fs in os.walk(REPO + "/wampproto"):
        for f in sorted(fs):
            if f.endswith(".py") and f != "__init__.py":
                yield os.path.relpath(os.path.join(d, f), REPO + "/wampproto")


CMP = {ast.Eq: ["!="], ast.NotEq: ["=="], ast.Lt: ["<=", ">"], ast.LtE: ["<"], ast.Gt: [">=", "<"], ast.GtE: [">"], ast.In: ["not in"],
       ast.NotIn: ["in"], ast.Is: ["is not"], ast.IsNot: ["is"]}
OPS = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["+"], ast.Pow: ["*"], ast.LShift: [">>"], ast.RShift: ["<<"], ast.BitAnd: ["|"], ast.BitOr: ["&"]}


def mutants(f):
    src = open(os.path.join(REPO, "wampproto", f), encoding="utf-8").read()
    tree = ast.parse(src)
    starts = [0]
    for l in src.splitlines(True):
        starts.append(starts[-1] + len(l.encode()))
    b = src.encode()

    def pos(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        s, e = pos(n)
        return b[s:e].decode()

    out = []

    def add(n, new, what):
        s, e = pos(n)
        if text(n) != new:
            out.append((f, s, e, new, n.lineno, what))

    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Raise, ast.JoinedStr, ast.arg, ast.AnnAssign)):
            for m in ast.walk(n):
                if m is not n and not (isinstance(n, ast.AnnAssign) and n.value is not None and m in list(ast.walk(n.value))):
                    skip.add(id(m))
        if isinstance(n, ast.FunctionDef):
            for r in [n.returns] + [a.annotation for a in n.args.args]:
                if r is not None:
                    for m in ast.walk(r):
                        skip.add(id(m))
    attrs = sorted({n.attr for n in ast.walk(tree) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self"})
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                add(n, f"{text(n.left)} {o} {text(n.comparators[0])}", "compare")
        if isinstance(n, ast.BoolOp):
            o = " or " if isinstance(n.op, ast.And) else " and "
            add(n, "(" + o.join(f"({text(v)})" for v in n.values) + ")", "and/or")
            for v in n.values:
                rest = [f"({text(w)})" for w in n.values if w is not v]
                add(n, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join(rest) + ")", "drop operand")
        if isinstance(n, ast.BinOp):
            for o in OPS.get(type(n.op), []):
                add(n, f"({text(n.left)} {o} {text(n.right)})", "operator")
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            if not isinstance(n.test, ast.Compare):
                add(n.test, f"not ({text(n.test)})", "negate")
            add(n.test, "True", "condition True") if ":=" not in text(n.test) else None
            add(n.test, "False", "condition False") if ":=" not in text(n.test) else None
        if isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                add(n, repr(not v), "flip")
            elif isinstance(v, int):
                add(n, repr(v + 1), "constant+1")
                add(n, f"({v - 1})", "constant-1")
            elif isinstance(v, str) and v and not v.startswith("{") and len(v) < 40:
                add(n, repr(v + "x"), "string")
            elif v is None:
                pass
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            if "super().__init__" not in text(n):
                add(n, "pass", "delete statement")
        if isinstance(n, ast.Return) and n.value is not None:
            add(n, "return None", "return None")
        if isinstance(n, ast.Raise) and n.exc is not None:
            add(n, "pass", "no raise")
            add(n, "raise KeyError('x')", "raise other")
        if isinstance(n, ast.Call):
            for a in n.args:
                if not isinstance(a, (ast.Constant, ast.Starred)):
                    add(a, "None", "argument None")
            for k in n.keywords:
                if k.arg:
                    add(k.value, "None", "keyword None")
            for x, y in zip(n.args, n.args[1:]):
                if not isinstance(x, ast.Starred) and not isinstance(y, ast.Starred):
                    s, e = pos(x)[0], pos(y)[1]
                    out.append((f, s, e, text(y) + ", " + text(x), x.lineno, "swap arguments"))
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self":
            i = attrs.index(n.attr)
            for j in (1, 2):
                o = attrs[(i + j) % len(attrs)]
                add(n, "self." + o, "other attribute")
        if isinstance(n, ast.Dict) and len(n.keys) > 1:
            for i in range(len(n.keys)):
                add(n, "{" + ", ".join(f"{text(k)}: {text(v)}" if k is not None else f"**{text(v)}"
                                      for j, (k, v) in enumerate(zip(n.keys, n.values)) if j != i) + "}", "drop entry")
    seen, res = set(), []
    for m in out:
        new = b[:m[1]] + m[3].encode() + b[m[2]:]
        if new in seen:
            continue
        seen.add(new)
        try:
            compile(new.decode(), f, "exec")
        except (SyntaxError, ValueError):
            continue
        res.append(m)
    return res


def apply(d, m):
    p = os.path.join(d, "wampproto", m[0])
    b = open(os.path.join(REPO, "wampproto", m[0]), "rb").read()
    open(p, "wb").write(b[:m[1]] + m[3].encode() + b[m[2]:])
    return p


def undo(d, m):
    shutil.copy(os.path.join(REPO, "wampproto", m[0]), os.path.join(d, "wampproto", m[0]))


def show(m):
    b = open(os.path.join(REPO, "wampproto", m[0]), "rb").read()
    return f"{m[0]}:{m[4]} {m[5]}: {b[m[1]:m[2]].decode()[:60]!r} -> {m[3][:60]!r}"


def pool(items, fn, width):
    dirs = []
    for _ in range(width):
        d = tempfile.mkdtemp(prefix="mu.", dir="/tmp")
        subprocess.run(f"git -C /repo archive HEAD | tar -x -C {d}", shell=True, check=True)
        dirs.append(d)
    free = list(dirs)

    def one(m):
        d = free.pop()
        try:
            apply(d, m)
            return fn(d, m)
        finally:
            undo(d, m)
            free.append(d)

    try:
        with ThreadPoolExecutor(width) as ex:
            return list(ex.map(one, items))
    finally:
        for d in dirs:
            shutil.rmtree(d, ignore_errors=True)


def main():
    what, out = sys.argv[1:3]
    flt = sys.argv[3:]
    os.makedirs(out, exist_ok=True)
    J = lambda n: os.path.join(out, n)
    if what == "gen":
        ms = [m for f in files() if not flt or any(f.startswith(x) for x in flt) for m in mutants(f)]
        json.dump(ms, open(J("mutants.json"), "w"))
        print(len(ms))
    elif what == "tests":
        ms = json.load(open(J("mutants.json")))

        def fn(d, m):
            try:
                r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-x", "-q", "-p", "no:cacheprovider", "tests",
                                    "--ignore=tests/interoptests"], cwd=d, env=ENV, capture_output=True, text=True, timeout=60)
                return r.returncode == 0
            except subprocess.TimeoutExpired:
                return False
        res = pool(ms, fn, 8)
        al = [m for m, r in zip(ms, res) if r]
        json.dump(al, open(J("alive.json"), "w"))
        print(len(ms), len(al))
    elif what == "oracles":
        al = json.load(open(J("alive.json")))
        found = {}
        if os.path.exists(J("oracles.json")):
            found = {tuple(m): r for m, r in json.load(open(J("oracles.json"))) if r and not r.startswith("ERROR")}

        def fn(d, m):
            if tuple(m) in found:
                return found[tuple(m)]
            for p in props(m[0]):
                code = (f"import sys; sys.argv=['x']; sys.path[:0]=['/verif']; import check, importlib; from oracle import base\n"
                        f"o=check.PROPS['{p}']; r=check.run_native(o[2], o[3], 5, 4, 40000, [])\n"
                        f"print('FOUND' if r['why'] else 'none', r['why'], r['error'])")
                r = subprocess.run(["python3-vt", "-c", code], env=dict(ENV, VERIF_REPO=d), capture_output=True, text=True, timeout=200)
                if r.stdout.startswith("FOUND"):
                    return p
                if r.returncode or not r.stdout.startswith("none None None"):
                    return "ERROR " + (r.stdout + r.stderr)[-300:]
            return None
        res = pool(al, fn, 8)
        json.dump([(m, r) for m, r in zip(al, res)], open(J("oracles.json"), "w"))
        for m, r in zip(al, res):
            if r is None or r.startswith("ERROR"):
                print(r, show(m))
        print(len(al), sum(1 for r in res if r is None))
    elif what == "checks":
        rs = [m for m, r in json.load(open(J("oracles.json"))) if r is None or r.startswith("ERROR")]
        done = json.load(open(J("checks.json"))) if os.path.exists(J("checks.json")) else []
        have = {tuple(m) for m, _ in done}

        def fn(d, m):
            got = []
            for p in props(m[0]):
                r = subprocess.run(["python3-vt", "/verif/check.py", p], env=dict(ENV, VERIF_REPO=d), capture_output=True, text=True)
                if r.returncode == 1:
                    got.append(p + ("!" if "no-failing" in r.stdout.splitlines()[-1] else ""))
                    break
                if r.returncode or "UNDECIDED" in r.stdout:
                    got.append(p + "?")
            return got
        for m in rs:
            if tuple(m) in have or flt and not any(m[0].startswith(x) for x in flt):
                continue
            r = pool([m], fn, 1)[0]
            print(r, show(m), flush=True)
            done.append((m, r))
            json.dump(done, open(J("checks.json"), "w"))


main()
