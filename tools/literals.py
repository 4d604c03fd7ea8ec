"""Writes oracle/literals.json: the literals of the tree as it is, so that the generators can favour those a change adds."""
import ast
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = {"str": set(), "int": set(), "rest": set()}
for d, _, fs in os.walk(os.path.join(os.environ.get("VERIF_REPO", "/repo"), "wampproto")):
    for f in fs:
        if f.endswith(".py"):
            for n in ast.walk(ast.parse(open(os.path.join(d, f), encoding="utf-8").read())):
                if isinstance(n, ast.Constant):
                    if isinstance(n.value, str):
                        out["str"].add(n.value)
                    elif isinstance(n.value, int) and not isinstance(n.value, bool):
                        out["int"].add(n.value)
                    else:
                        out["rest"].add(repr(n.value))
                elif isinstance(n, ast.BinOp):
                    try:
                        v = eval(compile(ast.Expression(n), "x", "eval"), {"__builtins__": {}})
                    except Exception:
                        continue
                    if isinstance(v, int):
                        out["int"].add(v)
with open(os.path.join(HERE, "oracle", "literals.json"), "w", encoding="utf-8") as fh:
    json.dump({k: sorted(v) for k, v in out.items()}, fh, indent=0)
    fh.write("\n")
