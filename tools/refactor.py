#!/opt/veriftools/pyvenv/bin/python3
"""refactor.py DEFS [id…]: apply each behaviour-preserving edit of DEFS to a scratch copy of /repo and run the named checks there.

DEFS is a Python file with a list REFS of dicts: id, edits [(file, old, new)], checks. Every check must stay quiet.
"""
import os, shutil, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plant import tree, ENV


def main():
    defs = {}
    exec(open(sys.argv[1]).read(), defs)
    only = sys.argv[2:]
    for b in defs["REFS"]:
        if only and b["id"] not in only:
            continue
        d = tree()
        try:
            for f, old, new in b["edits"]:
                p = os.path.join(d, "wampproto", f)
                s = open(p).read()
                if s.count(old) < 1:
                    raise LookupError((b["id"], f, old[:200]))
                open(p, "w").write(s.replace(old, new))
            t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests",
                                "--ignore=tests/interoptests"], cwd=d, env=ENV, capture_output=True, text=True)
            if t.returncode:
                print(f"{b['id']}: TESTS FAIL", t.stdout[-900:], flush=True)
                continue
            for c in b["checks"].split():
                t0 = time.time()
                r = subprocess.run(["python3-vt", "/verif/check.py", c], cwd="/verif",
                                   env=dict(os.environ, VERIF_REPO=d, VERIF_SEED="1"), capture_output=True, text=True)
                und = [l for l in r.stdout.splitlines() if l.startswith("UNDECIDED")]
                print(f"{b['id']} {c}: exit {r.returncode} {time.time() - t0:.0f} s",
                      "ALARM" if r.returncode else "", f"undecided: {und[0][:220]} ({len(und)})" if und else "proved", flush=True)
                if r.returncode:
                    print(r.stdout[-1500:], r.stderr[-500:])
        except LookupError as x:
            print(f"{b['id']}: does not apply: {x}", flush=True)
        finally:
            shutil.rmtree(d, ignore_errors=True)


main()
