#!/opt/veriftools/pyvenv/bin/python3
"""plant.py DEFS [id…]: make /verif/seeded/<id>/ from the definitions in DEFS, confirm each in a scratch copy of /repo, and run
its property's quick check against that copy.

DEFS is a Python file with a list BUGS of dicts: id, property, edits [(file, old, new)], demo, needs, breaks.
"""
import json, os, shutil, subprocess, sys, tempfile, time

SEEDED = "/verif/seeded"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")


def tree():
    d = tempfile.mkdtemp(prefix="plant.", dir="/tmp")
    subprocess.run(f"git -C /repo archive HEAD | tar -x -C {d}", shell=True, check=True)
    subprocess.run(["git", "init", "-q"], cwd=d, check=True)
    subprocess.run("git add -A && git -c user.name=x -c user.email=x@x commit -qm base", shell=True, cwd=d, check=True)
    return d


def main():
    defs = {}
    exec(open(sys.argv[1]).read(), defs)
    only = [a for a in sys.argv[2:] if not a.startswith("-")]
    check = "-n" not in sys.argv
    for b in defs["BUGS"]:
        if only and b["id"] not in only:
            continue
        d = tree()
        out = os.path.join(SEEDED, b["id"])
        try:
            for f, old, new in b["edits"]:
                p = os.path.join(d, "wampproto", f)
                s = open(p).read()
                assert s.count(old) == 1, (b["id"], f, s.count(old), old)
                open(p, "w").write(s.replace(old, new))
            diff = subprocess.run(["git", "diff"], cwd=d, capture_output=True, text=True).stdout
            t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests",
                                "--ignore=tests/interoptests"], cwd=d, env=ENV, capture_output=True, text=True)
            if t.returncode:
                print(f"{b['id']}: TESTS FAIL", t.stdout[-600:], flush=True)
                continue
            os.makedirs(out, exist_ok=True)
            open(out + "/patch.diff", "w").write(diff)
            open(out + "/demo.py", "w").write(b["demo"].lstrip("\n"))
            open(out + "/demo.sh", "w").write(
                '#!/bin/bash\nhere=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\n'
                'exec timeout 120 /opt/venv/bin/python -W ignore "$here/demo.py"\n')
            os.chmod(out + "/demo.sh", 0o755)
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                      open(out + "/meta.json", "w"), indent=1)
            good = subprocess.run([out + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
            bad = subprocess.run([out + "/demo.sh"], cwd=d, capture_output=True, text=True)
            ok = good.returncode == 0 and bad.returncode != 0
            print(f"{b['id']}: tests pass, demo {'ok' if ok else 'BAD'} ({good.returncode}/{bad.returncode})",
                  "" if ok else good.stderr[-400:] + bad.stderr[-300:], bad.stderr.strip().splitlines()[-1:] , flush=True)
            if check and ok:
                t0 = time.time()
                r = subprocess.run(["python3-vt", "/verif/check.py", b["property"]], cwd="/verif",
                                   env=dict(os.environ, VERIF_REPO=d, VERIF_SEED="1"), capture_output=True, text=True)
                v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
                print(f"   check exit {r.returncode} in {time.time() - t0:.0f} s: {v[:1] or 'MISSED'}", flush=True)
                for l in r.stdout.splitlines():
                    if not l.startswith("VIOLATION"):
                        print("      ", l[:230])
        finally:
            shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    main()
