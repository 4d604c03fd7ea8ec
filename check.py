#!/opt/veriftools/pyvenv/bin/python3
"""Decide one property of /repo's current tree:  check.py PROPERTY [--tier quick|thorough] [--replay FILE]

Every contract task of the property is discharged by the deductive verifier (pyvc, z3) on the current source;
the same contracts run natively on CPython over generated inputs as a cross-check, to replay refutations, and
as the labelled bounded stand-in for anything the verifier leaves undecided.
"""
import argparse
import ast
import importlib
import json
import multiprocessing
import multiprocessing.connection
import os
import re
import resource
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path[:0] = [REPO, HERE]
sys.path.append("/opt/venv/lib/python3.12/site-packages")
sys.setrecursionlimit(20000)
from oracle.base import Clock
Clock.install()

#        property: (contract module, task list, oracle module, oracle class)
PROPS = {
    "M01": ("messages", "tasks_m01", "messages", "M01"),
    "M02": ("messages", "tasks_m02", "messages", "M02"),
    "M03": ("messages", "tasks_m03", "messages", "M03"),
    "M04": ("messages", "tasks_m04", "messages", "M04"),
    "M05": ("codec", "tasks_m05", "messages", "M05"),
    "M06": ("codec", "tasks_m06", "messages", "M06"),
    "M07": ("messages", "tasks_m07", "messages", "M07"),
    "R01": ("wire", "tasks_r01", "wire", "R01"),
    "R02": ("wire", "tasks_r02", "wire", "R02"),
    "S01": ("session", "tasks_s01", "session", "S01"),
    "S02": ("session", "tasks_s02", "session", "S02"),
    "I01": ("wire", "tasks_i01", "wire", "I01"),
    "A01": ("acceptor", "tasks_a01", "handshake", "A01"),
    "A02": ("acceptor", "tasks_a02", "handshake", "A02"),
    "J01": ("joiner", "tasks_j01", "handshake", "J01"),
    "H01": ("handshake", "tasks_h01", "handshake", "H01"),
    "A03": ("acceptor", "tasks_a03", "handshake", "A03"),
    "B01": ("broker", "tasks_b01", "router", "B01"),
    "B02": ("broker", "tasks_b02", "router", "B02"),
    "D01": ("dealer", "tasks_d01", "router", "D01"),
    "D02": ("dealer", "tasks_d02", "router", "D02"),
    "D03": ("dealer", "tasks_d03", "router", "D03"),
    "D04": ("dealer", "tasks_d04", "router", "D04"),
    "K01": ("crypto", "tasks_k01", "crypto", "K01"),
    "K02": ("crypto", "tasks_k02", "crypto", "K02"),
}

TIERS = {
    # seconds and cases of native search per process; number of processes; VCs per task given to the second solver
    "quick": {"native_s": 8, "native_procs": 3, "max_cases": 40000, "cross": 0, "budget": 1, "extra_s": 30, "extra_procs": 8,
              "limit": 560, "grace": 60},
    "thorough": {"native_s": 90, "native_procs": 8, "max_cases": 10 ** 7, "cross": 40, "budget": 3, "extra_s": 90, "extra_procs": 8,
                 "limit": 3000, "grace": 600},
}


def run_jobs(jobs, width=8, until=None):
    """Run (key, seconds, fn, args) each in a forked process of its own; yields (key, result or None).

    Jobs not done at the time `until` (a function, the time may move) end without a result."""
    ctx = multiprocessing.get_context("fork")
    todo, live, told = list(jobs), {}, None

    def child(conn, fn, args):
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        signal.signal(signal.SIGALRM, on_alarm)
        try:
            conn.send(fn(*args))
        except BaseException as x:
            try:
                conn.send(("__error__", f"{type(x).__name__}: {x}"))
            except BaseException:
                pass
        conn.close()
        os._exit(0)

    try:
        while todo or live:
            while todo and len(live) < width:
                key, secs, fn, args = todo.pop(0)
                rd, wr = ctx.Pipe(False)
                p = ctx.Process(target=child, args=(wr, fn, args))
                p.start()
                wr.close()
                live[rd] = (key, p, time.time() + secs)
            for rd in multiprocessing.connection.wait(list(live), timeout=0.5):
                key, p, _ = live.pop(rd)
                try:
                    r = rd.recv()
                except (EOFError, OSError):
                    r = None
                rd.close()
                p.join(5)
                if p.is_alive():
                    p.kill()
                yield key, r
            over = until and time.time() > until()
            if over:
                for key, *_ in todo:
                    yield key, None
                todo = []
                if not told:
                    told = time.time()
                    for _, p, _ in live.values():
                        if p.is_alive():
                            os.kill(p.pid, signal.SIGALRM)     # what it has found so far still counts
            for rd, (key, p, limit) in list(live.items()):
                if time.time() > limit or over and time.time() > told + 25:
                    live.pop(rd)
                    p.kill()
                    p.join(5)
                    yield key, None
    finally:
        for _, p, _ in live.values():
            p.kill()


class Alarm(Exception):
    pass


def on_alarm(*_):
    raise Alarm()


def run_task(module, tasks, index, tier):
    """Verify one task; everything a caller needs to know as plain data."""
    from pyvc.core import Unsupported, STATS
    from pyvc.interp import Interp
    t = getattr(importlib.import_module("contracts." + module), tasks)()[index]
    e = Interp(quantified=t.quantified)
    e.cross_budget = TIERS[tier]["cross"]
    if tier == "thorough":
        e.prove_ms = 20000
    e.deadline = time.time() + t.budget * TIERS[tier]["budget"]
    out = {"task": t.name, "doc": t.doc, "error": None, "bounded": t.bounded, "needs": list(t.needs)}
    t0 = time.time()
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(int(t.budget * TIERS[tier]["budget"]) + 60)
    try:
        if t.setup:
            t.setup(e)
        e.explore(lambda: t.fn(e))
    except Unsupported as x:
        out["error"] = f"not decided: {x}"
    except Alarm:
        out["error"] = "not decided: time limit of the task"
    except RecursionError:
        out["error"] = "not decided: recursion too deep"
    except MemoryError:
        out["error"] = "not decided: out of memory"
    except Exception as x:
        out["error"] = f"not decided: verifier could not follow the code ({type(x).__name__}: {x})"
        out["trace"] = traceback.format_exc()[-1500:]
    signal.alarm(0)
    out.update(paths=e.paths, results=e.results, covers=e.covers, functions=e.functions, contracts=e.contracts_used,
               notes=e.notes, time=time.time() - t0, solver=dict(STATS), cross=getattr(e, "cross_result", None))
    return out


def run_native(module, cls, seed, budget, cases, hints):
    from oracle import base
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(int(budget) + 60)
    try:
        oracle = getattr(importlib.import_module("oracle." + module), cls)()
        case, why, stats = base.search(oracle, seed, budget, cases, hints)
    except Alarm:
        return {"case": None, "why": None, "stats": {"cases": 0, "distinct": 0, "samples": [], "time": budget}, "error": "time limit"}
    except Exception:
        return {"case": None, "why": None, "stats": {"cases": 0, "distinct": 0, "samples": [], "time": 0},
                "error": traceback.format_exc()[-3000:]}
    finally:
        signal.alarm(0)
    return {"case": repr(case) if why else None, "why": why, "stats": stats, "error": None}


def replay(prop, path):
    from oracle import base
    d = json.load(open(path))
    if not d.get("case"):
        print(f"{path}: no failing input recorded; failed obligations:")
        for f in d.get("failed", []):
            print("  ", f["obligation"], "-", f["status"])
        return 1
    oracle = getattr(importlib.import_module("oracle." + PROPS[prop][2]), PROPS[prop][3])()
    why = base.run_one(oracle, eval(d["case"], {"__builtins__": {"bytearray": bytearray, "set": set, "frozenset": frozenset}},
                                    {"inf": float("inf"), "nan": float("nan")}))
    print(f"replay of {path}: " + (f"fails: {why}" if why else "holds"))
    return 1 if why else 0


def known_findings(prop):
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            m = re.match(r"known: property=(\S+) match=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.selftest or not a.prop:
        from pyvc import selftest
        bad = selftest.run()
        if not bad:
            from pyvc.battery import run as battery
            counts, wrong = battery.run()
            print("the verifier against Python:", ", ".join(f"{k}: {n}" for k, n in sorted(counts.items())))
            bad = "\n".join(wrong)
        print(bad or "self-test passed")
        return 3 if bad else 0
    if a.replay:
        return replay(a.prop, a.replay)
    t0 = time.time()
    cfg = TIERS[a.tier]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cmod, tasks, omod, ocls = PROPS[a.prop]
    from pyvc import selftest
    bad = selftest.run()
    if bad:
        print(f"the verifier fails its self-test: {bad}")
        return 3
    undecided, failed, native, results = [], [], [], []
    try:
        todo = getattr(importlib.import_module("contracts." + cmod), tasks)()
    except Exception as x:
        todo = []
        undecided.append(f"the contracts no longer fit the code: {type(x).__name__}: {x}")
    jobs = [(("native", i), cfg["native_s"] + 90, run_native, (omod, ocls, seed * 1000 + i, cfg["native_s"], cfg["max_cases"], []))
            for i in range(cfg["native_procs"])]
    order = sorted(range(len(todo)), key=lambda i: -todo[i].weight)
    tj = [(("task", i), todo[i].budget * cfg["budget"] + 90, run_task, (cmod, tasks, i, a.tier)) for i in order]
    heavy = [j for j in tj if todo[j[0][1]].weight > 1]
    end = [t0 + cfg["limit"]]
    for (what, i), r in run_jobs(heavy + jobs + [j for j in tj if j not in heavy], until=lambda: end[0]):
        if r is None or isinstance(r, tuple):
            undecided.append(f"{todo[i].name if what == 'task' else 'native cross-check'}: worker ended {r[1] if r else ''}")
        else:
            (results if what == "task" else native).append(r)
            if what == "native" and r["why"]:
                end[0] = min(end[0], time.time() + cfg["grace"])      # the verdict is in; what else fails is told if it comes soon
    vcs = discharged = 0
    obligations, functions, contracts, bounded, covers = {}, set(), {}, [], {}
    solver = {"checks": 0, "time": 0.0, "max": 0.0}
    cross = {"checked": 0, "agreed": 0, "unknown": 0, "disagreed": 0}
    for r in sorted(results, key=lambda r: r["task"]):
        if a.v:
            print(f"{r['task']}: {r['paths']} paths, {len(r['results'])} obligations, {r['time']:.1f}s {r['error'] or ''}")
        if r["error"]:
            undecided.append(f"{r['task']}: {r['error']}")
            if a.v and r.get("trace"):
                print(r["trace"])
        for n, x in r["results"].items():
            vcs += x["vcs"]
            discharged += x["discharged"]
            o = obligations.setdefault(n, [0, 0])
            o[0] += x["vcs"]
            o[1] += x["discharged"]
            for f in x["failed"]:
                f["task"] = r["task"]
                if f["status"] == "undecided":
                    undecided.append(f"{n}: {f['reason'] or 'approximated'}")
                else:
                    failed.append(f)
        for n in r["needs"]:
            if not r["error"] and not r["covers"].get(n):
                undecided.append(f"{r['task']}: never reached: {n}")
        for n, c in r["covers"].items():
            covers[n] = covers.get(n, False) or c
        if not r["error"] and not r["results"]:
            undecided.append(f"{r['task']}: no obligation generated")
        functions |= set(r["functions"])
        contracts.update(r["contracts"])
        if r["bounded"]:
            bounded.append(f"{r['task']}: {r['bounded']}")
        for k in ("checks", "time"):
            solver[k] += r["solver"][k]
        solver["max"] = max(solver["max"], r["solver"]["max"])
        for k, v in (r["cross"] or {}).items():
            cross[k] += v
    undecided += [f"{n}: the contract's success path is not reachable" for n, c in covers.items() if not c]
    if cross["disagreed"]:
        undecided.append(f"the second solver disagrees on {cross['disagreed']} verification conditions")
    for n in native:
        if n["error"]:
            undecided.append("native cross-check: " + n["error"].strip().splitlines()[-1])
            if a.v:
                print(n["error"])
    case = next((n for n in native if n["why"]), None)
    if case is None and (failed or undecided):
        hints = sorted({i for f in failed for i in f["ints"] if abs(i) < 2 ** 70})[:40]
        for _, r in run_jobs([(i, cfg["extra_s"] + 90, run_native, (omod, ocls, seed * 7000 + 13 * i, cfg["extra_s"], 10 ** 7, hints))
                              for i in range(cfg["extra_procs"])]):
            if isinstance(r, dict):
                native.append(r)
                if r["why"]:
                    break
        case = next((n for n in native if n["why"]), None)
    known = known_findings(a.prop)
    if case and any(re.search(k, case["why"]) for k, _ in known):
        case = None
    ncases = sum(n["stats"]["cases"] for n in native)
    rc = 0
    line = None
    os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
    path = os.path.join(HERE, "evidence", "replay", a.prop + ".json")
    if case or failed:
        rc = 1
        with open(path, "w") as fh:
            json.dump({"property": a.prop, "case": case and case["case"], "what": case and case["why"],
                       "how": f"{sys.executable} {os.path.join(HERE, 'check.py')} {a.prop} --replay {path}",
                       "failed": failed[:20], "undecided": undecided[:20]}, fh, indent=1)
        if case:
            print("failing input:", case["case"][:1500])
            print("what fails:", case["why"][:1500])
        for f in failed[:8]:
            print("failed obligation:", f["obligation"], f"({f['status']})")
        line = f"VIOLATION property={a.prop} replay={path}" + ("" if case else " no-failing-input-found")
    for _, what in known:
        print(f"KNOWN-FINDING: property={a.prop} {what}")
    for u in sorted(set(undecided))[:12]:
        print("UNDECIDED:", u[:300])
    if undecided and not rc:
        print(f"BOUNDED: {len(set(undecided))} obligations were left to the bounded native check ({ncases} cases), which found no failure")
    import assumptions
    ev = {
        "property": a.prop, "tier": a.tier, "seed": seed, "level": "proof",
        "coverage": {
            "obligations": vcs, "discharged": discharged,
            "checker_cmd": f"python3-vt /verif/check.py {a.prop} --tier {a.tier}",
            "trusted_base": assumptions.TRUSTED,
            "back_end": "pyvc (weakest-precondition style symbolic execution of the real AST, in /verif/pyvc) with z3 " + z3_version(),
            "named_obligations": {n: f"{d}/{v}" for n, (v, d) in sorted(obligations.items())},
            "tasks": [{"task": r["task"], "paths": r["paths"], "seconds": round(r["time"], 2), "undecided": r["error"]}
                      for r in sorted(results, key=lambda r: r["task"])],
            "functions_under_contract": sorted(functions),
            "assumed_contracts": dict(sorted(contracts.items())),
            "solver_queries": solver["checks"], "solver_seconds": round(solver["time"], 2), "slowest_query_s": round(solver["max"], 2),
            "second_solver": cross if cfg["cross"] else "thorough tier only",
            "undecided": sorted(set(undecided)),
            "bounded_parts": bounded,
            "native_cross_check": {"label": "bounded, not counted as proved", "cases": ncases,
                                   "distinct": sum(n["stats"]["distinct"] for n in native),
                                   "samples": [s for n in native for s in n["stats"]["samples"]][:5]},
        },
        "assumptions": assumptions.COMMON + assumptions.PER.get(a.prop, []),
        "wall_s": round(time.time() - t0, 2), "violations": rc,
    }
    with open(os.path.join(HERE, "evidence", a.prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    print(f"{a.prop}: {discharged}/{vcs} verification conditions in {len(obligations)} obligations discharged; "
          f"native cross-check {ncases} cases; {time.time() - t0:.1f}s")
    if line:
        print(line)
    return rc


def z3_version():
    import z3
    return z3.get_version_string()


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.exit(rc)
