"""
Decides a property by symbolic execution of the code in /repo.

Usage: python3-vt run.py PROPERTY [--tier quick|thorough] [--harness NAME] [--jobs N] [-v]
"""

import argparse
import hashlib
import importlib
import json
import logging
import multiprocessing
import multiprocessing.connection
import os
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
VENV = "/opt/venv"
PY = os.path.join(VENV, "bin", "python")

logging.getLogger("pysqlsync").addHandler(logging.NullHandler())
sys.dont_write_bytecode = True
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.path[:] = [HERE] + [p for p in sys.path if p != HERE]
sys.path.append(os.path.join(VENV, "lib", "python3.12", "site-packages"))


def load(prop):
    from symex import rewrite

    libraries = os.path.join(VENV, "lib", "python3.12", "site-packages")
    finder = rewrite.install({"pysqlsync": REPO, "props": HERE, "strong_typing": libraries})
    with open(os.path.join(HERE, "props", "index.json")) as f:
        index = json.load(f)
    for m in index[prop]["modules"]:
        importlib.import_module(m)
    return finder, index[prop]


def known_findings(prop):
    tags = {}
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith("known:"):
                    fields = line[len("known:") :].strip().split(None, 2)
                    p = fields[0].split("=", 1)[1]
                    tag = fields[1]
                    if p == prop:
                        tags[tag] = fields[2]
    return tags


def replay(record, keep=None):
    fd, path = tempfile.mkstemp(suffix=".json", prefix="sx-replay-")
    with os.fdopen(fd, "w") as f:
        json.dump(record, f)
    env = dict(os.environ)
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env.pop("PYTHONPATH", None)
    try:
        r = subprocess.run(
            [PY, os.path.join(HERE, "replay.py"), path],
            cwd=tempfile.gettempdir(),
            env=env,
            stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT,
            timeout=120,
        )
        return r.returncode, r.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        return 4, "timeout"
    finally:
        os.unlink(path)


def plain(text):
    "Replaces symbolic characters in a message."
    return "".join(ch if ord(ch) < 0xF0000 else "?" for ch in str.__iter__(text))


def explore(task):
    prop, name, params, tier, seed, deadline, verbose, tags = task
    from symex import api, engine
    from symex.symenv import SymEnv

    h = api.HARNESSES[(prop, name)]
    out = {
        "harness": name,
        "params": params,
        "violations": [],
        "known": {},
        "unconfirmed": [],
        "witness": None,
        "functions": [],
    }
    module = h.fn.__module__
    ex = engine.Explorer(max_paths=h.max_paths, deadline=deadline, seed=seed)
    functions = set()
    mon = sys.monitoring
    try:
        mon.use_tool_id(4, "symex")
    except ValueError:
        pass

    def on_start(code, offset):
        if code.co_filename.startswith(REPO + "/"):
            functions.add(os.path.relpath(code.co_filename, REPO) + ":" + code.co_qualname)
        return mon.DISABLE

    mon.register_callback(4, mon.events.PY_START, on_start)
    mon.set_events(4, mon.events.PY_START)
    start = time.monotonic()
    state = {"env": None, "checks": 0}

    def fn(path):
        env = SymEnv(path, tags)
        path.on_known = on_known
        state["env"] = env
        try:
            h.fn(env, **params)
        finally:
            state["checks"] += env.checks

    def on_path(path):
        if state["env"].checks and out["witness"] is None:
            # reachability witness: the end of this path, past its assertions, is reachable
            m = path.ensure_model()
            out["witness"] = path.model_inputs(m)

    replays = {"n": 0}

    def report(message, inputs, known):
        message = plain(message)
        record = {
            "property": prop,
            "harness": name,
            "module": module,
            "params": params,
            "inputs": inputs,
            "message": message,
        }
        if known is not None and known in tags:
            if known in out["known"]:
                return True
            rc, text = replay(record)
            if rc == 1:
                out["known"][known] = {"record": record, "output": text[-2000:]}
            else:
                out["unconfirmed"].append({"record": record, "rc": rc, "output": text[-2000:]})
            return len(out["unconfirmed"]) < 20
        rc, text = replay(record)
        replays["n"] += 1
        if rc == 1:
            record["output"] = text[-4000:]
            out["violations"].append(record)
            return False
        out["unconfirmed"].append({"record": record, "rc": rc, "output": text[-2000:]})
        return len(out["unconfirmed"]) < 20

    def on_known(f):
        return report(f.message, f.inputs, f.known)

    def on_failure(f):
        return report(f.message, f.inputs, f.known)

    def on_error(e, inputs, known):
        try:
            text = "".join(plain(line) for line in traceback.format_exception(e)[-6:])
            message = plain(str.__str__(e) if isinstance(e, str) else str(e))
        except BaseException:
            text = message = ""
        return report(f"unexpected {type(e).__name__}: {message}\n{text}", inputs, known)

    try:
        ex.run(fn, on_failure, on_error, on_path)
    finally:
        mon.set_events(4, 0)
    s = ex.stats
    out["functions"] = sorted(functions)
    out["stats"] = {
        "paths": s.paths,
        "infeasible": s.infeasible,
        "queries": s.queries,
        "sat": s.sat,
        "unsat": s.unsat,
        "unknown": s.unknown,
        "solver_s": s.solver_s,
        "assertions": s.assertions,
        "assertion_queries": s.assertion_queries,
        "decisions": s.decisions,
        "forks": s.forks,
        "realised": s.realised,
        "inconclusive": s.inconclusive,
        "checks": state["checks"],
    }
    out["notes"] = s.notes
    out["complete"] = ex.complete
    out["wall_s"] = time.monotonic() - start
    return out


def lost(task):
    "The result of an instance that has not been completed."

    return {
        "harness": task[1],
        "params": task[2],
        "violations": [],
        "unconfirmed": [],
        "known": {},
        "witness": {"lost": "the process exploring this instance has ended prematurely"},
        "functions": [],
        "stats": {"paths": 0, "queries": 0, "inconclusive": 1, "realised": 0, "infeasible": 0, "checks": 0},
        "notes": {"process ended prematurely": 1},
        "complete": False,
        "wall_s": 0.0,
    }


def serve(task, conn):
    try:
        result = explore(task)
    except BaseException:
        result = traceback.format_exc()
    conn.send(result)
    conn.close()


def parallel(tasks, jobs):
    "Explores each instance in a process of its own."

    ctx = multiprocessing.get_context("fork")
    queue = list(reversed(tasks))
    running = {}
    retried = set()
    try:
        while queue or running:
            while queue and len(running) < jobs:
                task = queue.pop()
                receiver, sender = ctx.Pipe(duplex=False)
                process = ctx.Process(target=serve, args=(task, sender), daemon=True)
                process.start()
                sender.close()
                running[receiver] = (process, task)
            for receiver in multiprocessing.connection.wait(list(running)):
                process, task = running.pop(receiver)
                try:
                    result = receiver.recv()
                except EOFError:
                    result = None
                receiver.close()
                process.join()
                if isinstance(result, str):
                    raise RuntimeError(result)
                if result is None:
                    key = (task[1], json.dumps(task[2]))
                    if key not in retried:
                        retried.add(key)
                        queue.insert(0, task)
                        continue
                    result = lost(task)
                yield result
    finally:
        for process, _ in running.values():
            process.kill()
            process.join()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--harness")
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--budget", type=float)
    ap.add_argument("-v", action="store_true", help="report details of what did not hold")
    ap.add_argument("-a", action="store_true", help="report on all harness instances")
    args = ap.parse_args()
    prop = args.property
    tier = args.tier if args.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    budget = args.budget or (600 if tier == "quick" else 3000)
    start = time.monotonic()
    deadline = start + budget

    os.environ["VERIF_TIER"] = tier
    finder, info = load(prop)
    from symex import api

    tags = known_findings(prop)
    tasks = []
    for (p, name), h in api.HARNESSES.items():
        if p != prop or (args.harness and args.harness != name):
            continue
        for params in h.thorough_params if tier == "thorough" else h.params:
            tasks.append((prop, name, params, tier, seed, deadline, args.v, tags))
    if not tasks:
        print(f"ERROR no harness for {prop}")
        return 2

    results = []
    if args.jobs > 1 and len(tasks) > 1:
        for r in parallel(tasks, args.jobs):
            results.append(r)
            progress(r, args.v, args.a)
            if r["violations"] and not args.v:
                break
    else:
        for t in tasks:
            r = explore(t)
            results.append(r)
            progress(r, args.v, args.a)
            if r["violations"] and not args.v:
                break

    return finish(prop, tier, seed, info, results, tasks, tags, finder, start)


def progress(r, verbose, everything):
    s = r["stats"]
    problem = r["violations"] or r["unconfirmed"] or r["known"] or not r["complete"] or s["inconclusive"] or s["realised"] or not r["witness"]
    if everything or verbose and (problem or r["wall_s"] > 20):
        print(
            f"{r['harness']} {r['params']}: paths={s['paths']} infeasible={s['infeasible']} queries={s['queries']} "
            f"solver={s['solver_s']:.1f}s wall={r['wall_s']:.1f}s complete={r['complete']} inconclusive={s['inconclusive']} "
            f"realised={s['realised']} checks={s['checks']}"
        )
        for n, c in r["notes"].items():
            print("   note:", n, c)
        for u in r["unconfirmed"][:1]:
            print("   unconfirmed:", u["rc"], u["record"]["message"][-500:], json.dumps(u["record"]["inputs"]), u["output"][-600:])
        for v in r["violations"]:
            print("   violation:", v["message"][-700:], json.dumps(v["inputs"]))
        for k, v in r["known"].items():
            print("   known:", k, v["record"]["message"][:300], json.dumps(v["record"]["inputs"]))
        sys.stdout.flush()


def finish(prop, tier, seed, info, results, tasks, tags, finder, start):
    total = {}
    functions = set()
    notes = {}
    known = {}
    violations = []
    unconfirmed = []
    vacuous = []
    incomplete = []
    samples = []
    for r in results:
        for k, v in r["stats"].items():
            total[k] = total.get(k, 0) + v
        functions.update(r["functions"])
        for k, v in r["notes"].items():
            notes[k] = notes.get(k, 0) + v
        for k, v in r["known"].items():
            known.setdefault(k, v)
        violations += r["violations"]
        unconfirmed += r["unconfirmed"]
        if r["witness"] is None and not r["violations"] and not r["known"]:
            vacuous.append(f"{r['harness']} {r['params']}")
        if not r["complete"] and not r["violations"]:
            incomplete.append(f"{r['harness']} {r['params']}")
        if r["witness"] is not None and len(samples) < 12:
            samples.append(
                {"harness": r["harness"], "params": r["params"], "reachability_witness": r["witness"]}
            )
    sources = {}
    for path in sorted(set(finder.loaded)):
        if path.startswith(REPO + "/"):
            with open(path, "rb") as f:
                sources[os.path.relpath(path, REPO)] = hashlib.sha256(f.read()).hexdigest()[:16]

    status = 0
    for tag, v in sorted(known.items()):
        print(f"KNOWN-FINDING: property={prop} {tag} {tags[tag]}")
    for v in violations[:10]:
        digest = hashlib.sha256(json.dumps([v["harness"], v["params"], v["inputs"]]).encode()).hexdigest()[:10]
        directory = os.path.join(HERE, "evidence", "replay")
        os.makedirs(directory, exist_ok=True)
        path = os.path.join(directory, f"{prop}-{v['harness']}-{digest}.json")
        with open(path, "w") as f:
            json.dump(v, f, indent=1)
        print(f"counterexample: {v['message'].splitlines()[0]} inputs={json.dumps(v['inputs'])}")
        print(f"VIOLATION property={prop} replay={path}")
        status = 1
    if status == 0 and (vacuous or (unconfirmed and total.get("paths", 0) <= len(unconfirmed))):
        status = 2
    if vacuous:
        print("VACUOUS (no path reaches an assertion):", "; ".join(vacuous))
    if unconfirmed:
        u = unconfirmed[0]
        print(f"UNCONFIRMED counterexamples (not reported as violations): {len(unconfirmed)}; first: {u['record']['harness']} {u['record']['message'][:300]}")
    if incomplete:
        print("NOT EXHAUSTED within the time or path limit:", "; ".join(incomplete))

    wall = time.monotonic() - start
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": info.get("level", "other"),
        "coverage": {
            "explanation": info["explanation"],
            "bounds": info["bounds"],
            "exhaustive": not incomplete
            and not unconfirmed
            and not total.get("inconclusive")
            and not total.get("realised")
            and not violations,
            "harness_instances": len(results),
            "paths": total.get("paths", 0),
            "paths_infeasible": total.get("infeasible", 0),
            "paths_inconclusive": total.get("inconclusive", 0),
            "values_realised": total.get("realised", 0),
            "solver_queries": total.get("queries", 0),
            "solver_sat": total.get("sat", 0),
            "solver_unsat": total.get("unsat", 0),
            "solver_unknown": total.get("unknown", 0),
            "solver_seconds": round(total.get("solver_s", 0.0), 3),
            "branch_decisions": total.get("decisions", 0),
            "assertions_evaluated": total.get("assertions", 0),
            "assertions_discharged_by_query": total.get("assertion_queries", 0),
            "functions_encoded_count": len(functions),
            "functions_encoded": sorted(functions),
            "sources": sources,
            "incomplete": incomplete,
            "unconfirmed": len(unconfirmed),
            "known_findings_confirmed": sorted(known),
            "notes": notes,
            "samples": samples,
        },
        "assumptions": info.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1)
    print(
        f"{prop} [{tier}] {'VIOLATED' if status == 1 else 'held on everything explored' if status == 0 else 'ERROR'}: "
        f"{len(results)} harness instances, {total.get('paths', 0)} paths, {total.get('queries', 0)} queries "
        f"({total.get('unsat', 0)} unsat), solver {total.get('solver_s', 0):.1f}s, wall {wall:.1f}s"
    )
    return status


if __name__ == "__main__":
    sys.exit(main())
