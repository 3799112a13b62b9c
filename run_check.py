"""
run_check.py PROPERTY [--tier quick|thorough]

Decides one property: explores every task of props/<property>.py symbolically
over the current source of /repo, replays what the solver reports.
"""
import importlib
import json
import multiprocessing as mp
import os
import signal
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SX_REPO", "/repo")
REAL_PYTHON = "/opt/venv/bin/python"
sys.dont_write_bytecode = True
sys.path[:0] = [VERIF]
sys.path.append("/opt/venv/lib/python3.12/site-packages")


def setup():
    from symex import loader

    loader.install(VERIF)


def run_task(task):
    from symex import explore, engine
    from props import api

    engine.ENGINE = None
    mod = importlib.import_module("props." + task["module"])
    fn = getattr(mod, task["harness"])
    try:
        r = explore.explore(
            fn, task["params"], api.reset,
            deadline=task["deadline"], samples=task["samples"],
            stop_after=task.get("stop_after", 1),
        )
    except Exception as cause:
        import traceback

        r = dict(
            violations=[], witnesses=[], labels={}, statuses={}, complete=False, checks=0,
            note="engine error: " + "".join(traceback.format_exception(type(cause), cause, cause.__traceback__)[-3:]),
            stats={}, realised=[], seconds=0, engine_error=True,
        )
    finally:
        engine.ENGINE = None
    from symex import trace

    r["functions"] = trace.drain()
    return task["index"], r


def replay_batch(items, tag, seconds):
    """list of outcomes of the real code, None where it gave none"""
    out = [None] * len(items)
    scratch = os.path.join("/tmp", "sx_%d_%s" % (os.getpid(), tag))
    os.makedirs(scratch, exist_ok=True)
    try:
        chunks = [list(range(k, len(items), 4)) for k in range(4)]
        jobs = []
        for k, idx in enumerate(chunks):
            if not idx:
                continue
            a = os.path.join(scratch, "in%d.json" % k)
            b = os.path.join(scratch, "out%d.json" % k)
            with open(a, "w") as f:
                json.dump([items[i] for i in idx], f)
            p = subprocess.Popen(
                [REAL_PYTHON, os.path.join(VERIF, "replay.py"), "--batch", a, b],
                stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, cwd=VERIF,
            )
            jobs.append((p, idx, b))
        stop = time.time() + seconds
        for p, idx, b in jobs:
            err = b""
            try:
                _, err = p.communicate(timeout=max(1, stop - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.communicate()
            if os.path.exists(b):
                with open(b) as f:
                    for i, line in zip(idx, f):
                        try:
                            out[i] = json.loads(line)
                        except ValueError:
                            pass
            if err and any(out[i] is None for i in idx):
                sys.stderr.write(err.decode("utf8", "replace")[-2000:])
    finally:
        for n in os.listdir(scratch):
            os.unlink(os.path.join(scratch, n))
        os.rmdir(scratch)
    return out


def as_item(prop, task, record):
    return dict(
        property=prop, module=task["module"], harness=task["harness"],
        params=task["params"], env=record["env"], label=record.get("label"), info=record.get("info"),
    )


def load_known():
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)["findings"]


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    only = None
    if "--only" in sys.argv:
        only = sys.argv[sys.argv.index("--only") + 1]
    verbose = "-v" in sys.argv
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    budget = 420 if tier == "quick" else 780
    setup()
    module = importlib.import_module("props." + prop.lower())
    from props import api  # noqa

    tasks = list(module.tasks(tier))
    if only:
        tasks = [t for t in tasks if only in t["harness"] + json.dumps(t["params"])]
    for i, t in enumerate(tasks):
        t["index"] = i
        t.setdefault("module", prop.lower())
        t["deadline"] = t0 + budget
        t.setdefault("samples", 3)
    results = [None] * len(tasks)
    confirmed = []
    unconfirmed = []
    known_hits = {}
    known = [k for k in load_known() if k.get("status", "known") == "known" and k["property"] == prop]
    workers = int(os.environ.get("SX_WORKERS", "8"))
    pool = mp.Pool(workers)
    try:
        for index, r in pool.imap_unordered(run_task, tasks, chunksize=1):
            results[index] = r
            if verbose:
                print("%6.1fs paths=%-6d %-10s %s %s %s" % (
                    r["seconds"], r["stats"].get("paths", 0), "complete" if r["complete"] else "PARTIAL",
                    tasks[index]["harness"], json.dumps(tasks[index]["params"])[:150], r["note"][:600]), flush=True)
            if r["violations"]:
                items = [as_item(prop, tasks[index], v) for v in r["violations"]]
                outcomes = replay_batch(items, "v%d" % index, 90)
                for item, o in zip(items, outcomes):
                    if o is None:
                        o = {"status": "hang", "label": "the real code does not answer"}
                    if o["status"] in ("violation", "exception", "hang"):
                        item["label"] = o.get("label")
                        item["info"] = o.get("info")
                        hit = match_known(known, item)
                        if hit:
                            known_hits[hit["id"]] = item
                        else:
                            confirmed.append(item)
                    else:
                        unconfirmed.append(item)
                if verbose:
                    for item, o in zip(items, outcomes):
                        print("   ->", item["label"], json.dumps(item["info"])[:700], json.dumps(item["env"]), "REAL:", o and o["status"])
                if confirmed and not verbose:
                    break
    finally:
        pool.terminate()
        pool.join()

    # the paths' witnesses on the real code
    wit, where = [], []
    for t, r in zip(tasks, results):
        if r:
            for w in r["witnesses"]:
                wit.append(as_item(prop, t, w))
                where.append((t, w))
    validated = 0
    mismatches = []
    if wit and not confirmed:
        outcomes = replay_batch(wit, "w", 200)
        for item, (t, w), o in zip(wit, where, outcomes):
            if o is None:
                continue
            if o["status"] == "ok":
                want = json.loads(json.dumps([list(x) for x in w["observed"]]))
                got = json.loads(json.dumps([list(x) for x in o["observed"]]))
                if norm(want) == norm(got):
                    validated += 1
                else:
                    mismatches.append(dict(item=item, symbolic=want, real=got))
            elif o["status"] in ("violation", "exception", "hang"):
                item["label"] = o.get("label")
                item["info"] = o.get("info")
                hit = match_known(known, item)
                if hit:
                    known_hits[hit["id"]] = item
                else:
                    confirmed.append(item)
            else:
                mismatches.append(dict(item=item, symbolic="path", real=o["status"]))
    for m in mismatches[: 40 if verbose else 3]:
        if isinstance(m["real"], list):
            diff = [(a, b) for a, b in zip(m["symbolic"], m["real"]) if norm(a) != norm(b)]
        else:
            diff = m["real"]
        print("WARNING encoding mismatch", m["item"]["harness"], json.dumps(m["item"]["params"])[:200], json.dumps(m["item"]["env"])[:200], json.dumps(diff)[:500])

    done = [r for r in results if r]
    stats = {}
    for r in done:
        for k, v in r["stats"].items():
            stats[k] = stats.get(k, 0) + v
    functions = sorted({f for r in done for f in r["functions"]})
    labels = {}
    for r in done:
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
    missing = [l for l in getattr(module, "REACH", ()) if not labels.get(l)]
    incomplete = [
        {"task": tasks[i]["harness"], "params": tasks[i]["params"], "why": (r["note"] if r else "not run")[:300]}
        for i, r in enumerate(results) if r is None or not r["complete"]
    ]
    samples = []
    for t, r in zip(tasks, results):
        if r and r["witnesses"] and len(samples) < 6:
            w = r["witnesses"][-1]
            samples.append(dict(harness=t["harness"], params=t["params"], model=w["env"], observed=w["observed"][:3]))
    if not samples:
        samples = [dict(note="no path completed")]
    evidence = dict(
        property=prop,
        tier=tier,
        seed=seed,
        level="model_checking",
        coverage=dict(
            states=stats.get("paths", 0),
            transitions=stats.get("decisions", 0),
            traces_validated_against_impl=validated,
            samples=samples,
            exhaustive=not incomplete,
            explanation=(
                "states = symbolic paths, each a set of inputs described by its path condition; "
                "transitions = decisions on symbolic values; every path condition was given to z3, "
                "and so was (path condition and not assertion) where the assertion did not fold to a constant."
            ),
            tasks=len(tasks),
            tasks_complete=len(tasks) - len(incomplete),
            incomplete=incomplete[:50],
            forks=stats.get("forks", 0),
            assertions_evaluated=stats.get("assertions", 0),
            solver=dict(
                name="z3 " + z3_version(),
                path_condition_queries=stats.get("z3_leaf_queries", 0),
                assertion_queries=stats.get("z3_assert_queries", 0),
                branch_queries=stats.get("z3_branch_queries", 0),
                interval_decisions=stats.get("interval_decisions", 0),
                unknown=stats.get("z3_unknown", 0),
                seconds=round(stats.get("solver_s", 0), 2),
            ),
            functions_encoded=functions,
            bounds=getattr(module, "BOUNDS", ""),
            reach_witnesses=labels,
            reach_missing=missing,
            concretised=sorted({x for r in done for x in r["realised"]}),
            counterexamples_not_reproduced=len(unconfirmed),
            encoding_mismatches=len(mismatches),
        ),
        assumptions=list(getattr(module, "ASSUMPTIONS", [])) + [
            "CPython's own semantics of str, re and int are modelled by symex/symstr.py, symre.py, loader.py (validated by tests/ in /verif and by the replayed witnesses)",
        ],
        wall_s=round(time.time() - t0, 2),
        violations=len(confirmed),
    )
    os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
    code = 0
    for k in known:
        if k["id"] in known_hits:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if confirmed:
        code = 1
        for n, item in enumerate(confirmed[:5]):
            path = os.path.join(VERIF, "evidence", "replay", "%s-%d.json" % (prop, n + 1))
            with open(path, "w") as f:
                json.dump(item, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  %s: %s(%s) env=%s" % (item["label"], item["harness"], json.dumps(item["params"])[:200], json.dumps(item["env"])[:200]))
            print("  " + json.dumps(item["info"])[:600])
    elif unconfirmed:
        print("WARNING: counterexample of the model, not reproduced by the real code: %s" % json.dumps(unconfirmed[0])[:800])
        evidence["coverage"]["unconfirmed"] = unconfirmed[:3]
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    print("%s %s: %d tasks (%d complete), %d paths, %d assertions, %d/%d witnesses replayed, %.1fs%s" % (
        prop, "ok" if code == 0 else "FAILED", len(tasks), len(tasks) - len(incomplete), stats.get("paths", 0),
        stats.get("assertions", 0), validated, len(wit), time.time() - t0,
        (" missing reach " + ",".join(missing)) if missing else ""))
    if incomplete and verbose:
        for x in incomplete[:10]:
            print("  incomplete", json.dumps(x)[:300])
    sys.stdout.flush()
    return code


def match_known(known, item):
    for k in known:
        for case in k["cases"]:
            if (
                case["harness"] == item["harness"]
                and all(item["params"].get(p) == v for p, v in case["params"].items())
                and (case.get("label") in (None, item["label"]))
                and all(item["env"].get(p) == v for p, v in case.get("env", {}).items())
                and (case.get("info") is None or norm(case["info"]) == norm(item["info"]))
            ):
                return k
    return None


def norm(x):
    return json.dumps(x, sort_keys=True)


def z3_version():
    import z3

    return z3.get_version_string()


if __name__ == "__main__":
    sys.exit(main())
