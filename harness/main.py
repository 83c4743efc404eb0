"""Entry point: main.py PROPERTY [quick|thorough] | PROPERTY --replay FILE."""

import importlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import core  # noqa: E402

KNOWN = os.path.join(core.VERIF, "KNOWN_FINDINGS.jsonl")
# checks whose subject contains no compiled kernel run without the compiler
NO_KERNEL_FLAG = "NUMBA_DISABLE_JIT"
WRITTEN = set()


def bootstrap(prop):
    import catalog
    if prop not in catalog.CHECKS:
        print("unknown property {0}".format(prop), file=sys.stderr)
        sys.exit(2)
    if not catalog.CHECKS[prop].get("kernels"):
        os.environ[NO_KERNEL_FLAG] = "1"
    sys.path.insert(0, core.REPO)
    # Hypothesis lives in the tooling interpreter's folder (same Python); last
    # on the path, so that numpy and the rest still come from /opt/venv.
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    import hypothesis  # noqa: F401
    import HamiltonianPy
    where = os.path.realpath(HamiltonianPy.__file__)
    if not where.startswith(core.REPO + os.sep):
        raise core.HarnessError("wrong HamiltonianPy: " + where)
    try:
        return importlib.import_module(
            "checks." + catalog.CHECKS[prop]["module"])
    except Exception as exc:
        last = core.last_file(exc)
        if last.startswith(core.REPO + os.sep) or (
                isinstance(exc, ImportError) and "HamiltonianPy" in str(exc)):
            raise NoImport(prop, exc)
        raise


class NoImport(Exception):
    """The public module a property is about cannot be imported."""


def load_known(prop):
    res = []
    if os.path.exists(KNOWN):
        with open(KNOWN) as fp:
            for line in fp:
                line = line.strip()
                if line.startswith("{"):
                    item = json.loads(line)
                    if item["property"] == prop:
                        res.append(item)
    return res


def write_replay(prop, sub, case, message):
    folder = os.path.join(core.VERIF, "replays")
    os.makedirs(folder, exist_ok=True)
    n = 0
    while True:
        path = os.path.join(folder, "{0}-{1}{2}.json".format(
            prop, sub, "-%d" % n if n else ""))
        if path not in WRITTEN:
            break
        n += 1
    WRITTEN.add(path)
    with open(path, "w") as fp:
        json.dump({"property": prop, "sub": sub, "case": case,
                   "message": message}, fp, indent=1)
        fp.write("\n")
    return path


def replay(module, path):
    with open(path) as fp:
        data = json.load(fp)
    if data["sub"] == "import":
        print("replay of {0}: the import succeeds".format(path))
        return 0
    subs = {s.name: s for s in module.SUBS}
    result = core.parallel(
        [lambda progress: core.run_saved(subs, [data], progress)], 1)[0]
    if "lost" in result:
        message = "a process " + result["lost"][2]
    elif "saved" in result:
        _, message, kind = result["saved"][0]
        if kind == "harness":
            raise core.HarnessError(message)
    else:
        raise core.HarnessError(result.get("error"))
    if message is None:
        print("replay of {0}: the property holds on this case".format(path))
        return 0
    print("VIOLATION property={0} replay={1}".format(module.PROPERTY, path))
    print("  " + message)
    return 1


def main(argv):
    prop = argv[0]
    args = argv[1:]
    try:
        module = bootstrap(prop)
    except NoImport as exc:
        message = core.describe(exc.args[1])
        path = write_replay(prop, "import", None, message)
        print("VIOLATION property={0} replay={1}".format(
            prop, os.path.relpath(path, core.VERIF)))
        print("  " + message)
        return 1
    if args and args[0] == "--replay":
        return replay(module, os.path.join(core.VERIF, args[1]))
    tier = args[0] if args else os.environ.get("VERIF_TIER", "quick")
    assert tier in ("quick", "thorough")
    only = args[1] if len(args) > 1 else None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.monotonic()

    known = load_known(prop)
    violations = []
    errors = []

    # 1. saved cases: the regression tier, and the listed findings
    corpus = []
    path = os.path.join(core.VERIF, "corpus", prop + ".jsonl")
    if os.path.exists(path):
        with open(path) as fp:
            corpus = [json.loads(line) for line in fp if line.strip()]
    subs = {s.name: s for s in module.SUBS}
    jobs = [lambda progress, items=items: core.run_saved(subs, items, progress)
            for items in (corpus, known)]

    # 2. generated search
    for sub in module.SUBS:
        sub.quick = int(sub.quick * float(os.environ.get(
            "HPY_SCALE", getattr(module, "SCALE", 2))))
        if only and sub.name != only:
            continue
        shards = sub.shards if tier == "quick" else max(sub.shards, 4)
        for shard in range(shards):
            jobs.append(
                lambda progress, sub=sub, shard=shard, shards=shards:
                core.run_sub(prop, sub, tier, seed, shard, shards, progress))
    workers = max(1, min(8, len(os.sched_getaffinity(0))))
    results = core.parallel(jobs, workers)

    replayed = len(results[0].get("saved", ()))
    for item, message, kind in results[0].get("saved", ()):
        if kind == "harness":
            errors.append("corpus {0}: {1}".format(item["sub"], message))
        elif kind == "violation":
            violations.append((item["sub"], item["case"], message))
    for item, message, kind in results[1].get("saved", ()):
        if kind == "harness":
            errors.append("known {0}: {1}".format(item["sub"], message))
        elif kind == "violation":
            print("KNOWN-FINDING: property={0} {1}".format(
                prop, item["what"]))
    coverage = {"evaluations": replayed, "distinct_nontrivial": 0,
                "rule": module.RULE, "samples": [], "by_sub": {},
                "replayed_saved_cases": replayed}
    failures = {}
    for res in results:
        if res.get("error"):
            errors.append(res["error"])
        if res.get("lost"):
            name, key, why = res["lost"]
            violations.append((name, json.loads(key), "a process " + why))
        if "sub" not in res:
            continue
        entry = coverage["by_sub"].setdefault(
            res["sub"], {"evaluations": 0, "distinct_nontrivial": set(),
                         "labels": {}, "samples": [], "wall_s": 0.0})
        entry["evaluations"] += res["evaluations"]
        entry["distinct_nontrivial"] |= res["nontrivial"]
        entry["wall_s"] = round(entry["wall_s"] + res["wall"], 2)
        for label, n in res["labels"].items():
            entry["labels"][label] = entry["labels"].get(label, 0) + n
        entry["samples"] += res["samples"]
        if res["fail"] is not None:
            best = failures.get(res["sub"])
            if best is None or len(res["fail"][0]) < len(best[0]):
                failures[res["sub"]] = res["fail"]
    for name, (key, message) in failures.items():
        violations.append((name, json.loads(key), message))
    for name, entry in coverage["by_sub"].items():
        entry["distinct_nontrivial"] = len(entry["distinct_nontrivial"])
        coverage["evaluations"] += entry["evaluations"]
        coverage["distinct_nontrivial"] += entry["distinct_nontrivial"]
        coverage["samples"] += [
            {"sub": name, "case": case} for case in entry.pop("samples")[:2]]
        entry["labels"] = dict(sorted(entry["labels"].items()))

    for name, case, message in violations[:20]:
        path = write_replay(prop, name, case, message)
        print("VIOLATION property={0} replay={1}".format(
            prop, os.path.relpath(path, core.VERIF)))
        print("  [{0}] {1}".format(name, message.replace("\n", "\n    ")))
        print("  case: {0}".format(core.canonical(case)[:600]))
    for text in errors:
        print("HARNESS ERROR: " + text, file=sys.stderr)

    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": coverage, "assumptions": module.ASSUMPTIONS,
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": len(violations),
    }
    folder = os.path.join(core.VERIF, "evidence")
    os.makedirs(folder, exist_ok=True)
    with open(os.path.join(folder, prop + ".json"), "w") as fp:
        json.dump(evidence, fp, indent=1)
        fp.write("\n")
    print("{0} {1} seed={2}: {3} cases, {4} distinct non-trivial, "
          "{5} violation(s), {6:.1f}s".format(
              prop, tier, seed, coverage["evaluations"],
              coverage["distinct_nontrivial"], len(violations),
              time.monotonic() - t0))
    if violations:
        return 1
    if errors:
        return 2
    return 0


if __name__ == "__main__":
    try:
        code = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
