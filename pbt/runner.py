"""Runs the check of one property:  python -m pbt.runner CXX  (see check.sh)

Exit codes: 0 the property held on everything explored; 1 violation (with a VIOLATION line);
2 the check itself failed (no verdict).
"""
import argparse
import importlib
import json
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import typing as tp

from . import core


def load_known(prop_id: str) -> tp.List[tp.Dict[str, tp.Any]]:
    path = os.path.join(core.VERIF, "known_findings.txt")
    out = []
    if os.path.exists(path):
        with open(path, encoding="utf-8") as f:
            for line in f:
                line = line.strip()
                if line.startswith("finding: "):
                    d = json.loads(line[len("finding: ") :])
                    if d["property"] == prop_id:
                        out.append(d)
    return out


def _child(fn: tp.Callable[[], tp.Dict[str, tp.Any]], outpath: str) -> None:
    """body of a forked worker"""
    res: tp.Dict[str, tp.Any]
    try:
        os.setpgid(0, 0)
        scratch = outpath + ".d"
        os.makedirs(scratch, exist_ok=True)
        os.chdir(scratch)  # whatever the code under test writes relative to cwd stays here
        os.environ["VERIF_SCRATCH"] = scratch
        os.environ["TMPDIR"] = scratch
        tempfile.tempdir = scratch
        devnull = os.open(os.devnull, os.O_WRONLY)
        if not os.environ.get("VERIF_DEBUG"):
            os.dup2(devnull, 1)
            os.dup2(devnull, 2)
        res = fn()
    except core.HarnessError as e:
        res = {"harness": str(e)}
    except BaseException as e:  # pylint: disable=broad-except
        res = {"harness": f"{type(e).__name__}: {e}\n{traceback.format_exc()}"}
    try:
        tmp = outpath + ".tmp"
        with open(tmp, "w", encoding="utf-8") as f:
            json.dump(res, f, default=str)
        os.rename(tmp, outpath)
    finally:
        os._exit(0)


def _kill(pid: int) -> None:
    for f, a in ((os.killpg, pid), (os.kill, pid)):
        try:
            f(a, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass


def run_tasks(
    tasks: tp.List[tp.Tuple[str, tp.Callable[[], tp.Dict[str, tp.Any]]]],
    jobs: int,
    hard_limit: float,
    scratch: str,
    stop_on: tp.Callable[[tp.Dict[str, tp.Any]], bool],
) -> tp.List[tp.Tuple[str, tp.Dict[str, tp.Any]]]:
    results: tp.List[tp.Tuple[str, tp.Dict[str, tp.Any]]] = []
    pending = list(enumerate(tasks))
    running: tp.Dict[int, tp.Tuple[str, str, float]] = {}
    stop = False
    try:
        while pending or running:
            while pending and len(running) < jobs and not stop:
                idx, (label, fn) = pending.pop(0)
                outpath = os.path.join(scratch, f"t{idx}")
                sys.stdout.flush()
                sys.stderr.flush()
                pid = os.fork()
                if pid == 0:
                    _child(fn, outpath)
                running[pid] = (label, outpath, time.time())
            if stop:
                pending = []
                for pid in running:
                    _kill(pid)
            try:
                pid, status = os.waitpid(-1, os.WNOHANG)
            except ChildProcessError:
                pid = 0
            if pid and pid in running:
                label, outpath, _ = running.pop(pid)
                if os.path.exists(outpath):
                    with open(outpath, encoding="utf-8") as f:
                        res = json.load(f)
                elif stop:
                    continue
                else:
                    res = {"harness": f"worker for {label} died with status {status}"}
                _kill(pid)  # left-over grand children of the process group
                results.append((label, res))
                if stop_on(res):
                    stop = True
                continue
            now = time.time()
            for pid, (label, outpath, t0) in list(running.items()):
                if now - t0 > hard_limit and not stop:
                    _kill(pid)
                    os.waitpid(pid, 0)
                    running.pop(pid)
                    results.append((label, {"harness": f"{label}: no result within {hard_limit:.0f}s"}))
            time.sleep(0.02)
    finally:
        for pid in running:
            _kill(pid)
    return results


def search_task(prop: core.Prop, n: int, seed: int, deadline: float, listed: tp.Set[str]) -> tp.Dict[str, tp.Any]:
    rec = core.Recorder()
    rec.listed = listed  # type: ignore
    fail = core.drive(prop, n, seed, deadline, rec)
    out = rec.dump()
    if fail is not None:
        out["fail"] = {"case": fail[0], "msg": fail[1]}
    return out


def enum_task(prop: core.Prop, cases: tp.List[tp.Any], deadline: float, listed: tp.Set[str]) -> tp.Dict[str, tp.Any]:
    rec = core.Recorder()
    rec.listed = listed  # type: ignore
    out_fail = None
    for case in cases:
        if time.time() > deadline:
            rec.event("time budget reached: remaining cases not run")
            break
        case = core.to_plain(case)
        try:
            core.run_case(prop, case, rec)
        except core.Violation as e:
            msg = str(e)
            if not isinstance(e, core.Timeout):
                case, msg = core.greedy_shrink(prop, case, msg)  # type: ignore
            out_fail = {"case": case, "msg": msg}
            break
    out = rec.dump()
    if out_fail is not None:
        out["fail"] = out_fail
    return out


def replay_task(prop: core.Prop, case: tp.Any, listed: tp.Set[str], strict: bool = False) -> tp.Dict[str, tp.Any]:
    rec = core.Recorder()
    rec.listed = listed  # type: ignore
    rec.strict = strict  # type: ignore
    try:
        core.run_case(prop, case, rec)
    except core.Violation as e:
        return dict(rec.dump(), fail={"case": case, "msg": str(e)})
    return rec.dump()


def main(argv: tp.Optional[tp.List[str]] = None) -> int:
    parser = argparse.ArgumentParser()
    parser.add_argument("property")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    parser.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    parser.add_argument("--replay", default=None, help="replay file: runs this single case")
    parser.add_argument("--only", default=None, help="comma separated names of sub-properties (debugging)")
    parser.add_argument("--scale", type=float, default=1.0, help="multiplies the number of examples (debugging)")
    parser.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    parser.add_argument("--no-evidence", action="store_true")
    parser.add_argument("-v", action="store_true")
    args = parser.parse_args(argv)
    t0 = time.time()
    prop_id = args.property
    try:
        module = importlib.import_module(f"checks.{prop_id.lower()}")
        import nevergrad

        if not core.in_repo(nevergrad.__file__):
            raise core.HarnessError(f"nevergrad imported from {nevergrad.__file__}, not {core.REPO}")
    except core.HarnessError as e:
        print(f"ERROR: {e}")
        return 2
    except Exception:  # pylint: disable=broad-except
        traceback.print_exc()
        print(f"ERROR: cannot load the check {prop_id}")
        return 2
    props: tp.Dict[str, core.Prop] = {p.name: p for p in module.PROPS}
    scratch = tempfile.mkdtemp(prefix=f"verif-{prop_id}-")
    try:
        return _run(args, prop_id, module, props, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _run(args: tp.Any, prop_id: str, module: tp.Any, props: tp.Dict[str, core.Prop], scratch: str, t0: float) -> int:
    known = load_known(prop_id)
    listed = {k["id"] for k in known}
    if args.replay:
        with open(args.replay, encoding="utf-8") as f:
            data = json.load(f)
        os.environ["VERIF_DEBUG"] = "1"
        res = run_tasks(
            [("replay", lambda: replay_task(props[data["prop"]], data["case"], listed, strict=True))], 1, 800, scratch, lambda r: False
        )[0][1]
        if "harness" in res:
            print("ERROR:", res["harness"])
            return 2
        if "fail" in res:
            print(res["fail"]["msg"])
            print(f"VIOLATION property={prop_id} replay={args.replay}")
            return 1
        print("replay: property holds on this case")
        return 0

    budget = getattr(module, "TIME_BUDGET", {"quick": 240.0, "thorough": 3000.0})[args.tier]
    deadline = t0 + budget
    hard = {"quick": 780.0, "thorough": 6 * 3600.0}[args.tier]
    selected = [p for p in props.values() if not args.only or p.name in args.only.split(",")]
    tasks: tp.List[tp.Tuple[str, tp.Callable[[], tp.Dict[str, tp.Any]]]] = []
    for p in selected:
        if isinstance(p, core.Enum):
            cases = list(p.cases(args.tier, args.seed))
            shards = max(1, min(p.shards, len(cases)))
            for s in range(shards):
                tasks.append((p.name, lambda p=p, c=cases[s::shards]: enum_task(p, c, deadline, listed)))
            continue
        total = p.quick if args.tier == "quick" else p.thorough
        total = max(1, int(total * args.scale))
        shards = p.shards if args.tier == "quick" else p.thorough_shards
        shards = max(1, min(shards, total))
        for s in range(shards):
            n = total // shards + (1 if s < total % shards else 0)
            seed = core.derived_seed(args.seed, prop_id, p.name, s)
            tasks.append((p.name, lambda p=p, n=n, seed=seed: search_task(p, n, seed, deadline, listed)))
    witness_results = []
    if known and not args.only:
        wt = [
            (k["id"], lambda k=k: replay_task(props[k["prop"]], k["case"], set(), strict=True)) for k in known
        ]
        witness_results = run_tasks(wt, args.jobs, hard / 3, scratch, lambda r: False)
    results = run_tasks(tasks, args.jobs, hard, scratch, lambda r: "fail" in r)
    merged: tp.Dict[str, tp.Dict[str, tp.Any]] = {}
    harness_errors: tp.List[str] = []
    violations: tp.List[tp.Tuple[str, tp.Any, str]] = []
    samples: tp.List[tp.Any] = []
    for label, res in results:
        if "harness" in res:
            harness_errors.append(f"[{label}] {res['harness']}")
            continue
        m = merged.setdefault(
            label, dict(evaluations=0, skipped=0, events={}, hashes=set(), known={}, truncated=False)
        )
        m["evaluations"] += res["evaluations"]
        m["skipped"] += res["skipped"]
        m["hashes"].update(res["hashes"])
        for key in ("events", "known"):
            for k, v in res[key].items():
                m[key][k] = m[key].get(k, 0) + v
        if sum(s["prop"] == label for s in samples) < 1:
            samples.extend(res["samples"][:1])
        if "fail" in res:
            violations.append((label, res["fail"]["case"], res["fail"]["msg"]))
    # confirm violations in a fresh process before reporting
    confirmed: tp.List[tp.Tuple[str, tp.Any, str]] = []
    for label, case, msg in violations:
        ok = False
        for _ in range(3):
            res = run_tasks([(label, lambda: replay_task(props[label], case, listed))], 1, hard / 3, scratch, lambda r: False)[0][1]
            if "fail" in res:
                ok = True
                break
        if ok:
            confirmed.append((label, case, msg))
        else:
            harness_errors.append(f"[{label}] failure did not reproduce in a fresh process: {case}\n{msg}")
    # known findings
    for (fid, res), k in zip(sorted(witness_results), sorted(known, key=lambda k: k["id"])):
        assert fid == k["id"]
        if "harness" in res:
            harness_errors.append(f"[witness {fid}] {res['harness']}")
        elif "fail" in res:
            print(f"KNOWN-FINDING: property={prop_id} {fid}: {k['what']}")
        else:
            print(f"note: recorded finding {fid} of {prop_id} does not fail any more")
    replay_paths = []
    if confirmed:
        rdir = os.path.join(core.VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        for i, (label, case, msg) in enumerate(confirmed):
            path = os.path.join(rdir, f"{prop_id}-{label}-{core.derived_seed(0, json.dumps(case, sort_keys=True)):08x}.json")
            with open(path, "w", encoding="utf-8") as f:
                json.dump({"property": prop_id, "prop": label, "case": case, "msg": msg}, f, indent=1)
            replay_paths.append(path)
    evaluations = sum(m["evaluations"] for m in merged.values())
    distinct = sum(len(m["hashes"]) for m in merged.values())
    if not args.no_evidence:
        rules = "; ".join(f"{p.name}: {p.rule}" for p in selected if p.rule)
        evidence = {
            "property": prop_id,
            "tier": args.tier,
            "seed": args.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": evaluations,
                "distinct_nontrivial": distinct,
                "rule": "cases are generated by seeded Hypothesis strategies (or enumerated); a case is counted once "
                "per distinct JSON encoding. Non-trivial: " + rules,
                "samples": samples or ["none"],
                "per_subproperty": {
                    k: dict(
                        evaluations=m["evaluations"],
                        distinct_nontrivial=len(m["hashes"]),
                        outside_domain=m["skipped"],
                        excluded_by_known_finding=m["known"],
                        classes=dict(sorted(m["events"].items())),
                    )
                    for k, m in sorted(merged.items())
                },
            },
            "assumptions": getattr(module, "ASSUMPTIONS", []),
            "wall_s": round(time.time() - t0, 2),
            "violations": len(confirmed),
        }
        os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(core.VERIF, "evidence", f"{prop_id}.json"), "w", encoding="utf-8") as f:
            json.dump(evidence, f, indent=1)
    for label, m in sorted(merged.items()):
        extra = f" events={m['events']}" if args.v else ""
        print(
            f"{prop_id}/{label}: {m['evaluations']} cases, {len(m['hashes'])} distinct non-trivial, {m['skipped']} outside domain{extra}"
        )
    for e in harness_errors:
        print("ERROR:", e)
    for (label, case, msg), path in zip(confirmed, replay_paths):
        print(f"--- {prop_id}/{label}\ncase: {json.dumps(case)[:3000]}\n{msg}")
        print(f"VIOLATION property={prop_id} replay={path}")
    print(f"{prop_id}: {time.time() - t0:.1f}s")
    if confirmed:
        return 1
    if harness_errors:
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
