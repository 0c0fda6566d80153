"""Running a check, reporting, evidence, replay files and known findings."""
import json
import os
import sys
import time as _time

from mc import explore as ex

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_wall = _time.time
_mono = _time.monotonic


def known_findings(prop):
    """[(scenario-substring, message-substring, text)] listed for prop."""
    path = os.path.join(ROOT, "KNOWN_FINDINGS.jsonl")
    out = []
    if os.path.exists(path):
        with open(path, encoding="utf-8") as fd:
            for line in fd:
                line = line.strip()
                if line.startswith("{"):
                    item = json.loads(line)
                    if item["property"] == prop and item["status"] == "known":
                        out.append(item)
    return out


def match_known(items, violation):
    name, choices, msg = violation
    for item in items:
        if item["scenario"] == name and item["match"] in msg:
            if "choices" not in item or item["choices"] == list(choices):
                return item
    return None


def run_check(prop, scenarios, assumptions, tier, seed, t_start, budget_s=None,
              replay=None, workers=None, extra=None):
    """Explore, then write evidence; returns the exit status."""
    if replay:
        return do_replay(prop, scenarios, replay)
    if budget_s is None:
        budget_s = 420.0 if tier == "quick" else 7200.0
    if workers is None:
        workers = min(8, os.cpu_count() or 1)
    items = known_findings(prop)
    for path in _replay_files(prop):
        os.remove(path)

    # Warm up (lazy globals, caches), then check that the default execution of
    # every scenario replays identically - in a child, so that the workers
    # start from the same pristine image.
    mismatch, samples = warm(scenarios)
    unconfirmed = []
    for attempt in range(2):
        left = budget_s
        if tier == "quick" and attempt:
            left = min(budget_s, max(60.0, 780.0 - (_mono() - t_start)))
        tot = ex.explore(
            scenarios,
            workers,
            left,
            known=(lambda v: match_known(items, v)) if items else None,
        )
        reported = []
        seen_known = {}
        for v in sorted(
            tot.violations, key=lambda v: (v[0], len(v[1]), sum(v[1]))
        ):
            item = match_known(items, v)
            if item:
                seen_known.setdefault(item["what"], v)
                continue
            reported.append(v)
        # What does not happen again - neither alone in a fresh process nor
        # in another exploration - was the kernel's timing, not the code.
        again = [confirm(scenarios, v) for v in reported[:3]]
        if any(a[2] for a in again) or len(reported) >= 3 or not reported:
            break
        unconfirmed += [(v[0], v[2][:200]) for v in reported]
    status = 0
    for what in seen_known:
        print(f"KNOWN-FINDING: property={prop} {what}")
    for num, (name, choices, msg) in enumerate(reported[:3]):
        path = os.path.join(ROOT, "replays", f"{prop}-{num}.json")
        os.makedirs(os.path.dirname(path), exist_ok=True)
        log, result, _ = again[num]
        with open(path, "w", encoding="utf-8") as fd:
            json.dump(
                {
                    "property": prop,
                    "scenario": name,
                    "choices": choices,
                    "message": msg,
                    "reproduced_in_fresh_process": result,
                    "trace": log,
                },
                fd,
                indent=1,
            )
        status = 1
        print(f"VIOLATION property={prop} replay={path}")
        print("  " + f"[{name}] {msg}".replace("\n", "\n  "))
    execs = sum(p.execs for p in tot.per.values())
    diverged = sum(p.diverged for p in tot.per.values())
    states = set()
    for name, per in tot.per.items():
        states |= {hash((name, s)) for s in per.states}
    wall = _mono() - t_start
    if tot.errors:
        for err in tot.errors[:5]:
            print("ERROR " + err, file=sys.stderr)
        if status == 0:
            status = 2
    if status == 0 and diverged > max(20, execs // 20):
        print(f"ERROR {diverged} of {execs} replays diverged", file=sys.stderr)
        status = 2
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": len(states),
            "transitions": sum(p.steps for p in tot.per.values()),
            "traces_validated_against_impl": execs
            - diverged
            - sum(p.pruned for p in tot.per.values()),
            "choice_points": sum(p.points for p in tot.per.values()),
            "distinct_outcomes": sum(
                len(p.outcomes) for p in tot.per.values()
            ),
            "diverged": diverged,
            "pruned": sum(p.pruned for p in tot.per.values()),
            "unconfirmed": unconfirmed,
            "exhaustive": not tot.cut and not tot.errors,
            "cut_scenarios": tot.cut,
            "default_replay_mismatches": mismatch,
            "scenarios": {
                n: {
                    "executions": p.execs,
                    "states": len(p.states),
                    "outcomes": len(p.outcomes),
                    "max_choices": p.maxdepth,
                    "deviation_bound": next(
                        s.bound for s in scenarios if s.name == n
                    ),
                }
                for n, p in tot.per.items()
            },
            "samples": samples,
        },
        "assumptions": assumptions,
        "wall_s": round(wall, 2),
        "violations": len(reported),
    }
    if extra:
        evidence["coverage"].update(extra)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(
        os.path.join(ROOT, "evidence", f"{prop}.json"), "w", encoding="utf-8"
    ) as fd:
        json.dump(evidence, fd, indent=1)
        fd.write("\n")
    print(
        f"{prop} {tier}: {execs} executions, {len(states)} states, "
        f"{evidence['coverage']['distinct_outcomes']} outcomes, "
        f"{diverged} diverged, cut={tot.cut}, {wall:.1f}s, "
        f"{len(reported)} violations"
    )
    return status


def _replay_files(prop):
    base = os.path.join(ROOT, "replays")
    if os.path.isdir(base):
        for name in os.listdir(base):
            if name.startswith(prop + "-"):
                yield os.path.join(base, name)


def _again(scn, choices):
    ch, status, msg = ex.execute(scn, choices, keep_log=True)
    return ch.log[:400], f"{status}: {msg}"


def confirm(scenarios, violation):
    """Execute once more: (log, result, whether it is a violation again)."""
    name, choices, _ = violation
    scn = next(s for s in scenarios if s.name == name)
    log, result = [], ""
    for _ in range(3):
        log, result = in_child(lambda: _again(scn, choices))
        if result.startswith("violation"):
            return log, result, True
    return log, result, False


def in_child(func):
    """Run func in a forked child and return its (picklable) result."""
    r_fd, w_fd = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r_fd)
        try:
            ex._send(w_fd, func())
        except BaseException as exc:  # pylint: disable=broad-except
            ex._send(w_fd, ([], f"{type(exc).__name__}: {exc}"))
        os._exit(0)
    os.close(w_fd)
    try:
        return ex._recv(r_fd)
    except EOFError:
        return [], "child died"
    finally:
        os.close(r_fd)
        os.waitpid(pid, 0)


def warm(scenarios):
    """Run default executions twice; compare; collect samples."""

    def body():
        bad = []
        samples = []
        stride = max(1, len(scenarios) // 6)
        for idx, scn in enumerate(scenarios):
            ex.execute(scn, ())
            one = ex.execute(scn, (), keep_log=True)
            two = ex.execute(scn, (), keep_log=True)
            key = [
                (c.taken, c.arity, c.log, c.outcomes, s)
                for c, s, _ in (one, two)
            ]
            if key[0] != key[1]:
                bad.append(scn.name)
            if idx % stride == 0 and len(samples) < 8:
                # a non-default execution makes the better sample
                kids = ex.children(one[0], 0, scn.bound)
                if kids:
                    one = ex.execute(scn, kids[len(kids) // 2], True)
                samples.append(
                    {
                        "scenario": scn.name,
                        "choices": one[0].taken[:60],
                        "trace": one[0].log[:25],
                        "result": one[1],
                    }
                )
        return bad, samples

    return in_child(body)


def do_replay(prop, scenarios, path):
    with open(path, encoding="utf-8") as fd:
        data = json.load(fd)
    for scn in scenarios:
        if scn.name == data["scenario"]:
            ch, status, msg = ex.execute(scn, data["choices"], keep_log=True)
            for line in ch.log:
                print("  " + line)
            print(f"{status}: {msg}")
            if status == "violation":
                print(f"VIOLATION property={prop} replay={path}")
                return 1
            return 0
    print(f"unknown scenario {data['scenario']}", file=sys.stderr)
    return 2
