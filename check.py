#!/usr/bin/env python3
"""Decide one property: check.py <property> [quick|thorough]

Builds the code in /repo as it is now, runs the monitored workloads of the
property, writes evidence/<property>.json and exits 0 (held), 1 (violation,
with a VIOLATION line) or 2 (no verdict).
"""
import concurrent.futures, fcntl, json, os, re, sys, time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import legs, plan

ROOT = legs.ROOT
EVIDENCE = os.path.join(ROOT, "evidence")


def known_findings(prop):
    """Open findings: lines 'open: property=<id> signature=<regex> :: <what fails>'."""
    found = []
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"open: property=(\S+) signature=(.*?) :: (.*)", line)
            if m and m.group(1) == prop:
                found.append((re.compile(m.group(2)), m.group(3).strip()))
    return found


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    started = time.time()
    os.makedirs(EVIDENCE, exist_ok=True)
    os.makedirs(legs.BUILD, exist_ok=True)
    spec = plan.PLAN[prop]

    def attempt(leg):
        o = leg.run(prop, seed, tier)
        # One more try where the process ended without a verdict; a violation
        # is never retried.
        if o["status"] == "inconclusive" and leg.primary and o["message"] != "build failed":
            sys.stderr.write(f"{prop} {o['leg']}: inconclusive ({o['message']}), trying again\n")
            o = leg.run(prop, seed, tier)
        o["primary"] = leg.primary
        return o

    todo = spec.legs(tier)
    with concurrent.futures.ThreadPoolExecutor(max_workers=len(todo)) as ex:
        outs = list(ex.map(attempt, todo))

    findings = known_findings(prop)
    violations, known = [], []
    for o in outs:
        if o["status"] == "violation":
            hit = [t for rx, t in findings if rx.search(o["message"])]
            (known if hit else violations).append(o)
            for t in hit:
                print(f"KNOWN-FINDING: property={prop} {t}")
    open_primary = [o for o in outs if o["status"] == "inconclusive" and o["primary"]]
    held = [o for o in outs if o["status"] == "held"]

    samples = [s for o in outs for s in o.get("samples", [])][:8]
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": spec.level,
        "coverage": {
            "evaluations": sum(o.get("evaluations", 0) for o in outs),
            "distinct_nontrivial": sum(o.get("distinct", 0) for o in held) if len(held) == 1
            else max([o.get("distinct", 0) for o in outs] or [0]),
            "rule": spec.rule,
            "samples": samples,
            "legs": [{k: v for k, v in o.items() if k not in ("samples", "detail")} for o in outs],
        },
        "assumptions": spec.assumptions,
        "wall_s": round(time.time() - started, 1),
        "violations": len(violations),
    }
    tmp = os.path.join(EVIDENCE, f".{prop}.tmp")
    with open(tmp, "w") as f:
        json.dump(evidence, f, indent=1)
    os.replace(tmp, os.path.join(EVIDENCE, f"{prop}.json"))

    for o in outs:
        sys.stderr.write(f"{prop} {o['leg']}: {o['status']} {o['message']} "
                         f"({o.get('evaluations', 0)} cases, {o.get('wall_s', 0)} s)\n")
        if o["status"] == "inconclusive":
            sys.stderr.write(o.get("detail", "")[-3000:] + "\n")
    if violations:
        replay = os.path.join(EVIDENCE, f"{prop}.replay.txt")
        with open(replay, "w") as f:
            for o in violations:
                f.write(f"leg: {o['leg']}\nviolation: {o['message']}\nat: {o.get('where', '')}\n"
                        f"replay: {replay_cmd(o)}\n\n{o.get('detail', '')}\n\n")
        sys.stderr.write(violations[0]["message"][:2000] + "\n")
        print(f"VIOLATION property={prop} replay={os.path.relpath(replay, ROOT)}")
        return 1
    if open_primary or not (held or known):
        return 2
    return 0


def replay_cmd(o):
    cmd = o.get("command") or ""
    m = re.match(r"phase=(\S+) case=(\d+)", o.get("where") or "")
    if m and o["leg"] not in ("miri",):
        cmd += f" --phase {m.group(1)} --case {m.group(2)}"
    return cmd


if __name__ == "__main__":
    sys.exit(main())
