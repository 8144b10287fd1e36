"""Command line of the checks: explore, report, write evidence."""

import argparse
import hashlib
import importlib
import json
import os
import pathlib
import re
import subprocess
import sys
import time
import warnings

VERIF = pathlib.Path(__file__).resolve().parent.parent


def load_known(prop):
    """Known findings of this property: lines `known: property=<id> key=<key> <what fails>`.

    Lines `fixed: property=<id> <commit> <what failed>` suppress nothing.
    """
    known = {}
    path = VERIF / "known_findings.txt"
    if path.exists():
        for line in path.read_text().splitlines():
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m[1] == prop:
                known[m[2]] = m[3]
    return known


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--workers", type=int, default=0)
    ap.add_argument("--section")
    ap.add_argument("--bound", type=int)
    ap.add_argument("-v", action="store_true")
    args = ap.parse_args()

    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    warnings.simplefilter("ignore")

    import pystrata

    src = pathlib.Path(os.environ["PYSTRATA_SRC"]).resolve()
    got = pathlib.Path(pystrata.__file__).resolve()
    if not got.is_relative_to(src):
        print(f"pystrata imported from {got}, not from {src}")
        sys.exit(3)

    from mc import explore

    mod = importlib.import_module(f"mc.checks.{args.prop.lower()}")
    sections = mod.SECTIONS
    if hasattr(mod, "warm"):
        mod.warm()

    if args.replay:
        rep = json.loads(pathlib.Path(args.replay).read_text())
        sec = {s[0]: s for s in sections}[rep["section"]]
        tier = rep.get("tier", tier)
        pre = rep.get("preceding") or []
        for p in pre:
            explore.execute(sec[1], p, rep["bound"], tier)
        ch, status, msg, key = explore.execute(sec[1], rep["vector"], rep["bound"], tier)
        print("section:", rep["section"])
        for lab in ch.labels:
            print("   ", lab)
        print("status:", status, "|", msg)
        sys.exit(1 if status == "violation" else 0)

    workers = args.workers or min(8, os.cpu_count() or 1)
    known = load_known(args.prop)
    results = []
    for name, fn, bounds in sections:
        if args.section and name != args.section:
            continue
        bound = bounds[tier] if isinstance(bounds, dict) else bounds
        if args.bound is not None:
            bound = args.bound
        if bound is None:
            continue
        t1 = time.time()
        st = explore.explore(fn, bound, tier, known, workers)
        results.append((name, fn, bound, st, time.time() - t1))
        print(f"[{args.prop}] {name}: deviations<={bound} executions={st.executions} "
              f"nodes={st.nodes} ops={st.ops} states={len(st.states)} "
              f"outcomes={len(st.outcomes)} by_cost={dict(sorted(st.by_cost.items()))} "
              f"pruned={st.pruned} violations={len(st.violations)} "
              f"{time.time() - t1:.1f}s", flush=True)

    # ---- harness sanity: never report success for a vacuous or broken run --------
    rc = 0
    broken = []
    for name, fn, bound, st, _ in results:
        if st.diverged and not st.violations:
            broken.append(f"{name}: replay diverged: {st.diverged[0]}")
        if st.executions == 0:
            broken.append(f"{name}: no executions")
    for k in sorted(known):
        n = sum(st.known.get(k, 0) for _, _, _, st, _ in results)
        if n:
            print(f"KNOWN-FINDING: property={args.prop} {known[k]} (key {k}, {n} executions)")

    viols = []
    for name, fn, bound, st, _ in results:
        for v in st.violations:
            viols.append((v["cost"], len(v["vector"]), v["vector"], name, bound, v))
    viols.sort(key=lambda t: (t[0], t[1], t[2], t[3]))
    if viols:
        rc = 1
        out = VERIF / "replays" / args.prop
        out.mkdir(parents=True, exist_ok=True)
        # one replay per distinct (section, message head), simplest first
        seen, n = set(), 0
        for cost, _, vec, name, bound, v in viols:
            head = (name, v["msg"].split(":")[0][:60])
            if head in seen or n >= 5:
                continue
            seen.add(head)
            n += 1
            h = hashlib.sha1(json.dumps([name, vec]).encode()).hexdigest()[:10]
            path = out / f"{name}-{h}.json"
            rep = dict(property=args.prop, section=name, bound=bound, tier=tier, vector=vec,
                       choices=v["choices"], message=v["msg"], key=v["key"],
                       how=f"cd {VERIF} && ./check {args.prop} --replay {path}")
            path.write_text(json.dumps(rep, indent=1) + "\n")
            note = ""
            if n == 1 and os.environ.get("MC_NO_CONFIRM") is None:
                try:
                    r = subprocess.run([sys.executable, "-m", "mc.run", args.prop, "--replay", str(path)],
                                       cwd=VERIF, timeout=200, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                    if r.returncode == 1:
                        note = " (reproduced in a fresh process)"
                    else:
                        rep["preceding"] = v["order"]
                        path.write_text(json.dumps(rep) + "\n")
                        note = " (needs the executions that preceded it in the same process: stored in the replay)"
                except subprocess.TimeoutExpired:
                    note = " (replay did not end in 200 s)"
            print(f"  section {name}, {cost} deviations: {'; '.join(v['choices'])}")
            print(f"  -> {v['msg']}{note}")
            print(f"VIOLATION property={args.prop} replay={path}", flush=True)
    elif broken:
        for b in broken:
            print("HARNESS ERROR:", b)
        rc = 3

    ev = dict(
        property=args.prop, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=sum(len(st.states) for *_, st, _ in results),
            transitions=sum(st.ops for *_, st, _ in results),
            traces_validated_against_impl=sum(st.executions for *_, st, _ in results),
            choice_tree_nodes=sum(st.nodes for *_, st, _ in results),
            distinct_final_outcomes=sum(len(st.outcomes) for *_, st, _ in results),
            exhaustive=not viols,
            rule="states: distinct canonical observations of the real objects; transitions: real "
                 "operations executed and compared with the reference model; traces: complete "
                 "executions of the closed driver on the real code. Every execution with at most "
                 "`deviation_bound` departures from the default choice (and every value of the "
                 "free choices) was explored.",
            sections=[dict(name=n, deviation_bound=b, executions=st.executions,
                           executions_by_deviations={str(k): v for k, v in sorted(st.by_cost.items())},
                           outside_domain=st.pruned, choice_points_max=st.max_points,
                           states=len(st.states), transitions=st.ops,
                           outcomes=len(st.outcomes), known_findings=st.known,
                           wall_s=round(w, 2)) for n, _, b, st, w in results],
            samples=[f"{n}: {s}" for n, _, _, st, _ in results for s in st.samples[:3]][:40],
        ),
        assumptions=getattr(mod, "ASSUMPTIONS", []),
        wall_s=round(time.time() - t0, 2),
        violations=len(viols),
    )
    evdir = VERIF / "evidence"
    evdir.mkdir(exist_ok=True)
    (evdir / f"{args.prop}.json").write_text(json.dumps(ev, indent=1) + "\n")
    c = ev["coverage"]
    print(f"[{args.prop}] tier={tier} states={c['states']} transitions={c['transitions']} "
          f"executions={c['traces_validated_against_impl']} violations={len(viols)} "
          f"wall={ev['wall_s']}s")
    sys.exit(rc)


if __name__ == "__main__":
    main()
