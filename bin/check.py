#!/usr/bin/env python3
"""check.py <property>: decide one property on /repo's working tree.
exit 0: held on everything explored; exit 1 + VIOLATION line: broken; exit 2: the check itself failed."""
import json, os, shutil, sys, tempfile, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from vlib import CheckError, log, SEED, TIER, VERIF, BUILD
from registry import PROPS, TARGETS


def read_cases(path):
    return [json.loads(x) for x in open(path)]


def run_part(pid, k, part, scratch, stats, only=None, prev=None):
    """One (driver, trace spec) pair. Returns the list of rejected cases."""
    exe = vlib.build(part["target"], TARGETS[part["target"]])
    trace = os.path.join(scratch, "%s-%d%s.ndjson" % (pid, k, "-re" if only is not None else ""))
    d = os.path.join(scratch, "work%d" % k)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    args = list(part.get("args", []))
    env = {"VERIF_SCRATCH": d, "TMPDIR": d}
    t0 = time.time()
    if vlib.run_driver(exe, args, trace, env=env, only=only, shards=part.get("shards", 8),
                       budget=(part.get("budget", 300) if only is None else 120) * (10 if TIER == "thorough" else 1)) and only is None:
        stats["short"] = True
    shutil.rmtree(d, ignore_errors=True)
    vlib.keep_whole(trace)
    cases = read_cases(trace)
    log("%s part %d: %d executions recorded in %.1fs" % (pid, k, len(cases), time.time() - t0))
    if not cases:
        if only is not None or stats.get("short"):
            return []
        raise CheckError("no execution recorded")
    # split: TLC validates chunks so that memory stays bounded
    rejected = []
    chunk, CH = [], part.get("chunk", 3000)
    for i in range(0, len(cases), CH):
        f = trace + ".c"
        with open(f, "w") as o:
            for c in cases[i:i + CH]:
                o.write(json.dumps(c) + "\n")
        t0 = time.time()
        rej, st = vlib.validate(part["spec"], f, cfg=part.get("cfg"),
                                timeout=part.get("tlc_timeout", 700) * (6 if TIER == "thorough" else 1))
        log("%s part %d: TLC %d cases, %d rejected, %d states in %.1fs" % (pid, k, len(cases[i:i + CH]), len(rej), st[1], time.time() - t0))
        stats["states"] += st[1]
        stats["transitions"] += st[0]
        if only is None:
            stats["traces"] += len(cases[i:i + CH]) - len(rej)
        rejected += [cases[i + r - 1] for r in sorted(rej)]
    if only is None:
        stats["events"] += sum(len(c["ev"]) for c in cases)
        stats["distinct"] += len(set(json.dumps(c["ev"], sort_keys=True) for c in cases))
        for want in part.get("must_see", []):
            if not any(e["e"] == want for c in cases for e in c["ev"]) and not rejected and not stats.get("short"):
                raise CheckError("vacuous: no execution contains event " + want)
        s = cases[min(len(cases) - 1, 1)]
        stats["samples"].append({"part": part["spec"], "key": s["key"], "in": s["in"], "ev": s["ev"][:12]})
        log("validated")
    return rejected


def explain(part, case, scratch):
    f = os.path.join(scratch, "one.ndjson")
    open(f, "w").write(json.dumps(case) + "\n")
    try:
        n = vlib.longest_prefix(part["spec"], f, part.get("cfg"))
    except Exception:
        n = 0
    return n


def signature(case, at):
    ev = case["ev"][at - 1] if 0 < at <= len(case["ev"]) else {}
    return ev.get("e", "?")


def main():
    pid = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ["VERIF_TIER"] = sys.argv[2]
        vlib.TIER = sys.argv[2]
        global TIER
        TIER = sys.argv[2]
    P = PROPS[pid]
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(BUILD, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    os.chmod(scratch, 0o755)
    stats = dict(states=0, transitions=0, traces=0, events=0, distinct=0, samples=[])
    models = []
    violations = []
    nknown = 0
    try:
        for m in P.get("models", []):
            if TIER != "thorough" and m.get("thorough"):
                continue
            st = vlib.model_check(m["module"], m["cfg"], timeout=m.get("timeout", 600) * (10 if TIER == "thorough" else 1),
                                  workers=m.get("workers", "auto"))
            models.append({"module": m["module"], "cfg": m["cfg"], "generated": st[0], "distinct": st[1]})
            stats["states"] += st[1]
            stats["transitions"] += st[0]
        for k, part in enumerate(P["parts"]):
            rej = run_part(pid, k, part, scratch, stats)
            if not rej:
                continue
            kf = vlib.known_findings(pid)
            fresh = []
            for c in rej:
                at = explain(part, c, scratch) if len(rej) <= 40 or c in rej[:40] else 0
                hit = next((f for f in kf if f["key"] == c["key"] and f["event"] in (signature(c, at), "*")
                            and f["spec"] == part["spec"]), None)
                if hit:
                    print("KNOWN-FINDING: property=%s %s" % (pid, hit["what"]))
                    nknown += 1
                else:
                    fresh.append((c, at))
            if not fresh:
                continue
            # confirm: run the same cases again on the real code
            ids = [c["i"] for c, _ in fresh[:25]]
            again = run_part(pid, k, part, scratch, stats, only=ids)
            ok = set(c["key"] for c in again)
            fresh = [(c, at) for c, at in fresh[:25] if c["key"] in ok] or \
                    ([(c, 0) for c in again] if again else [])
            if not fresh:
                log("rejections did not repeat; running the whole part once more")
                again = run_part(pid, k, part, scratch, stats)
                again = [c for c in again if not any(f["key"] == c["key"] for f in kf)]
                if again:
                    fresh = [(c, explain(part, c, scratch)) for c in again[:5]]
            for c, at in fresh[:5]:
                d = os.path.join(VERIF, "replays")
                os.makedirs(d, exist_ok=True)
                path = os.path.join(d, "%s-%s-%d.json" % (pid, part["spec"], c["i"]))
                json.dump({"property": pid, "spec": part["spec"], "target": part["target"], "args": part.get("args", []),
                           "seed": SEED, "tier": TIER, "case": c["i"], "key": c["key"], "in": c["in"],
                           "explained_prefix": max(at - 1, 0),
                           "unexplained_event": c["ev"][at - 1] if 0 < at <= len(c["ev"]) else None,
                           "ev": c["ev"]}, open(path, "w"), indent=1)
                violations.append(path)
            if violations and stats.get("short"):
                break
        if stats.get("short") and not violations:
            raise CheckError("the driver did not get through its cases, and what it recorded is in order")
    except CheckError as e:
        log("ERROR:", e)
        shutil.rmtree(scratch, ignore_errors=True)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        shutil.rmtree(scratch, ignore_errors=True)
        sys.exit(2)
    shutil.rmtree(scratch, ignore_errors=True)
    ev = {"property": pid, "tier": TIER, "seed": SEED, "level": P.get("level", "model_checking"),
          "coverage": {"states": stats["states"], "transitions": stats["transitions"],
                       "traces_validated_against_impl": stats["traces"], "events_validated": stats["events"],
                       "distinct_traces": stats["distinct"], "models": models,
                       "known_finding_cases": nknown, "samples": stats["samples"]},
          "assumptions": P.get("assumptions", []), "wall_s": round(time.time() - t0, 1),
          "violations": len(violations)}
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    for v in violations:
        print("VIOLATION property=%s replay=%s" % (pid, v))
    sys.stdout.flush()
    log("%s done in %.1fs, %d violation(s)" % (pid, time.time() - t0, len(violations)))
    sys.exit(1 if violations else 0)


main()
