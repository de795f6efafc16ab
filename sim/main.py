#!/usr/bin/env python
"""Runs the simulated check of one property."""
import argparse
import hashlib
import importlib
import json
import mmap
import os
import pickle
import select
import struct
import sys
import time
import traceback

T0 = time.perf_counter()
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

import core  # noqa: E402


def load_known():
    """known_findings.txt: 'open: property=<id> kind=<kind> match=<text> :: what'"""
    known = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line.startswith("open:"):
                continue
            head, _, what = line[5:].partition("::")
            d = dict(t.split("=", 1) for t in head.split() if "=" in t)
            d["what"] = what.strip()
            known.append(d)
    return known


def match_known(known, prop, res):
    for k in known:
        if k.get("property") == prop and k.get("kind") == res["kind"] and k.get("match", "") in res["msg"].replace(" ", "_"):
            return k
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--runs", type=int, default=None)
    ap.add_argument("--workers", type=int, default=None)
    ap.add_argument("--replay")
    ap.add_argument("--index", type=int, help="execute one run and print it")
    ap.add_argument("--log", help="write every run's event log digest here")
    ap.add_argument("--keep-going", action="store_true")
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    seed = a.seed
    if seed is None:
        try:
            seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            seed = 1
    prop = a.prop.upper()

    try:
        import world  # imports numpy, cvxpy, ... and then rigeo

        mod = importlib.import_module(f"props.{prop.lower()}")
    except Exception as e:
        tb = traceback.format_exc()
        if core.RIGEO_DIR in tb:
            # the package cannot even be imported: nothing else to decide
            return emit_violation(prop, seed, a.tier, {"import": True}, {"kind": "import", "msg": f"{type(e).__name__}: {e}", "status": "violation"}, None, -1, 0)
        print(tb, file=sys.stderr)
        return 2

    if a.replay:
        return replay(mod, prop, a.replay)
    if a.index is not None:
        plan = core.make_plan(mod, seed, prop, a.index, a.tier)
        print(json.dumps(plan)[:4000])
        r = core.run_isolated(mod, plan)
        print(json.dumps({k: v for k, v in r.items() if k not in ("tb",)}, indent=1, default=str)[:6000])
        print(r.get("tb", ""))
        return 0
    return batch(mod, prop, seed, a)


def replay(mod, prop, path):
    d = json.load(open(path))
    r = core.run_isolated(mod, d["plan"])
    if r["status"] == "violation":
        print(f"replay: {r['kind']}: {r['msg']}")
        for e in r["events"][-30:]:
            print("   ", e)
        if r["kind"] != d["violation"]["kind"]:
            print(f"replay: recorded kind was {d['violation']['kind']}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if r["status"] == "error":
        print(r["msg"], r.get("tb", ""), file=sys.stderr)
        return 2
    print("replay: no violation")
    return 0


def emit_violation(prop, seed, tier, plan, res, orig, index, attempts):
    os.makedirs(os.path.join(VERIF, "out"), exist_ok=True)
    path = os.path.join(VERIF, "out", f"{prop}-{seed}.json")
    with open(path, "w") as f:
        json.dump(
            {
                "property": prop,
                "seed": seed,
                "tier": tier,
                "run_index": index,
                "violation": {"kind": res["kind"], "msg": res["msg"], "data": res.get("data", {})},
                "minimiser_attempts": attempts,
                "events": res.get("events", []),
                "plan": plan,
            },
            f,
            indent=1,
            default=str,
        )
    print(f"{prop}: run {index} (seed {seed}): {res['kind']}: {res['msg']}"[:1500])
    print(f"VIOLATION property={prop} replay={path}")
    sys.stdout.flush()
    return 1


def batch(mod, prop, seed, a):
    tier = a.tier
    cfg = mod.CONFIG
    runs = a.runs or cfg["runs"][tier]
    wall = cfg.get("wall", {}).get(tier, 400 if tier == "quick" else 780)
    ncpu = len(os.sched_getaffinity(0))
    W = a.workers or max(1, min(8, ncpu))
    t_start = time.perf_counter()
    deadline = t_start + wall
    known = load_known()
    print(f"{prop}: seed={seed} tier={tier} runs={runs} workers={W}")
    sys.stdout.flush()

    shared = mmap.mmap(-1, 16)
    shared[:8] = struct.pack("<q", 1 << 60)

    pipes = []
    pids = []
    for w in range(W):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                for i in range(w, runs, W):
                    if i > struct.unpack("<q", shared[:8])[0]:
                        break
                    if time.perf_counter() > deadline:
                        break
                    plan = core.make_plan(mod, seed, prop, i, tier)
                    res = core.run_isolated(mod, plan, timeout=cfg.get("timeout", 200))
                    res.pop("tb", None) if res["status"] == "ok" else None
                    stop = res["status"] == "error" or (
                        res["status"] == "violation" and match_known(known, prop, res) is None
                    )
                    if stop and not a.keep_going:
                        cur = struct.unpack("<q", shared[:8])[0]
                        if i < cur:
                            shared[:8] = struct.pack("<q", i)
                    ph = hashlib.sha1(json.dumps(plan, sort_keys=True).encode()).hexdigest()
                    msg = {"i": i, "ph": ph, "res": res, "nontrivial": mod.nontrivial(plan, res) if hasattr(mod, "nontrivial") else bool(res["faults"])}
                    if res["status"] != "ok":
                        msg["plan"] = plan
                    if res["status"] == "ok" and i >= 3:
                        res["events"] = []
                    if i < 3:
                        msg["plan"] = plan
                    d = pickle.dumps(msg)
                    d = struct.pack("<Q", len(d)) + d
                    off = 0
                    while off < len(d):
                        off += os.write(wr, d[off : off + 65536])
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        os.close(wr)
        pipes.append(r)
        pids.append(pid)

    bufs = {r: bytearray() for r in pipes}
    open_ = set(pipes)
    agg = {"faults": {}, "probes": {}, "steps": 0, "evals": 0}
    nrun = 0
    plans = set()
    sigs = set()
    nontriv = set()
    sites = set()
    kinds = {}
    bad = []
    errors = []
    found_known = {}
    samples = []
    logs = {}
    while open_:
        rr, _, _ = select.select(list(open_), [], [], 5)
        for r in rr:
            c = os.read(r, 1 << 20)
            if not c:
                open_.discard(r)
                os.close(r)
                continue
            b = bufs[r]
            b += c
            while len(b) >= 8:
                n = struct.unpack("<Q", b[:8])[0]
                if len(b) < 8 + n:
                    break
                m = pickle.loads(bytes(b[8 : 8 + n]))
                del b[: 8 + n]
                res = m["res"]
                nrun += 1
                plans.add(m["ph"])
                sigs.add(res["sig"])
                sites.update(res.get("sites", ()))
                logs[m["i"]] = (res["status"], res.get("kind"), res["sig"])
                if m["nontrivial"]:
                    nontriv.add(m["ph"])
                for k in ("faults", "probes"):
                    for kk, v in res[k].items():
                        agg[k][kk] = agg[k].get(kk, 0) + v
                agg["steps"] += res["steps"]
                agg["evals"] += res["evals"]
                if m["i"] < 3:
                    samples.append((m["i"], m["plan"], res["events"][:25]))
                if res["status"] == "violation":
                    k = match_known(known, prop, res)
                    if k:
                        found_known[k["what"]] = found_known.get(k["what"], 0) + 1
                    else:
                        bad.append((m["i"], m["plan"], res))
                elif res["status"] == "error":
                    errors.append((m["i"], m["plan"], res))
    wcodes = []
    for pid in pids:
        _, st = os.waitpid(pid, 0)
        wcodes.append(os.waitstatus_to_exitcode(st))
    t_run = time.perf_counter() - t_start
    if a.log:
        with open(a.log, "w") as f:
            for i in sorted(logs):
                f.write(f"{i} {logs[i]}\n")

    rc = 0
    if bad and a.keep_going:
        for i, _, r in sorted(bad, key=lambda t: t[0])[:60]:
            print(f"  run {i}: {r['kind']}: {r['msg'][:300]}")
        print(len(bad), "violating runs")
    nviol = 0
    if bad:
        nviol = len(bad)
        i, plan, res = min(bad, key=lambda t: t[0])
        try:
            mplan, mres, attempts = core.minimise(mod, plan, res, seconds=cfg.get("minimise_s", 40))
        except Exception:
            traceback.print_exc()
            mplan, mres, attempts = plan, res, 0
        rc = emit_violation(prop, seed, tier, mplan, mres, plan, i, attempts)
    elif errors:
        i, plan, res = min(errors, key=lambda t: t[0])
        print(f"{prop}: harness error in run {i}: {res['msg']}\n{res.get('tb','')}", file=sys.stderr)
        rc = 2
    elif any(wcodes):
        print(f"{prop}: worker failed {wcodes}", file=sys.stderr)
        rc = 2
    elif nrun == 0:
        rc = 2

    wall_s = time.perf_counter() - T0
    rate = nrun / max(t_run, 1e-9) * 3600
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": agg["evals"],
            "distinct_nontrivial": len(nontriv),
            "rule": cfg["rule"],
            "samples": [
                {"run": i, "plan": json.dumps(p)[:1500], "events": [json.dumps(x, default=str)[:200] for x in e]} for i, p, e in sorted(samples, key=lambda t: t[0])
            ],
            "simulated_runs": nrun,
            "runs_per_hour": round(rate),
            "seeds_per_run": "one: run i uses the seed derived from (VERIF_SEED, property, i), so runs_per_hour is also seeds per hour",
            "simulated_steps": agg["steps"],
            "simulated_time": f"{agg['steps']} scheduler/trace steps (logical time; the code under test has no timers)"
            if "sim_seconds" not in agg["probes"]
            else f"{agg['probes']['sim_seconds']} simulated seconds, {agg['steps']} steps",
            "faults_injected": dict(sorted(agg["faults"].items())),
            "distinct_fault_sites": len(sites),
            "probes": dict(sorted(agg["probes"].items())),
            "distinct_plans": len(plans),
            "distinct_histories": len(sigs),
            "history_measure": cfg.get("measure", "hash of the run's event log (operations, faults fired, outcomes, thread switches)"),
            "real_components": cfg["real"],
            "stub_components": cfg["stub"],
            "workers": W,
            "run_phase_s": round(t_run, 2),
        },
        "assumptions": cfg.get("assumptions", []),
        "wall_s": round(wall_s, 2),
        "violations": nviol,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", f".{prop}.json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", f"{prop}.json"))
    for what, n in found_known.items():
        print(f"KNOWN-FINDING: property={prop} {what} ({n} runs)")
    print(
        f"{prop}: {nrun} runs, {len(sigs)} distinct histories, {agg['evals']} evaluations, {agg['steps']} steps, "
        f"faults {dict(sorted(agg['faults'].items()))}, probes {dict(sorted(agg['probes'].items()))}, {wall_s:.1f} s"
    )
    return rc


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
