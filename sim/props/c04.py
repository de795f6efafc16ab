"""C04: rejection sampling ends with exactly the accepted points or a clear failure."""
import numpy as np

import core
from core import Violation, is_simulated, make_exc
from simlib import shape_arg, expect_arrangement, run_tasks
from world import rg

CONFIG = {
    "runs": {"quick": 2500, "thorough": 120000},
    "rule": "A run is 1-3 callers issuing rejection_sample calls against simulated bounding and target shapes whose "
    "acceptances follow a generated script (droughts, trickles, bursts), with small attempt limits, failures of either shape "
    "at a chosen attempt, interrupts and thread schedules. Non-trivial: at least one candidate rejected, or a fault fired.",
    "real": ["rigeo.random.rejection_sample"],
    "stub": ["bounding and target shapes (scripted peers that record every candidate)", "thread scheduler"],
    "assumptions": ["simulated shapes follow the library's conventions (random_points(1) returns a single point)"],
}

FAILURES = [
    "InjectedError", "MemoryError", "KeyboardInterrupt", "FloatingPointError", "ZeroDivisionError", "LinAlgError",
    "ValueError", "RuntimeError", "OSError", "TimeoutError",
]


def gen(rng, tier, i):
    nth = rng.choice([1, 1, 1, 2, 3])
    tasks = [[gen_call(rng) for _ in range(rng.randint(1, 3))] for _ in range(nth)]
    s = core.gen_sched(rng, nth)
    s["faults"] = [[rng.randrange(nth), rng.randint(1, 80), rng.choice(["KeyboardInterrupt", "MemoryError"])] for _ in range(rng.choice([0, 0, 0, 1, 1, 2]))]
    return {"tasks": tasks, "sched": s, "share": rng.random() < 0.5, "seed": rng.randrange(1 << 30)}


def gen_call(rng):
    n = rng.choice([1, 1, 2, 3, 5, 10, rng.randint(2, 40), [1], [rng.randint(1, 5), rng.randint(1, 6)], [rng.randint(2, 12)], 0])
    style = rng.choice(["iid", "drought", "trickle", "last", "never", "all", "bursty", "mixed"])
    total = n if isinstance(n, int) else int(np.prod(n))
    c = {
        "n": n,
        "style": style,
        "p": rng.choice([0.05, 0.2, 0.5, 0.8, 0.95]),
        "drought": rng.choice([1, 2, 5, 20, 60]),
        "nt": rng.choice([1, 1, 2, 3]),
        "overlap": rng.random() < 0.5,
        "max_tries": rng.choice([None, None, 1, 2, 3, 5, 10, 25, 61, 100]),
        "seed": rng.randrange(1 << 30),
        "fail": None,
        "calm": rng.choice([None, None, 3, 10]),
        "bool_kind": rng.choice(["bool", "npbool"]),
    }
    if style == "never" and c["max_tries"] is None:
        c["max_tries"] = rng.choice([1, 4, 30])
    if style == "never" and rng.random() < 0.3:
        c["n"] = rng.choice([rng.randint(100, 1500), 300, [20, 40]])
    if style == "trickle" and total > 20:
        c["n"] = rng.randint(1, 20)
    if rng.random() < 0.12:
        # many points, very few of them accepted
        c["n"] = rng.choice([rng.randint(60, 500), [rng.randint(10, 30), rng.randint(5, 20)]])
        c["style"] = "iid"
        c["p"] = rng.choice([0.003, 0.01, 0.03, 0.9, 0.99])
        c["calm"] = rng.choice([1, 2])
        c["max_tries"] = None
    c["src"] = rng.choice(["gen", "gen", "int"])
    if rng.random() < 0.2:
        c["fail"] = [rng.choice(["bound", "target"]), rng.randint(1, 6), rng.choice(FAILURES)]
    return c


OFF = np.array([3.0, -7.0, 11.0])


class Peer:
    """The bounding shape of one call: hands out uniquely numbered candidates and
    decides which of them the targets will accept."""

    def __init__(self, call, tag):
        self.call = call
        self.tag = tag
        self.rng = np.random.RandomState(call["seed"] % (1 << 31))
        self.attempts = 0
        self.next_id = 1
        self.sizes = []
        self.accept = {}  # id -> set of target indices
        self.accepted_before = []  # cumulative accepted count before each attempt
        self.checked = {}
        self.rngs = []
        self.draws = []
        self.failed = False
        self.contain_calls = 0
        self.dim = 3

    def total_accepted(self):
        return sum(1 for v in self.accept.values() if v)

    def random_points(self, shape=1, rng=None):
        c = self.call
        self.attempts += 1
        if self.attempts > 2 * (c["max_tries"] or DEFAULT_TRIES) + 10:
            raise Violation("too-many-attempts", f"{self.attempts} attempts, {c['max_tries'] or DEFAULT_TRIES} permitted")
        self.rngs.append(rng)
        self.accepted_before.append(self.total_accepted())
        if c["fail"] and c["fail"][0] == "bound" and self.attempts == c["fail"][1] and not self.failed:
            self.failed = True
            raise make_exc(c["fail"][2])
        n = int(np.prod(shape))
        self.sizes.append(n)
        if rng is not None:
            self.draws.append(float(np.random.default_rng(rng).random()))
        k = self.attempts
        P = np.zeros((n, 3))
        for j in range(n):
            i = self.next_id
            self.next_id += 1
            P[j] = OFF + [i, self.tag, k]
            st = c["style"]
            if c["calm"] and k > c["calm"] * 3:
                ok = True
            elif st == "iid":
                ok = self.rng.random_sample() < c["p"]
            elif st == "drought":
                ok = k > c["drought"]
            elif st == "trickle":
                ok = j == (k % n) and k % 2 == 0
            elif st == "last":
                ok = j == n - 1
            elif st == "never":
                ok = False
            elif st == "all":
                ok = True
            elif st == "bursty":
                ok = (k // max(1, c["drought"] // 2)) % 2 == 1
            else:
                ok = self.rng.random_sample() < (c["p"] if k % 3 else 0.0)
            ts = set()
            if ok:
                first = self.rng.randint(c["nt"])
                ts = {first}
                if c["overlap"]:
                    ts |= {t for t in range(c["nt"]) if self.rng.random_sample() < 0.6}
            self.accept[i] = ts
        if isinstance(shape, tuple):
            return P.reshape(shape + (3,)) if shape != (1,) else P[0]
        return P[0] if n == 1 and np.isscalar(shape) else P

    def targets(self):
        return [Target(self, t) for t in range(self.call["nt"])]


class Target:
    def __init__(self, peer, t):
        self.peer, self.t = peer, t
        self.dim = 3
        self.calls = 0

    def contains(self, points, tol=1e-8):
        p = self.peer
        c = p.call
        self.calls += 1
        if c["fail"] and c["fail"][0] == "target" and self.calls == c["fail"][1] and self.t == 0 and not p.failed:
            p.failed = True
            raise make_exc(c["fail"][2])
        points = np.asarray(points)
        P = np.atleast_2d(points)
        out = np.zeros(len(P), dtype=bool)
        for j, x in enumerate(P):
            q = x - OFF
            i = int(round(q[0]))
            if i not in p.accept or abs(q[0] - i) > 1e-9 or round(q[1]) != p.tag:
                raise Violation("foreign-candidate", f"a target was asked about {x.tolist()}, which its bounding shape never drew")
            out[j] = self.t in p.accept[i]
        if points.ndim == 1:
            return out[0] if c["bool_kind"] == "npbool" else bool(out[0])
        return out


DEFAULT_TRIES = 10000


def check(call, peer, outcome, value, ctx):
    n = call["n"] if isinstance(call["n"], int) else int(np.prod(call["n"]))
    limit = call["max_tries"] or DEFAULT_TRIES
    acc = [i for i, t in peer.accept.items() if t]
    ctx.evals += 1
    rej = len(peer.accept) - len(acc)
    if rej:
        ctx.fault("candidate-rejected", rej)
    ctx.log(call["n"], call["style"], call["max_tries"], outcome, peer.attempts, len(acc))
    if peer.attempts > limit:
        raise Violation("too-many-attempts", f"{peer.attempts} attempts, {limit} permitted")
    if outcome == "ok":
        res = np.asarray(value)
        if res.shape not in expect_arrangement(call["n"], 3):
            raise Violation("arrangement", f"n={call['n']}: got {res.shape}")
        P = res.reshape(-1, 3) - OFF
        ids = []
        for x in P:
            i = int(round(x[0]))
            if i not in peer.accept or np.max(np.abs(x - np.round(x))) > 1e-9 or round(x[1]) != peer.tag:
                raise Violation("not-a-candidate", f"returned point {(x + OFF).tolist()} was never drawn by the bounding shape")
            if not peer.accept[i]:
                raise Violation("rejected-returned", f"returned point {i} is in none of the targets")
            ids.append(i)
        if len(set(ids)) != len(ids):
            raise Violation("duplicate-candidate", f"a candidate was returned twice: {sorted(ids)}")
        if peer.attempts and n and peer.accepted_before[-1] >= n:
            raise Violation("late", f"another attempt was made although {peer.accepted_before[-1]} of {n} points were accepted")
        if n and len(acc) < n:
            raise Violation("too-few", f"returned {n} points but only {len(acc)} candidates were accepted")
    elif outcome == "gave-up":
        ctx.probe("gave-up")
        # the permitted attempts must really have been made, without success
        if peer.attempts != limit:
            raise Violation("early-giveup", f"gave up after {peer.attempts} of {limit} attempts: {value!r}")
        if len(acc) >= n:
            raise Violation("giveup-with-enough", f"gave up although {len(acc)} of {n} needed candidates were accepted")
    # liveness: once everything is accepted, the end is near
    calm = None
    if call["style"] == "all":
        calm = 0
    elif call["style"] == "drought":
        calm = call["drought"]
    if call["calm"]:
        calm = min(calm, call["calm"] * 3) if calm is not None else call["calm"] * 3
    if calm is not None and peer.attempts > calm + 8:
        raise Violation("no-progress", f"{peer.attempts} attempts although candidates stopped being rejected after {calm}")


def run(plan, ctx):
    src = np.random.Generator(np.random.PCG64(plan["seed"]))
    done = []

    def task(t, calls):
        my = src if plan["share"] else np.random.Generator(np.random.PCG64(plan["seed"] + t + 1))

        def body():
            import sys

            for ci, call in enumerate(calls):
                for attempt in range(4):
                    peer = Peer(call, tag=1 + ci + 100 * t + 10000 * attempt)
                    # a call that failed may be repeated: without the failure
                    peer.failed = attempt > 0
                    kw = {} if call["max_tries"] is None else {"max_tries": call["max_tries"]}
                    try:
                        v = rg.rejection_sample(peer.targets(), peer, shape_arg(call["n"]), rng=my if call["src"] == "gen" else call["seed"], **kw)
                        done.append((call, peer, "ok", v))
                        break
                    except Violation:
                        raise
                    except BaseException as e:
                        if is_simulated(e):
                            core.retrace()
                            ctx.fault(f"failure:{type(e).__name__}")
                            done.append((call, peer, "failed", e))
                            continue
                        if isinstance(e, Exception) and not isinstance(e, (TypeError, AttributeError, NameError, IndexError)):
                            done.append((call, peer, "gave-up", e))
                            break
                        raise

        return body

    run_tasks([task(t, c) for t, c in enumerate(plan["tasks"])], plan["sched"], ctx)
    for call, peer, outcome, v in done:
        check(call, peer, outcome, v, ctx)
        if outcome == "failed" or (peer.failed and outcome == "ok" and peer.tag < 10000 and call["fail"]):
            if outcome == "ok":
                raise Violation("failure-swallowed", f"the {call['fail'][0]} shape failed at attempt {call['fail'][1]} but the call returned")
        for r in peer.rngs:
            if r is None:
                raise Violation("random-source", "the bounding shape was asked to draw without the caller's random source")
        if len(set(peer.draws)) < len(peer.draws):
            raise Violation("same-draws", f"two attempts of one call ({call['src']} source) got the same random stream")


def shrink(plan):
    T = plan["tasks"]
    if len(T) > 1:
        for t in range(len(T)):
            yield dict(plan, tasks=T[:t] + T[t + 1 :], sched=dict(plan["sched"], faults=[]))
    for t in range(len(T)):
        for j in range(len(T[t])):
            if len(T[t]) > 1:
                yield dict(plan, tasks=T[:t] + [T[t][:j] + T[t][j + 1 :]] + T[t + 1 :])
    if plan["sched"].get("faults"):
        yield dict(plan, sched=dict(plan["sched"], faults=[]))
    for t in range(len(T)):
        for j, c in enumerate(T[t]):
            for k, v in (("fail", None), ("nt", 1), ("overlap", False), ("n", 1), ("n", 2), ("calm", None), ("drought", 1), ("drought", 2)):
                if c[k] != v and not (k == "n" and v == 2 and c["n"] == 1):
                    yield dict(plan, tasks=T[:t] + [T[t][:j] + [dict(c, **{k: v})] + T[t][j + 1 :]] + T[t + 1 :])
