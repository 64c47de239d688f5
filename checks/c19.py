"""C19: std::thread under every schedule of small scenarios, against spec/C3Threads.tla.

The driver links the real library with drivers/sched.c, a deterministic scheduler behind the pthread functions, and
runs each scenario under all schedules with a bounded number of preemptions (and spurious wake-ups and early
time-outs), then under random schedules. Every distinct history of calls, returns and task events is decided by TLC."""
import itertools
import os
from vf import core, hist

LEVEL = "model_checking"
PUSH, POP, CLOSE, LOCK, UNLOCK, TRY, TIMED, WAIT, SIGNAL, BROADCAST, WAITFOR = 1, 2, 3, 10, 11, 12, 13, 14, 15, 16, 17


def scenarios(ctx):
    """(kind, param, param2, live, createfail, preempt, spurious, timeouts, exact, threads, epilogue)"""
    rng, out = ctx.rng, []

    def add(kind, param, threads, param2=0, pre=2, spur=0, tim=0, live=0, fail=-1, epi=()):
        out.append(dict(kind=kind, param=param, param2=param2, threads=threads, pre=pre, spur=spur, tim=tim, live=live,
                        fail=fail, epi=list(epi)))

    def p(*v):
        return [(PUSH, x) for x in v]

    def g(n):
        return [(POP, 0)] * n

    C = [(CLOSE, 0)]
    for kind, caps in ((1, (1, 2, 3)), (2, (0,))):
        for cap in caps:
            base = [[p(1, 2), g(2)], [p(1), p(2), g(2)], [p(1, 2), g(1), g(1)], [p(1), p(2), g(1), g(1)],
                    [p(1, 2, 3), g(3)], [p(1), g(1) + C, p(2)], [p(1), C, g(1)], [p(1, 2), C, g(2)], [C, p(1), p(2)], [C, g(1), g(1)],
                    [p(1) + C, g(2)], [p(1, 2, 3) + C, g(2), g(2)], [p(1), g(1), C], [p(1, 2), p(3), g(2), g(2), C],
                    [p(1, 2), p(3, 4), g(2), g(2)], [p(1), p(2), p(3), g(1), g(1), g(1)], [p(1, 2, 3, 4), g(2), g(2)],
                    [p(1), p(2), p(3), C], [g(1), g(1), g(1), C], [p(1), p(2), C, g(1)], [C + C, p(1)], [p(1)], [g(1)], [p(1, 2, 3, 4, 5)]]
            for t in base:
                big = sum(map(len, t)) > 5 or len(t) > 3
                add(kind, cap, t, pre=1 if big else 2)
                add(kind, cap, t, pre=1, spur=1)
            for _ in range(40 if ctx.thorough else 6):
                t = []
                v = itertools.count(1)
                for _ in range(rng.choice([2, 3, 3, 4])):
                    t.append([rng.choice([(PUSH, next(v)), (PUSH, next(v)), (POP, 0), (POP, 0), (CLOSE, 0)]) for _ in range(rng.choice([1, 2, 3]))])
                if sum(op[0] == CLOSE for th in t for op in th) > 2:
                    continue
                add(kind, cap, t, pre=1, spur=rng.randrange(2))
    L, U, T = (LOCK, 0), (UNLOCK, 0), (TRY, 0)
    for kind in (3, 4, 5, 6):
        for t in ([[L, U], [L, U]], [[L, U, L, U], [T, U], [L, U]], [[L, L, U, U], [L, U]], [[L, T, U, U], [T, U]], [[U], [L, U]],
                  [[L, U, U], [T]], [[L, L, U, T], [L, U]], [[L, T, T, U, U, U], [L, U]]):
            add(kind, 0, t)
        if kind > 4:
            for ms in (0, 1, 5, 7, 12, 1000):
                add(kind, 1, [[L], [(TIMED, ms), U]], pre=0)
                add(kind, 0, [[L, U], [(TIMED, ms), U]], pre=2)
            add(kind, 0, [[L, (TIMED, 5), U, U], [(TIMED, 10), U]], pre=2)
    W, S, B = (WAIT, 0), (SIGNAL, 0), (BROADCAST, 0)
    for t in ([[L, W, U], [L, S, U]], [[L, W, U], [S]], [[L, W, U], [L, W, U], [L, B, U]], [[L, W, U], [L, W, U], [S, S]],
              [[L, W, U], [L, W, U], [L, S, U]], [[L, W, U], [L, W, U], [L, W, U], [B]]):
        add(7, 0, t)
        add(7, 0, t, spur=1, param2=1, pre=1)
    for ms in (0, 1, 250, 599, 600, 601, 999, 1000, 1600, 2601, 123456):
        add(7, 1, [[L, (WAITFOR, ms), U]], pre=0)
        add(7, 0, [[L, (WAITFOR, ms), U], [L, S, U]], tim=1)
    for n in (1, 2, 3, 4):
        add(8, 0, [[(20, 0)] * 2] * n, pre=2 if n < 4 else 1)
    for size in (1, 2, 3):
        for tasks in range(0, 6):
            push = [[(30, k) for k in range(1, tasks + 1)]]
            for end in (31, 32):
                add(9, size, push, pre=2 if tasks < 3 and size < 3 else 1, live=1, epi=[(end, 0)])
                if tasks:
                    add(9, size, [[(35, 0)] + push[0] + [(end, 0)]], pre=1)
            if 2 <= tasks <= 4:
                add(9, size, [push[0][::2], push[0][1::2]], live=1, epi=[(31, 0)], pre=1)
                add(9, size, push, live=1, pre=1, epi=[(31, 0)], spur=1)
        add(9, size, [[(30, 1), (30, 2)]], live=1)
        for f in range(size):
            add(9, size, [[(35, 0)]], fail=f)
    for n, q in ((1, 1), (1, 2), (2, 1), (2, 2), (3, 0), (2, 4)):
        for tasks in range(0, 5):
            push = [[(30 if k % 2 else 33, k) for k in range(1, tasks + 1)]]
            for end in (31, 32):
                add(10, n, push, param2=q, pre=2 if tasks < 3 and n < 3 else 1, live=1, epi=[(end, 0)])
            if tasks > 1:
                add(10, n, [push[0][::2], push[0][1::2]], param2=q, live=1, epi=[(31, 0)], pre=1)
        add(10, n, [[(35, 0), (34, 0), (33, 1), (31, 0), (35, 0), (30, 2), (32, 0)]], param2=q, pre=1)
        for f in range(n):
            add(10, n, [[(35, 0)]], param2=q, fail=f)
    for t in ([[(40, 0), (41, 0)]], [[(40, 0), (40, 1), (41, 1), (41, 0)]], [[(40, 0), (42, 0), (40, 1), (41, 1)]],
              [[(40, 0), (41, 0)], [(40, 1), (41, 1)]], [[(40, 0), (40, 1), (40, 2), (41, 2), (41, 0), (42, 1)]]):
        add(11, 0, t)
    return out


def encode(s, runs, rand, seed):
    def ops(o):
        return f"{len(o)} " + " ".join(f"{a} {b}" for a, b in o)
    return (f"{s['kind']} {s['param']} {s['param2']} {s['live']} {s['pre']} {s['spur']} {s['tim']} {runs} {rand} {seed} {s['fail']} "
            f"{len(s['threads'])} " + " ".join(ops(t) for t in s["threads"]) + " " + ops(s["epi"]) + "\n")


def run(ctx):
    ctx.build_c3c()
    obj = ctx.path("sched.o")
    code, o, e = core.sh(["gcc", "-O1", "-c", os.path.join(core.VERIF, "drivers/sched.c"), "-o", obj])
    if code:
        raise core.CheckError(e)
    scen = scenarios(ctx)
    runs, rand = (60000, 20000) if ctx.thorough else (2500, 300)
    cap = 3000 if ctx.thorough else 60
    cases, back, total, complete = [], [], 0, 0
    for opt in (["-O1"], ["-O0"]):
        exe = hist.driver(ctx, "threads", opt, tag=opt[0], files=[obj])
        if not exe:
            continue
        mine = scen if opt == ["-O1"] else scen[::7]

        def one(ix):
            s = mine[ix]
            code, so, se = core.sh([exe], stdin=encode(s, runs, rand, ctx.seed * 1000 + ix), timeout=200)
            return ix, code, so, se

        for ix, code, so, se in ctx.pmap(one, list(range(len(mine)))):
            s = mine[ix]
            lines = so.split("\n")
            if code or not lines or not any(l.startswith("E ") for l in lines):
                ctx.violation(f"kind{s['kind']}:crash", f"scenario {s} ended with {code}: {se[:1500]}", {"scenario": s, "stderr": se[:4000]})
                continue
            hs = [[int(x) for x in l.split()[1:]] for l in lines if l.startswith("R ")]
            e = [l for l in lines if l.startswith("E ")][0].split()
            total += int(e[1])
            complete += int(e[2])
            if len(hs) > cap:
                odd = [h for h in hs if h[0] or h[1]]
                hs = odd[:20] + ctx.rng.sample(hs, cap)
            for h in hs:
                ev = [h[i:i + 4] for i in range(2, len(h), 4)]
                cases.append({"k": [s["kind"], s["param"], s["param2"], s["live"], int(s["fail"] >= 0)], "o": ev, "f": h[:2], "e": 1})
                back.append(s)
    for t in ctx.tlc_cases("C3Threads", cases, "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", shards=4, timeout=1500):
        if t[0] != "MISMATCH":
            continue
        s, c = back[t[1]], cases[t[1]]
        ctx.violation(f"kind{s['kind']}:{'end' if t[2] > len(c['o']) else c['o'][t[2] - 1][1:3]}",
                      f"kind {s['kind']} parameter {s['param']},{s['param2']} threads {s['threads']} epilogue {s['epi']}: {t[3]} {t[4]} after {c['o'][max(0, t[2] - 12):t[2]]}",
                      {"scenario": s, "events": c["o"], "end": c["f"], "position": t[2]})
    ctx.traces += len(cases)
    ctx.coverage.update(scenarios=len(scen), schedules_run=total, scenarios_fully_explored_within_the_bound=complete, histories=len(cases))
    for c in cases[:: max(1, len(cases) // 3)][:3]:
        ctx.coverage["samples"].append({"object": c["k"], "events": c["o"][:20]})
    ctx.assumptions.append("C3 code between two thread operations runs without interleaving (no data races inside operations that take no lock are explored), sequentially consistent memory")
