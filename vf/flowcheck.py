import time

from . import flow
from .core import log, sh

CFG = """CONSTANT CaseFile = "cases.json"
SPECIFICATION Spec
INVARIANTS DeferDiscipline DeferKind ScopeAboveSeq Fuel Done
CHECK_DEADLOCK FALSE
"""


def jumpy(p):
    return any("jump" in str(s.get("kind")) for s in p["st"])


def check(ctx, progs, family):
    ctx.build_c3c()
    levels = ["-O0", "-O1", "-O3"]
    chunk = 60
    chunks = [list(range(i, min(i + chunk, len(progs)))) for i in range(0, len(progs), chunk)]
    # quick: every program at -O0, half of them also at -O1, a quarter at -O3
    use = lambda ci, lv: ctx.thorough or lv == "-O0" or (lv == "-O1" and ci % 2 == 0) or (lv == "-O3" and ci % 4 == 1)
    jobs = [(ci, lv) for ci in range(len(chunks)) for lv in levels if use(ci, lv)]
    llvm, failed = [], [0]

    def compile_run(job, sub=None):
        ci, lv = job
        if failed[0] >= 6:               # enough failures to report: the rest is not run
            return {i: ("skipped", "") for i in (sub if sub is not None else chunks[ci])}
        idx = sub if sub is not None else chunks[ci]
        src = flow.source([(i, progs[i][1]) for i in idx])
        name = f"{ci}{lv}" + (f"-{idx[0]}-{len(idx)}" if sub is not None else "")
        exe, msg = ctx.compile(name, {"t.c3": src}, [lv])
        if exe is None:
            if len(idx) == 1 and lv != "-O0" and msg.startswith("exit -11\n") and jumpy(progs[idx[0]][1]):
                # LLVM 18's LoopSimplifyCFG crashes on some valid functions with indirectbr (see DESIGN.md)
                llvm.append((progs[idx[0]][0], lv))
                return {idx[0]: ("llvm", msg)}
            if len(idx) == 1:
                failed[0] += 1
                return {idx[0]: ("compile", msg)}
            h = len(idx) // 2
            res = compile_run(job, idx[:h])
            res.update(compile_run(job, idx[h:]))
            return res
        code, out, err = sh([exe], timeout=60)
        res = {}
        for line in out.splitlines():
            f = line.split()
            if f and f[0] == "T":
                res[int(f[1])] = ("log", [int(x) for x in f[2:]])
        missing = [i for i in idx if i not in res]
        if missing:
            failed[0] += 1
            res[missing[0]] = ("crash", f"exit {code} {err[-1500:]}")
            if len(missing) > 1:
                rest = compile_run(job, missing[1:])
                res.update(rest)
        return res

    results = ctx.pmap(compile_run, jobs)
    cases, meta = [], []
    for (ci, lv), res in zip(jobs, results):
        for i in chunks[ci]:
            kind, val = res[i]
            if kind in ("llvm", "skipped"):
                continue
            if kind != "log":
                ctx.violation(f"{kind}-{progs[i][0].replace(' ', '_')}", {"level": lv, "kind": kind, "message": val[-3000:]},
                              {"program": progs[i][1], "source": flow.source([(i, progs[i][1])]), "level": lv})
            else:
                cases.append(flow.for_tlc(progs[i][1], val))
                meta.append((i, lv, val))
    # the same log at several levels is one case
    uniq, first = {}, []
    for q, (i, lv, val) in enumerate(meta):
        uniq.setdefault((i, tuple(val)), []).append(q)
    order = list(uniq.values())
    log("compiled and ran after", round(time.time() - ctx.t0), "s")
    bad = ctx.tlc_cases("C3Flow", [cases[g[0]] for g in order], CFG, shards=4, timeout=900)
    for t in bad:
        if t[0] != "MISMATCH":
            continue
        i, lv, val = meta[order[t[1]][0]]
        lvs = [meta[q][1] for q in order[t[1]]]
        ctx.violation(f"trace-{progs[i][0].replace(' ', '_')}", {"levels": lvs, "at": t[2], "specified": t[3], "observed": t[4]},
                      {"program": progs[i][1], "source": flow.source([(i, progs[i][1])]), "levels": lvs, "observed": val})
    ctx.traces += len(cases)
    kinds = {}
    for _, p in progs:
        for s in p["st"]:
            kinds[s["k"]] = kinds.get(s["k"], 0) + 1
    ctx.coverage.update(programs=len(progs), family_size=family, levels=levels, optimizer_crashes_skipped=llvm, compiled_runs=len(cases), distinct_runs=len(order),
                        events=sum(len(m[2]) for m in meta), statements_by_kind=kinds)
    ctx.coverage["samples"] = [{"case": progs[i][0], "log": val[:40]} for i, lv, val in meta[:2] + meta[-2:]]
    ctx.assumptions += ["the C3 source is a faithful rendering of the program given to the specification (vf/flow.py)"]
