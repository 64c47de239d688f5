"""C03: integer programs computed by folding (every register a constant), by code (every register a variable) and
mixed, at several optimization levels; the logs are validated by TLC against spec/C3Int.tla."""
import time

from vf import ints
from vf.core import log, sh

LEVEL = "model_checking"

CFG = "SPECIFICATION Spec\nINVARIANTS TypeOK BoolOK\nCHECK_DEADLOCK FALSE\n"


def run(ctx):
    ctx.build_c3c()
    n, length = (6000, 14) if ctx.thorough else (1200, 14)
    progs = [ints.Program(ctx.rng, "KVM"[i % 3], length) for i in range(n)]
    chunk = 40
    groups = {m: [i for i in range(n) if "KVM"[i % 3] == m] for m in "KVM"}
    jobs = []
    for m, g in groups.items():
        for k in range(0, len(g), chunk):
            for lv in (["-O0"] if m == "K" and not ctx.thorough else ["-O0", "-O1"] if not ctx.thorough else ["-O0", "-O1", "-O3"]):
                jobs.append((lv, g[k:k + chunk]))
    # the rendering makes random choices: it is done once
    text = {i: p.source(f"p{i}") for i, p in enumerate(progs)}

    def source(idx):
        return ints.HEAD + "\n".join(text[i] for i in idx) + "\nfn void main()\n{\n" + "".join(
            f'\tprintf_("P {i}"); p{i}(); printf_("\\n");\n' for i in idx) + "}\n"

    bad = [0]

    def go(job):
        lv, idx = job
        if bad[0] > 6:
            return {}
        exe, msg = ctx.compile(f"{lv}-{idx[0]}-{len(idx)}", {"t.c3": source(idx)}, [lv])
        if exe is None:
            if len(idx) == 1:
                bad[0] += 1
                return {idx[0]: ("compile", msg)}
            h = len(idx) // 2
            return {**go((lv, idx[:h])), **go((lv, idx[h:]))}
        code, out, err = sh([exe], timeout=60)
        res = {}
        for line in out.splitlines():
            if line.startswith("P "):
                i, lg = ints.parse(line)
                res[i] = ("log", lg)
        if code != 0:
            last = max([i for i in res], default=idx[0])
            res[last] = ("crash", f"exit {code} {err[-1500:]}")
        return res

    results = ctx.pmap(go, jobs)
    cases, meta = {}, {}
    for (lv, idx), res in zip(jobs, results):
        for i, (kind, v) in res.items():
            if kind == "log" and len(v) == len(progs[i].ins):
                key = (i, tuple(v))
                cases[key] = progs[i].case(v)
                meta.setdefault(key, []).append(lv)
            else:
                ctx.violation(f"{kind}-{i}", {"level": lv, "message": v[-2000:]}, {"source": source([i]), "level": lv})
    log("ran after", round(time.time() - ctx.t0), "s")
    keys = list(cases)
    for t in ctx.tlc_cases("C3Int", [cases[k] for k in keys], CFG, shards=6, timeout=800):
        i, v = keys[t[1]]
        ins = progs[i].ins[t[2] - 1]
        ctx.violation(f"value-{i}-{t[2]}", {"instruction": ins, "specified": [t[3], t[4]], "observed": [t[5], t[6]], "levels": meta[keys[t[1]]]},
                      {"source": source([i]), "program": progs[i].ins, "observed": v})
    ctx.traces += len(cases)
    ops = {}
    for p in progs:
        for q in p.ins:
            k = q["k"] + ":" + q.get("op", "")
            ops[k] = ops.get(k, 0) + 1
    ctx.coverage.update(programs=n, runs=len(jobs) * chunk, distinct_logs=len(cases), instructions=sum(len(p.ins) for p in progs), by_operation=ops,
                        modes={"K": "all constants", "V": "all variables", "M": "mixed"})
    ctx.coverage["samples"] = [{"program": progs[k[0]].ins[:6], "log": k[1][:6]} for k in keys[:3]]
