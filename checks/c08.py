"""C08: programs on aggregates; every value printed is validated by TLC against C3Agg."""
import time

from vf import agg
from vf.core import log, sh

LEVEL = "model_checking"
CFG = "SPECIFICATION Spec\nINVARIANT Shape\nPROPERTY Frame\nCHECK_DEADLOCK FALSE\n"
MACRO = "macro m_id(x) => x;\n"


def text(ps):
    out = (agg.HEAD + MACRO).split("\n")
    for p in ps:
        out += p.source()
    out += ["fn void main()", "{"] + [f'printf("P {p.n}\\n");' + f" p{p.n}();" * (1 if p.once else 2) for p in ps] + ["}"]
    return "\n".join(out) + "\n"


def logs(out):
    res, cur = {}, None
    for l in out.split("\n"):
        if l.startswith("P "):
            cur = res[int(l[2:])] = []
        elif l[:1] == "V":
            try:
                cur.append([max(-2 ** 30, min(2 ** 30, int(x))) for x in l[1:].split()])
            except ValueError:
                cur.append([-1])
    return res


def run(ctx):
    ctx.build_c3c()
    n = 5000 if ctx.thorough else 1100
    progs = [agg.Prog(ctx.rng, i) for i in range(n)]
    progs[-1].witness()
    size = 40
    jobs = [(lv, progs[k:k + size]) for k in range(0, n, size) for lv in (["-O0", "-O1", "-O3"] if ctx.thorough else ["-O0", "-O1"])]

    def go(job):
        lv, ps = job
        exe, msg = ctx.compile(f"{lv}-{ps[0].n}-{len(ps)}", {"t.c3": text(ps)}, [lv, "--safe=yes"], timeout=200)
        if exe is None:
            if len(ps) > 1:
                h = len(ps) // 2
                return {**go((lv, ps[:h])), **go((lv, ps[h:]))}
            ctx.violation(f"compile-{ps[0].n}", msg[-900:], {"source": text(ps), "level": lv})
            return {}
        code, out, err = sh([exe], timeout=60)
        res = logs(out)
        if code and len(ps) > 1 and len(res) < len(ps):
            # one of them crashed: run the others apart
            last = max(res) if res else ps[0].n
            rest = [p for p in ps if p.n > last]
            if rest:
                res.update(go((lv, rest)))
        return res

    results = ctx.pmap(go, jobs)
    log("ran after", round(time.time() - ctx.t0))
    cases, meta = {}, {}
    for (lv, ps), res in zip(jobs, results):
        for i, lg in res.items():
            key = (i, repr(lg))
            cases[key] = dict(progs[i].case(), log=lg)
            meta.setdefault(key, []).append(lv)
    keys = list(cases)
    for t in ctx.tlc_cases("C3Agg", [cases[k] for k in keys], CFG, shards=4, timeout=800):
        i = keys[t[1]][0]
        p, lg = progs[i], cases[keys[t[1]]]["log"]
        ctx.violation(f"slice:const-full-{t[2]}" if i == n - 1 else f"step-{i}-{t[2]}", {"step": p.lines[(t[2] - 1) % len(p.lines)][:400], "expected": t[3], "observed": lg[t[2] - 1] if t[2] <= len(lg) else "nothing",
                                           "levels": meta[keys[t[1]]]}, {"source": text([p]), "levels": meta[keys[t[1]]]})
    ctx.traces += len(cases)
    forms = [v["form"] for p in progs for v in p.vars]
    kinds = [s["k"] for p in progs for s in p.steps]
    ctx.coverage.update(programs=n, runs=sum(len(j[1]) for j in jobs), distinct_logs=len(cases), steps=len(kinds),
                        forms={f: forms.count(f) for f in sorted(set(forms))}, kinds={k: kinds.count(k) for k in sorted(set(kinds))})
    ctx.coverage["samples"] = [{"lines": progs[0].source(), "log": cases[keys[0]]["log"]}]
