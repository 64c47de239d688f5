"""C07: programs on bitstructs; the value of every read and the bytes after every write are validated by TLC."""
import time

from vf import bits
from vf.core import log, sh

LEVEL = "model_checking"
CFG = "SPECIFICATION Spec\nINVARIANTS Bounded\nPROPERTIES Frame Last\nCHECK_DEADLOCK FALSE\n"


def text(ps):
    out = bits.HEAD.split("\n")
    for p in ps:
        out += p.source()
    out += ["fn void main()", "{"] + [f'printf("P {p.n}\\n"); f{p.n}();' for p in ps] + ["}"]
    return "\n".join(out) + "\n"


def logs(out):
    res, cur = {}, None
    for l in out.split("\n"):
        if l.startswith("P "):
            cur = res[int(l[2:])] = []
        elif l[:2] == "V ":
            cur.append(list(bytes.fromhex(l[2:])))
        elif l[:2] == "X ":
            cur.append([-1])
    return res


def run(ctx):
    ctx.build_c3c()
    n = 6000 if ctx.thorough else 1500
    progs = [bits.Prog(ctx.rng, i) for i in range(n)]
    size = 60
    jobs = [(lv, progs[k:k + size]) for k in range(0, n, size) for lv in (["-O0", "-O1", "-O3"] if ctx.thorough else ["-O0", "-O1"])]

    def go(job):
        lv, ps = job
        exe, msg = ctx.compile(f"{lv}-{ps[0].n}-{len(ps)}", {"t.c3": text(ps)}, [lv, "--safe=yes"], timeout=200)
        if exe is None:
            if len(ps) > 1:
                h = len(ps) // 2
                return {**go((lv, ps[:h])), **go((lv, ps[h:]))}
            ctx.violation(f"compile-{ps[0].n}", msg[-900:], {"source": text(ps), "level": lv})
            return {}
        code, out, err = sh([exe], timeout=60)
        return logs(out)

    results = ctx.pmap(go, jobs)
    log("ran after", round(time.time() - ctx.t0))
    cases, meta = {}, {}
    for (lv, ps), res in zip(jobs, results):
        for i, lg in res.items():
            key = (i, repr(lg))
            cases[key] = dict(progs[i].case(), log=lg)
            meta.setdefault(key, []).append(lv)
    keys = list(cases)
    for t in ctx.tlc_cases("C3Bits", [cases[k] for k in keys], CFG, shards=4, timeout=800):
        i = keys[t[1]][0]
        p, lg = progs[i], cases[keys[t[1]]]["log"]
        ctx.violation(f"step-{i}-{t[2]}", {"step": p.lines[t[2] - 1], "observed": bytes(x % 256 for x in lg[t[2] - 1]).hex() if t[2] <= len(lg) else "nothing",
                                           "types": p.source()[:2], "levels": meta[keys[t[1]]]}, {"source": text([p]), "levels": meta[keys[t[1]]]})
    ctx.traces += len(cases)
    ctx.coverage.update(programs=n, runs=sum(len(j[1]) for j in jobs), distinct_logs=len(cases), steps=sum(len(p.steps) for p in progs),
                        forms={f: sum(p.form == f for p in progs) for f in sorted({p.form for p in progs})})
    ctx.coverage["samples"] = [{"lines": progs[0].source(), "log": [bytes(x % 256 for x in l).hex() for l in cases[keys[0]]["log"]]}]
