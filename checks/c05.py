"""C05: programs of checked operations run in safe mode, each in a process of its own with a panic handler that says
where it was called; TLC decides from spec/C3Safe.tla what each must have done before it stopped, and why."""
import time

from vf import safe
from vf.core import log, sh

LEVEL = "model_checking"
CFG = "SPECIFICATION Spec\nINVARIANTS Inside Sizes\nCHECK_DEADLOCK FALSE\n"


def source(progs):
    """The program text, and for each program the line of its first step."""
    out = safe.HEAD.rstrip("\n").split("\n")
    first = {}
    for p in progs:
        out += "".join(p.extra).split("\n")
        first[p.n] = len(out) + 3
        out += p.source()
    out += ["fn void one(int i) @noinline", "{", "switch (i) {"]
    out += [f"case {p.n}: {p.call()}" for p in progs]
    out += ["}", "}", "fn void main()", "{", "builtin::panic = &handler;"]
    out += [f"foreach (i : (int[]){{ {', '.join(str(p.n) for p in progs)} }})", "{", 'say("P", i); int pid = fork_(); if (!pid) { one(i); exit_(0); }',
            'int st; waitpid_(pid, &st, 0); if (st != 0 && st != 768) say("S", st);', "}", "}"]
    return "\n".join(out) + "\n", first


def logs(out, progs, first):
    """The log of each program: per step what it wrote; steps without a mark are found by counting marks."""
    res, cur = {}, None
    for l in out.split("\n"):
        if l.startswith("P "):
            cur = int(l[2:])
            res[cur] = []
        elif cur is not None and l:
            res[cur].append(l)
    return res


def split(p, lines, first):
    """[{ok, kind, ev}] per step from the lines of the run; 'N' lines separate the steps."""
    log, ev, i = [], [], 0
    while i < len(lines):
        l = lines[i]
        if l.startswith("E "):
            ev.append(int(l[2:]))
        elif l == "N 0":
            log.append({"ok": True, "kind": "", "ev": ev})
            ev = []
        elif l.startswith("X "):
            k = safe.kind(lines[i + 1] if i + 1 < len(lines) else "")
            at = int(l[2:]) - first
            if at != len(log) and k not in ("require", "ensure", "ref", "method"):
                k += f" reported at step {at + 1}"
            log.append({"ok": False, "kind": k, "ev": ev})
            return log
        else:
            log.append({"ok": False, "kind": "died " + l, "ev": ev})
            return log
        i += 1
    return log


def run(ctx):
    ctx.build_c3c()
    n = 6000 if ctx.thorough else 1600
    progs = [safe.Prog(ctx.rng, i, 6, trap=i % 8 == 7) for i in range(n)]
    for p in progs:
        p.lines = [l + ' say("N", 0);' for l in p.lines]
    size = 50
    jobs = []
    for trap in (False, True):
        g = [p for p in progs if p.trap == trap]
        for k in range(0, len(g), size):
            for lv in ["-O0", "-O1"] if (not trap or ctx.thorough) else [["-O0", "-O1"][(k // size) % 2]]:
                jobs.append((trap, lv, g[k:k + size]))

    def go(job):
        trap, lv, ps = job
        text, first = source(ps)
        name = f"{lv}-{ps[0].n}-{trap}"
        opts = [lv, "--safe=yes"]
        if trap:
            proj = '{ "langrev": "1", "version": "0.1.0", "authors": [], "sources": ["t.c3"], "output": "out", "targets": { "x": { "type": "executable", "trap-on-wrap": true } } }'
            ctx.write(f"{name}/t.c3", text)
            ctx.write(f"{name}/project.json", proj)
            code, out, err = ctx.c3(["build", "x", lv, "--safe=yes"], cwd=ctx.path(f"{name}/."), timeout=200)
            exe, msg = (ctx.path(f"{name}/out/x"), "") if code == 0 else (None, out + err)
        else:
            exe, msg = ctx.compile(name, {"t.c3": text}, opts)
        if exe is None:
            if len(ps) > 1:
                h = len(ps) // 2
                return {**go((trap, lv, ps[:h])), **go((trap, lv, ps[h:]))}
            ctx.violation(f"compile-{ps[0].n}", msg[-1500:], {"source": text, "level": lv})
            return {}
        code, out, err = sh([exe], timeout=100)
        raw = logs(out, ps, first)
        return {p.n: split(p, raw.get(p.n, []), first[p.n]) for p in ps}

    results = ctx.pmap(go, jobs)
    log("ran after", round(time.time() - ctx.t0))
    cases, meta = {}, {}
    for (trap, lv, ps), res in zip(jobs, results):
        for i, lg in res.items():
            key = (i, repr(lg))
            cases[key] = dict(progs[i].case(), log=lg)
            meta.setdefault(key, []).append(lv)
    keys = list(cases)
    stops = {}
    for k in keys:
        lg = cases[k]["log"]
        w = lg[-1]["kind"] if lg else "none"
        stops[w or "end"] = stops.get(w or "end", 0) + 1
    for t in ctx.tlc_cases("C3Safe", [cases[k] for k in keys], CFG, shards=4, timeout=800):
        i = keys[t[1]][0]
        p = progs[i]
        text, _ = source([p])
        ctx.violation(f"step-{i}-{t[2]}", {"step": p.lines[t[2] - 1], "parameters": [f"{a} p{j} = {b}" for j, (a, b) in enumerate(p.params) if f"p{j}" in p.lines[t[2] - 1]],
                                           "declarations": p.decls, "specified": t[3:6], "observed": t[6:9], "levels": meta[keys[t[1]]]}, {"source": text, "levels": meta[keys[t[1]]]})
    ctx.traces += len(cases)
    ctx.coverage.update(programs=n, runs=sum(len(j[2]) for j in jobs), distinct_logs=len(cases), steps=sum(len(p.steps) for p in progs), stopped_by=stops)
    ctx.coverage["samples"] = [{"lines": progs[keys[0][0]].lines, "log": cases[keys[0]]["log"]}]
