"""C13: flow analysis; the compiler's verdict on each function is compared with the rules of C3Reach, which TLC
also checks against the machine that runs the function."""
import re

from vf import reach
from vf.core import log, sh

LEVEL = "model_checking"
CFG = "SPECIFICATION Spec\nINVARIANT AlwaysReturns\nINVARIANT UsesValues\nINVARIANT DeadNeverRuns\nCHECK_DEADLOCK FALSE\n"


def verdicts(ctx, name, text):
    """[(error or warn, row, message)] in the order reported, or None"""
    p = ctx.write(f"{name}/t.c3", text)
    code, out, err = ctx.c3(["compile-only", p, "--lsp", "--threads", "1"], cwd=ctx.path(f"{name}/."), timeout=200)
    if "ENDLSP" not in out + err:
        return None, f"exit {code} {(out + err)[-900:]}"
    ms = re.findall(r'> LSPERR\|(error|warn)\|"([^"]*)"\|(\d+)\|(\d+)\|"((?:[^"\\]|\\.)*)"', out + err)
    return [(m[0], int(m[2]), m[4]) for m in ms if m[1].endswith("t.c3")], [m for m in ms if not m[1].endswith("t.c3")]


def run(ctx):
    ctx.build_c3c()
    n = 160000 if ctx.thorough else 24000
    fs = [reach.Func(ctx.rng, i) for i in range(n)]
    size = 250
    head = reach.HEAD.count("\n")
    chunks = [fs[i:i + size] for i in range(0, n, size)]

    def go(ch):
        rows = []
        starts = []
        for f in ch:
            starts.append(head + 1 + len(rows))
            rows += f.rows
        text = reach.HEAD + "\n".join(rows) + "\n"
        vs, extra = verdicts(ctx, f"r{ch[0].n}", text)
        if vs is None or extra:
            if len(ch) > 1:
                h = len(ch) // 2
                return {**go(ch[:h]), **go(ch[h:])}
            ctx.violation(f"compiler-{ch[0].n}", extra, {"source": text})
            return {}
        res = {f.n: [None, [], ""] for f in ch}
        k = 0
        for kind, row, msg in vs:
            k = max(i for i in range(len(ch)) if starts[i] <= row) if row >= starts[0] else 0
            e = res[ch[k].n]
            if kind == "warn":
                if "never execute" in msg:
                    e[1].append(row - starts[k])
            elif e[0] is None:
                e[0], e[2] = row - starts[k], msg
        # what was accepted also has to compile
        good = [f for f in ch if res[f.n][0] is None]
        src = reach.HEAD + "\n".join("\n".join(f.rows) for f in good) + "\n"
        p = ctx.write(f"g{ch[0].n}/t.c3", src)
        code, out, err = ctx.c3(["compile-only", p, ctx.rng.choice(["-O0", "-O1"]), "--obj-out", "o", "--threads", "1"], cwd=ctx.path(f"g{ch[0].n}/."), timeout=200)
        if code:
            ctx.violation(f"accepted-but-fails-{ch[0].n}", (out + err)[-900:], {"source": src})
        return res

    res = {}
    for r in ctx.pmap(go, chunks):
        res.update(r)
    log("compiled")
    idx = sorted(res)
    cases = [fs[i].case(res[i][0], res[i][1]) for i in idx]
    seen = set()
    for t in ctx.tlc_cases("C3Reach", cases, CFG, shards=8, timeout=800):
        i = idx[t[1]]
        if i in seen:
            continue
        seen.add(i)
        f = fs[i]
        rows = sorted(f.rowof.get(w, -1) for w in t[3])
        ctx.violation(f"function-{i}", {"rejected by the rules at row": None if t[2] == -1 else 0 if t[2] == 0 else f.rowof[t[2]], "dead": rows,
                                        "rejected at row": res[i][0], "message": res[i][2], "reported dead": res[i][1]}, {"source": reach.HEAD + "\n".join(f.rows) + "\n"})
    acc = sum(res[i][0] is None for i in idx)
    ctx.traces += len(cases)
    ctx.coverage.update(functions=n, accepted=acc, missing_return=sum(res[i][0] == 0 for i in idx), other_errors=len(idx) - acc - sum(res[i][0] == 0 for i in idx),
                        with_dead_code=sum(bool(res[i][1]) for i in idx))
    ctx.coverage["samples"] = [{"source": fs[i].rows, "verdict": res[i]} for i in idx[:3]]
