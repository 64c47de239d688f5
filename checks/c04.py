"""C04: implicit conversions. Statements with expression trees are given to the compiler, each in a function of its own;
which of them it rejects and the values the accepted ones give are decided by TLC (spec/C3Conv.tla); the matrix
of all pairs of types by spec/C3Types.tla."""
import re

from vf import conv
from vf.core import CheckError, log, sh

LEVEL = "model_checking"
CFG = "SPECIFICATION ConvSpec\nINVARIANT KeepsValue\nCHECK_DEADLOCK FALSE\n"
MCFG = "SPECIFICATION Spec\nINVARIANTS Reflexive NoBool\nCHECK_DEADLOCK FALSE\n"


def rejected(ctx, name, text, lines=True):
    """Lines of the file on which the compiler reports errors."""
    p = ctx.write(f"{name}/t.c3", text)
    code, out, err = ctx.c3(["compile-only", p, "--lsp", "--threads", "1"], cwd=ctx.path(f"{name}/."), timeout=200)
    msgs = re.findall(r'> LSPERR\|error\|"([^"]*)"\|(\d+)\|(\d+)\|"((?:[^"\\]|\\.)*)"', out + err)
    if "ENDLSP" not in out + err:
        return None, f"exit {code} {(out + err)[-1500:]}"
    return {int(m[1]): m[3] for m in msgs if m[0].endswith("t.c3")}, [m for m in msgs if not m[0].endswith("t.c3")]


def statements(ctx):
    n = 24000 if ctx.thorough else 4800
    st = [conv.Stmt(ctx.rng, i) for i in range(n)]
    text = [s.render() for s in st]
    calls = [s.call() for s in st]
    head = conv.HEAD.count("\n")
    size = 400
    chunks = [range(i, min(n, i + size)) for i in range(0, n, size)]

    def go(ch):
        bad, extra = rejected(ctx, f"r{ch[0]}", conv.HEAD + "\n".join(text[i] for i in ch) + "\n")
        if bad is None or extra:
            ctx.violation(f"compiler-{ch[0]}", extra, {"source": conv.HEAD + "\n".join(text[i] for i in ch)})
            return {}
        res = {i: [bad.get(head + 1 + k), None] for k, i in enumerate(ch)}
        good = [i for i in ch if res[i][0] is None]
        for lv in ["-O0", "-O1"] if ctx.thorough or ch[0] % 1200 == 0 else ["-O0"]:
            src = conv.HEAD + "\n".join(text[i] for i in good) + "\nfn void main()\n{\n" + "\n".join(calls[i] for i in good) + "\n}\n"
            exe, msg = ctx.compile(f"v{ch[0]}{lv}", {"t.c3": src}, [lv])
            if exe is None:
                ctx.violation(f"accepted-but-fails-{ch[0]}", msg[-1500:], {"source": src})
                continue
            code, out, err = sh([exe], timeout=60)
            got = {int(l.split()[1]): l.split()[2] for l in out.splitlines() if l.startswith("R ")}
            for i in good:
                if i not in got:
                    ctx.violation(f"crash-{i}", f"exit {code} {err[-800:]}", {"source": text[i], "call": calls[i]})
                    break
                v = int(got[i]) if conv.is_float(st[i].t) else list(bytes.fromhex(got[i]))
                if res[i][1] is not None and res[i][1] != v:
                    ctx.violation(f"levels-{i}", [res[i][1], v], {"source": text[i], "call": calls[i]})
                res[i][1] = v
        return res

    res = {}
    for r in ctx.pmap(go, chunks):
        res.update(r)
    per = 20
    idx = sorted(res)
    groups = [idx[i:i + per] for i in range(0, len(idx), per)]
    cases = []
    for g in groups:
        cases.append({"p": [{"t": st[i].t, "op": st[i].op, "x": st[i].x, "e": st[i].e} for i in g],
                      "log": [{"ok": res[i][0] is None, "v": res[i][1] if res[i][1] is not None else []} for i in g]})
    log("compiled after", round(__import__("time").time() - ctx.t0))
    for t in ctx.tlc_cases("C3Conv", cases, CFG, shards=4, timeout=800):
        i = groups[t[1]][t[2] - 1]
        ctx.violation(f"stmt-{i}", {"source": text[i], "specified": t[3], "observed": t[4], "error": res[i][0], "call": calls[i]},
                      {"source": text[i], "call": calls[i]})
    acc = sum(r[0] is None for r in res.values())
    ctx.traces += len(cases)
    ctx.coverage.update(statements=n, accepted=acc, rejected=n - acc)
    ctx.coverage["samples"] = [{"source": text[i], "rejected": res[i][0]} for i in idx[:4]]


def matrix(ctx):
    ts, decls = conv.universe()
    head = decls.count("\n")
    n = len(ts)
    src = decls + "".join(
        [f"fn void i{i}_{j}({a} x) {{ {b} y = x; }}\n", f"fn {b} r{i}_{j}({a} x) {{ return x; }}\n"][k]
        for k in range(2) for i, (a, _) in enumerate(ts) for j, (b, _) in enumerate(ts))
    bad, extra = rejected(ctx, "matrix", src)
    if bad is None or extra or any(l <= head for l in bad):
        ctx.violation("matrix", extra or bad, {"source": src[:4000]})
        return
    ok = [[[(head + 1 + (k * n + i) * n + j) not in bad for j in range(n)] for i in range(n)] for k in range(2)]
    for t in ctx.tlc_cases("C3Types", [{"types": [d for _, d in ts], "init": ok[0], "ret": ok[1]}], MCFG, timeout=300):
        a, b = ts[t[2] - 1][0], ts[t[3] - 1][0]
        for k in range(2):
            if t[4 + 2 * k] != t[5 + 2 * k]:
                line = head + 1 + (k * n + t[2] - 1) * n + t[3] - 1
                ctx.violation(f"type-{k}-{a}-{b}".replace(" ", ""), {"from": a, "to": b, "specified": t[4 + 2 * k], "observed": t[5 + 2 * k], "error": bad.get(line)},
                              {"source": decls + src.splitlines()[line - 1]})
    ctx.coverage.update(types=n, pairs=n * n, implicit=sum(map(sum, ok[1])))


def run(ctx):
    ctx.build_c3c()
    matrix(ctx)
    statements(ctx)
