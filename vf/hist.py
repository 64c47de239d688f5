"""Histories: a driver (C3 program linked with the code under test) executes sequences of operations and prints
what it observed after every operation; a TLA+ module, one of spec/*.tla built on TraceLib, says what must be
observed.  Protocol: a history is the line `kind nops` followed by `nargs args...` for every operation; the
driver answers with one line, the integers of every operation followed by `;`, then the final observations."""

import os
import re
from . import core

BIG = 1 << 30


def enc(h):
    kind, ops = h
    return f"{kind} {len(ops)} " + " ".join(f"{len(o)} " + " ".join(map(str, o)) for o in ops) + "\n"


def run(ctx, exe, hists, chunk=400, timeout=60, env=None, args=()):
    """The answers of the driver: for every history (list of lists, complete?, message)."""
    out = [None] * len(hists)
    jobs = [list(range(a, min(a + chunk, len(hists)))) for a in range(0, len(hists), chunk)]
    crashes = [0]

    def job(ix):
        while ix:
            code, so, se = core.sh([exe] + list(args), stdin="".join(enc(hists[j]) for j in ix), timeout=timeout,
                                   cwd=os.path.dirname(exe), env=env)
            lines = so.split("\n")
            full, rest = lines[:-1], lines[-1]
            for j, line in zip(ix, full):
                out[j] = ([[int(x) for x in part.split()] for part in line.split(";")], True, "")
            if len(full) >= len(ix):
                return
            j = ix[len(full)]
            ops = [[int(x) for x in re.findall(r"-?\d+", part)] for part in rest.split(";")]
            out[j] = (ops[:-1], False, f"exit {code} {se[:1500]}")
            crashes[0] += 1
            ix = ix[len(full) + 1:]
            if crashes[0] > 40:
                for j in ix:
                    out[j] = ([], None, "not run")
                return

    ctx.pmap(job, jobs)
    return out


def check(ctx, module, exe, hists, label, describe=None, shards=4, timeout=600, consts="", keyof=None, files=None,
          pre=None, timeout_run=60, chunk=400):
    """Runs the histories and has TLC decide whether every answer is the one the specification defines."""
    ans = run(ctx, exe, hists, timeout=timeout_run, chunk=chunk)
    cases, back = [], []
    for h, (kind, ops) in enumerate(hists):
        res, complete, msg = ans[h]
        if complete is None:
            continue
        if not complete:
            n = len(res)
            key = keyof(kind, ops, n) if keyof else f"{label}:{kind}:{ops[n][0] if n < len(ops) else 'end'}:crash"
            if key not in [k for k, _ in ctx.violations]:
                ctx.violation(key, f"{label} kind {kind}: the driver ended in operation {n}, ...{ops[max(0, n - 4):n + 1]}: {msg}",
                              {"label": label, "kind": kind, "ops": ops[:n + 1], "message": msg})
            ops = ops[:n]
            cases.append({"k": kind, "o": ops, "r": res, "e": 0})
        else:
            if pre:
                res = pre(res)
            cases.append({"k": kind, "o": ops, "r": res, "e": 1})
        back.append(h)
    bad = 0
    for t in ctx.tlc_cases(module, cases, "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n" + consts, shards=shards,
                           timeout=timeout):
        if t[0] != "MISMATCH":
            continue
        h = back[t[1]]
        kind, ops = hists[h]
        i = t[2]
        want, got = t[3], t[4]
        op = ops[i - 1] if i <= len(ops) else ["end"]
        bad += 1
        key = keyof(kind, ops, i - 1) if keyof else f"{label}:{kind}:{op[0]}"
        if key in [k for k, _ in ctx.violations]:
            continue
        ctx.violation(key, f"{label} kind {kind}: after ...{ops[max(0, i - 5):i - 1]} operation {op} gave {got}, the specification says {want}",
                      {"label": label, "kind": kind, "ops": ops[:i], "expected": want, "got": got})
    ctx.traces += len(cases)
    cov = ctx.coverage.setdefault("histories", {})
    cov[label] = cov.get(label, 0) + len(cases)
    cov["operations"] = cov.get("operations", 0) + sum(len(c["o"]) for c in cases)
    for c in cases[:: max(1, len(cases) // 2)][:2]:
        ctx.coverage["samples"].append({"label": label, "kind": c["k"], "ops": c["o"][:6], "answers": c["r"][:6]})
    return bad


def driver(ctx, name, opts=("-O1",), files=(), safe=True, tag="", extra_files=None):
    """Compiles drivers/<name>.c3 with drivers/vio.c3."""
    d = os.path.join(core.VERIF, "drivers")
    paths = [os.path.join(d, "vio.c3"), os.path.join(d, name + ".c3")] + [os.path.join(d, f) for f in files]
    exe, msg = ctx.compile(name + tag, paths, list(opts) + (["--safe=yes"] if safe else ["--safe=no"]), timeout=200)
    if exe is None:
        ctx.violation(f"{name}:compile", f"the driver {name} does not compile: {msg[-3000:]}",
                      {"driver": name, "opts": list(opts), "message": msg[-6000:]})
    return exe


def exhaustive(ops, n):
    """All sequences of exactly n operations."""
    seqs = [[]]
    for _ in range(n):
        seqs = [s + [o] for s in seqs for o in ops]
    return seqs
