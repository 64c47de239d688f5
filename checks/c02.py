"""C02: optional results - fault propagation, rethrow, defaults, unwrapping and evaluation order follow
spec/C3Flow.tla. Systematic: every small optional expression in every place; random: optional-heavy programs."""
from vf import flow, flowcheck

LEVEL = "model_checking"


def run(ctx):
    rng = ctx.rng
    fam = [(s, u, o) for s in flow.opt_exprs(1) for u in flow.OUSES for o in range(2) if flow.opt_ok(s, u)]
    deep = [s for s in flow.opt_exprs(2)]
    rng.shuffle(deep)
    more = [(s, rng.choice(flow.OUSES), rng.randrange(3)) for s in deep[:60000 if ctx.thorough else 4000]]
    more = [q for q in more if flow.opt_ok(q[0], q[1])]
    if not ctx.thorough:
        rng.shuffle(fam)
        fam, more = fam[:1500], more[:900]
    progs = [(f"opt {s} {u} {o}", flow.opt_program(s, u, o)) for s, u, o in fam + more]
    progs += [(f"chain {w} {k} {f}", flow.chain_program(w, k, f)) for w, k, f in flow.chains()]
    for i in range(3000 if ctx.thorough else 500):
        g = flow.Gen(rng, size=rng.choice([2, 3, 4]), heavy=True)
        progs.append((f"random {i}", g.program()))
    flowcheck.check(ctx, progs, len(fam) + len(more))
