"""C01: control flow and deferred statements follow spec/C3Flow.tla (no optionals needed to observe it, but
the systematic family includes fault exits, which decide defer try/catch)."""
from vf import flow, flowcheck

LEVEL = "model_checking"


def run(ctx):
    rng = ctx.rng
    keys = list(flow.systematic())
    n = len(keys) if ctx.thorough else 2600
    rng.shuffle(keys)
    progs = [("sys " + " ".join(k), flow.build_systematic(k)) for k in keys[:n]]
    for i in range(3000 if ctx.thorough else 800):
        g = flow.Gen(rng, size=rng.choice([2, 3, 4]), opt=i % 3 == 0)
        progs.append((f"random {i}", g.program()))
    flowcheck.check(ctx, progs, len(keys))
