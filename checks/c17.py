"""C17: bit sets and enum sets against spec/C3Set.tla."""
import os
from vf import core, hist

LEVEL = "model_checking"
BITS = [1, 31, 32, 33, 64, 100, 200, 321]
GROW = [508, 516, 532, 564, 628]
ENUMS = [1003, 1008, 1009, 1017, 1033, 1064, 1065, 1128, 1130, 1200]


def run(ctx):
    rng = ctx.rng
    ctx.build_c3c()
    hists = []
    for kind in BITS + GROW + ENUMS:
        n = kind - 1000 if kind > 1000 else 300 if kind > 500 else kind
        codes = ([1, 2, 5, 8, 9, 10, 11, 12, 13, 14, 15, 17] if kind > 1000 else [1, 2, 3, 4, 5, 6, 7] if kind > 500
                 else [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15])
        # every element alone: set, asked for, removed
        for a in range(0, n, 25):
            h = []
            for x in range(a, min(n, a + 25)):
                h += [[1, x, 1], [5, x, 0], [2, x, 0], [5, x, 0]] if x % 3 else [[1, x, 1]]
            hists.append((kind, h))
        for _ in range(600 if ctx.thorough else 30):
            h = []
            top = rng.choice([n, min(n, 9), min(n, 70)])
            lo = rng.randrange(0, n - top + 1)
            for _ in range(rng.choice([10, 40, 80])):
                c = rng.choice(codes)
                if c in (8, 11, 13) and rng.random() < 0.5 or rng.random() < 0.4:
                    c = 1
                h.append([c, rng.randrange(lo, lo + top), rng.randrange(2)])
            hists.append((kind, h))
    for opt in (["-O0"], ["-O1"]):
        exe = hist.driver(ctx, "sets", opt, tag=opt[0], files=["setenums.c3"])
        if exe:
            hist.check(ctx, "C3Set", exe, hists if opt == ["-O1"] or ctx.thorough else hists[::3], "sets" + opt[0])
