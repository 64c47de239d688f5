"""C15: the maps answer like the finite functions of spec/C3Map.tla."""
from vf import hist

LEVEL = "model_checking"

HASH = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 23, 24]
SMALL = [[1, 1, 5], [1, 2, 6], [2, 4, 7], [6, 1], [6, 2], [6, 4], [3, 1], [11, 2, 9], [7], [20], [19]]


def history(rng, kind, n):
    h = []
    span = rng.choice([4, 8, 12, 60])
    lo = 0 if kind in (7, 8) or rng.random() < 0.6 else -9
    grow = rng.random()
    for _ in range(n):
        x = rng.randrange(lo, lo + span) if kind != 8 else rng.randrange(12)
        y = rng.randrange(1, 50)
        if kind == 6:
            h.append([rng.choice([1, 2, 3, 4, 7, 9, 10, 1, 2, 9]), x if x >= 0 else -x, y])
        elif kind == 7:
            h.append([rng.choice([1, 2, 3, 4, 5, 6]), rng.randrange(0, 9), y])
        elif kind == 8:
            h.append([rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9]), x, rng.randrange(0, 50)])
        else:
            c = rng.choice([1, 2, 11]) if rng.random() < grow else rng.choice(HASH)
            if c in (7, 21, 24) and rng.random() < 0.7:
                c = 6
            if c == 24:
                h.append([c, rng.randrange(3), y])
            elif c == 21:
                h.append([c, rng.randrange(1, 9), rng.randrange(1, 13)])
            elif c == 12:
                h.append([c, y])
            elif c == 23:
                h.append([c, rng.randrange(0, 30), rng.randrange(0, 30)])
            else:
                h.append([c, x, y])
    return h


def run(ctx):
    rng = ctx.rng
    ctx.build_c3c()
    hists = []
    for kind in range(6):
        seqs = hist.exhaustive(SMALL, 4)
        for q in seqs if ctx.thorough else rng.sample(seqs, 700):
            hists.append((kind, q + [[15], [16]]))
    for kind in range(9):
        for _ in range(2500 if ctx.thorough else 220):
            hists.append((kind, history(rng, kind, rng.choice([8, 20, 50, 120]))))
    # growth over many doublings under every load factor
    for kind in range(6):
        for _ in range(20 if ctx.thorough else 4):
            keys = list(range(-90, 90)) if kind != 3 else list(range(0, 180))
            rng.shuffle(keys)
            h = [[21, rng.choice([1, 2, 8, 16, 100]), rng.choice([1, 2, 3, 4, 7, 12])]]
            for j, x in enumerate(keys[:rng.choice([150, 180])]):
                h.append([rng.choice([1, 2, 11]), x, j])
                if j % 40 == 39:
                    h += [[6, rng.choice(keys[:j]), 0], [3, rng.choice(keys[:j]), 0]]
            hists.append((kind, h))
    for opt in (["-O0"], ["-O1"]):
        exe = hist.driver(ctx, "maps", opt, tag=opt[0])
        if exe:
            hist.check(ctx, "C3Map", exe, hists if opt == ["-O1"] or ctx.thorough else hists[::4], "maps" + opt[0])
