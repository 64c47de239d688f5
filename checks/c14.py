"""C14: the sequence containers answer like the sequences of spec/C3Seq.tla."""
from vf import hist

LEVEL = "model_checking"

COMMON = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29,
          30, 31, 32, 33, 34, 35, 36, 37, 38, 39]
KINDS = {
    0: COMMON + [40, 41, 42],
    1: COMMON + [43, 44, 45, 46, 47],
    2: [1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 13, 14, 15, 24, 25, 26, 29, 48, 49],
    3: [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 28, 29, 32, 33, 40, 48, 50, 51],
    4: [1, 4, 52, 53],
    5: [1, 2, 3, 4, 5, 7, 8, 16, 21, 26],
    11: [1, 2, 15, 60, 61, 9], 13: [1, 2, 15, 60, 61, 9], 14: [1, 2, 15, 60, 61, 9], 15: [1, 2, 15, 60, 61, 9],
}
GROW = {1, 7, 5, 27, 28, 42, 43, 44, 45, 46, 47, 61}


def args(rng, code, kind, wide):
    v = (lambda: rng.randrange(1, 4)) if not wide else (lambda: rng.choice([rng.randrange(-3, 9), rng.randrange(0, 5)]))
    if kind == 4:
        return [code, rng.choice([0, 1, 2, 0])] if code == 1 else [code, rng.randrange(9), 0]
    ix = rng.randrange(0, 9)
    if code in (1, 7, 21, 22, 23, 24, 25, 26, 43, 44, 38):
        return [code, v()]
    if code in (4, 15):
        return [code, ix]
    if code in (5, 6, 34, 35, 45):
        return [code, ix, v()]
    if code == 16:
        return [code, ix, rng.randrange(0, 9)]
    if code in (17, 18, 19, 20):
        m = rng.randrange(1, 4)
        return [code, m, rng.randrange(0, m)]
    if code in (27, 47, 42):
        return [code] + [v() for _ in range(rng.randrange(0, 6))]
    if code == 61:
        return [code] + [rng.randrange(1, 90) for _ in range(rng.randrange(0, 8))]
    if code == 40:
        return [code, rng.randrange(0, 20)]
    if code == 41:
        return [code, rng.randrange(0, 4)]
    if code == 60:
        return [code, rng.randrange(0, 12), rng.randrange(0, 8)]
    return [code]


# one representative per operation for the exhaustive part (arguments that distinguish positions)
def small(kind):
    if kind >= 11:
        return [[1, 1], [1, 2], [2], [15, 1], [60, 0, 2], [60, 1, 5], [61, 3, 4], [61, 5, 6, 7, 8], [9]]
    if kind == 4:
        return [[1, 0], [1, 1], [52], [53], [4, 1, 0]]
    two = {4: [[4, 0], [4, 1]], 5: [[5, 0, 3], [5, 1, 2], [5, 2, 1]], 6: [[6, 1, 2]], 15: [[15, 1]], 16: [[16, 0, 1]],
           17: [[17, 2, 0]], 18: [[18, 2, 0]], 19: [[19, 2, 1]], 20: [[20, 2, 1]], 27: [[27, 1, 2, 1]], 42: [[42, 3, 1]],
           34: [[34, 1, 2]], 35: [[35, 1, 1]], 38: [[38, 1]], 40: [[40, 3]], 41: [[41, 0]], 45: [[45, 1, 2]],
           47: [[47, 1, 2, 3, 1]], 1: [[1, 1], [1, 2]], 7: [[7, 1], [7, 3]]}
    return [o for c in KINDS[kind] for o in two.get(c, [[c, 1]] if c in (21, 22, 23, 24, 25, 26, 43, 44) else [[c]])]


def run(ctx):
    rng = ctx.rng
    ctx.build_c3c()
    hists = []
    for kind, codes in KINDS.items():
        ops = small(kind)
        # every sequence of 2 operations behind every prefix of a small family
        prefixes = [[]] + [[[1, a]] for a in (1, 2)] + [[[1, 1], [1, 2]], [[1, 2], [29], [1, 1]], [[1, 1], [1, 2], [1, 1]],
                                                       [[1, 1], [1, 2], [1, 3], [1, 1], [1, 2], [1, 3]]]
        if kind >= 11 or kind in (4, 5):
            prefixes = [p for p in prefixes if [29] not in p]
        depth = 2 if len(ops) > 12 else 4 if len(ops) < 6 else 3
        for p in prefixes:
            seqs = hist.exhaustive(ops, depth)
            if not ctx.thorough and len(seqs) > 350:
                seqs = rng.sample(seqs, 350)
            hists += [(kind, p + q) for q in seqs]
        for r in range(4000 if ctx.thorough else 160):
            wide = rng.random() < 0.5
            grow = [c for c in codes if c in GROW]
            n = rng.choice([10, 25, 60])
            favour = rng.random()
            h = []
            for _ in range(n):
                code = rng.choice(grow) if rng.random() < favour * 0.7 else rng.choice(codes)
                if code in (9, 41, 42) and rng.random() < 0.7:
                    continue
                if code == 28 and rng.random() < 0.5:
                    continue
                h.append(args(rng, code, kind, wide))
            hists.append((kind, h))
    for opt in (["-O0"], ["-O1"]):
        exe = hist.driver(ctx, "seq", opt, tag=opt[0])
        if exe:
            part = hists if opt == ["-O1"] or ctx.thorough else hists[::4]
            hist.check(ctx, "C3Seq", exe, part, "sequences" + opt[0])
