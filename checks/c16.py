"""C16: priority queues, sorting and searching against spec/C3Order.tla."""
from vf import hist

LEVEL = "model_checking"
SORTS = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26]
POSITIVE = {11, 12, 13, 14, 15, 16, 17, 18, 19}
SEARCH = [32, 33, 34, 35, 36, 37]


def data(rng, n, algo):
    shape = rng.randrange(8)
    top = rng.choice([3, 10, 400, 70000, 2000000, 2000000000])
    if algo in (18, 16):
        top = min(top, 6000000)
    if algo == 17:
        top = min(top, 2000000000)
    lo = 0 if algo in POSITIVE or rng.random() < 0.5 else -top
    if shape == 0:
        return [rng.randrange(lo, top + 1)] * n
    d = [rng.randrange(lo, top + 1) for _ in range(n)]
    if shape == 1:
        d.sort()
    elif shape == 2:
        d.sort(reverse=True)
    elif shape == 3:
        d.sort()
        for _ in range(2):
            if n:
                d[rng.randrange(n)] = rng.randrange(lo, top + 1)
    elif shape == 4:
        h = sorted(d[: n // 2])
        d = (h + h[::-1]) or d
    elif shape == 5:
        d = [v - v % 100 for v in d] if algo not in (11, 12, 13, 14, 15, 19, 18) else d
    return d


def run(ctx):
    rng = ctx.rng
    ctx.build_c3c()
    hists = []
    # all inputs of up to five elements over a small range
    perms = [[]]
    for n in range(1, 6):
        perms += hist.exhaustive([100, 205, 210, 300], n) if n < 5 or ctx.thorough else rng.sample(hist.exhaustive([100, 205, 210, 300], n), 300)
    for algo in SORTS:
        for part in range(0, len(perms), 100):
            hists.append((20, [[algo, rng.randrange(7), rng.randrange(7)] + p for p in perms[part:part + 100]]))
    for algo in (30, 31):
        for part in range(0, len(perms), 100):
            hists.append((20, [[algo, k, 0] + p for p in perms[part:part + 100] for k in range(max(1, len(p)))]))
    for algo in SEARCH:
        for part in range(0, len(perms), 100):
            hists.append((20, [[algo, x, 0] + sorted(p) for p in perms[part:part + 100] for x in (0, 100, 150, 205, 210, 250, 300, 400)]))
    for algo in (40, 41, 42, 43, 44, 45):
        for part in range(0, len(perms), 100):
            hists.append((20, [[algo, rng.randrange(2), 0] + p for p in perms[part:part + 100]]))
    for _ in range(20 if ctx.thorough else 2):
        for algo in SORTS:
            for n in (7, 31, 32, 33, 64, 100, 129, 300, 1500 if algo in POSITIVE else 700):
                hists.append((20, [[algo, rng.randrange(0, 2000), rng.randrange(0, 2000)] + data(rng, n, algo)]))
        for algo in (30, 31):
            for n in (1, 2, 10, 100, 300, 700):
                for k in (0, n - 1, rng.randrange(n), n // 2):
                    hists.append((20, [[algo, k, 0] + data(rng, n, algo)]))
        for algo in SEARCH:
            for n in (1, 2, 3, 8, 100):
                d = sorted(data(rng, n, algo))
                hists.append((20, [[algo, x, 0] + d for x in sorted({d[0] - 1, d[-1] + 1, d[0], d[-1], d[n // 2], d[n // 2] + 1})]))
        for algo in (40, 41, 42, 43, 44, 45):
            for n in (0, 1, 2, 3, 10, 50):
                for _ in range(4):
                    hists.append((20, [[algo, rng.randrange(2), 0] + data(rng, n, algo)]))
    ops = [[1, 101], [1, 102], [1, 203], [2], [3], [4, 0], [4, 1], [4, 2], [4, 3]]
    small = hist.exhaustive(ops, 5)
    for kind in range(5):
        for q in small if ctx.thorough else rng.sample(small, 900):
            hists.append((kind, q + [[2], [2], [2]]))
        for _ in range(2000 if ctx.thorough else 120):
            h = []
            w = rng.choice([5, 300, 3000])
            bias = rng.random()
            for _ in range(rng.choice([10, 30, 80])):
                c = 1 if rng.random() < bias else rng.choice([1, 1, 2, 2, 3, 4, 5, 6])
                h.append([c, rng.randrange(0, w)])
            h += [[2]] * rng.randrange(0, 40)
            hists.append((kind, h))
    for opt in (["-O0"], ["-O1"]):
        exe = hist.driver(ctx, "order", opt, tag=opt[0])
        if exe:
            hist.check(ctx, "C3Order", exe, hists if opt == ["-O1"] or ctx.thorough else hists[::3], "order" + opt[0])
