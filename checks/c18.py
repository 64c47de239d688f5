"""C18: allocators against spec/C3Alloc.tla."""
from vf import hist

LEVEL = "model_checking"
ALIGN = [0, 0, 0, 8, 16, 32, 64, 128, 256]
SIZES = [1, 2, 7, 8, 15, 16, 17, 24, 31, 32, 33, 40, 48, 63, 64, 65, 100, 128, 200, 255, 256, 300, 500, 1000]


def history(rng, kind, n):
    small = rng.random() < 0.5
    cap = {1: rng.choice([64, 200, 512, 1024, 4096]), 2: rng.choice([128, 256, 512, 1024]), 3: rng.choice([16, 64, 200, 512, 2048]),
           4: rng.choice([16, 64, 128, 512, 1024]), 5: rng.choice([64, 200, 600, 2000, 8000])}.get(kind, 0)
    h = [[0, cap]]
    live, marks, level = {}, {}, 0            # only to keep histories meaningful: slot -> (mark order, level)
    order = 0
    for t in range(n):
        r = rng.random()
        size = rng.choice(SIZES[:12] if small else SIZES) + (rng.randrange(3) if rng.random() < 0.2 else 0)
        align = rng.choice(ALIGN)
        slot = rng.randrange(12)
        if r < 0.42:
            slot = rng.choice([x for x in range(12) if x not in live] or [0])
            lv = level if rng.random() < 0.7 else rng.randrange(level + 1)
            if slot not in live:
                live[slot] = (order, lv)
                order += 1
            h.append([1, slot, size, rng.randrange(2), align, lv, rng.randrange(200), rng.randrange(2)])
        elif r < 0.62 and live:
            h.append([2, rng.choice(list(live)), size, rng.randrange(2)])
        elif r < 0.78 and live:
            slot = rng.choice(list(live)) if rng.random() < 0.5 else max(live, key=lambda x: live[x][0])
            del live[slot]
            h.append([3, slot, rng.randrange(2)])
        elif r < 0.84 and live:
            h.append([4, rng.choice(list(live)), rng.randrange(200)])
        elif r < 0.90 and kind in (1, 3):
            i = rng.randrange(3)
            if i in marks and rng.random() < 0.6:
                # no block that lived at the mark may have been released or moved since, or the mark may lie beyond the use
                j = max([x for x, o in enumerate(h) if o[0] == 5 and o[1] == i])
                if all(o[0] in (0, 1, 4, 5) for o in h[j:]):
                    gone = [s for s in live if live[s][0] >= marks[i]]
                    for s in gone:
                        del live[s]
                    h.append([6, i] + gone)
                    marks = {m: v for m, v in marks.items() if v <= marks[i]}
            else:
                marks[i] = order
                h.append([5, i])
        elif r < 0.92 and kind < 5:
            h.append([7])
            live, marks = {}, {}
        elif r < 0.96 and kind in (5, 9):
            if level < 6 and rng.random() < 0.6:
                h.append([8, rng.choice([200, 256, 400, 1000]), rng.choice([0, 16, 33, 128]), rng.choice([1, 2, 4])])
                level += 1
            else:
                lv = rng.randrange(level + 1)
                h.append([9, lv])
                level = min(level, lv)
                live = {s: v for s, v in live.items() if v[1] <= level}
        elif r < 0.98 and kind in (2, 3, 4, 5, 6) and rng.random() < 0.3:
            h.append([10, rng.choice([1, 1, 2, 3])])
        elif kind == 8:
            h.append([11])
    return h


def run(ctx):
    rng = ctx.rng
    ctx.build_c3c()
    hists = []
    # short histories exhaustively: two blocks of chosen sizes and alignments, resized and released in every order
    for kind in (1, 2, 3, 4, 5, 6, 7, 8, 9):
        ops = [[1, 0, 24, 1, 0, 0, 5, 0], [1, 1, 40, 0, 64, 0, 6, 0], [1, 2, 100, 1, 0, 0, 7, 0], [2, 0, 10, 0], [2, 0, 60, 0],
               [2, 1, 300, 0], [2, 2, 30, 0], [3, 0, 0], [3, 1, 0], [3, 2, 0]]
        if kind < 5:
            ops.append([7])
        seqs = hist.exhaustive(ops, 5)
        seqs = [q for q in seqs if q[0][0] == 1]
        for q in rng.sample(seqs, 8000 if ctx.thorough else 500):
            hists.append((kind, [[0, {1: 512, 2: 256, 3: 128, 4: 128, 5: 256}.get(kind, 0)]] + q + [[1, 5, 33, 1, 32, 0, 9, 1]]))
        for _ in range(3000 if ctx.thorough else 250):
            hists.append((kind, history(rng, kind, rng.choice([8, 20, 50, 100]))))
    for opt in (["-O0"], ["-O1"]):
        exe = hist.driver(ctx, "alloc", opt, tag=opt[0])
        if exe:
            hist.check(ctx, "C3Alloc", exe, hists if opt == ["-O1"] or ctx.thorough else hists[::4], "alloc" + opt[0])
