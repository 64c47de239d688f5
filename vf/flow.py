"""Programs for spec/C3Flow.tla: generators, and rendering of the same program as C3 source."""
import itertools
import re

NT = 12
FAULTS = ["FA", "FB", "FC"]


class Gen:
    """Random programs. Statements are dicts; a program is {st, ar, fn, kinds, main}."""

    def __init__(self, rng, size=4, opt=True, heavy=False):
        self.r = rng
        self.opt = opt
        self.heavy = heavy           # mostly optional expressions
        self.size = size

    # ------------------------------------------------------------- expressions
    def num(self, n=None):
        return {"k": "num", "n": self.r.randrange(0, 7) if n is None else n}

    def nid(self):
        self.ids += 1
        return self.ids

    def tick(self, m=None):
        self.tickn = self.tickn % NT + 1
        return {"k": "tick", "n": self.tickn, "m": m or self.r.randint(1, 3)}

    def iexp(self, d=2, fail=True):
        """A non-optional int expression. fail: rethrow is allowed."""
        r = self.r
        x = r.random()
        if d == 0 or x < 0.3:
            return self.num() if r.random() < 0.5 else {"k": "var", "n": r.randint(1, 6)}
        if x < 0.5:
            return {"k": "ev", "n": self.nid(), "a": [self.iexp(d - 1, fail)]}
        if x < 0.56:
            return {"k": "ev2", "n": self.nid(), "a": [self.iexp(d - 1, fail), self.iexp(d - 1, fail)]}
        if x < 0.62:
            return {"k": "bin", "op": r.choice("+-"), "a": [self.iexp(d - 1, fail), self.iexp(d - 1, fail)]}
        if x < 0.66:
            return {"k": "tern", "a": [self.bexp(d - 1, fail), self.iexp(d - 1, fail), self.iexp(d - 1, fail)]}
        if x < 0.70:
            return {"k": "elvis", "a": [self.iexp(d - 1, fail), self.iexp(d - 1, fail)]}
        if self.opt and x < 0.82:
            return {"k": "orelse", "a": [self.oexp(d - 1, fail), self.iexp(d - 1, fail)]}
        if self.opt and x < 0.90 and fail:
            return {"k": "rethrow", "a": [self.oexp(d - 1, fail)]}
        if self.opt and x < 0.97:
            return {"k": "catch", "a": [self.oexp(d - 1, fail)]}
        return self.bexp(d - 1, fail)

    def bexp(self, d=2, fail=True):
        r = self.r
        x = r.random()
        if d == 0 or x < 0.2:
            return self.tick()
        if x < 0.45:
            return {"k": "bin", "op": r.choice(["<", "==", ">="]), "a": [self.iexp(d - 1, fail), self.iexp(d - 1, fail)]}
        if x < 0.6:
            return {"k": "and", "a": [self.bexp(d - 1, fail), self.bexp(d - 1, fail)]}
        if x < 0.75:
            return {"k": "or", "a": [self.bexp(d - 1, fail), self.bexp(d - 1, fail)]}
        if x < 0.85:
            return {"k": "not", "a": [self.bexp(d - 1, fail)]}
        if self.opt and x < 0.93:
            return {"k": "ok", "a": [self.oexp(d - 1, fail)]}
        return self.tick()

    def oexp(self, d=2, fail=True):
        """An optional int expression."""
        r = self.r
        if self.heavy and d == 2 and r.random() < 0.5:
            d = 4
        x = r.random()
        if d <= 0 or x < 0.45:
            sel = r.choice([self.num(0), self.num(r.randint(1, 3)),
                            {"k": "bin", "op": "<", "a": [{"k": "var", "n": r.randint(1, 5)}, self.num()]}, self.tick()])
            val = self.iexp(max(0, d - 1), fail) if r.random() < 0.7 or d <= 0 else self.oexp(d - 1, fail)
            return {"k": "of", "n": self.nid(), "a": [val, sel]}
        if x < 0.55:
            return {"k": "wvar", "n": r.randint(1, 2)}
        if x < 0.65:
            return {"k": "ev", "n": self.nid(), "a": [self.oexp(d - 1, fail)]}
        if x < 0.78:
            a = [self.oexp(d - 1, fail), self.oexp(d - 1, fail) if r.random() < 0.5 else self.iexp(d - 1, fail)]
            r.shuffle(a)
            if r.random() < 0.4:
                return {"k": "ev2", "n": self.nid(), "a": a}
            return {"k": "bin", "op": r.choice("+-"), "a": a}
        if x < 0.92:
            right = {"k": "fault", "n": r.randint(1, 3)} if r.random() < 0.3 else self.oexp(d - 1, fail)
            return {"k": "orelse", "a": [self.oexp(d - 1, fail), right]}
        return {"k": "wvar", "n": r.randint(1, 2)}

    def caught(self, fail):
        """An operand of if-catch: not a plain variable, which the else part would unwrap."""
        e = self.oexp(2, fail)
        return {"k": "ev", "n": self.nid(), "a": [e]} if e["k"] == "wvar" else e

    # ------------------------------------------------------------- statements
    def add(self, s):
        self.st.append(s)
        return len(self.st)

    def reserve(self):
        self.st.append(None)
        return len(self.st)

    def ev(self, e=None):
        return self.add({"k": "ev", "x": {"k": "ev", "n": self.nid(), "a": [e or self.num()]}})

    def evvar(self, n):
        return self.ev({"k": "var", "n": n})

    def block(self, d, ctx, n=None):
        n = n or self.r.randint(1, 3)
        out = []
        for _ in range(n):
            s = self.stmt(d, ctx)
            out.append(s)
            if self.st[s - 1]["k"] in ("break", "continue", "return", "nextcase"):
                break
        return out

    def stmt(self, d, ctx):
        """ctx: targets = enclosing constructs innermost last [(kind, sid, info)], fail, defer (inside a defer)."""
        r = self.r
        fail = ctx["fail"] and not ctx["defer"]
        x = r.random()
        tg = ctx["targets"]
        if self.heavy and r.random() < 0.6:
            x = r.choice([0.19, 0.21, 0.23, 0.25, 0.26, 0.59, 0.76, 0.72, 0.97])
        if x < 0.14 or d == 0 and x < 0.4:
            return self.ev(self.iexp(2, fail))
        if x < 0.20:
            return self.add({"k": "asg", "n": 2, "x": self.iexp(2, fail)})
        if self.opt and x < 0.24:
            return self.add({"k": "wasg", "n": r.randint(1, 2), "x": self.oexp(2, fail) if r.random() < 0.8 else {"k": "fault", "n": r.randint(1, 3)}})
        if self.opt and x < 0.27:
            return self.add({"k": "ev", "x": self.oexp(2, fail)})
        if x < 0.42 and ctx["ddepth"] < 2:
            w = r.choice(["plain", "plain", "try", "catch", "catch"] if self.opt else ["plain", "plain", "try"])
            sid = self.reserve()
            c2 = dict(ctx, targets=[], defer=True, ddepth=ctx["ddepth"] + 1)
            body = [self.ev(self.iexp(1, False))] if r.random() < 0.5 or d == 0 else self.block(min(d - 1, 2), c2)
            e = 0
            if w == "catch" and r.random() < 0.5:
                e = 6
                body = [self.evvar(6)] + body
            self.st[sid - 1] = {"k": "defer", "w": w, "b": body, "e": e}
            return sid
        if x < 0.54 and tg:
            return self.jump(ctx)
        if x < 0.60 and not ctx["defer"]:
            if self.opt and ctx["fail"] and r.random() < 0.5:
                e = self.oexp(2, True) if r.random() < 0.6 else {"k": "fault", "n": r.randint(1, 3)}
            else:
                e = self.iexp(2, fail)
            return self.cond_wrap({"k": "return", "x": e}, ctx)
        if d == 0:
            return self.ev()
        if x < 0.64:
            sid = self.reserve()
            self.st[sid - 1] = {"k": "blk", "b": self.block(d - 1, ctx)}
            return sid
        if x < 0.73:
            return self.if_(d, ctx)
        if self.opt and x < 0.77:
            sid = self.reserve()
            c2 = dict(ctx, targets=tg + [("if", sid, None)])
            xs = [self.caught(fail) for _ in range(r.choice([1, 1, 2, 2, 3, 4]))]
            b, b2 = [self.evvar(6)] + self.block(d - 1, c2), self.block(d - 1, c2) if r.random() < 0.4 else []
            if not b2 and r.random() < 0.5:
                # operands that are variables; without an else and with a body that goes on they stay optional
                xs = [{"k": "wvar", "n": r.randint(1, 2)} if r.random() < 0.6 else x for x in xs]
                b = b if self.st[b[-1] - 1]["k"] in ("ev", "asg") else b + [self.ev()] if self.goes_on(b[-1]) else [b[0], self.ev()]
            self.st[sid - 1] = {"k": "ifcatch", "xs": xs, "n": 6, "b": b, "b2": b2}
            return sid
        if x < 0.88:
            return self.loop(d, ctx)
        if x < 0.95 or not ctx["fns"]:
            return self.switch(d, ctx)
        return self.call(d, ctx)

    def goes_on(self, sid):
        return self.st[sid - 1]["k"] not in ("break", "continue", "return", "nextcase", "blk", "if", "loop", "switch", "bswitch")

    def jump(self, ctx):
        r = self.r
        tg = ctx["targets"]
        loops = [t for t in tg if t[0] == "loop"]
        sws = [t for t in tg if t[0] == "sw"]
        ch = r.random()
        if sws and ch < 0.35:
            t = r.choice(sws)
            inner = t is sws[-1]
            cases, i, kind = t[2]["cases"], t[2]["cur"], t[2]["kind"]
            opts = []
            if inner and i < len(cases) - 1:
                opts.append({"w": "next", "l": 0})
            lab = 0 if inner and r.random() < 0.6 else t[1]
            if kind != "bool":
                if any(cs["d"] for cs in cases):
                    opts.append({"w": "default", "l": lab})
                vals = [cs["lo"] for cs in cases if not cs["d"]]
                if vals:
                    opts.append({"w": "value", "l": lab, "x": self.num(r.choice(vals))})
                v = self.num(r.choice(cases)["hi"]) if kind != "str" and r.random() < 0.5 else {"k": "var", "n": 2} if r.random() < 0.5 else self.num()
                opts.append({"w": "value", "l": lab, "x": {"k": "ev", "n": self.nid(), "a": [v]} if v["k"] == "num" or r.random() < 0.5 else v})
            if opts:
                o = r.choice(opts)
                return self.cond_wrap(dict({"k": "nextcase", "x": self.num(0)}, **o), ctx, always=True)
        if loops and ch < 0.65:
            t = r.choice(loops)
            inner = t is loops[-1]
            if t[2] != "once":
                return self.cond_wrap({"k": "continue", "l": 0 if inner and r.random() < 0.6 else t[1]}, ctx)
        t = r.choice(tg)
        un = [q for q in tg if q[0] in ("loop", "sw")]
        if un and t is un[-1] and r.random() < 0.6:
            return self.cond_wrap({"k": "break", "l": 0}, ctx)
        return self.cond_wrap({"k": "break", "l": t[1]}, ctx)

    def cond_wrap(self, s, ctx, always=False):
        """Most jumps are conditional, so that both ways are taken."""
        if not always and self.r.random() < 0.3:
            return self.add(s)
        sid = self.reserve()
        j = self.add(s)
        # a jump back (nextcase) must be bounded: its condition contains a tick
        t = self.tick(self.r.randint(1, 2)) if always else self.bexp(1, ctx["fail"] and not ctx["defer"])
        pre = [self.add({"k": "defer", "w": self.r.choice(["plain", "try", "catch"]), "e": 0, "b": [self.ev()]})] if self.r.random() < 0.3 else []
        if pre and self.r.random() < 0.5:    # what the jump carries is evaluated before the deferred statements run
            self.st[pre[0] - 1]["b"].append(self.add({"k": "asg", "n": 2, "x": self.num(self.r.randrange(4))}))
        self.st[sid - 1] = {"k": "if", "c": [{"n": 0, "x": t}], "b": pre + [j], "b2": []}
        return sid

    def conds(self, ctx, must_tick=False, unwrap=True):
        r = self.r
        fail = ctx["fail"] and not ctx["defer"]
        cs = []
        for _ in range(r.choice([1, 1, 1, 1, 2, 2, 3, 4])):
            if self.opt and unwrap and r.random() < 0.35:
                cs.append({"n": 2, "x": self.oexp(2, fail)})
            else:
                cs.append({"n": 0, "x": self.bexp(2, fail)})
        if must_tick:
            cs.append({"n": 0, "x": self.tick()})
            r.shuffle(cs)
        # a chain with unwraps starts with one
        first = [i for i, q in enumerate(cs) if q["n"]]
        if first:
            cs.insert(0, cs.pop(first[0]))
        return cs

    def if_(self, d, ctx):
        sid = self.reserve()
        c2 = dict(ctx, targets=ctx["targets"] + [("if", sid, None)])
        x = self.r.random()
        c = self.conds(ctx)
        if x < 0.12:
            c = [{"n": 0, "x": self.num(self.r.randint(0, 1))}]
        self.st[sid - 1] = {"k": "if", "c": c, "b": self.block(d - 1, c2),
                            "b2": self.block(d - 1, c2) if self.r.random() < 0.5 else []}
        return sid

    def loop(self, d, ctx):
        r = self.r
        sid = self.reserve()
        w = r.choice(["while", "while", "dowhile", "for", "for", "foreach", "foreach_r", "once"])
        depth = min(2, ctx["ldepth"])
        v = 3 + depth
        c2 = dict(ctx, targets=ctx["targets"] + [("loop", sid, w)], ldepth=depth + 1)
        s = {"k": "loop", "w": w}
        if w in ("foreach", "foreach_r"):
            arr = [r.randrange(9) for _ in range(r.randint(1, 3))]
            self.ar.append(arr)
            s.update(a=len(self.ar), v=v, ref=r.random() < 0.3)
        elif w == "for":
            s.update(v=v, lo=r.randint(0, 1), c=[{"n": 0, "x": {"k": "and", "a": [
                {"k": "bin", "op": "<", "a": [{"k": "var", "n": v}, self.num(r.randint(1, 4))]}, self.tick(4)]}}])
        elif w != "once":
            s["c"] = self.conds(ctx, True, w == "while")
        inf = w in ("while", "for") and r.random() < 0.2
        pre = []
        if inf:
            s["c"] = [{"n": 0, "x": self.num(1)}]
            b = self.add({"k": "break", "l": 0 if r.random() < 0.6 else sid})
            pre = [self.add({"k": "if", "c": [{"n": 0, "x": {"k": "not", "a": [self.tick()]}}], "b": [b], "b2": []})]
        s["b"] = pre + self.block(d - 1, c2)
        self.st[sid - 1] = s
        return sid

    def switch(self, d, ctx):
        r = self.r
        sid = self.reserve()
        kind = r.choice(["int", "int", "long", "str", "bool", "jump", "ljump"])
        fail = ctx["fail"] and not ctx["defer"]
        n = r.randint(1, 4)
        cases = []
        lo = -r.randint(0, 4) if kind not in ("str", "bool") and r.random() < 0.4 else 0
        for _ in range(n):
            lo += r.randint(0, 1)
            hi = lo + (r.randint(1, 2) if r.random() < 0.25 and kind not in ("str", "bool") else 0)
            if kind in ("int", "long") and r.random() < 0.15:
                hi = lo + r.choice([50, 255, 256, 257, 300, 1000])      # compared with the ends instead of listed
            cases.append({"d": False, "lo": lo, "hi": hi})
            lo = hi + 1
        if r.random() < 0.7:
            cases.insert(r.randint(0, n), {"d": True, "lo": 0, "hi": 0})
        if kind == "bool" and cases[-1]["d"] is False and r.random() < 0.5:
            pass
        if kind == "bool":
            cases.sort(key=lambda q: q["d"])
        info = {"cases": cases, "cur": 0, "kind": kind}
        c2 = dict(ctx, targets=ctx["targets"] + [("sw", sid, info)])
        for i, cs in enumerate(cases):
            info["cur"] = i
            if kind == "bool":
                cs["x"] = self.bexp(1, fail)
                if not dynamic(cs["x"]):
                    cs["x"] = {"k": "and", "a": [cs["x"], self.tick()]}
            cs["b"] = self.block(d - 1, c2) if r.random() < 0.85 else []
        x = self.iexp(2, fail)
        wide = [c for c in cases if c["hi"] - c["lo"] > 9]
        if wide and r.random() < 0.9:
            c = r.choice(wide)
            x = {"k": "ev", "n": self.nid(), "a": [self.num(r.choice([c["lo"] - 1, c["lo"], c["lo"] + 1, c["hi"] - 1, c["hi"], c["hi"], c["hi"] + 1]))]}
        self.st[sid - 1] = {"k": "bswitch" if kind == "bool" else "switch", "cs": cases, "x": x, "kind": kind}
        return sid

    def call(self, d, ctx):
        r = self.r
        f = r.choice(ctx["fns"])
        fail = ctx["fail"] and not ctx["defer"]
        s = {"k": "call", "f": f, "x": self.iexp(1, fail), "n": 2, "d": r.randrange(5)}
        modes = ["void", "orelse", "catch", "iftry", "ifcatch"] + (["rethrow", "rethrow"] if fail else [])
        if not self.fnfail[f - 1]:
            modes = ["void", "rethrow"]
        s["w"] = r.choice(modes)
        sid = self.reserve()
        if s["w"] in ("iftry", "ifcatch"):
            c2 = dict(ctx, targets=ctx["targets"] + [("if", sid, None)])
            if s["w"] == "ifcatch":
                s["n"] = 6
            s["b"] = self.block(max(0, d - 1), c2)
            s["b2"] = self.block(max(0, d - 1), c2) if r.random() < 0.5 else []
        self.st[sid - 1] = s
        return sid

    def program(self):
        r = self.r
        self.st, self.ar, self.ids, self.tickn = [], [], 0, 0
        nf = r.randint(0, 2)
        fns, self.fnfail, kinds = [], [], []
        for i in range(nf):
            fail = self.opt and r.random() < 0.8
            ctx = {"targets": [], "fail": fail, "defer": False, "ddepth": 0, "ldepth": 0, "fns": list(range(1, i + 1))}
            fns.append(self.block(max(1, self.size - 2), ctx, r.randint(1, 4)) + [self.ret(fail)])
            self.fnfail.append(fail)
            kinds.append(r.choice(["fn", "fn", "macro", "lambda"]))
        ctx = {"targets": [], "fail": self.opt, "defer": False, "ddepth": 0, "ldepth": 0, "fns": list(range(1, nf + 1))}
        main = self.block(self.size, ctx, r.randint(2, 5)) + [self.ret(self.opt)]
        return {"st": self.st, "ar": self.ar or [[0]], "fn": fns, "main": main, "kinds": kinds, "fnfail": self.fnfail, "opt": self.opt}

    def ret(self, fail):
        e = self.oexp(2, True) if fail and self.r.random() < 0.5 else self.iexp(1, fail)
        return self.add({"k": "return", "x": e})


# ------------------------------------------------------------------ systematic optional expressions
OEXPS = ["of", "w", "fault", "val", "ev", "ev2", "bin", "orelse", "rethrow", "catch", "ok", "and", "tern", "elvis"]
OUSES = ["asg", "wasg", "discard", "if", "iftry", "ifcatch", "while", "return", "orelse", "catch", "switch", "arg", "ok"]


def opt_exprs(d):
    """Shapes of expressions with at most d operators; leaves are 0 (value), 1..2 (fault), 3 (variable with a fault), 4 constant fault"""
    leaf = [("of", 0), ("of", 1), ("of", 2), ("w",), ("fault",), ("val",)]
    if d == 0:
        return leaf
    sub = opt_exprs(d - 1)
    small = leaf if d > 1 else sub
    out = list(sub)
    for op in ("ev2", "bin", "orelse", "and", "elvis"):
        out += [(op, a, b) for a in sub for b in small]
        if d > 1:
            out += [(op, a, b) for a in small for b in sub if b not in small]
    for op in ("ev", "rethrow", "catch", "ok"):
        out += [(op, a) for a in sub]
    out += [("tern", a, b, c) for a in small for b in small for c in small] if d == 1 else []
    return out


def opt_program(shape, use, order):
    """One optional expression in one place, with the consequences visible in the log."""
    st, ids, ticks = [], [0], [0]

    def add(s):
        st.append(s)
        return len(st)

    def nid():
        ids[0] += 1
        return ids[0]

    num = lambda n: {"k": "num", "n": n}
    ev = lambda x: add({"k": "ev", "x": {"k": "ev", "n": nid(), "a": [x]}})

    def ex(s):
        k = s[0]
        if k == "of":
            return {"k": "of", "n": nid(), "a": [num(order % 3), num(s[1])]}
        if k == "w":
            return {"k": "wvar", "n": 1}
        if k == "fault":
            return {"k": "fault", "n": 2}
        if k == "val":
            return {"k": "ev", "n": nid(), "a": [num((order + 1) % 3)]}
        if k == "ev":
            return {"k": "ev", "n": nid(), "a": [ex(s[1])]}
        if k in ("ev2",):
            return {"k": k, "n": nid(), "a": [ex(s[1]), ex(s[2])]}
        if k == "bin":
            return {"k": "bin", "op": "+-"[order % 2], "a": [ex(s[1]), ex(s[2])]}
        return {"k": k, "a": [ex(a) for a in s[1:]]}

    x = ex(shape)
    res = [add({"k": "return", "x": {"k": "var", "n": 2}})]
    d = [add({"k": "defer", "w": w, "e": 6 if w == "catch" else 0, "b": [ev({"k": "var", "n": 6 if w == "catch" else 2})]}) for w in ("try", "catch")]
    pre = [add({"k": "wasg", "n": 1, "x": {"k": "of", "n": nid(), "a": [num(4), num(3)]}})]
    if order % 2:
        pre = [add({"k": "wasg", "n": 1, "x": {"k": "of", "n": nid(), "a": [num(4), num(0)]}})]
    post = [ev({"k": "var", "n": 2})]
    if use == "asg":
        b = [add({"k": "asg", "n": 2, "x": {"k": "rethrow", "a": [x]} if optional(x) else x})]
    elif use == "wasg":
        b = [add({"k": "wasg", "n": 2, "x": x}), add({"k": "ifcatch", "xs": [{"k": "ev", "n": nid(), "a": [{"k": "wvar", "n": 2}]}], "n": 6, "b": [ev({"k": "var", "n": 6})], "b2": [ev(num(1))]})]
    elif use == "discard":
        b = [add({"k": "ev", "x": {"k": "ev", "n": nid(), "a": [x]}})]
    elif use == "if":
        # a condition is never optional
        x = {"k": "rethrow", "a": [x]} if optional(x) else x
        b = [add({"k": "if", "c": [{"n": 0, "x": {"k": "bin", "op": "<", "a": [x, num(3)]}}], "b": [ev(num(1))], "b2": [ev(num(2))]})]
    elif use == "iftry":
        b = [add({"k": "if", "c": [{"n": 2, "x": x}, {"n": 0, "x": {"k": "bin", "op": ">=", "a": [{"k": "var", "n": 2}, num(1)]}}], "b": [ev({"k": "var", "n": 2})], "b2": [ev(num(2))]})]
    elif use == "ifcatch":
        b = [add({"k": "ifcatch", "xs": [x, {"k": "of", "n": nid(), "a": [num(1), num(order % 4)]}], "n": 6, "b": [ev({"k": "var", "n": 6})], "b2": [ev(num(2))]})]
    elif use == "while":
        b = [add({"k": "loop", "w": "while", "c": [{"n": 2, "x": x}, {"n": 0, "x": {"k": "tick", "n": 1, "m": 2}}], "b": [ev({"k": "var", "n": 2})]})]
    elif use == "return":
        b = [add({"k": "return", "x": x})]
    elif use == "switch":
        x = {"k": "rethrow", "a": [x]} if optional(x) else x
        b = [add({"k": "switch", "kind": "int", "x": x, "cs": [{"d": False, "lo": 0, "hi": 0, "b": [ev(num(1))]}, {"d": False, "lo": 1, "hi": 2, "b": [ev(num(2))]}, {"d": True, "lo": 0, "hi": 0, "b": [ev(num(3))]}]})]
    elif use == "arg":
        b = [add({"k": "asg", "n": 2, "x": {"k": "orelse", "a": [{"k": "ev2", "n": nid(), "a": [{"k": "ev", "n": nid(), "a": [num(1)]}, x]}, num(6)]}})]
    else:
        b = [add({"k": "asg", "n": 2, "x": {"k": use, "a": [x] + ([num(5)] if use == "orelse" else [])}})]
    main = d + pre + b + ([] if use == "return" else post + res)
    return {"st": st, "ar": [[0]], "fn": [], "main": main, "kinds": [], "fnfail": [], "opt": True}


def opt_ok(shape, use):
    """The language requires an optional operand for some forms (vf/flow.optional decides it)."""
    p = opt_program(shape, use, 0)

    def okx(x):
        if x["k"] in ("rethrow", "catch", "ok", "orelse") and not optional(x["a"][0]):
            return False
        if x["k"] == "fault":
            return False
        if x["k"] in ("and", "tern", "elvis", "switch") and optional(x["a"][0]) and x["k"] != "and":
            return False
        return all(q["k"] == "fault" and x["k"] == "orelse" and i == 1 or okx(q) for i, q in enumerate(x.get("a", [])))

    for s in p["st"]:
        xs = [s["x"]] if s.get("x") else [q["x"] for q in s.get("c", [])] + s.get("xs", [])
        for x in xs:
            if s["k"] == "return" and x["k"] == "fault":
                continue
            if not okx(x):
                return False
        if s["k"] == "ifcatch" and (s["xs"][0]["k"] == "wvar" or not optional(s["xs"][0])):
            return False
        if s["k"] in ("if", "loop") and any(q["n"] and not optional(q["x"]) for q in s["c"]):
            return False
    return True


def chains():
    """Chains of conditions: if-catch with up to four operands, if-try with up to four links; at most one fails."""
    out = []
    for n in (1, 2, 3, 4):
        for kinds in itertools.product("vc", repeat=n):
            out += [("catch", "".join(kinds), f) for f in range(n + 1)]
        for kinds in itertools.product("tb", repeat=n):
            if kinds[0] == "t" or "t" not in kinds:
                out += [(w, "".join(kinds), f) for f in range(n + 1) for w in ("try", "while")]
    return out


def chain_program(what, kinds, failing):
    """failing: the position, from 1, of the item that fails; 0 when none does."""
    st, ids = [], [0]

    def add(s):
        st.append(s)
        return len(st)

    def nid():
        ids[0] += 1
        return ids[0]

    num = lambda n: {"k": "num", "n": n}
    ev = lambda x: add({"k": "ev", "x": {"k": "ev", "n": nid(), "a": [x]}})
    of = lambda v, f: {"k": "of", "n": nid(), "a": [num(v), num(f)]}
    var = failing and kinds[failing - 1] == "v"
    pre = [add({"k": "wasg", "n": 1, "x": of(4, 2 if var else 0)}), add({"k": "wasg", "n": 2, "x": of(5, 0)})]
    xs = []
    for i, k in enumerate(kinds):
        fails = i + 1 == failing
        if k == "v":
            xs.append({"k": "wvar", "n": 1 if fails else 2})
        elif k == "b":
            xs.append({"n": 0, "x": {"k": "bin", "op": "<", "a": [{"k": "ev", "n": nid(), "a": [num(3 if fails else 1)]}, num(2)]}})
        else:
            x = of(i + 1, 1 + i % 3 if fails else 0)
            xs.append(x if what == "catch" else {"n": 2, "x": x})
    if what == "catch":
        b = [add({"k": "ifcatch", "xs": xs, "n": 6, "b": [ev({"k": "var", "n": 6})], "b2": [] if "v" in kinds else [ev(num(1))]})]
    elif what == "try":
        b = [add({"k": "if", "c": xs, "b": [ev({"k": "var", "n": 2})], "b2": [ev(num(2))]})]
    else:
        xs.append({"n": 0, "x": {"k": "tick", "n": 1, "m": 2}})
        b = [add({"k": "loop", "w": "while", "c": xs, "b": [ev({"k": "var", "n": 2})]})]
    main = pre + b + [ev({"k": "var", "n": 2}), add({"k": "return", "x": {"k": "var", "n": 6}})]
    return {"st": st, "ar": [[0]], "fn": [], "main": main, "kinds": [], "fnfail": [], "opt": True}


# ------------------------------------------------------------------ systematic programs
JUMPS = ["none", "break", "continue", "lbreak", "lcontinue", "ret", "fault", "rethrow", "next", "nextv", "nextd", "opt"]
CTXS = ["while", "dowhile", "for", "foreach", "foreach_r", "once", "switch", "bswitch", "if", "blk", "fn", "macro"]
DEFS = ["", "plain", "try", "catch"]


def systematic():
    """Every combination (context, first defer, conditional jump, second defer, final jump) that the language allows."""
    for ctx, d1, j1, d2, j2, outer in itertools.product(CTXS, DEFS, JUMPS, DEFS, JUMPS, ["loop", "swi"]):
        if j1 in ("break", "continue") and ctx in ("blk", "if") and False:
            continue
        if ctx in ("fn", "macro") and (j1 in NOFN or j2 in NOFN):
            continue
        if ("next" in j1 or "next" in j2) and not (ctx in ("switch", "bswitch") or outer == "swi"):
            continue
        if ctx == "bswitch" and (j1 in ("nextv", "nextd") or j2 in ("nextv", "nextd")):
            continue
        if ("continue" in j1 or "continue" in j2) and outer == "swi" and (ctx in ("switch", "bswitch", "if", "blk", "once")):
            continue
        if ("lcontinue" in (j1, j2)) and outer == "swi":
            continue
        if ctx == "once" and "continue" in (j1, j2):
            continue
        yield (ctx, d1, j1, d2, j2, outer)


NOFN = ("break", "continue", "lbreak", "lcontinue", "next", "nextv", "nextd")


def build_systematic(key):
    ctx, d1, j1, d2, j2, outer = key
    st, ids, ticks = [], [0], [0]

    def add(s):
        st.append(s)
        return len(st)

    def ev(x=None):
        ids[0] += 1
        return add({"k": "ev", "x": {"k": "ev", "n": ids[0], "a": [x or {"k": "num", "n": 0}]}})

    def tick(m):
        ticks[0] += 1
        return {"k": "tick", "n": ticks[0], "m": m}

    def defer(w):
        return [add({"k": "defer", "w": w, "e": 6 if w == "catch" else 0, "b": [ev({"k": "var", "n": 6 if w == "catch" else 2})]})] if w else []

    osid, isid = [0], [0]

    def jump(j):
        insw = ctx in ("switch", "bswitch")
        if j == "none":
            return []
        if j == "opt":
            ids[0] += 1
            return [add({"k": "ev", "x": {"k": "of", "n": ids[0], "a": [{"k": "num", "n": 1}, {"k": "num", "n": 2}]}})]
        if j == "break":
            return [add({"k": "break", "l": 0})]
        if j == "continue":
            return [add({"k": "continue", "l": 0})]
        if j == "lbreak":
            return [add({"k": "break", "l": osid[0]})]
        if j == "lcontinue":
            return [add({"k": "continue", "l": osid[0]})]
        if j == "ret":
            return [add({"k": "return", "x": {"k": "var", "n": 2}})]
        if j == "fault":
            return [add({"k": "return", "x": {"k": "fault", "n": 2}})]
        if j == "rethrow":
            ids[0] += 1
            return [add({"k": "asg", "n": 2, "x": {"k": "rethrow", "a": [{"k": "of", "n": ids[0], "a": [{"k": "num", "n": 5}, {"k": "num", "n": 3}]}]}})]
        if j == "next":
            return [add({"k": "nextcase", "w": "next", "l": 0, "x": {"k": "num", "n": 0}})]
        if j == "nextd":
            return [add({"k": "nextcase", "w": "default", "l": 0, "x": {"k": "num", "n": 0}})]
        if j == "nextv":
            ids[0] += 1
            return [add({"k": "nextcase", "w": "value", "l": 0, "x": {"k": "ev", "n": ids[0], "a": [{"k": "num", "n": 3}]}})]

    def body():
        b = defer(d1)
        b.append(ev({"k": "var", "n": 2}))
        if j1 != "none":
            sid = len(st) + 1
            st.append(None)
            pre = defer("plain")
            st[sid - 1] = {"k": "if", "c": [{"n": 0, "x": tick(1)}], "b": pre + jump(j1), "b2": []}
            b.append(sid)
        b += defer(d2)
        b.append(add({"k": "asg", "n": 2, "x": {"k": "bin", "op": "+", "a": [{"k": "var", "n": 2}, {"k": "num", "n": 1}]}}))
        b.append(ev({"k": "var", "n": 2}))
        if j2 in ("next", "nextv", "nextd"):
            b.append(add({"k": "if", "c": [{"n": 0, "x": tick(2)}], "b": jump(j2), "b2": []}))
        else:
            b += jump(j2)
        return b

    def reserve():
        st.append(None)
        return len(st)

    ar = [[4, 7]]
    fns, kinds, fnfail = [], [], []
    inner = reserve()

    def mk_inner():
        if ctx in ("while", "dowhile"):
            return {"k": "loop", "w": ctx, "c": [{"n": 0, "x": tick(2)}], "b": body()}
        if ctx == "for":
            return {"k": "loop", "w": "for", "v": 4, "lo": 0, "c": [{"n": 0, "x": {"k": "bin", "op": "<", "a": [{"k": "var", "n": 4}, {"k": "num", "n": 2}]}}], "b": body()}
        if ctx in ("foreach", "foreach_r"):
            return {"k": "loop", "w": ctx, "a": 1, "v": 4, "ref": False, "b": body()}
        if ctx == "once":
            return {"k": "loop", "w": "once", "b": body()}
        if ctx == "switch":
            return {"k": "switch", "kind": "int", "x": {"k": "num", "n": 1}, "cs": [
                {"d": False, "lo": 0, "hi": 0, "b": [ev()]},
                {"d": False, "lo": 1, "hi": 1, "b": body()},
                {"d": False, "lo": 2, "hi": 3, "b": [ev()] + defer("plain") + [ev()]},
                {"d": True, "lo": 0, "hi": 0, "b": [ev()]}]}
        if ctx == "bswitch":
            return {"k": "bswitch", "kind": "bool", "x": {"k": "num", "n": 1}, "cs": [
                {"d": False, "lo": 0, "hi": 0, "x": {"k": "bin", "op": "<", "a": [{"k": "var", "n": 2}, {"k": "num", "n": 0}]}, "b": [ev()]},
                {"d": False, "lo": 1, "hi": 1, "x": {"k": "bin", "op": ">=", "a": [{"k": "var", "n": 2}, {"k": "num", "n": 0}]}, "b": body()},
                {"d": True, "lo": 0, "hi": 0, "b": [ev()] + defer("plain")}]}
        if ctx == "if":
            return {"k": "if", "c": [{"n": 0, "x": tick(9)}], "b": body(), "b2": []}
        if ctx == "blk":
            return {"k": "blk", "b": body()}
        b = body()
        if not b or st[b[-1] - 1]["k"] != "return":
            b.append(add({"k": "return", "x": {"k": "var", "n": 2}}))
        fns.append(b)
        kinds.append(ctx)
        fnfail.append(True)
        return {"k": "call", "f": 1, "x": {"k": "num", "n": 3}, "n": 2, "d": 9, "w": "orelse"}

    o = reserve()
    osid[0] = o
    isid[0] = inner
    st[inner - 1] = mk_inner()
    if outer == "loop":
        st[o - 1] = {"k": "loop", "w": "while", "c": [{"n": 0, "x": tick(2)}], "b": defer("plain") + [ev(), inner, ev()] + defer("catch") + [ev()]}
    else:
        st[o - 1] = {"k": "switch", "kind": "int", "x": {"k": "num", "n": 7}, "cs": [
            {"d": False, "lo": 3, "hi": 3, "b": [ev()]},
            {"d": False, "lo": 7, "hi": 7, "b": defer("plain") + [ev(), inner, ev()] + defer("try") + [ev()]},
            {"d": True, "lo": 0, "hi": 0, "b": [ev()]}]}
    main = defer("plain") + [ev(), o, ev(), add({"k": "return", "x": {"k": "var", "n": 2}})]
    return {"st": st, "ar": ar, "fn": fns, "main": main, "kinds": kinds, "fnfail": fnfail, "opt": True}


# ------------------------------------------------------------------ C3 source
BOOL = {"tick", "not", "and", "or", "ok"}


def dynamic(x):
    """Not a compile-time constant."""
    return x["k"] not in ("num", "fault") and (not x.get("a") or any(dynamic(a) for a in x["a"]) or x["k"] in ("ev", "ev2", "of"))


def isb(x):
    return x["k"] in BOOL or x["k"] == "bin" and x["op"] in ("<", "==", ">=")


def rx(x):
    """The expression in its own type."""
    k = x["k"]
    if k == "num":
        return str(x["n"])
    if k == "var":
        return f"v{x['n']}"
    if k == "wvar":
        return f"w{x['n']}"
    if k == "fault":
        return FAULTS[x["n"] - 1] + "?"
    if k == "tick":
        return f"tick({x['n']}, {x['m']})"
    if k == "ev":
        return f"ev({x['n']}, {ri(x['a'][0])})"
    if k == "ev2":
        return f"ev2({x['n']}, {ri(x['a'][0])}, {ri(x['a'][1])})"
    if k == "of":
        return f"of({x['n']}, {ri(x['a'][0])}, {ri(x['a'][1])})"
    if k == "bin":
        return f"({ri(x['a'][0])} {x['op']} {ri(x['a'][1])})"
    if k == "not":
        return f"(!{rb(x['a'][0])})"
    if k == "and":
        return f"({rb(x['a'][0])} && {rb(x['a'][1])})"
    if k == "or":
        return f"({rb(x['a'][0])} || {rb(x['a'][1])})"
    if k == "tern":
        return f"({rb(x['a'][0])} ? {ri(x['a'][1])} : {ri(x['a'][2])})"
    if k == "elvis":
        return f"({ri(x['a'][0])} ?: {ri(x['a'][1])})"
    if k == "orelse":
        return f"({ri(x['a'][0])} ?? {ri(x['a'][1])})"
    if k == "rethrow":
        return f"({ri(x['a'][0])})!"
    if k == "catch":
        return f"fcode(@catch({ri(x['a'][0])}))"
    if k == "ok":
        return f"@ok({ri(x['a'][0])})"
    raise ValueError(k)


def ri(x):
    return f"(int)({rx(x)})" if isb(x) else rx(x)


def rb(x):
    if x["k"] == "num":
        return "true" if x["n"] else "false"
    return rx(x) if isb(x) else f"({rx(x)} != 0)"


def optional(x):
    k = x["k"]
    if k in ("of", "wvar", "fault"):
        return True
    if k in ("rethrow", "catch", "ok", "num", "var", "tick"):
        return False
    if k == "orelse":
        return optional(x["a"][1])
    return any(optional(a) for a in x["a"])


class Render:
    def __init__(self, p, name):
        self.p, self.name, self.n = p, name, 0
        self.used = set()
        for s in p["st"]:
            if s["k"] in ("break", "continue", "nextcase") and s["l"]:
                self.used.add(s["l"])

    def lab(self, sid):
        return f" L{sid}:" if sid in self.used else ""

    def labx(self, l):
        return f" L{l}" if l else ""

    def block(self, b, ind, pre=()):
        t = "\t" * ind
        return t + "{\n" + "".join("\t" * (ind + 1) + x + "\n" for x in pre) + "".join(self.stmt(s, ind + 1) for s in b) + t + "}\n"

    def conds(self, cs):
        """(text, assignments at the start of the body)"""
        out, pre, sub = [], [], {}

        def use(text):           # an unwrapped variable is visible in the rest of the chain
            for v, x in sub.items():
                text = re.sub(rf"\bv{v}\b", x, text)
            return text

        for q in cs:
            if q["n"]:
                self.n += 1
                out.append(f"try x{self.n} = " + use(ri(q["x"])))
                sub[q["n"]] = f"x{self.n}"
                pre.append(f"v{q['n']} = x{self.n};")
            else:
                out.append(use(rb(q["x"])))
        return " && ".join(out), pre

    def stmt(self, sid, ind):
        s = self.p["st"][sid - 1]
        t = "\t" * ind
        k = s["k"]
        if k == "ev":
            x = s["x"]
            return t + ("(void)" if optional(x) or x["k"] != "ev" else "") + rx(x) + ";\n"
        if k == "asg":
            return f"{t}v{s['n']} = {ri(s['x'])};\n"
        if k == "wasg":
            return f"{t}w{s['n']} = {ri(s['x'])};\n"
        if k == "blk":
            return self.block(s["b"], ind)
        if k == "defer":
            self.n += 1
            err = f"derr{self.n}"
            w = {"plain": "defer", "try": "defer try", "catch": f"defer (catch {err})" if s["e"] else "defer catch"}[s["w"]]
            return f"{t}{w}\n" + self.block(s["b"], ind, [f"v{s['e']} = fcode({err});"] if s["e"] else [])
        if k == "if":
            c, pre = self.conds(s["c"])
            out = f"{t}if{self.lab(sid)} ({c})\n" + self.block(s["b"], ind, pre)
            if s["b2"]:
                out += f"{t}else\n" + self.block(s["b2"], ind)
            return out
        if k == "ifcatch":
            xs = ", ".join(ri(x) for x in s["xs"])
            self.n += 1
            out = f"{t}if{self.lab(sid)} (catch err{self.n} = {xs})\n" + self.block(s["b"], ind, [f"v{s['n']} = fcode(err{self.n});"])
            if s["b2"]:
                out += f"{t}else\n" + self.block(s["b2"], ind)
            return out
        if k == "loop":
            w = s["w"]
            l = self.lab(sid)
            if w == "while":
                c, pre = self.conds(s["c"])
                return f"{t}while{l} ({c})\n" + self.block(s["b"], ind, pre)
            if w == "dowhile":
                # the condition of a do-while cannot unwrap
                c, pre = self.conds_do(s["c"])
                return f"{t}do{l}\n" + self.block(s["b"], ind).rstrip("\n") + f" while ({c});\n"
            if w == "once":
                return f"{t}do{l}\n" + self.block(s["b"], ind).rstrip("\n") + ";\n"
            if w == "for":
                c, _ = self.conds(s["c"])
                return f"{t}for{l} (v{s['v']} = {s['lo']}; {c}; v{s['v']}++)\n" + self.block(s["b"], ind)
            self.n += 1
            i, x = f"i{self.n}", f"x{self.n}"
            amp, star = ("&", "*") if s.get("ref") else ("", "")
            return f"{t}{w}{l} ({i}, {amp}{x} : {self.name}_a{s['a']})\n" + self.block(s["b"], ind, [f"v{s['v']} = {star}{x} + 10 * (int){i};"])
        if k == "switch":
            kind = s.get("kind", "int")
            x = ri(s["x"])
            if kind == "str":
                x = f"names[nm({x})]"
            if kind in ("long", "ljump"):
                x = f"(long)({x})"
            out = f"{t}switch{self.lab(sid)} ({x}){' @jump' if 'jump' in kind else ''}\n{t}{{\n"
            for cs in s["cs"]:
                if cs["d"]:
                    out += f"{t}\tdefault:\n"
                elif kind == "str":
                    out += f'{t}\tcase "n{cs["lo"]}":\n'
                else:
                    out += f"{t}\tcase {cs['lo']}" + (f"..{cs['hi']}" if cs["hi"] != cs["lo"] else "") + ":\n"
                out += "".join(self.stmt(q, ind + 2) for q in cs["b"])
            return out + t + "}\n"
        if k == "bswitch":
            out = f"{t}switch{self.lab(sid)}\n{t}{{\n"
            for cs in s["cs"]:
                out += f"{t}\tdefault:\n" if cs["d"] else f"{t}\tcase {rb(cs['x'])}:\n"
                out += "".join(self.stmt(q, ind + 2) for q in cs["b"])
            return out + t + "}\n"
        if k in ("break", "continue"):
            return f"{t}{k}{self.labx(s['l'])};\n"
        if k == "nextcase":
            l = f"L{s['l']}: " if s["l"] else ""
            if s["w"] == "next":
                return f"{t}nextcase;\n"
            if s["w"] == "default":
                return f"{t}nextcase {l}default;\n"
            if self.swkind(sid) == "str":
                x = f'"n{s["x"]["n"]}"' if s["x"]["k"] == "num" else f"names[nm({ri(s['x'])})]"
            else:
                x = ri(s["x"])
            return f"{t}nextcase {l}{x};\n"
        if k == "return":
            return f"{t}return {ri(s['x'])};\n"
        if k == "call":
            f = f"{self.name}_f{s['f']}"
            if self.p["kinds"][s["f"] - 1] == "macro":
                f = f"{self.name}_@f{s['f']}" if False else f"{self.name}_f{s['f']}"
            e = f"{f}({ri(s['x'])})"
            w = s["w"]
            if w == "void":
                return f"{t}(void){e};\n"
            if w == "rethrow":
                return f"{t}v{s['n']} = {e}{'!' if self.p['fnfail'][s['f'] - 1] else ''};\n"
            if w == "orelse":
                return f"{t}v{s['n']} = {e} ?? {s['d']};\n"
            if w == "catch":
                return f"{t}v{s['n']} = fcode(@catch({e}));\n"
            self.n += 1
            if w == "iftry":
                out = f"{t}if{self.lab(sid)} (try x{self.n} = {e})\n" + self.block(s["b"], ind, [f"v{s['n']} = x{self.n};"])
            else:
                out = f"{t}if{self.lab(sid)} (catch err{self.n} = {e})\n" + self.block(s["b"], ind, [f"v{s['n']} = fcode(err{self.n});"])
            if s["b2"]:
                out += f"{t}else\n" + self.block(s["b2"], ind)
            return out
        raise ValueError(k)

    def swkind(self, sid):
        """The kind of switch a nextcase belongs to."""
        l = self.p["st"][sid - 1]["l"] or self.owner.get(sid)
        return self.p["st"][l - 1].get("kind") if l else None

    def conds_do(self, cs):
        out = []
        for q in cs:
            out.append(rb(q["x"]))
        return " && ".join(out), []

    def owners(self):
        self.owner = {}

        def walk(b, sw):
            for sid in b:
                s = self.p["st"][sid - 1]
                if s["k"] == "nextcase":
                    self.owner[sid] = sw
                if s["k"] in ("switch", "bswitch"):
                    for cs in s["cs"]:
                        walk(cs["b"], sid)
                for q in ("b", "b2"):
                    if isinstance(s.get(q), list):
                        walk(s[q], sw)

        for b in self.p["fn"] + [self.p["main"]]:
            walk(b, None)

    def text(self):
        self.owners()
        p, nm = self.p, self.name
        out = ""
        for i, a in enumerate(p["ar"]):
            out += f"int[{len(a)}] {nm}_a{i + 1} = {{ {', '.join(map(str, a))} }};\n"

        def func(head, b, arg):
            return head + "\n{\n\tint v1 = " + arg + ";\n\tint v2;\n\tint v3;\n\tint v4;\n\tint v5;\n\tint v6;\n\tint? w1 = 0;\n\tint? w2 = 0;\n" \
                + "\t(void)v2; (void)v3; (void)v4; (void)v5; (void)v6; (void)w1; (void)w2;\n" + "".join(self.stmt(s, 1) for s in b) + "}\n"

        for i, b in enumerate(p["fn"]):
            rt = "int?" if p["fnfail"][i] else "int"
            kind = p["kinds"][i]
            if kind == "macro":
                out += func(f"macro {rt} {nm}_f{i + 1}(int arg)", b, "arg")
            elif kind == "lambda":
                out += f"alias {nm.capitalize()}Fn{i + 1} = fn {rt}(int);\n"
                out += func(f"fn {rt} {nm}_g{i + 1}(int arg)", b, "arg")
                out += f"{nm.capitalize()}Fn{i + 1} {nm}_f{i + 1} = &{nm}_g{i + 1};\n"
            else:
                out += func(f"fn {rt} {nm}_f{i + 1}(int arg)", b, "arg")
        out += func(f"fn int? {nm}()", p["main"], "0")
        return out


PRELUDE = """module flow;
extern fn int printf(char* f, ...);
extern fn int fflush(void* f);
faultdef FA, FB, FC;
int[20000] evlog;
usz evn;
int[13] ticks;
String[] names = { "n0", "n1", "n2", "n3", "n4", "n5", "n6", "n7", "n8", "n9", "other" };
fn int nm(int x) @noinline => x >= 0 && x <= 9 ? x : 10;
fn void put(int v) @noinline { if (evn < evlog.len) evlog[evn++] = v; }
fn int ev(int id, int v) @noinline { put(id); put(v); return v; }
fn int ev2(int id, int a, int b) @noinline { put(id); put(a); put(id); put(b); return a + 2 * b; }
fn int? of(int id, int v, int sel) @noinline
{
	put(id);
	switch (sel)
	{
		case 1: put(1); return FA?;
		case 2: put(2); return FB?;
		case 3: put(3); return FC?;
	}
	put(v);
	return v;
}
fn bool tick(int n, int m) @noinline { return ticks[n]++ < m; }
fn int fcode(fault f) @noinline
{
	if (!f) return 0;
	if (f == FA) return 1;
	if (f == FB) return 2;
	if (f == FC) return 3;
	return 99;
}
alias Test = fn int?();
fn void run(int i, Test t)
{
	evn = 0;
	ticks = {};
	int? r = t();
	if (catch e = r) { put(90002); put(fcode(e)); } else { put(90001); put(r); }
	printf("T %d", i);
	foreach (x : evlog[:evn]) printf(" %d", x);
	printf("\\n");
	fflush(null);
}
"""


def source(progs):
    out = [PRELUDE]
    for i, p in progs:
        out.append(Render(p, f"t{i}").text())
    out.append("fn int main()\n{\n" + "".join(f"\trun({i}, &t{i});\n" for i, _ in progs) + "\treturn 0;\n}\n")
    return "".join(out)


def for_tlc(p, obs):
    return {"st": p["st"], "ar": p["ar"], "fn": p["fn"], "main": p["main"], "obs": obs}
