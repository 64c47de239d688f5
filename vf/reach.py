"""Random functions for C3Reach: control flow with constant and open conditions, jumps, and two optional variables."""

HEAD = """module t;
extern fn void quit(int x) @extern("exit") @noreturn;
faultdef BAD;
int g;
int[2] g_a;
const bool YES = true;
const int THREE = 3;
fn int? opt(int x) @noinline { if (x == g) return BAD?; return x; }
fn void take(int x) @noinline { g += x; }
fn bool c(int n) @noinline => n == g;
fn void stop() @noreturn @noinline { quit(1); }
macro m_stop() @noreturn { stop(); }
macro int m_pick(x) { if (c(x)) { return 1; } else { return 2; } }
enum Ee { E0, E1, E2 }
"""
LOOPS = ("while", "do", "for", "foreach")
TRUE = ["true", "1 == 1", "YES", "THREE > 2", "!false", "Ee.E1.ordinal == 1"]
FALSE = ["false", "1 == 2", "!YES", "THREE < 2"]


class Func:
    def __init__(self, r, n):
        self.r, self.n = r, n
        self.fn = r.choice(["int", "int", "int", "opt", "opt", "void"])
        self.rows, self.ids, self.k, self.labels = [], 0, 0, 0
        self.rowof = {}
        self.row({"int": "int", "opt": "int?", "void": "void"}[self.fn].join(["fn ", f" f{n}(int q)"]))
        self.row("{")
        self.row("int? a = opt(1);")
        self.row("int? b = opt(2);")
        self.budget = r.choice([3, 5, 8, 8, 12, 16, 20])
        env = {"brk": False, "cont": False, "sw": None, "next": False, "labels": [], "def": False, "depth": 0}
        self.body = self.list(env, set(), 6)
        if r.random() < .55 and not (self.body and self.jumps(self.body[-1])):
            self.body.append(self.leaf("return", env, set()))
        self.row("}")

    def row(self, t):
        self.rows.append(t)
        return len(self.rows) - 1

    def node(self, k, text=None, **kw):
        self.ids += 1
        s = {"k": k, "id": self.ids, "l": "", **kw}
        if text is not None:
            self.rowof[self.ids] = self.row(text)
        return s

    def jumps(self, s):
        """Roughly: does control leave here."""
        k = s["k"]
        if k in ("return", "break", "continue", "next", "stop", "forcec", "rethrowc"):
            return True
        if k == "block":
            return bool(s["a"]) and self.jumps(s["a"][-1])
        if k == "if":
            return s["e"] and bool(s["a"]) and bool(s["b"]) and self.jumps(s["a"][-1]) and self.jumps(s["b"][-1])
        return False

    def list(self, env, unw, most):
        """A list of statements; unw is changed as the rules (roughly) do."""
        out = []
        n = self.r.randint(0 if env["depth"] > 2 else 1, most)
        while n and self.budget > 0:
            n -= 1
            self.budget -= 1
            out.append(self.stmt(env, unw))
            if self.jumps(out[-1]) and self.r.random() < .93:
                break
        return out

    def leaf(self, k, env, unw):
        r = self.r
        if k == "return":
            return self.node(k, {"int": "return %d;", "opt": r.choice(["return %d;", "return BAD?;"]) if r.random() < .5 else "return %d;", "void": "return;"}[self.fn].replace("%d", str(r.randint(0, 9))))
        if k == "stop":
            return self.node(k, r.choice(["stop();", "m_stop();", "unreachable();", "quit(2);", "$$unreachable();"]))
        if k == "forcec":
            return self.node(k, "BAD?!!;")
        if k == "rethrowc":
            return self.node(k, "BAD?!;")
        if k == "call":
            return self.node(k, r.choice(["take(%d);", "c(%d);", "g = %d;", "int? z%d = opt(1);", "m_pick(%d);"]) % self.new())
        if k == "assert":
            return self.node(k, f"assert(c({self.new()}));")
        if k == "break":
            return self.jump("break", env, None)
        if k == "continue":
            return self.jump("continue", env, LOOPS)
        x = r.choice("ab")
        if k == "use":
            if unw and r.random() < .9:
                x = r.choice(sorted(unw))
            return self.node(k, r.choice([f"take({x});", f"int z{self.new()} = {x};", f"g = {x} + 1;", f"take({x} * 2);"]), x=x)
        opts = [v for v in "ab" if v not in unw]
        if opts and r.random() < .9:
            x = r.choice(opts)
        if k == "setv":
            return self.node(k, f"{x} = {r.randint(0, 9)};", x=x)
        if k == "seto":
            return self.node(k, r.choice([f"{x} = opt({self.new()});", f"{x} = BAD?;"]), x=x)
        if k == "rethrow":
            return self.node(k, f"take({x}!);", x=x)
        if k == "force":
            return self.node(k, f"take({x}!!);", x=x)

    def new(self):
        self.k += 1
        return self.k

    def jump(self, k, env, kinds):
        r = self.r
        ls = [l for l, kd in env["labels"] if kinds is None or kd in kinds]
        x = r.random()
        if x < .03 and self.labels:
            l = f"L{r.randint(1, self.labels)}"
        elif ls and x < .5:
            l = r.choice(ls)
        else:
            l = ""
        s = self.node(k, f"{k} {l};" if l else f"{k};")
        s["l"] = l
        return s

    def nextcase(self, env):
        r = self.r
        x = r.random()
        sws = [l for l, kd in env["labels"] if kd == "switch"]
        f = r.choice(["plain", "plain", "default", "val", "dyn"])
        l = ""
        if f != "plain" and sws and x < .5:
            l = r.choice(sws)
        elif f != "plain" and self.labels and x > .97:
            l = f"L{r.randint(1, self.labels)}"
        v = r.randint(0, 3)
        on = env["onof"].get(l) if l else (env["sw"] or {}).get("on")
        if on == "enum":
            v = r.randint(0, 2)
        val = f"E{v}" if on == "enum" else str(v)
        if on == "enum" and f == "dyn":
            f = "val"
        t = {"plain": "", "default": "default", "val": val, "dyn": "g"}[f]
        s = self.node("next", "nextcase " + (f"{l}: " if l else "") + t + ";" if t else "nextcase;", f=f, v=v)
        s["l"] = l
        return s

    def cond(self, unw, kinds):
        """-> condition, text, unwrapped when true, when false"""
        r = self.r
        k = r.choice(kinds)
        x, y = r.sample("ab", 2)
        if x in unw and r.random() < .9:
            x, y = y, x
        if k == "cuse" and unw and r.random() < .9:
            x = r.choice(sorted(unw))
        if x in unw and k not in ("c", "t", "f", "cuse") and r.random() < .8:
            k = "c"
        if k == "try2" or k == "catch2":
            if unw and r.random() < .9:
                k = "c"
        n = self.new()
        t = {"c": f"c({n})", "t": r.choice(TRUE), "f": r.choice(FALSE), "cuse": f"c({x})", "trynew": f"try z{n} = {x}", "try": f"try {x}",
             "tryc": f"try {x} && c({n})", "try2": f"try {x} && try {y}", "catch": f"catch {x}", "catchf": f"catch z{n} = {x}", "catch2": f"catch {x}, {y}"}[k]
        yes = {"try": {x}, "tryc": {x}, "try2": {x, y}}.get(k, set())
        no = {"catch": {x}, "catchf": {x}, "catch2": {x, y}}.get(k, set())
        return {"k": k, "x": x, "y": y}, t, yes, no

    def label(self, p=.3):
        if self.r.random() < p:
            self.labels += 1
            return f"L{self.labels}"
        return ""

    def inner(self, env, l, kind, **kw):
        e = dict(env, depth=env["depth"] + 1, **kw)
        e.setdefault("onof", {})
        if l:
            e["labels"] = env["labels"] + [(l, kind)]
        return e

    def stmt(self, env, unw):
        r = self.r
        env.setdefault("onof", {})
        leaves = ["call"] * 4 + ["use"] * (6 if unw else 1) + ["seto", "setv", "force", "return", "stop", "assert"] + (["rethrow", "rethrowc"] if self.fn == "opt" else []) + ["forcec"]
        if env["def"] and r.random() < .9:
            leaves = [k for k in leaves if k not in ("return", "rethrow", "rethrowc")]
        if env["brk"] or any(True for _ in env["labels"]):
            leaves += ["break"] * 3
        elif r.random() < .02:
            leaves = ["break", "continue", "next"]
        if env["cont"]:
            leaves += ["continue"] * 2
        if env["sw"]:
            leaves += ["next"] * 3
        deep = env["depth"] < 5
        big = ["if"] * 10 + ["while"] * 2 + ["do", "for", "for", "foreach", "block", "ctif", "defer"] + ["switch"] * 3
        k = r.choice(big) if deep and r.random() < .55 else r.choice(leaves)
        if k == "next":
            return self.nextcase(env)
        if k not in big:
            return self.leaf(k, env, unw)
        if k == "block":
            s = self.node(k, "{")
            s["a"] = self.list(self.inner(env, "", k), set(unw), 4)
            self.row("}")
            return s
        if k == "ctif":
            t, e = r.choice([("$if true:", "$endif"), ("$if THREE == 3:", "$endif"), ("$if $defined(g):", "$endif"), ("$if !YES: take(1); return; $else", "$endif"),
                             ("$switch THREE: $case 3:", "$endswitch"), ("$switch THREE: $case 2: take(1); $default:", "$endswitch"), ("$switch int: $case int:", "$endswitch")])
            s = self.node(k, t)
            s["a"] = self.list(self.inner(env, "", k), unw, 3)
            self.row(e)
            return s
        if k == "defer":
            s = self.node(k, r.choice(["defer {", "defer {", "defer try {", "defer catch {"]))
            s["a"] = self.list(self.inner(env, "", k, **{"def": True, "brk": r.random() < .03, "cont": r.random() < .03, "sw": None, "labels": env["labels"] if r.random() < .1 else []}), set(unw), 3)
            self.row("}")
            return s
        l = self.label(.3 if k != "if" else .12)
        lt = f" {l}:" if l else ""
        if k == "if":
            c, t, yes, no = self.cond(unw, ["c"] * 4 + ["t", "f", "cuse", "trynew", "try", "tryc", "try2", "catch", "catch", "catch", "catchf", "catchf", "catch2"])
            e = self.inner(env, l, k)
            if r.random() < .15 and not l:
                # a single statement on the line of the if
                s = self.node(k, f"if ({t}) ", c=c, e=False, b=[])
                at = len(self.rows)
                x = self.leaf(r.choice(["return", "stop", "call"] + (["use"] if unw | yes else []) + (["break"] * 3 if env["brk"] else []) + (["continue"] * 2 if env["cont"] else [])), e, unw | yes)
                if len(self.rows) > at:
                    tx = self.rows.pop()
                    if tx.startswith("int"):
                        tx = "take(1);"
                        x["k"] = "call"
                    self.rows[-1] += tx
                    self.rowof[x["id"]] = len(self.rows) - 1
                s["a"] = [x]
                if self.jumps(x):
                    unw |= no
                return s
            s = self.node(k, f"if{lt} ({t}) {{", c=c, e=False, b=[])
            s["l"] = l
            left = r.random() < .5 and bool(no)
            s["a"] = self.list(e, unw | yes, 3)
            if left and not (s["a"] and self.jumps(s["a"][-1])):
                s["a"].append(self.leaf(r.choice(["return", "return", "stop"] + (["break"] * 3 if env["brk"] else []) + (["continue"] * 2 if env["cont"] else [])), e, unw))
            if r.random() < .45:
                s["e"] = True
                if r.random() < .2 and self.budget > 0:
                    c2, t2, yes2, no2 = self.cond(unw | no, ["c", "c", "t", "try", "catch", "catchf"])
                    x = self.node(k, f"}} else if ({t2}) {{", c=c2, e=False, b=[])
                    x["a"] = self.list(e, unw | no | yes2, 3)
                    if r.random() < .6:
                        x["e"] = True
                        self.row("} else {")
                        x["b"] = self.list(e, unw | no | no2, 3)
                    s["b"] = [x]
                else:
                    self.row("} else {")
                    s["b"] = self.list(e, unw | no, 3)
            self.row("}")
            if s["a"] and self.jumps(s["a"][-1]):
                unw |= no
            return s
        if k == "foreach":
            s = self.node(k, f"foreach{lt} (z{self.new()} : g_a) {{")
            s["l"] = l
            s["a"] = self.list(self.inner(env, l, k, brk=True, cont=True), set(unw), 4)
            self.row("}")
            return s
        if k in ("while", "for", "do"):
            c, t, yes, no = self.cond(unw, ["c"] * 4 + ["t"] * 4 + ["f", "cuse"] + (["trynew", "try", "tryc", "catch", "catchf"] if k != "do" else []))
            if k == "for":
                if c["k"] == "t" and r.random() < .5:
                    t = ""
                text = f"for{lt} (int z{self.new()} = 0; {t}; g++) {{"
            elif k == "while":
                text = f"while{lt} ({t}) {{"
            else:
                text = f"do{lt} {{"
                yes = set()
            s = self.node(k, text, c=c)
            s["l"] = l
            s["a"] = self.list(self.inner(env, l, k, brk=True, cont=True), unw | yes, 4)
            if k == "do":
                self.ids += 1
                s["id2"] = self.ids
                self.rowof[self.ids] = self.row(f"}} while ({t});")
            else:
                self.row("}")
            return s
        on = r.choice(["int", "int", "enum", "bool"])
        s = self.node(k, {"int": f"switch{lt} (g) {{", "enum": f"switch{lt} (Ee.from_ordinal(g)) {{", "bool": f"switch{lt} {{"}[on], on=on)
        s["l"] = l
        vals = {"int": [0, 1, 2, 3], "enum": [0, 1, 2], "bool": [0, 1, 2]}[on]
        r.shuffle(vals)
        n = len(vals) if on == "enum" and r.random() < .7 else r.randint(1, len(vals))
        cs = [{"v": [v], "d": False} for v in vals[:n]]
        if on == "int" and r.random() < .2:
            cs[0] = {"v": [5, 6], "d": False}
        if r.random() < (.15 if on == "enum" and n == 3 else .65):
            cs.insert(r.randint(0, len(cs)) if r.random() < .3 else len(cs), {"v": [], "d": True})
        s["cs"] = []
        for i, cc in enumerate(cs):
            if cc["d"]:
                self.row("default:")
            elif on == "bool":
                self.row(f"case c({self.new()}):")
            elif on == "enum":
                self.row(f"case E{cc['v'][0]}:")
            else:
                self.row("case " + "..".join(map(str, (cc["v"][0], cc["v"][-1]))) + ":" if len(cc["v"]) > 1 else f"case {cc['v'][0]}:")
            if on == "bool":
                cc["v"] = []
            cc["none"], cc["b"] = r.random() < .12, []
            s["cs"].append(cc)
            if not cc["none"]:
                e = self.inner(env, l, k, brk=True, next=i + 1 < len(cs), sw=s)
                e["onof"] = dict(env["onof"], **{l: on}) if l else env["onof"]
                cc["b"] = self.list(e, set(unw), 3)
                if r.random() < .6 and not (cc["b"] and self.jumps(cc["b"][-1])):
                    cc["b"].append(self.leaf("return" if not env["def"] else "stop", e, unw))
                cc["none"] = not cc["b"]
        self.row("}")
        return s

    def case(self, err, warns):
        """err: row of the first error or None; warns: rows"""
        byrow = {}
        for i, rw in self.rowof.items():
            byrow.setdefault(rw, []).append(i)
        return {"fn": self.fn, "body": self.body, "seen": {"err": [-1] if err is None else [0] if err == 0 else byrow.get(err, [-2]),
                                                          "warns": [min(byrow.get(w, [-2])) for w in warns]}}
