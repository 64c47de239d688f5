"""Programs on aggregates (initializers, parts, slices, vectors) for spec/C3Agg.tla."""

HEAD = """module t;
extern fn int printf(char* f, ...);
extern fn int puts(char* f);
fn void b_() @noinline { printf("V"); }
fn void l_(long v) @noinline { printf(" %lld", v); }
fn void e_() @noinline { printf("\\n"); }
fn long k(long x) @noinline => x;
fn void dirty() @noinline { char[4000] a; for (int i = 0; i < 4000; i++) a[i] = (char)(0xA0 + i % 31); d_(&a); }
fn void d_(char[4000]* p) @noinline { if ((*p)[17] == 1) printf("?"); }
enum En { A0, A1, A2, A3, A4, A5, A6, A7 }
enum Ev : char (int w) { B0 = 3, B1 = 4, B2 = 9, B3 = 7 }
typedef Di = int;
typedef Dn = inline short;
alias Al = ushort;
int[100] g_arr;
String[8] g_str = { "", "s1", "s2", "s3", "s4", "s5", "s6", "s7" };
alias Fp = fn int();
fn int f1() => 1;
fn int f2() => 2;
fn int f3() => 3;
Fp[4] g_fp = { null, &f1, &f2, &f3 };
faultdef BAD;
fn int? opt(int x) @noinline { if (x == -77) return BAD?; return x; }
fn long ofstr(String s) @noinline => s.len == 0 ? 0 : (long)(s[1] - '0');
fn long offp(Fp p) @noinline => p ? p() : 0;
fn long ofptr(int* p) @noinline => p ? p - &g_arr[0] : 0;
"""
INTS = {"char": (8, False), "ichar": (8, True), "short": (16, True), "ushort": (16, False), "int": (32, True), "uint": (32, False), "long": (64, True),
        "ulong": (64, False), "int128": (128, True), "Di": (32, True), "Dn": (16, True), "Al": (16, False), "isz": (64, True)}
OTHER = ["float", "double", "bool", "String", "int*", "Fp", "En", "Ev"]
LANES = ["char", "short", "ushort", "ichar", "int", "uint", "long", "float", "double", "int128"]


class Ty:
    def __init__(self, k, name, n=0, e=None, m=None, anon=False, vec=False, bits=0, inline=False):
        self.k, self.name, self.n, self.e, self.m = k, name, n, e, m    # m: list of (member name or None, type)
        self.vec, self.bits, self.inline = vec, bits, inline           # inline: the first member is

    def case(self):
        if self.k == "leaf":
            return {"k": "leaf"}
        if self.k == "arr":
            return {"k": "arr", "n": self.n, "e": self.e.case()}
        return {"k": "un" if self.k == "un" else "st", "m": [t.case() for _, t in self.m]}

    def size(self):
        return 1 if self.k == "leaf" else self.n * self.e.size() if self.k == "arr" else sum(t.size() for _, t in self.m)

    def part(self, i):
        return self.e if self.k == "arr" else self.m[i][1]

    def parts(self):
        return self.n if self.k == "arr" else len(self.m)

    def at(self, p):
        t = self
        for i in p:
            t = t.part(i)
        return t

    def has(self, f):
        return f(self) or (self.k == "arr" and self.e.has(f)) or (self.k not in ("leaf", "arr") and any(t.has(f) for _, t in self.m))

    def paths(self, f, p=()):
        """All (path, type) below with f(type)."""
        out = [(list(p), self)] if f(self) else []
        if self.k != "leaf" and not self.vec and self.k != "bs":
            for i in range(self.parts()):
                out += self.part(i).paths(f, p + (i,))
        elif self.vec or self.k == "bs":
            for i in range(self.parts()):
                if f(self.part(i)):
                    out.append((list(p) + [i], self.part(i)))
        return out


class Prog:
    def __init__(self, r, n):
        self.r, self.n = r, n
        self.decls, self.globals, self.funcs, self.lines, self.steps = [], [], [], [], []
        self.names, self.structs, self.vars, self.slices = 0, [], [], []
        self.dump = []
        self.once = False
        self.build()

    def new(self, p):
        self.names += 1
        return f"{p}{self.names}"

    # ------------------------------------------------------------ types
    def leaf(self):
        r = self.r
        return Ty("leaf", r.choice(["int", "int", "char", "long", "short"] + list(INTS) + OTHER))

    def vector(self):
        r = self.r
        n = r.choice([2, 3, 3, 4, 4, 5, 8])
        e = Ty("leaf", r.choice(LANES + ["bool"]))
        return Ty("arr", f"{e.name}[<{n}>]", n=n, e=e, vec=True)

    def members(self, depth, budget, union):
        r, out, used = self.r, [], 0
        for i in range(r.randint(1, 4) if not union else r.randint(1, 3)):
            if used >= budget:
                break
            x = r.random()
            if depth > 0 and x < .2:
                k = r.choice(["st", "st", "un"])
                t = Ty(k, None, m=self.members(depth - 1, min(6, budget - used), k == "un"))
                nm = None if r.random() < .75 else self.new("m")
            else:
                t = self.ty(depth - 1, max(1, min(budget - used, 12)))
                nm = self.new("m")
            used += t.size()
            out.append((nm, t))
        return out

    def ty(self, depth, budget):
        r = self.r
        x = r.random()
        if depth <= 0 or budget <= 1 or x < .3:
            return self.leaf() if x > .06 or budget < 4 else self.vector()
        if x < .55:
            n = r.randint(1, min(6, budget))
            e = self.ty(depth - 1, budget // n) if r.random() < .7 else self.leaf()
            return Ty("arr", f"{e.name}[{n}]", n=n, e=e)
        if x < .63 and budget >= 2:
            return self.vector()
        if x < .7:
            bits, ms = 0, []
            for _ in range(r.randint(1, 4)):
                w = r.randint(1, 7)
                ms.append((self.new("m"), Ty("leaf", "uint", bits=w), bits, bits + w - 1))
                bits += w
            nm = self.new("Bs")
            self.decls.append(f"bitstruct {nm} : uint {{ " + " ".join(f"uint {a} : {lo}..{hi};" for a, _, lo, hi in ms) + " }")
            return Ty("bs", nm, m=[(a, t) for a, t, _, _ in ms])
        if x < .8 and self.structs:
            t = r.choice(self.structs)
            if t.size() <= budget:
                return t
        return self.struct(depth, budget)

    def struct(self, depth, budget):
        r = self.r
        k = "un" if r.random() < .18 else "st"
        ms = self.members(depth, budget, k == "un")
        inl = False
        nm = self.new("St" if k == "st" else "Un")
        bases = [t for t in self.structs if t.size() < budget and t.k == "st"]
        if k == "st" and bases and r.random() < .3:
            ms.insert(0, (self.new("m"), r.choice(bases)))
            inl = True
        t = Ty(k, nm, m=ms, inline=inl)
        attr = " @packed" if k == "st" and r.random() < .08 else ""
        self.decls.append(f"{'struct' if k == 'st' else 'union'} {nm}{attr} {{ {self.body(t)} }}")
        self.structs.append(t)
        return t

    def body(self, t):
        out = []
        for i, (nm, m) in enumerate(t.m):
            if m.name is None:
                out.append(f"{'struct' if m.k == 'st' else 'union'} {nm or ''} {{ {self.body(m)} }}")
            else:
                out.append(f"{'inline ' if t.inline and i == 0 else ''}{m.name} {nm};")
        return " ".join(out)

    # ------------------------------------------------------------ values
    def number(self, t):
        r = self.r
        if t.bits:
            return r.choice([0, (1 << t.bits) - 1, r.randrange(1 << t.bits)])
        if t.name in INTS:
            b, s = INTS[t.name]
            lo, hi = (-(1 << b - 1), (1 << b - 1) - 1) if s else (0, (1 << b) - 1)
            return max(lo, min(hi, r.choice([0, 1, hi, lo, r.randint(2, 120), r.randint(2, 120), r.randint(-30000, 30000), r.randint(-10 ** 6, 10 ** 6)]))) if b < 32 else \
                max(lo, r.choice([0, 1, -1, r.randint(2, 120), r.randint(2, 120), r.randint(-30000, 30000), r.randint(-10 ** 8, 10 ** 8)]))
        return {"float": r.randint(-1000, 1000), "double": r.randint(-10 ** 6, 10 ** 6), "bool": r.randint(0, 1), "String": r.randint(0, 7), "int*": r.randint(0, 99),
                "Fp": r.randint(0, 3), "En": r.randint(0, 7), "Ev": r.randint(0, 3)}[t.name]

    def scalar(self, t, v, const):
        r, n = self.r, t.name
        if n == "int" and not const and r.random() < .12:
            return r.choice([f"(opt({v}) ?? 5)", f"(opt(-77) ?? (int)k({v}))", f"opt({v})!!"])
        run = not const and r.random() < .6
        if n in ("Di", "Dn"):
            return f"({n})k({v})" if run else f"({n})({v})"
        if n in INTS:
            return f"({n})k({v})" if run else (f"{v}" if v >= 0 or INTS[n][1] else f"({n}){v}")
        if n in ("float", "double"):
            return f"({n})k({v})" if run else r.choice([f"{v}.0" + ("f" if n == "float" else ""), str(v)])
        if n == "bool":
            return f"(k({v}) == 1)" if run else ["false", "true"][v]
        if n == "String":
            return f"g_str[k({v})]" if run else (f'"s{v}"' if v else '""')
        if n == "int*":
            return "null" if not v else f"&g_arr[k({v})]" if run else f"&g_arr[{v}]"
        if n == "Fp":
            return f"g_fp[k({v})]" if run else f"&f{v}" if v else "null"
        if n in ("En", "Ev"):
            return f"{n}.from_ordinal((char)k({v}))" if run else f"{n}.{'A' if n == 'En' else 'B'}{v}"

    def leafout(self, t, x):
        if t.name in ("Di", "Dn"):
            return f"l_((long)({'int' if t.name == 'Di' else 'short'})({x}));"
        if t.name == "bool":
            return f"l_({x} ? 1 : 0);"
        if t.name in ("String", "int*", "Fp"):
            return f"l_(of{ {'String': 'str', 'int*': 'ptr', 'Fp': 'fp'}[t.name] }({x}));"
        if t.name in ("En", "Ev"):
            return f"l_((long){x}.ordinal);"
        return f"l_((long){x});"

    def allout(self, t, x):
        if t.k == "leaf":
            return self.leafout(t, x)
        if t.k == "arr":
            return " ".join(self.allout(t.e, f"{x}[{i}]") for i in range(t.n))
        return " ".join(self.allout(m, self.dot(t, x, i)) for i, (nm, m) in enumerate(t.m))

    def dot(self, t, x, i):
        """The text of member i; the member of an anonymous or inline part may be named directly."""
        nm, m = t.m[i]
        if nm is None or (t.inline and i == 0 and self.r.random() < .5 and m.k == "st"):
            return x if nm is None or x.endswith(")") is False else f"{x}.{nm}"
        return f"{x}.{nm}"

    def path(self, t, p, x):
        for j, i in enumerate(p):
            if t.k == "arr":
                x += f"[{i}]"
            elif t.inline and i == 0 and j == len(p) - 1:
                x += f".{t.m[i][0]}"
            else:
                x = self.dot(t, x, i)
            t = t.part(i)
        return x

    # ------------------------------------------------------------ initializers: (case, text)
    def anyvar(self, f, const):
        # another member of a union than the one that was set is not a constant
        return [(v, p, t) for v in self.vars if v["live"] and (not const or v["const"]) for p, t in v["t"].paths(f)
                if not (const and any(v["t"].at(p[:j]).k == "un" for j in range(len(p))))]

    def same(self, t):
        return lambda u: u is t or (t.name is not None and u.name == t.name)

    def init(self, t, const, depth=0, nested=True, simple=False, novec=False):
        """nested: stands inside of another list or in a declaration, so that { } alone is accepted."""
        r = self.r
        if t.k == "leaf":
            src = self.anyvar(self.same(t), const) if r.random() < .2 and not t.bits else []
            if src:
                return self.copy(r.choice(src))
            v = self.number(t)
            return {"k": "v", "v": v}, self.scalar(t, v, const)
        if t.name is not None and not simple and r.random() < .2:
            src = self.anyvar(self.same(t), const)
            if src:
                return self.copy(r.choice(src))
        x = r.random()
        if t.vec and not novec and x < .3 and t.e.name not in ("bool", "int128"):
            v = self.number(t.e)
            return {"k": "bcast", "v": v}, f"({t.name})({self.scalar(t.e, v, const)})"
        if t.k == "arr" and t.e.name in ("char", "ichar") and not t.vec and x < .35 and not const or (t.k == "arr" and t.e.name == "char" and not t.vec and x < .3):
            if t.e.name == "char":
                s = [r.choice(b"abcxyz09 ") for _ in range(r.randint(0, t.n))]
                if s:
                    return {"k": "str", "s": s}, '"' + bytes(s).decode() + '"'
        e, s = self.list(t, const, depth)
        if t.name is not None and r.random() < .12:
            s = f"({t.name}){s}"
        return e, s

    def copy(self, src):
        v, p, t = src
        return {"k": "copy", "x": v["i"], "p": p}, self.path(v["t"], p, v["name"])

    def list(self, t, const, depth):
        r = self.r
        x = r.random()
        if x < .1:
            return {"k": "zero"}, "{}"
        if x < .5:
            return self.positional(t, const, depth)
        return self.designated(t, const, depth)

    def positional(self, t, const, depth):
        r = self.r
        es, ss = [], []
        if t.k == "arr":
            while len(ss) < 1000 and sum(self.takes(e) for e in es) < t.n:
                left = t.n - sum(self.takes(e) for e in es)
                src = []
                if r.random() < .3 and not self.novar and not const:
                    src = [(v, p, u) for v, p, u in self.anyvar(lambda u: u.k == "arr" and u.n <= left and u.e.name is not None and u.e.name == t.e.name
                                                                and (not u.vec or t.vec), const)]
                if src:
                    v, p, u = r.choice(src)
                    es.append({"k": "splat", "x": v["i"], "p": p, "n": u.n})
                    ss.append(("" if u.vec else "...") + self.path(v["t"], p, v["name"]))
                else:
                    e, s = self.init(t.e, const, depth + 1)
                    es.append(e)
                    ss.append(s)
        else:
            for i, (nm, m) in enumerate(t.m[:1] if t.k == "un" else t.m):
                if nm is None:
                    e, s = self.positional(m, const, depth + 1)
                    s = s[1:-1]
                else:
                    e, s = self.init(m, const, depth + 1)
                es.append(e)
                ss.append(s)
        return {"k": "pos", "es": es}, "{ " + ", ".join(s.strip() for s in ss) + " }"

    novar = False

    def takes(self, e):
        return e["n"] if e["k"] == "splat" else 1

    def designated(self, t, const, depth):
        r = self.r
        ds, ss = [], []
        for _ in range(r.choice([1, 1, 2, 2, 3, 4, 6])):
            p, s, u = [], "", t
            while True:
                if u.k == "arr":
                    lo = r.randrange(u.n)
                    hi = r.randint(lo, u.n - 1) if r.random() < .35 else lo
                    s += f"[{lo}]" if lo == hi and r.random() < .9 else f"[{lo}..{hi}]"
                else:
                    lo = hi = r.randrange(len(u.m))
                    nm = u.m[lo][0]
                    if nm is not None and not (u.inline and lo == 0 and u.m[0][1].k == "st" and r.random() < .5 and (not s or s[-1] != "!")):
                        s += f".{nm}"
                    elif nm is not None:
                        s += "!"
                p.append([lo, hi])
                anon = u.k != "arr" and (u.m[lo][0] is None or s.endswith("!"))
                u = u.part(lo)
                if s.endswith("!"):
                    s = s[:-1]
                if not anon and (u.k == "leaf" or u.bits or r.random() < .45):
                    break
            e, x = self.init(u, const, depth + 1)
            ds.append({"p": p, "e": e})
            ss.append(f"{s} = {x}")
        return {"k": "des", "ds": ds}, "{ " + ", ".join(ss) + " }"

    # ------------------------------------------------------------ steps
    def step(self, case, line, out):
        self.steps.append(case)
        self.lines.append(line + " b_(); " + out + " e_();")

    def show(self, v):
        return self.allout(v["t"], v["name"])

    def declare(self):
        r = self.r
        i = len(self.vars) + 1
        big = [v["t"] for v in self.vars]
        t = r.choice(big) if big and r.random() < .35 else self.ty(3, 24)
        if t.k == "leaf":
            t = self.struct(2, 16) if r.random() < .6 else Ty("arr", f"{t.name}[{3}]", n=3, e=t)
        form = r.choice(["local", "local", "assign", "noinit", "static", "global", "const", "constlocal", "arg", "ret", "default", "optional", "infer", "slice", "lambda", "macro", "ptr", "tmp"])
        nm = f"x{i}"
        const = form in ("static", "global", "const", "constlocal", "default")
        if form == "infer" and (t.k != "arr" or t.vec and r.random() < .5):
            form = "local"
        if form in ("static", "global"):
            self.once = True
        if form in ("global", "const"):
            nm = (f"g{self.n}_{i}" if form == "global" else f"CG{self.n}_{i}")
        if form == "constlocal":
            nm = f"CL{i}"
        v = {"i": i, "t": t, "name": nm, "const": form in ("const", "constlocal"), "live": False, "form": form}
        # constants of the program's function are not visible in global declarations
        hold = self.vars
        if form in ("global", "const", "default"):
            self.vars = [w for w in self.vars if w["form"] == "const"]
        if form == "infer":
            self.novar = t.vec  # the length is inferred from the number of elements
            e, s = (self.positional if r.random() < .5 else self.designated)(t, False, 0)
            if e["k"] == "des" and max(d["p"][0][1] for d in e["ds"]) != t.n - 1:
                e, s = self.positional(t, False, 0)
        else:
            e, s = self.init(t, const)
        self.vars = hold
        self.novar = False
        case = {"k": "put", "d": i, "p": [], "e": e}
        T = t.name
        if form == "infer":
            ty = T[:T.rindex("[")] + ("[<*>]" if t.vec else "[*]")
            self.step({"k": "infer", "e": e}, f"{ty} {nm} = {s};", f"l_({nm}.len);")
            line = ""
        elif form in ("local", "lambda", "macro", "slice", "ptr", "tmp"):
            line = f"{T} {nm} = {s};"
            if form == "lambda":
                line = f"{T} {nm} = (fn {T}() {{ {T} y = {s}; return y; }})();" if not self.mentions(e) else line
            if form == "macro":
                line = f"{T} {nm} = m_id({self.typed(T, s)});"
            if form == "ptr":
                line = f"{T} {nm} @noinit; {T}* q{i} = &{nm}; *q{i} = {s};"
            if form == "tmp":
                line = f"{T}* q{i} = &&{self.typed(T, s)}; {T} {nm} = *q{i};"
        elif form == "assign":
            line = f"{T} {nm}; {nm} = {s};"
        elif form == "noinit":
            line = f"{T} {nm} @noinit; {nm} = {s};"
        elif form == "static":
            line = f"static {T} {nm} = {s};"
        elif form == "constlocal":
            line = f"const {T} {nm} = {s};"
        elif form == "global":
            self.globals.append(f"{T} {nm} = {s};")
            line = ""
        elif form == "const":
            self.globals.append(f"const {T} {nm} = {s};")
            line = ""
        elif form == "arg":
            self.funcs.append(f"fn {T} a{self.n}_{i}(int q, {T} v, int w) @noinline => v;")
            line = f"{T} {nm} = a{self.n}_{i}(1, {s}, 2);"
        elif form == "default":
            self.funcs.append(f"fn {T} a{self.n}_{i}(int q, {T} v = {s}) @noinline => v;")
            line = f"{T} {nm} = a{self.n}_{i}(1);"
        elif form == "ret":
            if self.mentions(e):
                line = f"{T} {nm} = {s};"
            else:
                self.funcs.append(f"fn {T} a{self.n}_{i}() @noinline {{ return {s}; }}")
                line = f"{T} {nm} = a{self.n}_{i}();"
        elif form == "optional":
            line = f"{T}? o{i} = {s}; {T} {nm} = o{i}!!;"
        self.vars.append(v)
        v["live"] = True
        self.step(case, line, self.show(v))

    def typed(self, T, s):
        return f"({T}){s}" if s[0] == "{" else f"(({T}){s})"

    def mentions(self, e):
        return any(f'"k": "{k}"' in repr(e).replace("'", '"') for k in ("copy", "splat", "pick", "mix"))

    def target(self, f=lambda t: True):
        return [(v, p, t) for v in self.vars if not v["const"] for p, t in v["t"].paths(f) if t.name is not None or self.named(v["t"], p)]

    def named(self, t, p):
        """The part is a named member."""
        t = t.at(p[:-1])
        return bool(p) and t.k != "arr" and t.m[p[-1]][0] is not None

    def assign(self):
        r = self.r
        ts = self.target(lambda t: True)
        if not ts:
            return
        # whole parts more often than leaves
        big = [x for x in ts if x[2].k != "leaf"]
        v, p, t = r.choice(big) if big and r.random() < .7 else r.choice(ts)
        if t.name is None:
            e, s = self.designated(t, False, 0)
        else:
            e, s = self.init(t, False, nested=False)
        if v["form"] in ("static", "global"):
            self.once = True
        x = self.path(v["t"], p, v["name"])
        self.step({"k": "put", "d": v["i"], "p": [[i, i] for i in p], "e": e}, f"{x} = {s};", self.show(v))

    # ------------------------------------------------------------ vectors
    def lanes(self, t, other, const=False):
        """An operand of the vector type t; text is an expression."""
        r = self.r
        src = self.anyvar(self.same(t), False)
        if src and r.random() < .75:
            return self.copy(r.choice(src))
        if r.random() < .4 and other and t.e.name not in ("bool", "int128"):
            v = self.number(t.e)
            return {"k": "bcast", "v": v}, self.scalar(t.e, v, False) if t.e.name not in ("float", "double") else f"({t.e.name})k({v})"
        e, s = self.positional(t, False, 1)
        return e, f"({t.name}){s}"

    def vecop(self):
        r = self.r
        ts = self.target(lambda t: t.vec)
        if not ts:
            t = Ty("arr", "", vec=True)
            t = self.vector()
            if t.e.name == "bool":
                return
            ts = None
        else:
            v, p, t = r.choice(ts)
        el = t.e.name
        small = el in ("char", "short", "ushort", "ichar")
        kind = r.random()
        if ts and kind < .22 and t.n <= 4:
            ix = r.sample(range(t.n), r.randint(2, t.n)) if t.n > 2 else [r.choice([[0, 1], [1, 0]])][0]
            u = Ty("arr", f"{el}[<{len(ix)}>]", n=len(ix), e=t.e, vec=True)
            e, s = self.init(u, False, simple=True, novec=True)
            x = self.path(v["t"], p, v["name"]) + "." + "".join(r.choice(["xyzw", "rgba"])[j] if False else "xyzw"[j] for j in ix)
            self.step({"k": "put", "d": v["i"], "p": [[i, i] for i in p], "e": {"k": "mix", "x": v["i"], "p": p, "ix": ix, "t": u.case(), "e": e}}, f"{x} = {s};", self.show(v))
            return
        if ts and kind < .35 and t.n <= 4:
            src = self.anyvar(lambda u: u.vec and u.e.name == el and u.n <= 4, False)
            if src:
                w, q, u = r.choice(src)
                names = r.choice(["xyzw", "rgba"])
                ix = [r.randrange(u.n) for _ in range(t.n)]
                s = self.path(w["t"], q, w["name"]) + "." + "".join(names[j] for j in ix)
                self.put(v, p, {"k": "pick", "x": w["i"], "p": q, "ix": ix}, s)
                return
        a, sa = self.lanes(t, False)
        b, sb = self.lanes(t, True)
        w, sg = INTS.get(el, (0, True))
        ops = ["&", "|", "^"] if el == "bool" else ["+", "-", "*"] if el in ("float", "double") else ["+", "-", "*", "&", "|", "^"] if small else ["&", "|", "^"] if w == 32 and False else []
        cmp = ["<", "<=", ">", ">=", "==", "!="] if el != "bool" else ["==", "!="]
        wide = el in ("int", "uint", "long", "int128")
        x = r.random()
        if ts and ops and x < .55:
            if el == "bool" or small or el in ("float", "double"):
                op = r.choice(ops)
                if el in ("float", "double") and op == "*":
                    op = "+"
                if small and r.random() < .25:
                    # by scalars that are not zero, and shifts inside of the type
                    n = r.randint(1, 7)
                    op = r.choice(["/", "%", "<<", ">>"])
                    b, sb = {"k": "bcast", "v": n}, f"({el})k({n})"
                e = {"k": "op", "op": op, "t": t.case(), "w": w if el != "bool" else 1, "s": sg if el != "bool" else False, "a": a, "b": b}
                if r.random() < .25:
                    src = self.path(v["t"], p, v["name"])
                    e["a"] = {"k": "copy", "x": v["i"], "p": p}
                    self.step({"k": "put", "d": v["i"], "p": [[i, i] for i in p], "e": e}, f"{src} {op}= {sb};", self.show(v))
                else:
                    self.put(v, p, e, f"{sa} {op} {sb}")
                return
        if ts and x < .65 and (small or el == "bool" or el in ("float", "double")):
            op = "lnot" if el == "bool" else r.choice(["neg", "not"]) if small else "neg"
            e = {"k": "op", "op": op, "t": t.case(), "w": w if el != "bool" else 0, "s": sg, "a": a, "b": a}
            self.put(v, p, e, {"neg": "-", "not": "~", "lnot": "!"}[op] + f"({sa})")
            return
        if ts and x < .72 and el != "bool" and el != "int128" and sa[0] != "(" and sb[0] != "(":
            op = r.choice(["min", "max"])
            b, sb = self.lanes(t, False)
            self.put(v, p, {"k": "op", "op": op, "t": t.case(), "w": w, "s": sg, "a": a, "b": b}, f"$${op}({sa}, {sb})")
            return
        z = self.new("z")
        b, sb = self.lanes(t, False)
        if el == "bool" or r.random() < .4:
            sign = r.choice(["==", "!="])
            self.step({"k": "eqv", "n": sign == "!=", "t": t.case(), "a": a, "b": b}, f"bool {z} = {sa} {sign} {sb};", f"l_({z} ? 1 : 0);")
            return
        op, f = r.choice([("<", "lt"), ("<=", "le"), (">", "gt"), (">=", "ge"), ("==", "eq"), ("!=", "ne")])
        bt = Ty("arr", f"bool[<{t.n}>]", n=t.n, e=Ty("leaf", "bool"), vec=True)
        self.step({"k": "val", "t": bt.case(), "e": {"k": "op", "op": op, "t": t.case(), "w": w, "s": sg, "a": a, "b": b}},
                  f"bool[<{t.n}>] {z} = $$veccomp{f}({sa}, {sb});", self.allout(bt, z))

    def put(self, v, p, e, s):
        self.step({"k": "put", "d": v["i"], "p": [[i, i] for i in p], "e": e}, f"{self.path(v['t'], p, v['name'])} = {s};", self.show(v))

    # ------------------------------------------------------------ slices
    def base(self, write, elem=None):
        """A thing to take ranges of: (case, text, length, element type, variable)."""
        r = self.r
        out = []
        for v in self.vars:
            if write and v["const"]:
                continue
            for p, t in v["t"].paths(lambda t: t.k == "arr" and not t.vec and t.e.name is not None and (elem is None or t.e.name == elem)):
                if any(v["t"].at(p[:j]).k == "un" for j in range(len(p))):
                    continue
                if v["const"] and not p:
                    continue    # see witness()
                out.append(({"s": 0, "x": v["i"], "p": p}, self.path(v["t"], p, v["name"]), t.n, t.e, v))
        for s in self.slices:
            if (elem is None or s["e"].name == elem) and not (write and s["v"]["const"]):
                out.append(({"s": s["i"], "x": 0, "p": []}, s["name"], s["n"], s["e"], s["v"]))
        out = [o for o in out if o[2] > 0]
        return r.choice(out) if out else None

    def range(self, n, count=None):
        """A range inside of n elements: (case, text, count)."""
        r = self.r
        lo = r.randrange(n) if count is None else r.randint(0, n - count)
        c = r.randint(0, n - lo) if count is None else count
        f = r.choice(["to", "to", "len", "end", "whole"])
        ae = r.random() < .3
        if f == "whole" and (count is None or (lo == 0 and count == n)):
            return {"f": "end", "a": 0, "b": 0, "ae": False, "be": False}, r.choice(["", "..", "0.."]) or "..", n
        if f == "end" and count is not None and lo + count != n:
            f = "len"
        if f == "end" and count is None:
            c = n - lo
        if f in ("to", "whole") and c == 0:
            f = "len"
        if f == "whole":
            f = "to"
        num = lambda x: r.choice([str(x), f"k({x})", f"(int)k({x})"])
        a = f"^{num(n - lo)}" if ae else num(lo)
        if f == "end":
            return {"f": f, "a": n - lo if ae else lo, "b": 0, "ae": ae, "be": False}, a + "..", c
        if f == "len":
            return {"f": f, "a": n - lo if ae else lo, "b": c, "ae": ae, "be": False}, ("" if lo == 0 and not ae and r.random() < .3 else a) + ":" + num(c), c
        be = r.random() < .3
        hi = lo + c - 1
        return ({"f": f, "a": n - lo if ae else lo, "b": n - hi if be else hi, "ae": ae, "be": be},
                ("" if lo == 0 and not ae and r.random() < .3 else a) + ".." + (f"^{num(n - hi)}" if be else num(hi)), c)

    def slice(self):
        b = self.base(False)
        if not b:
            return
        case, x, n, e, v = b
        rg, rs, c = self.range(n)
        i = len(self.slices) + 1
        nm = f"s{i}"
        self.slices.append({"i": i, "name": nm, "e": e, "n": c, "v": v})
        z = self.new("i")
        self.step({"k": "slice", "d": i, "b": case, "r": rg}, f"{e.name}[] {nm} = {x}[{rs}];", f"l_({nm}.len); foreach (y{z} : {nm}) {{ {self.allout(e, 'y' + z)} }}")

    def fill(self):
        r = self.r
        b = self.base(True)
        if not b:
            return
        case, x, n, e, v = b
        rg, rs, c = self.range(n)
        if r.random() < .55:
            a = self.base(False, e.name)
            if not a:
                return
            acase, ax, an, _, av = a
            # overlapping moves are not defined
            c = r.randint(0, min(n, an))
            if av is v or c == 0:
                return
            rg, rs, _ = self.range(n, c)
            ag, ars, _ = self.range(an, c)
            self.step({"k": "move", "b": case, "r": rg, "b2": acase, "r2": ag}, f"{x}[{rs}] = {ax}[{ars}];", self.show(v))
            return
        i, s = self.init(e, False, nested=False)
        if s[0] == "{":
            s = f"({e.name}){s}"
        self.step({"k": "fill", "b": case, "r": rg, "t": e.case(), "e": i}, f"{x}[{rs}] = {s};", self.show(v))

    def each(self):
        b = self.base(True)
        if not b or b[3].name not in ("int", "long", "uint", "ulong", "isz"):
            return
        case, x, n, e, v = b
        z = self.new("i")
        self.step({"k": "each", "b": case}, f"foreach (i{z}, &y{z} : {x}) *y{z} += ({e.name})i{z};", self.show(v))

    def compare(self):
        r = self.r
        def ok(t):
            return t.k == "arr" and t.e.name in ("int", "char", "short", "long", "ushort", "uint", "bool", "En", "ulong", "ichar", "Di")
        src = self.anyvar(lambda t: ok(t) and not t.vec, False)
        if not src:
            return
        v, p, t = r.choice(src)
        w, q, _ = r.choice(self.anyvar(lambda u: self.same(t)(u), False))
        z = self.new("z")
        neg = r.random() < .3
        if r.random() < .5:
            x, y = self.path(v["t"], p, v["name"]), self.path(w["t"], q, w["name"])
            self.step({"k": "eq", "x": v["i"], "p": p, "y": w["i"], "q": q}, f"bool {z} = " + (f"!({x} != {y})" if neg else f"{x} == {y}") + ";", f"l_({z} ? 1 : 0);")
        else:
            a, b = self.base(False, t.e.name), self.base(False, t.e.name)
            if a and b:
                ra, sa, _ = self.range(a[2])
                rb, sb, _ = self.range(b[2]) if r.random() < .3 or ra["f"] != "to" or min(a[2], b[2]) < 1 else self.range(b[2], min(b[2], max(1, _)))
                x, y = f"{a[1]}[{sa}]", f"{b[1]}[{sb}]"
                self.step({"k": "eqs", "b": a[0], "r": ra, "b2": b[0], "r2": rb}, f"bool {z} = " + (f"!({x} != {y})" if neg else f"{x} == {y}") + ";", f"l_({z} ? 1 : 0);")

    def build(self):
        r = self.r
        for _ in range(r.choice([1, 2, 2, 3])):
            self.declare()
        for _ in range(r.randint(1, 6)):
            r.choice([self.assign] * 4 + [self.vecop] * 2 + [self.slice] * 2 + [self.fill] * 2 + [self.each, self.compare])()
        for v in self.vars:
            self.step({"k": "show", "d": v["i"]}, "", self.show(v))

    def witness(self):
        """The known finding: a range of a constant array changes the constant."""
        self.decls, self.globals, self.funcs, self.lines, self.steps, self.vars, self.slices = [], [], [], [], [], [], []
        t = Ty("arr", "int[4]", n=4, e=Ty("leaf", "int"))
        self.globals = ["const int[4] WITNESS = { 11, 12, 13, 14 };"]
        self.vars = [{"i": 1, "t": t, "name": "WITNESS", "const": True, "live": True, "form": "const"}]
        self.slices = [{"i": 1}]
        show = "foreach (c : WITNESS) l_(c);"
        self.step({"k": "put", "d": 1, "p": [], "e": {"k": "pos", "es": [{"k": "v", "v": v} for v in (11, 12, 13, 14)]}}, "", show)
        self.step({"k": "slice", "d": 1, "b": {"s": 0, "x": 1, "p": []}, "r": {"f": "to", "a": 1, "b": 2, "ae": False, "be": False}},
                  "int[] s1 = WITNESS[1..2];", "l_(s1.len); foreach (y : s1) l_(y);")
        self.step({"k": "show", "d": 1}, "", show)
        self.once = True
        return self

    def source(self):
        return self.decls + self.globals + self.funcs + [f"fn void p{self.n}() @noinline", "{", "dirty();"] + self.lines + ["}"]

    def case(self):
        reps = 1 if self.once else 2
        return {"vt": [v["t"].case() for v in self.vars], "slices": max(1, len(self.slices)), "p": self.steps * reps}
