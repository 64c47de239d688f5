"""Programs of checked operations for spec/C3Safe.tla: generation and rendering. Operands are parameters of
exported functions, so that the compiler knows nothing about them."""
from .ints import BITS, SIGNED, TYPES, common, interesting, promote, to_bytes, wrap

INDEX = [t for t in TYPES if BITS[t] <= 64]

HEAD = """module safe;
import libc;
extern fn int fork_() @extern("fork");
extern fn int waitpid_(int pid, int* st, int opts) @extern("waitpid");
extern fn void exit_(int) @extern("_exit");
extern fn isz write_(int fd, void* p, usz n) @extern("write");
extern fn int snprintf_(char* p, usz n, char* f, ...) @extern("snprintf");
fn void say(char* tag, long v) @noinline { char[64] b; int n = snprintf_(&b, 64, "%s %lld\\n", tag, v); write_(1, &b, n); }
fn void bytes(void* p, usz n) @noinline { for (usz i = 0; i < n; i++) say("E", ((char*)p)[i]); }
fn long ev(long v) @noinline { say("E", v); return v; }
fn void handler(String message, String file, String function, uint line)
{
	say("X", line); write_(1, message.ptr, message.len); write_(1, (void*)"\\n", 1);
	exit_(3);
}
faultdef BAD;
fn int? opt(int x) @noinline { if (x < 0) return BAD?; return x; }
fn void? vopt(int x) @noinline { if (x < 0) return BAD?; }
struct St { long x; int[4] a; int* p; }
enum En : char { EA, EB, EC }
enum Big : ushort { %BIG% }
enum Mid : char { %MID% }
enum Sml : ichar { SA, SB, SC, SD, SE }
interface Ifc { fn int m(int x); }
struct Imp (Ifc) { int a; }
fn int Imp.m(&self, int x) @dynamic => self.a + x;
struct Nimp { int a; }
alias Fnp = fn int(int);
fn int inc(int x) @noinline => x + 1;
<* @param [&in] p *>
fn int rp(int* p) @noinline => p ? *p : 0;
fn int rx(int& p) => p ? *p : 0;
""".replace("fn int rx(int& p) => p ? *p : 0;\n", "").replace("%BIG%", ", ".join(f"B{i}" for i in range(300))).replace("%MID%", ", ".join(f"M{i}" for i in range(200)))

ENUMS = {"En": 3, "Big": 300, "Mid": 200, "Sml": 5}
KINDS = [("Negative array indexing", "index"), ("Array index out of", "index"), ("Index exceeds array", "slice"), ("Negative indexing", "slice"),
         ("End index", "slice"), ("Negative size", "slice"), ("Slice copy length", "copy"), ("Shift amount", "shift"), ("Division by zero", "div"), ("% by zero", "mod"),
         ("Dereference of null", "null"), ("Calling null function", "call"), ("No method", "method"), ("Reference parameter", "ref"), ("@require", "require"),
         ("@ensure", "ensure"), ("Unexpected fault", "unwrap"), ("Assert", "assert"), ("Unreachable", "unreachable"), ("to enum", "enum"), ("to convert", "enum"), ("overflow", "wrap")]


def kind(msg):
    for k, v in KINDS:
        if k in msg:
            return v
    return "?" + msg


class Prog:
    def __init__(self, rng, n, length, trap=False):
        self.rng, self.n, self.trap = rng, n, trap
        self.params, self.steps, self.lines, self.decls, self.extra = [], [], [], [], []
        self.views = []         # (source, len, writable kind)
        self.arrays = []
        for i in range(rng.choice([1, 2, 2])):
            self.array()
        k = ["get"] * 4 + ["set"] * 3 + ["slice"] * 4 + ["copy", "copy", "fill", "get2", "shift", "shift", "div", "div", "deref", "deref", "unwrap", "assert", "unreachable",
                                                         "contract", "contract", "enum", "enum", "fnp", "iface", "ref", "vecop", "sum"]
        if trap:
            k = ["arith"] * 6 + ["get", "slice"]
        while len(self.steps) < length:
            getattr(self, "s_" + rng.choice(k))()

    # ---------------------------------------------------------------- pieces
    def array(self):
        r, i = self.rng, len(self.arrays)
        n = r.choice([1, 2, 3, 4, 4, 5, 7])
        base = 10 * (i + 1)
        vals = [base + j for j in range(n)]
        lit = ", ".join(map(str, vals))
        form = r.choice(["array", "array", "field", "vector", "row", "pointer", "slice", "big"])
        if form == "field":
            n, vals = 4, [base + j for j in range(4)]
            self.decls.append(f"St st{i}; st{i}.a = {{ {', '.join(map(str, vals))} }};")
            src = f"st{i}.a"
        elif form == "vector":
            n = r.choice([2, 4, 8, 3])
            vals = [base + j for j in range(n)]
            self.decls.append(f"int[<{n}>] v{i} = {{ {', '.join(map(str, vals))} }};")
            src = f"v{i}"
        elif form == "row":
            self.decls.append(f"int[{n}][3] m{i}; m{i}[1] = {{ {lit} }};")
            src = f"m{i}[1]"
        elif form == "pointer":
            self.decls.append(f"int[{n}] a{i} = {{ {lit} }}; int[{n}]* q{i} = &a{i};")
            src = f"(*q{i})"
        elif form == "slice":
            self.decls.append(f"int[{n}] a{i} = {{ {lit} }}; int[] s{i} = &a{i};")
            src = f"s{i}"
        elif form == "big":
            n = r.choice([127, 128, 130, 200, 255, 256, 257, 300])
            vals = [(j * 7) % 100 for j in range(n)]
            self.decls.append(f"int[{n}] a{i}; foreach (j, &z : a{i}) *z = (int)((j * 7) % 100);")
            src = f"a{i}"
        else:
            self.decls.append(f"int[{n}] a{i} = {{ {lit} }};")
            src = f"a{i}"
        self.arrays.append(vals)
        self.views.append((src, n, form, len(self.arrays)))

    def param(self, t, v):
        v = wrap(t, v)
        self.params.append((t, v))
        return f"p{len(self.params) - 1}", {"t": t, "v": to_bytes(t, v)}

    def near(self, n, t=None):
        """An operand around the limits of 0..n."""
        r = self.rng
        t = t or r.choice(INDEX)
        x = r.random()
        if x < 0.6:
            v = r.choice([0, n - 1, n // 2, r.randrange(n + 1), max(n - 2, 0), 0 if n < 2 else 1])
        elif x < 0.8:
            v = r.choice([n, n + 1, -1, -n])
        else:
            v = r.choice([interesting(r, t), n + 256, n - 256, n + (1 << 16), -(1 << 31), 1 << 31, (1 << 32) + n - 1, (1 << 63) + n - 1])
        return t, wrap(t, v)

    def idx(self, n, t=None):
        back = self.rng.random() < 0.25
        s, o = self.param(*self.near(n, t))
        return ("^" if back else "") + s, o, back

    def add(self, line, **step):
        self.lines.append(line)
        self.steps.append(step)

    def view(self, slices=True):
        i = self.rng.randrange(len(self.views))
        return i + 1, self.views[i]

    # ---------------------------------------------------------------- steps
    def s_get(self):
        i, (src, n, form, a) = self.view()
        s, o, b = self.idx(n)
        how = self.rng.choice(["v", "v", "p"]) if form != "vector" else "v"
        self.add(f"ev({src}[{s}]);" if how == "v" else f"ev(*(&{src}[{s}]));", k="get", a=i, i=o, back=b)

    def s_get2(self):
        i, (src, n, form, a) = self.view()
        j, (src2, n2, form2, a2) = self.view()
        s, o, b = self.idx(n2)
        d = self.rng.choice([10, 20, 0])
        self.add(f"ev({src}[{src2}[{s}] - {d}]);", k="get2", a=i, b=j, i=o, back=b, d=d)

    def s_set(self):
        i, (src, n, form, a) = self.view()
        s, o, b = self.idx(n)
        v = self.rng.randrange(100)
        op = self.rng.choice(["=", "=", "+=", "-=", "++", "=ev"])
        rhs = {"=": f"= {v}", "+=": f"+= {v}", "-=": f"-= {v}", "++": "++", "=ev": f"= (int)ev({v})"}[op]
        n_ = min(n, 8)
        self.add(f"{src}[{s}] {rhs};".replace(" ++", "++") + "".join(f" ev({src}[{j}]);" for j in range(n_ if form != "view" else 0)), k="set", a=i, i=o, back=b, op=op, v=v, dump=n_ if form != "view" else 0)

    def s_slice(self):
        i, (src, n, form, a) = self.view()
        if form == "vector" and self.rng.random() < 0.5:
            return
        r = self.rng
        f = r.choice(["range", "range", "len", "len", "from", "to", "tolen", "all"])
        t = r.choice(INDEX)
        t2 = t if r.random() < 0.5 else r.choice(INDEX)
        step = dict(k="slice", a=i, f=f)
        z = {"t": "int", "v": [0, 0, 0, 0]}
        s, so, sb = self.idx(n, t) if f in ("range", "len", "from") else ("", z, False)
        e, eo, eb = ("", z, False)
        if f in ("range", "to"):
            e, eo, eb = self.idx(n, t2)
        elif f in ("len", "tolen"):
            e, eo = self.param(*self.near(n, t2))
        src2 = {"range": f"{s}..{e}", "len": f"{s}:{e}", "from": f"{s}..", "to": f"..{e}", "tolen": f":{e}", "all": ".."}[f]
        w = f"w{len(self.views)}"
        self.views.append((w, max(1, n // 2) if f != "all" else n, "view", a))
        self.add(f"int[] {w} = {src}[{src2}]; ev({w}.len); foreach (z : {w}) ev(z);", s=so, e=eo, sb=sb, eb=eb, **step)

    def s_copy(self):
        i, (src, n, form, a) = self.view()
        j, (src2, n2, form2, a2) = self.view()
        if "vector" in (form, form2):
            return
        m = self.rng.randrange(0, min(n, n2) + 1)
        t, v = self.near(m, "int")
        s, so = self.param("int", v)
        s2, so2 = self.param("int", m if self.rng.random() < 0.5 else v)
        self.add(f"{src}[:{s}] = {src2}[:{s2}];", k="copy", a=i, b=j, x=so, y=so2)

    def s_fill(self):
        i, (src, n, form, a) = self.view()
        s, o = self.param(*self.near(n))
        v = self.rng.randrange(100)
        self.add(f"{src}[:{s}] = (int)ev({v});", k="fill", a=i, x=o, v=v)

    def s_shift(self):
        r = self.rng
        t, t2 = r.choice(TYPES), r.choice(TYPES)
        asg = r.random() < 0.4
        bits = BITS[t] if asg else BITS[promote(t)]
        x, xo = self.param(t, interesting(r, t))
        v = r.choice([0, 1, bits - 1, bits // 2, bits, bits + 1, -1, 256, 257, 255, bits + 256, 7, 8, interesting(r, t2)])
        y, yo = self.param(t2, v)
        op = r.choice(["<<", ">>"])
        if asg:
            self.add(f"{{ {t} z = {x}; z {op}= {y}; bytes(&z, {BITS[t] // 8}); }}", k="shift", asg=True, op=op, x=xo, y=yo)
        else:
            self.add(f"{{ {promote(t)} z = {x} {op} {y}; bytes(&z, {BITS[promote(t)] // 8}); }}", k="shift", asg=False, op=op, x=xo, y=yo)

    def s_div(self):
        r = self.rng
        t = r.choice(TYPES)
        asg = r.random() < 0.4
        t2 = t if asg else r.choice(TYPES)
        v, w = interesting(r, t), r.choice([0, 0, 1, 2, 3, 7, 100])
        if r.random() < 0.3 and t2 in SIGNED:
            w = -w
        rt = t if asg else promote(common(t, t2))
        if wrap(rt, v) == -(1 << (BITS[rt] - 1)) and wrap(rt, w) == -1:
            w = 2
        x, xo = self.param(t, v)
        y, yo = self.param(t2, w)
        op = r.choice("/%")
        if asg:
            self.add(f"{{ {t} z = {x}; z {op}= {y}; bytes(&z, {BITS[t] // 8}); }}", k="div", asg=True, op=op, x=xo, y=yo)
        else:
            self.add(f"{{ {rt} z = {x} {op} {y}; bytes(&z, {BITS[rt] // 8}); }}", k="div", asg=False, op=op, x=xo, y=yo)

    def s_arith(self):
        r = self.rng
        op = r.choice(["+", "-", "*", "neg", "+=", "-=", "*="])
        t = r.choice(TYPES)
        t2 = t if len(op) == 2 else r.choice(TYPES)
        rt = t if len(op) == 2 else promote(t) if op == "neg" else promote(common(t, t2))
        x, xo = self.param(t, interesting(r, t))
        y, yo = self.param(t2, r.choice([0, 1, 2, 3, interesting(r, t2), interesting(r, t2)]))
        e = f"{rt} z = -{x};" if op == "neg" else f"{t} z = {x}; z {op} {y};" if len(op) == 2 else f"{rt} z = {x} {op} {y};"
        self.add(f"{{ {e} bytes(&z, {BITS[rt] // 8}); }}", k="arith", op=op[0] if op != "neg" else "neg", asg=len(op) == 2, x=xo, y=yo)

    def s_vecop(self):
        r = self.rng
        op = r.choice(["/", "%", "<<", ">>"])
        t = r.choice([t for t in TYPES if 16 <= BITS[t] <= 64])
        n = r.choice([2, 4])
        bits = BITS[t]
        xs = [wrap(t, interesting(r, t)) for _ in range(n)]
        ys = [r.choice([1, 2, 3]) if op in "/%" else r.randrange(bits) for _ in range(n)]
        if r.random() < 0.5:
            ys[r.randrange(n)] = 0 if op in "/%" else r.choice([bits, bits - 1, wrap(t, -1), bits + 3])
        px = [self.param(t, v) for v in xs]
        py = [self.param(t, v) for v in ys]
        self.add(f"{{ {t}[<{n}>] x = {{ {', '.join(p[0] for p in px)} }}; {t}[<{n}>] y = {{ {', '.join(p[0] for p in py)} }}; x = x {op} y; bytes(&x, {n * bits // 8}); }}",
                 k="vecop", op=op, xs=[p[1] for p in px], ys=[p[1] for p in py])

    def s_deref(self):
        r = self.rng
        i, (src, n, form, a) = self.view()
        if form in ("vector", "view"):
            return
        nul = r.random() < 0.3
        s, o = self.param("bool", 0 if nul else 1)
        d = len(self.steps)
        v = r.randrange(100)
        how = r.choice(["get", "set", "add", "pp"])
        get = f"int* d{d} = {s} ? &{src}[0] : null;"
        act = {"get": f"ev(*d{d});", "set": f"*d{d} = {v}; ev({src}[0]);", "add": f"*d{d} += {v}; ev({src}[0]);", "pp": f"int** e{d} = {s} ? &d{d} : null; ev(**e{d});"}[how]
        self.add(get + " " + act, k="deref", a=i, null=nul, how=how, v=v)

    def s_unwrap(self):
        s, o = self.param("int", self.rng.choice([-1, -5, 0, 3, 7]))
        w = self.rng.choice(["opt", "else"])
        v = self.params[-1][1]
        if w == "opt":
            self.add(f"ev(1); ev(opt({s})!!);", k="test", pre=[1], fail=v < 0, kind="unwrap", post=[v])
        else:
            self.add(f"ev(opt({s}) ?? 9); vopt({s})!!; ev(2);", k="test", pre=[9 if v < 0 else v], fail=v < 0, kind="unwrap", post=[2])

    def s_assert(self):
        r = self.rng
        t, t2 = r.choice(TYPES), r.choice(TYPES)
        x, xo = self.param(t, interesting(r, t))
        y, yo = self.param(t2, interesting(r, t2) if r.random() < 0.7 else self.params[-1][1])
        op = r.choice(["<", "<=", ">", ">=", "==", "!="])
        self.add(f'assert({x} {op} {y}, "Assert"); ev(3);', k="cmp", x=xo, y=yo, op=op, kind="assert", pre=[], ok=[3])

    def s_unreachable(self):
        s, o = self.param("int", self.rng.choice([0, 1, 2]))
        v = self.params[-1][1]
        form = self.rng.choice(["if", "switch"])
        if form == "if":
            self.add(f'if ({s} == 1) unreachable("Unreachable"); ev(4);', k="test", pre=[], fail=v == 1, kind="unreachable", post=[4])
        else:
            self.add(f'switch ({s}) {{ case 0: ev(5); case 1: unreachable("Unreachable"); default: ev(6); }}', k="test", pre=[], fail=v == 1, kind="unreachable", post=[5 if v == 0 else 6])

    def s_contract(self):
        r = self.rng
        m = len(self.steps)
        t, t2 = r.choice(TYPES), r.choice(TYPES)
        x, xo = self.param(t, interesting(r, t))
        y, yo = self.param(t2, interesting(r, t2) if r.random() < 0.6 else self.params[-1][1])
        op = r.choice(["<", "<=", ">", ">=", "==", "!="])
        form = r.choice(["fn", "fn", "ensure", "method", "two", "macro"])
        f = f"c{self.n}_{m}"
        k = dict(k="cmp", x=xo, y=yo, op=op)
        if form == "fn":
            self.extra.append(f"<*\n @require x {op} y\n*>\nfn int {f}({t} x, {t2} y) @noinline {{ ev(7); return 8; }}\n")
            self.add(f"ev({f}({x}, {y}));", kind="require", ok=[7, 8], **k)
        elif form == "two":
            self.extra.append(f"<*\n @require x == x : \"never\"\n @require x {op} y : \"Assert\"\n*>\nfn int {f}({t} x, {t2} y) @noinline {{ ev(7); return 8; }}\n")
            self.add(f"ev({f}({x}, {y}));", kind="require", ok=[7, 8], **k)
        elif form == "ensure":
            self.extra.append(f"<*\n @ensure return {op} y\n*>\nfn {t} {f}({t} x, {t2} y) @noinline {{ ev(7); if (y == 0) return x; return x; }}\n")
            self.add(f"{f}({x}, {y}); ev(8);", kind="ensure", pre=[7], ok=[8], **k)
        elif form == "method":
            self.extra.append(f"<*\n @require x {op} y\n*>\nfn int St.{f}(&self, {t} x, {t2} y) @noinline {{ ev(7); return 8; }}\n")
            self.add(f"{{ St q; ev(q.{f}({x}, {y})); }}", kind="require", ok=[7, 8], **k)
        else:
            self.extra.append(f"<*\n @require x {op} y\n*>\nmacro int {f}(x, y) {{ ev(7); return 8; }}\n")
            self.add(f"ev({f}({x}, {y}));", kind="require", ok=[7, 8], **k)
        self.steps[-1].setdefault("pre", [])

    def s_enum(self):
        r = self.rng
        e = r.choice(list(ENUMS))
        n = ENUMS[e]
        t, v = self.near(n)
        s, o = self.param(t, v)
        m = len(self.steps)
        self.add(f"{e} e{m}x = {e}.from_ordinal({s}); ev((long)e{m}x.ordinal);", k="enum", x=o, n=n)

    def s_fnp(self):
        nul = self.rng.random() < 0.3
        s, o = self.param("bool", 0 if nul else 1)
        m = len(self.steps)
        self.add(f"Fnp f{m}x = {s} ? &inc : null; ev(f{m}x((int)ev(20)));", k="test", pre=[20] if not nul else [], maybe=[20], fail=nul, kind="call", post=[21])

    def s_iface(self):
        v = self.rng.choice([1, 1, 1, 2])
        s, o = self.param("int", v)
        m = len(self.steps)
        self.add(f"{{ Imp a = {{ 5 }}; Nimp b = {{ 6 }}; any z = &a; if ({s} == 2) z = &b; Ifc i = (Ifc)z; ev(i.m(3)); }}", k="test", pre=[], fail=v == 2, kind="method", post=[8])

    def s_ref(self):
        nul = self.rng.random() < 0.3
        s, o = self.param("bool", 0 if nul else 1)
        m = len(self.steps)
        self.add(f"{{ int x = 30; int* y = {s} ? &x : null; ev(rp(y)); }}", k="test", pre=[], fail=nul, kind="ref", post=[30])

    def s_sum(self):
        i, (src, n, form, a) = self.view()
        if form == "view":
            return
        s, o = self.param(*self.near(n, self.rng.choice([t for t in INDEX if BITS[t] >= 32])))
        if abs(self.params[-1][1]) > 400:
            self.params[-1] = (self.params[-1][0], 2)
            o["v"] = to_bytes(self.params[-1][0], 2)
        m = len(self.steps)
        self.add(f"for (long j = 0; j < (long){s}; j++) ev({src}[j]);", k="loop", a=i, x=o)

    # ---------------------------------------------------------------- source
    def source(self):
        """The lines of the program; the first step is on line first + 2."""
        ps = ", ".join(f"{t} p{i}" for i, (t, v) in enumerate(self.params))
        return [f"fn void t{self.n}({ps}) @export(\"t{self.n}\") @noinline", "{ " + " ".join(self.decls)] + ["\t" + l for l in self.lines] + ["}"]

    def call(self):
        def lit(t, v):
            if t == "bool":
                return "true" if v else "false"
            return f"({t})0x{v & ((1 << BITS[t]) - 1):x}u{BITS[t]}"
        return f"t{self.n}({', '.join(lit(t, v) for t, v in self.params)});"

    def case(self):
        v = [{"b": a, "o": 0, "n": n, "arr": f != "slice"} for _, n, f, a in self.views if f != "view"]
        return {"mem": self.arrays, "views": v, "p": self.steps, "trap": self.trap}
