"""Integer programs for spec/C3Int.tla: generation, rendering as C3 source. The value simulation here only
steers the generator away from programs the language rejects or that trap; TLC decides what is right."""

BITS = {"ichar": 8, "char": 8, "short": 16, "ushort": 16, "int": 32, "uint": 32, "long": 64, "ulong": 64,
        "int128": 128, "uint128": 128, "bool": 8}
SIGNED = {"ichar", "short", "int", "long", "int128"}
TYPES = [t for t in BITS if t != "bool"]


def of_bits(n, s):
    return {8: ("char", "ichar"), 16: ("ushort", "short"), 32: ("uint", "int"), 64: ("ulong", "long"),
            128: ("uint128", "int128")}[n][s]


def promote(t):
    return of_bits(32, t in SIGNED) if BITS[t] < 32 else t


def common(a, b):
    return of_bits(max(BITS[a], BITS[b]), a in SIGNED or b in SIGNED)


def wrap(t, v):
    v &= (1 << BITS[t]) - 1
    if t in SIGNED and v >> (BITS[t] - 1):
        v -= 1 << BITS[t]
    return v


def fits(t, v):
    return wrap(t, v) == v


def to_bytes(t, v):
    return list((v & ((1 << BITS[t]) - 1)).to_bytes(BITS[t] // 8, "little"))


ARITH = ["+", "-", "*", "/", "%", "&", "|", "^"]
CMP = ["<", "<=", ">", ">=", "==", "!="]
SHIFT = ["<<", ">>"]
FN1 = ["popcount", "clz", "ctz", "bswap", "bitreverse", "abs"]
FN2 = ["sat_add", "sat_sub", "rotl", "rotr", "max", "min"]


def interesting(rng, t):
    n = BITS[t]
    lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if t in SIGNED else (0, (1 << n) - 1)
    k = rng.random()
    if k < 0.25:
        return rng.choice([lo, lo + 1, hi, hi - 1, 0, 1, 2, 3, max(lo, -1), max(lo, -2), 7, 10])
    if k < 0.5:
        p = rng.choice([4, 7, 8, 15, 16, 24, 31, 32, 33, 47, 48, 63, 64, 65, 95, 96, 126, 127])
        v = (1 << p) + rng.choice([-1, 0, 1])
        return wrap(t, v if rng.random() < 0.7 else -v)
    if k < 0.7:
        v = rng.getrandbits(rng.randrange(1, n + 1))
        return wrap(t, v if rng.random() < 0.6 else -v)
    if k < 0.85:        # runs of ones and zeros
        v = 0
        while v.bit_length() < n:
            v = (v << rng.randrange(1, 20)) | (((1 << rng.randrange(1, 17)) - 1))
        return wrap(t, v)
    return wrap(t, rng.getrandbits(n))


def trunc_div(a, b):
    q = abs(a) // abs(b)
    return -q if (a < 0) != (b < 0) else q


def arith(op, t, a, b):
    if op in "/%":
        if b == 0 or (t in SIGNED and b == -1 and a == -(1 << (BITS[t] - 1))):
            return None
        q = trunc_div(a, b)
        return q if op == "/" else a - q * b
    return wrap(t, {"+": a + b, "-": a - b, "*": a * b, "&": a & b, "|": a | b, "^": a ^ b}[op])


class Program:
    """ins: list of instructions (dicts as the specification reads them, registers 1-based);
    konst: whether it may be folded entirely (no rejected constant expressions)."""

    def __init__(self, rng, mode, length):
        self.rng, self.mode = rng, mode
        self.ins, self.ty, self.val, self.const, self.exact = [], [], [], [], []
        nlit = rng.randrange(2, 5)
        favourite = rng.choice(TYPES)
        for _ in range(nlit):
            t = favourite if rng.random() < 0.4 else rng.choice(TYPES)
            v = interesting(rng, t)
            self.add({"k": "lit", "t": t, "v": to_bytes(t, v)}, t, v, mode == "K" or (mode == "M" and rng.random() < 0.5))
        tries = 0
        while len(self.ins) < length and tries < 200:
            tries += 1
            self.step()

    def add(self, ins, t, v, const):
        self.ins.append(ins)
        self.ty.append(t)
        self.val.append(v)
        self.const.append(const)

    def pick(self, ok=lambda t: t != "bool"):
        c = [i for i in range(len(self.ins)) if ok(self.ty[i])]
        if not c:
            return None
        # recent registers are more likely, so that results feed further instructions
        return self.rng.choice(c[-4:] if self.rng.random() < 0.6 else c)

    def step(self):
        r = self.rng
        k = r.choice(["bin"] * 8 + ["cmp"] * 3 + ["shift"] * 3 + ["un"] * 2 + ["cast"] * 3 + ["set"] * 3 + ["inc"] * 2
                     + ["sel"] + ["fn1", "fn2"])
        a, b = self.pick(), self.pick()
        ta, tb, va, vb = self.ty[a], self.ty[b], self.val[a], self.val[b]
        ka, kb = self.const[a], self.const[b]
        both = ka and kb
        if k == "bin":
            op = r.choice(ARITH)
            t = promote(common(ta, tb))
            if (ka and not fits(t, va)) or (kb and not fits(t, vb)):
                return
            v = arith(op, t, wrap(t, va), wrap(t, vb))
            if v is not None:
                self.add({"k": "bin", "op": op, "a": a + 1, "b": b + 1}, t, v, both)
        elif k == "cmp":
            op = r.choice(CMP)
            if r.random() < 0.5:            # with a value next to it, of any type
                tb = r.choice(TYPES)
                vb = wrap(tb, va + r.choice([-1, 0, 0, 1]))
                b, kb = len(self.ins), self.mode == "K" or (self.mode == "M" and r.random() < 0.5)
                self.add({"k": "lit", "t": tb, "v": to_bytes(tb, vb)}, tb, vb, kb)
                if r.random() < 0.5:
                    a, b, ta, tb, va, vb, ka, kb = b, a, tb, ta, vb, va, kb, ka
                both = ka and kb
            # rejected by the compiler: an unsigned value and a negative constant, or always-true comparisons
            for x, kx, vx, ty in ((a, ka, va, tb), (b, kb, vb, ta)):
                if kx and ((vx < 0 and ty not in SIGNED) or (vx == 0 and ty not in SIGNED) or not fits(promote(common(ta, tb)), vx)):
                    return
            v = {"<": va < vb, "<=": va <= vb, ">": va > vb, ">=": va >= vb, "==": va == vb, "!=": va != vb}[op]
            self.add({"k": "bin", "op": op, "a": a + 1, "b": b + 1}, "bool", int(v), both)
        elif k == "shift":
            if r.random() < 0.3:            # a wide value with many bits set
                ta = r.choice(["int", "long", "int128", "int128", "uint128", "ulong"])
                va = wrap(ta, r.getrandbits(BITS[ta]))
                a, ka = len(self.ins), self.mode == "K" or (self.mode == "M" and r.random() < 0.5)
                self.add({"k": "lit", "t": ta, "v": to_bytes(ta, va)}, ta, va, ka)
            t = promote(ta)
            if not 0 <= vb < BITS[t] or r.random() < 0.6:
                vb = r.randrange(BITS[t]) if r.random() < 0.6 else r.choice([0, 1, 7, 8, 9, 15, 16, 31, BITS[t] - 1, BITS[t] // 2, r.randrange(BITS[t])])
                if vb >= BITS[t]:
                    return
                tb = r.choice(TYPES)
                b, kb = len(self.ins), self.mode == "K" or (self.mode == "M" and r.random() < 0.5)
                self.add({"k": "lit", "t": tb, "v": to_bytes(tb, vb)}, tb, vb, kb)
            op = r.choice(SHIFT)
            v = wrap(t, va << vb if op == "<<" else va >> vb)
            self.add({"k": "bin", "op": op, "a": a + 1, "b": b + 1}, t, v, ka and kb)
        elif k == "un":
            op = r.choice(["-", "~", "-", "~", "!"])
            t = promote(ta)
            v = wrap(t, {"-": -va, "~": ~va, "!": 0}[op])
            if op == "!":
                t, v = "bool", int(va == 0)
            self.add({"k": "un", "op": op, "a": a + 1}, t, v, ka)
        elif k == "cast":
            a = self.pick(lambda t: True)
            t = r.choice(TYPES + ["bool"])
            v = int(self.val[a] != 0) if t == "bool" else wrap(t, self.val[a])
            self.add({"k": "cast", "t": t, "a": a + 1}, t, v, self.const[a])
        elif k == "set":
            if self.mode == "K":
                return
            op = r.choice(ARITH + SHIFT)
            if op in SHIFT:
                if not 0 <= vb < BITS[ta] or r.random() < 0.5:
                    tb, vb = r.choice(TYPES), r.randrange(BITS[ta])
                    if not fits(tb, vb):
                        return
                    b, kb = len(self.ins), self.mode == "M" and r.random() < 0.5
                    self.add({"k": "lit", "t": tb, "v": to_bytes(tb, vb)}, tb, vb, kb)
                v = wrap(ta, va << vb if op == "<<" else va >> vb)
            else:
                v = arith(op, ta, va, wrap(ta, vb))
            if v is not None:
                self.add({"k": "set", "op": op, "a": a + 1, "b": b + 1}, ta, v, False)
        elif k == "inc":
            op = r.choice(["++", "--"])
            self.add({"k": "inc", "op": op, "a": a + 1}, ta, wrap(ta, va + (1 if op == "++" else -1)), self.mode == "K")
        elif k == "sel":
            c = self.pick(lambda t: t == "bool")
            t = common(ta, tb)
            if c is None or (ka and not fits(t, va)) or (kb and not fits(t, vb)):
                return
            v = wrap(t, va if self.val[c] else vb)
            self.add({"k": "sel", "c": c + 1, "a": a + 1, "b": b + 1}, t, v, both and self.const[c])
        elif k == "fn1":
            op = r.choice(FN1)
            if self.mode == "K" or (op == "abs" and ta not in SIGNED):
                return
            self.add({"k": "fn1", "op": op, "a": a + 1}, ta, self.fn1(op, ta, va), False)
        else:
            op = r.choice(FN2)
            if self.mode == "K" or ta != tb:
                return
            self.add({"k": "fn2", "op": op, "a": a + 1, "b": b + 1}, ta, self.fn2(op, ta, va, vb), False)

    def fn1(self, op, t, v):
        n = BITS[t]
        u = v & ((1 << n) - 1)
        s = format(u, "0%db" % n)
        if op == "popcount":
            return wrap(t, s.count("1"))
        if op == "clz":
            return wrap(t, n - u.bit_length())
        if op == "ctz":
            return wrap(t, n if u == 0 else len(s) - len(s.rstrip("0")))
        if op == "bswap":
            return wrap(t, int.from_bytes(u.to_bytes(n // 8, "little"), "big"))
        if op == "bitreverse":
            return wrap(t, int(s[::-1], 2))
        return wrap(t, abs(v))

    def fn2(self, op, t, a, b):
        n = BITS[t]
        lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if t in SIGNED else (0, (1 << n) - 1)
        if op == "sat_add":
            return min(hi, max(lo, a + b))
        if op == "sat_sub":
            return min(hi, max(lo, a - b))
        if op in ("rotl", "rotr"):
            k = (b & ((1 << n) - 1)) % n
            u = a & ((1 << n) - 1)
            if op == "rotr":
                k = (n - k) % n
            return wrap(t, (u << k) | (u >> (n - k)))
        return max(a, b) if op == "max" else min(a, b)

    # ---------------------------------------------------------------- source
    def literal(self, t, v):
        """A literal of the value with a type given by its suffix or by a cast."""
        r = self.rng
        n = BITS[t]
        if v < 0:
            if v == -(1 << (n - 1)) or r.random() < 0.4:
                u = v & ((1 << n) - 1)
                return f"({t}){self.digits(u)}u{n}"
            return f"({t})(-{self.digits(-v)}i{n})"
        if r.random() < 0.3 and n >= 32:
            return f"({t}){v}" if v < (1 << 127) else f"({t}){self.digits(v)}u{n}"
        return f"({t}){self.digits(v)}{'i' if t in SIGNED else 'u'}{n}"

    def digits(self, v):
        k = self.rng.randrange(5)
        s = [str(v), hex(v), bin(v), "0o%o" % v, "0x%X" % v][k]
        if self.rng.random() < 0.2 and len(s) > 6:
            i = self.rng.randrange(4, len(s) - 1)
            if s[i - 1] != "_":
                s = s[:i] + "_" + s[i:]
        return s

    def source(self, name):
        out = [f"fn void {name}() @noinline\n{{"]
        ref = lambda i: ("R%d" if self.const[i - 1] else "r%d") % i
        for n, i in enumerate(self.ins, 1):
            k, t, v, con = i["k"], self.ty[n - 1], self.val[n - 1], self.const[n - 1]
            if k == "lit":
                e = self.literal(t, v)
            elif k == "bin":
                e = f"{ref(i['a'])} {i['op']} {ref(i['b'])}"
            elif k == "un":
                e = f"{i['op']}{ref(i['a'])}"
            elif k == "cast":
                e = f"({i['t']}){ref(i['a'])}"
            elif k == "sel":
                e = f"{ref(i['c'])} ? {ref(i['a'])} : {ref(i['b'])}"
            elif k == "fn1":
                e = {"abs": "$$abs(%s)", "bswap": "$$bswap(%s)", "bitreverse": "$$bitreverse(%s)"}.get(i["op"], "$$" + i["op"] + "(%s)") % ref(i["a"])
            elif k == "fn2":
                x, y = ref(i["a"]), ref(i["b"])
                e = {"rotl": f"$$fshl({x}, {x}, {y})", "rotr": f"$$fshr({x}, {x}, {y})"}.get(i["op"], f"$${i['op']}({x}, {y})")
            if k == "inc":
                a = ref(i["a"])
                if con:
                    st = self.rng.choice([f"\t{t} $v{n} = {a}; $v{n}{i['op']}; const R{n} = $v{n};", f"\tvar $v{n} = {a}; {i['op']}$v{n}; const R{n} = $v{n};"])
                else:
                    st = f"\t$typeof({a}) r{n} = {a}; " + self.rng.choice([f"r{n}{i['op']};", f"{i['op']}r{n};"])
            elif k == "set":
                a, b = ref(i["a"]), ref(i["b"])
                # in a conversion of a constant that does not change it no cast is needed, otherwise it is written
                rhs = b if i["op"] in SHIFT else f"($typeof(r{n})){b}"
                st = f"\t$typeof({a}) r{n} = {a}; r{n} {i['op']}= {rhs};"
            elif con:
                st = f"\tconst R{n} = {e};"
            elif k == "lit":
                st = f"\t{t} v{n} = {e}; {t} r{n} = $$volatile_load(&v{n});"
            else:
                st = f"\t$typeof({e}) r{n} = {e};"
            if con:
                st += f" {{ $typeof(R{n}) x = R{n}; put($typeof(R{n}).nameof, &x, $sizeof(x)); }}"
            else:
                st += f" put($typeof(r{n}).nameof, &r{n}, $sizeof(r{n}));"
            out.append(st)
        out.append("}")
        return "\n".join(out)

    def case(self, log):
        return {"p": self.ins, "log": [{"t": t, "v": list(bytes.fromhex(h))} for t, h in log]}


HEAD = """module ints;
extern fn int printf_(char* f, ...) @extern("printf");
fn void put(String name, void* p, usz n) @noinline
{
	printf_(" %.*s:", (int)name.len, name.ptr);
	char* c = p;
	for (usz i = 0; i < n; i++) printf_("%02x", (int)c[i]);
}
"""


def source(progs):
    out = [HEAD]
    for i, p in progs:
        out.append(p.source(f"p{i}"))
    out.append("fn void main()\n{")
    for i, p in progs:
        out.append(f"\tprintf_(\"P {i}\"); p{i}(); printf_(\"\\n\");")
    out.append("}\n")
    return "\n".join(out)


def parse(line):
    f = line.split()
    return int(f[1]), [tuple(x.split(":")) for x in f[2:]]
