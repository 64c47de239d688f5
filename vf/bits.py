"""Programs on variables of one bitstruct type, for spec/C3Bits.tla."""
import re

HEAD = """module t;
extern fn int printf(char* f, ...);
fn int128 v_(int128 x) @noinline => x;
fn usz i_(usz x) @noinline => x;
fn void say(int128 v) @noinline { char* p = (char*)&v; printf("V "); for (int i = 0; i < 16; i++) printf("%02x", (int)p[i]); printf("\\n"); }
fn void bytes(char* p, usz n, bool good) @noinline { printf(good ? "V " : "X "); for (usz i = 0; i < n; i++) printf("%02x", (int)p[i]); printf("\\n"); }
typedef Sint = int;
typedef Uch = inline char;
enum En { A0, A1, A2, A3, A4, A5, A6, A7 }
enum Eu : ushort { B0, B1, B2, B3 }
"""
INTS = {"char": (8, 0), "ichar": (8, 1), "ushort": (16, 0), "short": (16, 1), "uint": (32, 0), "int": (32, 1), "ulong": (64, 0), "long": (64, 1),
        "uint128": (128, 0), "int128": (128, 1)}
NAMES = {"Sint": "int", "Uch": "char"}


class Member:
    def __init__(self, r, name, lo, w, swap, only_bool):
        self.name, self.lo, self.w, self.swap = name, lo, w, swap
        fit = [t for t, (b, _) in INTS.items() if b >= w]
        pick = ["bool"] * (w == 1) * 3 + [r.choice(fit[:4])] * 3 + [r.choice(fit)]
        if 8 < w <= 32 or w in (1, 5):
            pick.append("Sint")
        if w <= 8:
            pick.append("Uch")
        if w == 3:
            pick += ["En"] * 3
        if w == 2:
            pick += ["Eu"] * 3
        self.t = "bool" if only_bool else r.choice(pick)
        self.kind = "bool" if self.t == "bool" else "enum" if self.t in ("En", "Eu") else "int"
        self.signed = self.kind == "int" and INTS[NAMES.get(self.t, self.t)][1] == 1
        self.tw = w if self.kind != "int" else INTS[NAMES.get(self.t, self.t)][0]

    def decl(self, r, plain):
        if plain:
            return f"{self.t} {self.name};"
        if self.t == "bool" and r.random() < .6:
            return f"bool {self.name} : {self.lo};"
        return f"{self.t} {self.name} : {self.lo}..{self.lo + self.w - 1};"

    def case(self):
        return {"lo": self.lo, "w": self.w, "s": self.signed, "swap": self.swap and self.kind != "bool"}

    def value(self, r, fits=True):
        """A number, the digits of it, and source text for a constant and for a run-time value."""
        w, s = self.w, self.signed
        lo, hi = (-(1 << w - 1), (1 << w - 1) - 1) if s else (0, (1 << w) - 1)
        n = r.choice([lo, hi, 0, 1 if hi >= 1 else hi, r.randint(lo, hi), r.randint(lo, hi), hi - 1 if hi - 1 >= lo else hi])
        if not fits and self.kind == "int":
            tlo, thi = (-(1 << self.tw - 1), (1 << self.tw - 1) - 1) if s else (0, (1 << self.tw) - 1)
            n = r.choice([tlo, thi, r.randint(tlo, thi), r.randint(tlo, thi), n])
        return n, digits(n), self.const(n), self.run(n)

    def const(self, n):
        if self.kind == "bool":
            return "true" if n else "false"
        if self.kind == "enum":
            return f"{self.t}.{'A' if self.t == 'En' else 'B'}{n}"
        b = INTS[NAMES.get(self.t, self.t)][0]
        if b == 128:
            lit = f"{n}i128" if -2 ** 127 < n < 2 ** 127 else f"({self.t})0x{n & (1 << 128) - 1:x}u128"
            return f"({self.t})({lit})"
        if n == -2 ** 63:
            return "(long)(-0x7fffffffffffffffi64 - 1)"
        lit = f"{n}" if -2 ** 31 < n < 2 ** 31 else f"{n}{'i' if n < 2 ** 63 else 'u'}64"
        return lit if self.t not in NAMES and -2 ** 31 < n < 2 ** 31 and n >= 0 else f"({self.t})({lit})"

    def run(self, n):
        v = f"v_({n}i128)" if -2 ** 127 < n < 2 ** 127 else f"v_((int128)0x{n & (1 << 128) - 1:x}u128)"
        if self.kind == "bool":
            return f"({v} != 0)"
        if self.kind == "enum":
            return f"{self.t}.from_ordinal((char){v})"
        return f"({self.t}){v}"

    def show(self, path):
        if self.kind == "bool":
            return f"say((int128)({path} ? 1 : 0));"
        if self.kind == "enum":
            return f"say((int128){path}.ordinal);"
        if self.t in NAMES:
            return f"say((int128)({NAMES[self.t]}){path});"
        return f"say((int128){path});"


def digits(n):
    return list((n & (1 << 128) - 1).to_bytes(16, "little"))


class Prog:
    def __init__(self, r, n):
        self.n, self.r = n, r
        self.array = r.random() < .45
        self.be = r.random() < .35
        if self.array:
            self.len = r.choice([1, 2, 3, 3, 4, 5, 7, 8, 9, 16, 17, 20])
            e = r.choice(["char"] * 5 + ["ichar", "ushort", "int", "uint", "ulong", "long", "uint128"])
            n = INTS[e][0] // 8
            self.len = max(n, (self.len + n - 1) // n * n)
            self.bits, self.back = 8 * self.len, f"{e}[{self.len // n}]"
        else:
            self.back = r.choice(["char", "ushort", "uint", "uint", "ulong", "uint128", "ichar", "short", "int", "long", "int128"])
            self.bits = INTS[self.back][0]
            self.len = self.bits // 8
        self.rev = self.be and not self.array
        self.plain = r.random() < .07
        self.over = not self.plain and r.random() < .12
        self.members = self.layout()
        # a signed member of an enum or a bool is read as a number without sign
        self.form = r.choice(["plain", "plain", "global", "field", "anon", "union", "array", "ptr", "static"])
        if self.be and self.bits == 8 and not self.array:
            self.be = self.rev = False
        self.whole = self.form not in ("anon", "union")
        self.steps, self.lines, self.globals, self.calls = [], [], [], []
        self.build()

    def layout(self):
        r, ms, at = self.r, [], 0
        if self.plain:
            return [Member(r, f"m{i}", i, 1, False, True) for i in range(r.randint(1, min(self.bits, 9)))]
        swap = self.be and self.array
        dense = r.random() < .5
        wide = r.random() < .4
        while at < self.bits and len(ms) < 9:
            if not dense and r.random() < .4:
                at += r.randint(1, 9)
            room = min(self.bits - at, 128)
            if room <= 0:
                break
            w = min(room, r.choice([1, 1, 2, 3, 4, 5, 7, 8, 9, 11, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128][:24 if wide else 12]))
            if swap and w > 8:
                w -= w % 8
            ms.append(Member(r, f"m{len(ms)}", at, w, swap, False))
            at += w
        if not ms:
            ms = [Member(r, "m0", 0, 1, swap, True)]
        if self.over:
            for _ in range(r.randint(1, 2)):
                w = min(r.choice([1, 3, 8, 16, 32]), self.bits)
                ms.append(Member(r, f"m{len(ms)}", r.randint(0, self.bits - w), w, swap, False))
        r.shuffle(ms)
        for i, m in enumerate(ms):
            m.name = f"m{i}"
        return ms

    # ------------------------------------------------------------ text
    def types(self):
        attrs = (" @bigendian" if self.be else "") + (" @overlap" if self.over else "")
        body = "{ " + " ".join(m.decl(self.r, self.plain) for m in self.members) + " }"
        t = f"Bt{self.n}"
        out = [f"bitstruct {t} : {self.back}{attrs} {body}"]
        if self.form == "field":
            out.append(f"struct Hs{self.n} {{ char pad; {t} b; char post; }}")
        if self.form == "anon":
            out.append(f"struct Hs{self.n} {{ {self.back} pad; bitstruct : {self.back}{attrs} {body} char post; }}")
        if self.form == "union":
            out.append(f"union Hs{self.n} {{ bitstruct : {self.back}{attrs} {body} char[{self.len}] raw; }}")
        return out

    def var(self, v):
        """(the holder, path of the bitstruct, prefix of its members, address of its bytes, whether the rest is unharmed)"""
        f = self.form
        x = f"x{self.n}_{v}" if f in ("global",) else f"x{v}"
        if f == "field":
            return x, x + ".b", x + ".b.", f"(char*)&{x}.b", f"{x}.pad == 7 && {x}.post == 9"
        if f == "anon":
            return x, x, x + ".", f"(char*)&{x} + {self.len}", f"{x}.post == 9"
        if f == "union":
            return x, x, x + ".", f"(char*)&{x}", "true"
        if f == "array":
            return "arr", f"arr[i_({v})]", f"arr[i_({v})].", f"(char*)&arr[{v}]", "true"
        if f == "ptr":
            return x, f"(*p{v})", f"p{v}.", f"(char*)p{v}", "true"
        return x, x, x + ".", f"(char*)&{x}", "true"

    def literal(self, const, only=None):
        """(values in the order written, list for the specification, text)"""
        r = self.r
        ms = list(enumerate(self.members))
        pos = r.random() < .4 and not self.over and self.form not in ("anon", "union") and only is None
        if not pos:
            used, pick = set(), []
            r.shuffle(ms)
            for i, m in ms[:r.randint(0, len(ms))]:
                span = set(range(m.lo, m.lo + m.w))
                if span & used:
                    continue
                used |= span
                pick.append((i, m))
        else:
            pick = ms
        vals, text = [], []
        for i, m in pick:
            c = const or r.random() < .3
            n, d, ct, rt = m.value(r, fits=c or r.random() < .5)
            vals.append({"m": i + 1, "v": d})
            text.append(("" if pos else f".{m.name} = ") + (ct if c else rt))
        return vals, "{ " + ", ".join(text) + " }"

    def add(self, step, line):
        self.steps.append(step)
        self.lines.append(line)

    def build(self):
        r, t = self.r, f"Bt{self.n}"
        nv = 3
        self.nv = nv
        L = []
        for v in range(nv):
            h, b, pre, addr, good = self.var(v)
            if self.form == "field":
                L.append(f"Hs{self.n} {h} = {{ .pad = 7, .post = 9 }};")
            elif self.form == "anon":
                L.append(f"Hs{self.n} {h} = {{ .post = 9 }};")
            elif self.form == "union":
                L.append(f"Hs{self.n} {h} = {{}};")
            elif self.form == "array":
                if v == 0:
                    L.append(f"{t}[{nv}] arr = {{}};")
            elif self.form == "ptr":
                L.append(f"{t} {h} = {{}}; {t}* p{v} = &{h};")
            elif self.form in ("global", "static"):
                vals, text = self.literal(True)
                if self.form == "global":
                    self.globals.append(f"{t} {h} = {text};")
                else:
                    L.append(f"static {t} {h} = {text};")
                self.add({"k": "lit", "d": v + 1, "vals": vals}, f"bytes({addr}, {self.len}, {good});")
            else:
                L.append(f"{t} {h};")
        self.pre = L
        for _ in range(r.randint(6, 11)):
            self.one()

    def one(self):
        r, t = self.r, f"Bt{self.n}"
        d = r.randrange(self.nv)
        h, b, pre, addr, good = self.var(d)
        dump = f" bytes({addr}, {self.len}, {good});"
        i = r.randrange(len(self.members))
        m = self.members[i]
        k = r.choice(["lit", "put", "put", "put", "op", "op", "inc", "get", "get", "get", "join", "not", "copy", "eq", "from", "to", "constget", "constjoin", "constnot"])
        if k == "lit":
            const = r.random() < .4
            vals, text = self.literal(const)
            if self.form == "anon":
                text = "{ .post = 9" + (", " if vals else " ") + text[2:]
                line = f"{h} = {text};"
            elif self.form == "field":
                line = r.choice([f"{h}.b = {text};", f"{h} = {{ .pad = 7, .b = {text}, .post = 9 }};", f"{h} = {{ 7, {text}, 9 }};",
                                 f"{h} = {{ .post = 9, .pad = 7{''.join(', .b' + x.strip() for x in self.split(text))} }};" if text.startswith("{ .") or not vals else f"{h}.b = {text};"])
            elif self.form == "ptr":
                line = f"*p{d} = {text};"
            elif self.form == "array":
                line = r.choice([f"{b} = {text};", f"arr[{d}] = ({t}){text};"])
            elif self.form == "union":
                line = f"{h} = {text};"
            else:
                line = r.choice([f"{h} = {text};", f"{h} = ({t}){text};", f"{{ {t} y = {text}; {h} = y; }}"])
            # an empty literal of a union is zero, a literal with members as well
            self.add({"k": "lit", "d": d + 1, "vals": vals}, line + dump)
        elif k == "put":
            c = r.random() < .3
            n, dg, ct, rt = m.value(r, fits=c or r.random() < .4)
            self.add({"k": "put", "d": d + 1, "m": i + 1, "op": "=", "v": dg, "n": 0}, f"{pre}{m.name} = {ct if c else rt};" + dump)
        elif k == "op":
            if m.kind == "enum":
                return
            if m.kind == "bool":
                op = r.choice("&|^")
                n = r.randint(0, 1)
                self.add({"k": "put", "d": d + 1, "m": i + 1, "op": op, "v": digits(n), "n": 0}, f"{pre}{m.name} {op}= {m.run(n)};" + dump)
                return
            op = r.choice(["+", "-", "&", "|", "^", "<<", ">>"])
            if op in ("<<", ">>"):
                n = r.randint(0, m.tw - 1)
                self.add({"k": "put", "d": d + 1, "m": i + 1, "op": op, "v": digits(0), "n": n}, f"{pre}{m.name} {op}= (char)v_({n});" + dump)
                return
            n, dg, ct, rt = m.value(r, fits=False)
            self.add({"k": "put", "d": d + 1, "m": i + 1, "op": op, "v": dg, "n": 0}, f"{pre}{m.name} {op}= {rt};" + dump)
        elif k == "inc":
            if m.kind != "int":
                return
            op = r.choice("+-")
            p = pre + m.name
            self.add({"k": "put", "d": d + 1, "m": i + 1, "op": op, "v": digits(1), "n": 0}, r.choice([f"{p}{op}{op};", f"{op}{op}{p};"]) + dump)
        elif k == "get":
            self.add({"k": "get", "d": d + 1, "m": i + 1}, m.show(pre + m.name))
        elif k == "constget":
            if self.form in ("anon", "union"):
                return
            vals, text = self.literal(True)
            self.add({"k": "lit", "d": d + 1, "vals": vals}, f"{{ const {t} C = {text}; {b} = C;" + dump)
            self.add({"k": "get", "d": d + 1, "m": i + 1}, m.show("C." + m.name) + " }")
        elif not self.whole:
            if k == "copy":
                a = r.randrange(self.nv)
                self.add({"k": "copy", "d": d + 1, "a": a + 1}, f"{h} = {self.var(a)[0]};" + dump)
        elif k in ("constjoin", "constnot"):
            first = len(self.lines)
            a = r.randrange(self.nv)
            v1, t1 = self.literal(True)
            v2, t2 = self.literal(True)
            at, a2 = self.var(0), self.var(1)
            consts = f"const {t} C = {t1}; const {t} D = {t2};"
            if self.form == "field" and r.random() < .7:
                consts = f"const Hs{self.n} G = {{ 3, {t1}, 4 }}; const Hs{self.n} H = {{ .b = {t2} }}; "
            self.add({"k": "lit", "d": 1, "vals": v1}, f"{{ {consts} {at[1]} = C; bytes({at[3]}, {self.len}, {at[4]});")
            self.add({"k": "lit", "d": 2, "vals": v2}, f"{a2[1]} = D; bytes({a2[3]}, {self.len}, {a2[4]});")
            if k == "constjoin":
                op = r.choice("&|^")
                x, y = r.choice([(1, 2), (2, 1), (1, 1)])
                self.add({"k": "join", "d": d + 1, "op": op, "a": x, "b": y}, f"{b} = {' CD'[x]} {op} {' CD'[y]};" + dump)
                if d != 0:
                    self.add({"k": "get", "d": 1, "m": i + 1}, m.show("C." + m.name))
                if d != 1:
                    self.add({"k": "get", "d": 2, "m": i + 1}, m.show("D." + m.name))
                self.lines[-1] += " }"
            else:
                self.add({"k": "not", "d": d + 1, "a": 1}, f"{b} = ~C;" + dump)
                if d != 0:
                    self.add({"k": "get", "d": 1, "m": i + 1}, m.show("C." + m.name))
                self.lines[-1] += " }"
            if "const Hs" in self.lines[first]:
                for j in range(first, len(self.lines)):
                    self.lines[j] = re.sub(r"\bC\b", "G.b", re.sub(r"\bD\b", "H.b", self.lines[j]))
        elif k == "join":
            op = r.choice("&|^")
            x, y = r.randrange(self.nv), r.randrange(self.nv)
            if r.random() < .3:
                self.add({"k": "join", "d": d + 1, "op": op, "a": d + 1, "b": y + 1}, f"{b} {op}= {self.var(y)[1]};" + dump)
            else:
                self.add({"k": "join", "d": d + 1, "op": op, "a": x + 1, "b": y + 1}, f"{b} = {self.var(x)[1]} {op} {self.var(y)[1]};" + dump)
        elif k == "not":
            x = r.randrange(self.nv)
            self.add({"k": "not", "d": d + 1, "a": x + 1}, f"{b} = ~{self.var(x)[1]};" + dump)
        elif k == "copy":
            x = r.randrange(self.nv)
            self.add({"k": "copy", "d": d + 1, "a": x + 1}, f"{b} = {self.var(x)[1]};" + dump)
        elif k == "eq":
            x, y = r.randrange(self.nv), r.randrange(self.nv)
            ne = r.random() < .4
            e = f"{self.var(x)[1]} {'!=' if ne else '=='} {self.var(y)[1]}"
            self.add({"k": "eq", "a": x + 1, "b": y + 1}, f"bytes({{ {('!' if ne else '') + '(' + e + ')'} ? 1 : 0 }}[..], 1, true);" if False else f"{{ char q = {('!' if ne else '') + '(' + e + ')'} ? 1 : 0; bytes(&q, 1, true); }}")
        elif k == "from":
            if self.array:
                bs = [r.randrange(256) for _ in range(self.len)]
                self.add({"k": "from", "d": d + 1, "v": bs}, f"{{ {self.back} q; {' '.join(f'((char*)&q)[{j}] = (char)v_({x});' for j, x in enumerate(bs))} {b} = ({t})q; }}" + dump)
            else:
                n = r.getrandbits(self.bits)
                s = n - (1 << self.bits) if INTS[self.back][1] and n >> self.bits - 1 else n
                v = f"v_({s}i128)" if -2 ** 127 < s < 2 ** 127 else f"v_((int128)0x{n:x}u128)"
                self.add({"k": "from", "d": d + 1, "v": list(n.to_bytes(self.len, "little"))}, f"{b} = ({t})({self.back}){v};" + dump)
        elif k == "to":
            self.add({"k": "bytes", "d": d + 1}, f"{{ {self.back} q = ({self.back}){b}; bytes((char*)&q, {self.len}, {good}); }}")

    def split(self, text):
        inner = text[1:-1].strip()
        out, depth, cur = [], 0, ""
        for ch in inner:
            depth += ch in "([{"
            depth -= ch in ")]}"
            if ch == "," and depth == 0:
                out.append(cur)
                cur = ""
            else:
                cur += ch
        return out + [cur] if cur.strip() else out

    def source(self):
        self.r = __import__("random").Random(self.n)
        return self.types() + self.globals + [f"fn void f{self.n}()", "{"] + self.pre + self.lines + ["}"]

    def case(self):
        return {"n": self.bits, "rev": self.rev, "m": [m.case() for m in self.members], "vars": self.nv, "p": self.steps}
