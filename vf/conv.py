"""Statements with implicit conversions for spec/C3Conv.tla and the type matrix for spec/C3Types.tla."""
from .ints import BITS, SIGNED, TYPES, arith, common, promote, to_bytes, wrap, interesting

FLOATS = ["float", "double"]
SIZE = {**{t: b // 8 for t, b in BITS.items()}, "float": 4, "double": 8, "float16": 2}


def meet(a, b):
    fa, fb = a in SIZE and a.startswith(("float", "double")), b.startswith(("float", "double"))
    if fa and fb:
        return a if SIZE[a] >= SIZE[b] else b
    return a if fa else b if fb else a if a == b else common(a, b)


def is_float(t):
    return t in FLOATS


class Stmt:
    """One statement `T x = E` (or x op= E) with the tree E; small=True when floats may occur (tiny values)."""

    def __init__(self, rng, n):
        self.rng, self.n = rng, n
        self.params = []
        self.small = rng.random() < 0.3
        pool = TYPES + FLOATS * 2 if self.small else TYPES
        # a few types per statement, so that operands of one type are frequent
        self.pool = [rng.choice(pool) for _ in range(rng.choice([1, 2, 2, 3]))]
        self.e = self.tree(rng.choice([0, 0, 1, 1, 2, 3]))
        self.t = self.rng.choice(self.pool + pool) if rng.random() < 0.9 else "bool"
        self.op, self.x = "=", []
        self.ctx = rng.choice(["init", "init", "assign", "arg", "ret", "field", "elem", "member", "op"])
        if self.ctx == "op":
            if self.t == "bool":
                self.ctx = "init"
            else:
                self.op = rng.choice("+-*")
                self.x = rng.randrange(5) if is_float(self.t) else to_bytes(self.t, interesting(rng, self.t))

    def ty(self, e):
        k = e["k"]
        if k in ("var", "lit", "cast"):
            return e["t"]
        if k == "bin":
            t = meet(self.ty(e["l"]), self.ty(e["r"]))
            return t if is_float(t) else promote(t)
        if k in ("sh", "un"):
            t = self.ty(e["l"])
            return t if is_float(t) else promote(t)
        if k == "sel":
            return meet(self.ty(e["l"]), self.ty(e["r"]))
        return "bool"

    def value(self, t):
        if is_float(t):
            return self.rng.randrange(6)
        if self.small:
            return to_bytes(t, self.rng.choice([0, 1, 2, 3, 5, 7]))
        return to_bytes(t, interesting(self.rng, t))

    def leaf(self):
        t = self.rng.choice(self.pool)
        if self.rng.random() < 0.3:
            if self.rng.random() < 0.6:      # constants near the limits of narrower types
                c = self.rng.choice(TYPES)
                if c in SIGNED and not self.small and BITS[c] <= BITS[t] and t in SIGNED:
                    v = self.rng.choice([(1 << (BITS[c] - 1)) - 1, 1 << (BITS[c] - 1), -(1 << (BITS[c] - 1)), -(1 << (BITS[c] - 1)) - 1, -1, 0])
                elif not self.small and BITS[c] <= (BITS[t] if t in BITS else 0):
                    v = self.rng.choice([(1 << BITS[c]) - 1, 1 << BITS[c], 127, 128])
                else:
                    v = 3
                if not is_float(t):
                    return {"k": "lit", "t": t, "v": to_bytes(t, v)}
            return {"k": "lit", "t": t, "v": self.value(t)}
        e = {"k": "var", "t": t, "v": self.value(t), "n": len(self.params)}
        self.params.append(e)
        return e

    def tree(self, d):
        r = self.rng
        if d == 0:
            return self.leaf()
        k = r.choice(["bin"] * 5 + ["sh", "un", "sel", "sel", "cast", "cast", "cmp"])
        l = self.tree(d - 1)
        tl = self.ty(l)
        if tl == "bool":
            return l if k == "cmp" else {"k": "cast", "t": r.choice(TYPES), "l": l}
        if k in ("bin", "sel", "cmp"):
            rr = self.tree(r.choice([0, d - 1]))
            if self.ty(rr) == "bool":
                rr = self.leaf()
            t = meet(tl, self.ty(rr))
        if k == "bin":
            minus = "-" if not self.small or is_float(t) or promote(t) in SIGNED else "+"
            op = r.choice("+*" + minus) if is_float(t) else r.choice(["+", minus, "*", "&", "|", "^", "/", "%"])
            if op in "/%":
                tr = r.choice(self.pool)
                if is_float(tr):
                    op = "+"
                else:
                    rr = {"k": "lit", "t": tr, "v": to_bytes(tr, r.choice([2, 3, 10, 100]))}
                    if is_float(meet(tl, tr)):
                        op = "+"
            if self.small and op == "*" and d > 2:
                op = "+"
            return {"k": "bin", "op": op, "l": l, "r": rr}
        if k == "sh":
            if is_float(tl):
                return l
            return {"k": "sh", "op": r.choice(["<<", ">>"]), "l": l, "r": {"k": "lit", "t": "int", "v": to_bytes("int", r.choice([0, 1, 3] if self.small else [0, 1, 7, 8, 20]))}}
        if k == "un":
            if self.small and not is_float(tl) and promote(tl) not in SIGNED:
                return l      # large values are not used with floats
            return {"k": "un", "op": "-" if is_float(tl) else r.choice("-~"), "l": l}
        if k == "sel":
            c = {"k": "var", "t": "bool", "v": [r.randrange(2)], "n": len(self.params)}
            self.params.append(c)
            return {"k": "sel", "c": c, "l": l, "r": rr}
        if k == "cast":
            t = r.choice(self.pool + TYPES)
            if self.small and t not in SIGNED and not is_float(t) and (is_float(tl) or tl in SIGNED):
                t = "int"
            if is_float(tl) and not (t in SIGNED and BITS[t] >= 16) and not is_float(t):
                t = "int"
            return {"k": "cast", "t": t, "l": l}
        # comparisons only between two variables (constants may make them always true, an error)
        vs = []
        for _ in range(2):
            t = r.choice(TYPES)
            v = {"k": "var", "t": t, "v": self.value(t), "n": len(self.params)}
            self.params.append(v)
            vs.append(v)
        return {"k": "cmp", "op": r.choice(["<", "<=", "==", "!=", ">", ">="]), "l": vs[0], "r": vs[1]}

    # ------------------------------------------------------------ source
    def lit(self, t, v, cast=True):
        if is_float(t):
            return f"({t}){v}.0"
        n = BITS[t]
        x = int.from_bytes(bytes(v), "little")
        if t in SIGNED and x >> (n - 1):
            x -= 1 << n
        if x < 0:
            return f"({t})0x{x & ((1 << n) - 1):x}u{n}"
        if t == "int" and self.rng.random() < 0.5:
            return str(x)
        return f"({t}){x}" if x < 1 << 31 else f"({t})0x{x:x}u{n}"

    def expr(self, e):
        k = e["k"]
        if k == "var":
            return f"p{e['n']}"
        if k == "lit":
            return self.lit(e["t"], e["v"])
        if k == "cast":
            return f"({e['t']})({self.expr(e['l'])})"
        if k in ("bin", "sh", "cmp"):
            return f"({self.expr(e['l'])} {e['op']} {self.expr(e['r'])})"
        if k == "un":
            return f"({e['op']}({self.expr(e['l'])}))"
        return f"({self.expr(e['c'])} ? {self.expr(e['l'])} : {self.expr(e['r'])})"

    def render(self):
        """One line: a function that evaluates the statement and returns the converted value."""
        n, t = self.n, self.t
        ps = ", ".join(f"{p['t']} p{i}" for i, p in enumerate(self.params))
        e = self.expr(self.e)
        if e.startswith("(") and self.e["k"] in ("bin", "sh", "sel", "cmp") and self.rng.random() < 0.7:
            e = e[1:-1]
        body = {"init": f"{t} x = {e}; return x;", "assign": f"{t} x; x = {e}; return x;", "arg": f"return id_{t}({e});",
                "ret": f"return {e};", "field": f"S_{t} s = {{ {e} }}; return s.v;", "elem": f"{t}[2] a = {{ {e}, 0 }}; return a[0];",
                "member": f"S_{t} s; s.v = {e}; return s.v;", "op": f"{t} x = {self.lit(t, self.x) if self.op != '=' else ''}; x {self.op}= {e}; return x;"}
        if t == "bool" and self.ctx == "elem":
            self.ctx = "init"
        return f"fn {t} f{n}({ps}) @noinline {{ {body[self.ctx]} }}"

    def call(self):
        n = self.n
        args = ", ".join(("true" if p["v"][0] else "false") if p["t"] == "bool" else self.lit(p["t"], p["v"]) for p in self.params)
        if is_float(self.t):
            return f'{{ printf_("R {n} %lld\\n", (long)f{n}({args})); }}'
        return f'{{ {self.t} r = f{n}({args}); put({n}, &r, {SIZE[self.t]}); }}'


HEAD = """module conv;
extern fn int printf_(char* f, ...) @extern("printf");
fn void put(int n, void* p, usz len) @noinline
{
	printf_("R %d ", n);
	char* c = p;
	for (usz i = 0; i < len; i++) printf_("%02x", (int)c[i]);
	printf_("\\n");
}
""" + "".join(f"struct S_{t} {{ {t} v; }} fn {t} id_{t}({t} x) @noinline => x;\n" for t in TYPES + FLOATS + ["bool"])


# ---------------------------------------------------------------- the matrix of types
def num(t):
    return {"k": "num", "t": t}


def universe():
    """[(source name, descriptor)] and the declarations they need."""
    void = {"k": "void"}
    ptr = lambda t: {"k": "ptr", "of": t}
    sl = lambda t: {"k": "slice", "of": t}
    arr = lambda t, n: {"k": "arr", "of": t, "n": n}
    vec = lambda t, n: {"k": "vec", "of": t, "n": n}
    I, L, C, IC, U, F = num("int"), num("long"), num("char"), num("ichar"), num("uint"), num("float")
    D, DI = {"k": "dist", "name": "D", "of": I, "inl": False}, {"k": "dist", "name": "DI", "of": I, "inl": True}
    DII = {"k": "dist", "name": "DII", "of": DI, "inl": True}
    DP = {"k": "dist", "name": "DP", "of": ptr(I), "inl": False}
    DPI = {"k": "dist", "name": "DPI", "of": ptr(I), "inl": True}
    st = lambda n, inl, impl=[], al=4: {"k": "struct", "name": n, "inl": inl, "impl": impl, "al": al}
    S = st("S", void)
    SI = st("SI", S)
    SII = st("SII", SI)
    SD = st("SD", I)
    SX = st("SX", void, ["Ifc"])
    SP = st("SP", ptr(I), [], 8)
    E = {"k": "enum", "name": "E", "of": void, "inl": False, "al": 4}
    EI = {"k": "enum", "name": "EI", "of": I, "inl": True, "al": 4}
    UN = {"k": "union", "name": "UN", "al": 4}
    BS = {"k": "bits", "name": "BS", "al": 4}
    ts = [(t, num(t)) for t in TYPES + FLOATS] + [("bool", {"k": "bool"})]
    ts += [("int*", ptr(I)), ("uint*", ptr(U)), ("char*", ptr(C)), ("void*", ptr(void)), ("int**", ptr(ptr(I))), ("void**", ptr(ptr(void))),
           ("Str*", ptr(S)), ("StrI*", ptr(SI)), ("StrII*", ptr(SII)), ("Dist*", ptr(D)), ("DistI*", ptr(DI)), ("StrX*", ptr(SX)), ("int[4]*", ptr(arr(I, 4))),
           ("uint[4]*", ptr(arr(U, 4))), ("int[3]*", ptr(arr(I, 3))), ("int[<4>]*", ptr(vec(I, 4))), ("char[4]*", ptr(arr(C, 4))), ("float*", ptr(F)), ("int*[4]*", ptr(arr(ptr(I), 4))),
           ("int[]", sl(I)), ("uint[]", sl(U)), ("long[]", sl(L)), ("char[]", sl(C)), ("ichar[]", sl(IC)), ("int*[]", sl(ptr(I))), ("void*[]", sl(ptr(void))), ("Str[]", sl(S)), ("Dist[]", sl(D)),
           ("int[4]", arr(I, 4)), ("uint[4]", arr(U, 4)), ("int[3]", arr(I, 3)), ("long[4]", arr(L, 4)), ("int[<4>]", vec(I, 4)), ("long[<4>]", vec(L, 4)), ("float[<4>]", vec(F, 4)), ("bool[<4>]", vec({"k": "bool"}, 4)), ("uint[<4>]", vec(U, 4)), ("int[<3>]", vec(I, 3)), ("float[4]", arr(F, 4)), ("double[<4>]", vec(num("double"), 4)),
           ("Dist", D), ("DistI", DI), ("DistII", DII), ("DistP", DP), ("DistPI", DPI), ("Str", S), ("StrI", SI), ("StrII", SII), ("StrD", SD), ("StrX", SX), ("StrP", SP), ("Enu", E), ("EnuI", EI), ("Uni", UN), ("Bst", BS),
           ("any", {"k": "any"}), ("Ifc", {"k": "iface", "name": "Ifc"}), ("Ifd", {"k": "iface", "name": "Ifd"}), ("typeid", {"k": "typeid"}), ("fault", {"k": "fault"}),
           ("Fna", {"k": "fn", "name": "Fna"}), ("Fnb", {"k": "fn", "name": "Fnb"})]
    decls = """module types;
typedef Dist = int; typedef DistI = inline int; typedef DistII = inline DistI; typedef DistP = int*; typedef DistPI = inline int*;
struct Str { int a; int b; } struct StrI { inline Str s; int c; } struct StrII { inline StrI s; int d; } struct StrD { inline int v; int w; }
struct StrP { inline int* p; int x; }
interface Ifc { fn void m(); } interface Ifd { fn void m2(); } struct StrX (Ifc) { int a; } fn void StrX.m(&self) @dynamic {}
enum Enu { A, B } enum EnuI : inline int { C, D } union Uni { int a; uint b; } bitstruct Bst : uint { int a : 0..3; }
alias Fna = fn void(int); alias Fnb = fn int();
"""
    return ts, decls
