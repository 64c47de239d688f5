------------------------------- MODULE C3Num -------------------------------
(* Integers of C3: types, the digits (base 256, least significant first, two's complement) of their values,   *)
(* and the operations of the language on them, for every width from 8 to 128 bits.                            *)
EXTENDS Integers, Sequences, TLC, Json, Bitwise

\* ------------------------------------------------------------------ types
Bits == [ichar |-> 8, char |-> 8, short |-> 16, ushort |-> 16, int |-> 32, uint |-> 32, long |-> 64, ulong |-> 64,
         int128 |-> 128, uint128 |-> 128, bool |-> 8]
SignedT == {"ichar", "short", "int", "long", "int128"}
Signed(t) == t \in SignedT
OfBits(n, s) == IF s THEN CASE n = 8 -> "ichar" [] n = 16 -> "short" [] n = 32 -> "int" [] n = 64 -> "long" [] OTHER -> "int128"
                ELSE CASE n = 8 -> "char" [] n = 16 -> "ushort" [] n = 32 -> "uint" [] n = 64 -> "ulong" [] OTHER -> "uint128"
Promote(t) == IF Bits[t] < 32 THEN OfBits(32, Signed(t)) ELSE t
\* the type two integers meet in: the larger size, signed if either is
Common(a, b) == OfBits(IF Bits[a] >= Bits[b] THEN Bits[a] ELSE Bits[b], Signed(a) \/ Signed(b))

\* ------------------------------------------------------------------ digits
Width(t) == Bits[t] \div 8
Top(x) == x[Len(x)] >= 128
Zero(n) == [i \in 1..n |-> 0]
Ones(n) == [i \in 1..n |-> 255]
One(n) == [i \in 1..n |-> IF i = 1 THEN 1 ELSE 0]
IsZero(x) == \A i \in 1..Len(x) : x[i] = 0
Resize(x, n, s) == [i \in 1..n |-> IF i <= Len(x) THEN x[i] ELSE IF s /\ Top(x) THEN 255 ELSE 0]

RECURSIVE AddFrom(_, _, _, _)
AddFrom(x, y, i, c) == IF i > Len(x) THEN <<>> ELSE LET v == x[i] + y[i] + c IN <<v % 256>> \o AddFrom(x, y, i + 1, v \div 256)
Flip(x) == [i \in 1..Len(x) |-> 255 - x[i]]
Plus(x, y) == AddFrom(x, y, 1, 0)
Minus(x, y) == AddFrom(x, Flip(y), 1, 1)
Negate(x) == AddFrom(Flip(x), Zero(Len(x)), 1, 1)

RECURSIVE Column(_, _, _, _)
Column(x, y, k, i) == IF i > k THEN 0 ELSE x[i] * y[k + 1 - i] + Column(x, y, k, i + 1)
RECURSIVE MulFrom(_, _, _, _)
MulFrom(x, y, k, c) == IF k > Len(x) THEN <<>>
                       ELSE LET v == Column(x, y, k, 1) + c IN <<v % 256>> \o MulFrom(x, y, k + 1, v \div 256)
Times(x, y) == MulFrom(x, y, 1, 0)

\* comparison of digits from the most significant one; x and y of the same length
RECURSIVE LessFrom(_, _, _)
LessFrom(x, y, i) == IF i = 0 THEN FALSE ELSE IF x[i] # y[i] THEN x[i] < y[i] ELSE LessFrom(x, y, i - 1)
LessU(x, y) == LessFrom(x, y, Len(x))

\* long division: one quotient digit at a time, found by bisection
RECURSIVE Scale(_, _, _, _)
Scale(y, d, i, c) == IF i > Len(y) THEN <<>> ELSE LET v == y[i] * d + c IN <<v % 256>> \o Scale(y, d, i + 1, v \div 256)
RECURSIVE Digit(_, _, _, _)
Digit(r, y, lo, hi) == IF lo = hi THEN lo
                       ELSE LET m == (lo + hi + 1) \div 2
                            IN IF LessU(r, Scale(y, m, 1, 0)) THEN Digit(r, y, lo, m - 1) ELSE Digit(r, y, m, hi)
RECURSIVE DivFrom(_, _, _, _, _)
DivFrom(x, y, i, q, r) ==       \* y has one digit more than x
    IF i = 0 THEN [q |-> q, r |-> SubSeq(r, 1, Len(x))]
    ELSE LET r1 == <<x[i]>> \o SubSeq(r, 1, Len(x))
             d == Digit(r1, y, 0, 255)
         IN DivFrom(x, y, i - 1, <<d>> \o q, Minus(r1, Scale(y, d, 1, 0)))
DivModU(x, y) == DivFrom(x, Append(y, 0), Len(x), <<>>, Zero(Len(x) + 1))
Abs(x) == IF Top(x) THEN Negate(x) ELSE x
\* signed division truncates toward zero, the remainder takes the sign of the dividend
DivMod(x, y, s) ==
    IF ~s THEN DivModU(x, y)
    ELSE LET d == DivModU(Abs(x), Abs(y))
         IN [q |-> IF Top(x) # Top(y) THEN Negate(d.q) ELSE d.q, r |-> IF Top(x) THEN Negate(d.r) ELSE d.r]

Pow2(k) == CASE k = 0 -> 1 [] k = 1 -> 2 [] k = 2 -> 4 [] k = 3 -> 8 [] k = 4 -> 16 [] k = 5 -> 32 [] k = 6 -> 64 [] OTHER -> 128
At(x, i, fill) == IF i < 1 THEN 0 ELSE IF i > Len(x) THEN fill ELSE x[i]
ShiftLeft(x, k) == LET b == k \div 8   m == Pow2(k % 8)
                   IN [i \in 1..Len(x) |-> ((At(x, i - b, 0) * m) % 256) + ((At(x, i - b - 1, 0) * m) \div 256)]
ShiftRight(x, k, s) == LET b == k \div 8   m == Pow2(k % 8)   fill == IF s /\ Top(x) THEN 255 ELSE 0
                       IN [i \in 1..Len(x) |-> (At(x, i + b, fill) \div m) + ((At(x, i + b + 1, fill) * (256 \div m)) % 256)]
Small(x) == x[1] + (IF Len(x) > 1 THEN 256 * x[2] ELSE 0)

\* comparison of values, whatever their types: both are widened to a signed type that holds either
Wide(t, x) == Resize(x, 17, Signed(t))
Less(ta, a, tb, b) == LET x == Wide(ta, a)   y == Wide(tb, b)
                      IN IF Top(x) # Top(y) THEN Top(x) ELSE LessU(x, y)
Same(ta, a, tb, b) == Wide(ta, a) = Wide(tb, b)

\* ------------------------------------------------------------------ instructions
Reg(t, v) == [t |-> t, v |-> v]
Flag(b) == Reg("bool", IF b THEN <<1>> ELSE <<0>>)
Cast(t, r) == IF t = "bool" THEN Flag(~IsZero(r.v)) ELSE Reg(t, Resize(r.v, Width(t), Signed(r.t)))
Bitwise(op, x, y) == [i \in 1..Len(x) |-> CASE op = "&" -> x[i] & y[i] [] op = "|" -> x[i] | y[i] [] OTHER -> x[i] ^^ y[i]]

Arith(op, x, y, t) ==
    CASE op = "+" -> Plus(x, y) [] op = "-" -> Minus(x, y) [] op = "*" -> Times(x, y)
      [] op = "/" -> DivMod(x, y, Signed(t)).q [] op = "%" -> DivMod(x, y, Signed(t)).r
      [] OTHER -> Bitwise(op, x, y)
Shifted(op, r, k) == IF op = "<<" THEN ShiftLeft(r.v, k) ELSE ShiftRight(r.v, k, Signed(r.t))
Binary(op, a, b) ==
    IF op \in {"<<", ">>"} THEN LET p == Cast(Promote(a.t), a) IN Reg(p.t, Shifted(op, p, Small(b.v)))
    ELSE CASE op = "<" -> Flag(Less(a.t, a.v, b.t, b.v)) [] op = ">" -> Flag(Less(b.t, b.v, a.t, a.v))
           [] op = "<=" -> Flag(~Less(b.t, b.v, a.t, a.v)) [] op = ">=" -> Flag(~Less(a.t, a.v, b.t, b.v))
           [] op = "==" -> Flag(Same(a.t, a.v, b.t, b.v)) [] op = "!=" -> Flag(~Same(a.t, a.v, b.t, b.v))
           [] OTHER -> LET t == Promote(Common(a.t, b.t)) IN Reg(t, Arith(op, Cast(t, a).v, Cast(t, b).v, t))
Unary(op, a) == LET p == Cast(Promote(a.t), a)
                IN CASE op = "-" -> Reg(p.t, Negate(p.v)) [] op = "~" -> Reg(p.t, Flip(p.v))
                     [] op = "+" -> p [] OTHER -> Flag(IsZero(a.v))
\* v op= w, where w was converted to the type of v: computed in that type
Assign(op, a, b) == LET c == Cast(a.t, b)
                    IN IF op \in {"<<", ">>"} THEN Reg(a.t, Shifted(op, a, Small(b.v)))
                       ELSE Reg(a.t, Arith(op, a.v, c.v, a.t))

\* bit counting intrinsics
RECURSIVE CountBits(_)
CountBits(n) == IF n = 0 THEN 0 ELSE (n % 2) + CountBits(n \div 2)
RECURSIVE SumBits(_, _)
SumBits(x, i) == IF i = 0 THEN 0 ELSE CountBits(x[i]) + SumBits(x, i - 1)
RECURSIVE Lead(_)
Lead(n) == IF n >= 128 THEN 0 ELSE 1 + Lead(2 * n + 1)      \* zeros above the top bit of a byte
RECURSIVE LeadZ(_, _)
LeadZ(x, i) == IF i = 0 THEN 0 ELSE IF x[i] = 0 THEN 8 + LeadZ(x, i - 1) ELSE Lead(x[i])
RECURSIVE Trail(_)
Trail(n) == IF n % 2 = 1 THEN 0 ELSE 1 + Trail(n \div 2)
RECURSIVE TrailZ(_, _)
TrailZ(x, i) == IF i > Len(x) THEN 0 ELSE IF x[i] = 0 THEN 8 + TrailZ(x, i + 1) ELSE Trail(x[i])
Number(n, w) == [i \in 1..w |-> IF i = 1 THEN n % 256 ELSE IF i = 2 THEN n \div 256 ELSE 0]
RevByte(n) == LET b(k) == (n \div Pow2(k)) % 2
              IN 128*b(0) + 64*b(1) + 32*b(2) + 16*b(3) + 8*b(4) + 4*b(5) + 2*b(6) + b(7)
Intrinsic(op, a) ==
    LET n == Len(a.v) IN
    CASE op = "popcount" -> Reg(a.t, Number(SumBits(a.v, n), n))
      [] op = "clz" -> Reg(a.t, Number(LeadZ(a.v, n), n))
      [] op = "ctz" -> Reg(a.t, Number(TrailZ(a.v, 1), n))
      [] op = "bswap" -> Reg(a.t, [i \in 1..n |-> a.v[n + 1 - i]])
      [] op = "bitreverse" -> Reg(a.t, [i \in 1..n |-> RevByte(a.v[n + 1 - i])])
      [] OTHER -> Reg(a.t, Abs(a.v))
\* two-operand intrinsics, both of type a.t: saturating and rotating
MaxV(t) == [i \in 1..Width(t) |-> IF i = Width(t) /\ Signed(t) THEN 127 ELSE 255]
MinV(t) == [i \in 1..Width(t) |-> IF i = Width(t) /\ Signed(t) THEN 128 ELSE 0]
Clamp(t, x) ==       \* x: a wider signed value
    LET n == Len(x)  hi == Resize(MaxV(t), n, FALSE)  lo == Resize(MinV(t), n, Signed(t))
        below(p, q) == IF Top(p) # Top(q) THEN Top(p) ELSE LessU(p, q)
    IN IF below(x, lo) THEN MinV(t) ELSE IF below(hi, x) THEN MaxV(t) ELSE SubSeq(x, 1, Width(t))
Intrinsic2(op, a, b) ==
    LET n == Len(a.v)  s == Signed(a.t)  x == Resize(a.v, 2 * n + 1, s)  y == Resize(b.v, 2 * n + 1, s) IN
    CASE op = "sat_add" -> Reg(a.t, Clamp(a.t, Plus(x, y)))
      [] op = "sat_sub" -> Reg(a.t, Clamp(a.t, Minus(x, y)))
      [] op = "rotl" -> LET k == Small(b.v) % (8 * n) IN Reg(a.t, IF k = 0 THEN a.v ELSE Plus(ShiftLeft(a.v, k), ShiftRight(a.v, 8 * n - k, FALSE)))
      [] op = "rotr" -> LET k == Small(b.v) % (8 * n) IN Reg(a.t, IF k = 0 THEN a.v ELSE Plus(ShiftRight(a.v, k, FALSE), ShiftLeft(a.v, 8 * n - k)))
      [] op = "max" -> IF Less(a.t, a.v, b.t, b.v) THEN Reg(a.t, b.v) ELSE a
      [] OTHER -> IF Less(b.t, b.v, a.t, a.v) THEN Reg(a.t, b.v) ELSE a
=============================================================================
