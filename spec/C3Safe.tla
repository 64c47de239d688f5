------------------------------- MODULE C3Safe -------------------------------
(* Safe mode. A program is a list of steps on a memory of integer arrays and of views of them (an array, a     *)
(* vector, or a slice taken from another view). Every step first checks what the language says is checked: a   *)
(* failed check stops the program there (mode "panic") with everything before it done and nothing after it;    *)
(* otherwise the step has its effect. The log of a case is what a real run did: for each step the numbers it   *)
(* wrote, and where and why it stopped.                                                                        *)
EXTENDS C3Num

Cases == JsonDeserialize("cases.json")

\* ---------------------------------------------------------------- operands against small bounds
Long(n) == [t |-> "long", v |-> LET d == <<n % 256, (n \div 256) % 256, 0, 0, 0, 0, 0, 0>> IN d]
Neg(o) == Signed(o.t) /\ Top(o.v)
AtLeast(o, n) == ~Less(o.t, o.v, "long", Long(n).v)          \* o >= n
In(o, lo, hi) == ~Neg(o) /\ AtLeast(o, lo) /\ ~AtLeast(o, hi + 1)
Num(o) == o.v[1] + (IF Len(o.v) > 1 THEN 256 * o.v[2] ELSE 0)   \* of one that is in range

Holds(op, x, y) == Binary(op, x, y).v = <<1>>

\* ---------------------------------------------------------------- results of a step
Done(ev, m, v) == [ok |-> TRUE, kind |-> "", ev |-> ev, mem |-> m, views |-> v]
Fail(kind, ev) == [ok |-> FALSE, kind |-> kind, ev |-> ev, mem |-> <<>>, views |-> <<>>]
IdxOk(o, n, back) == IF back THEN In(o, 1, n) ELSE In(o, 0, n - 1)
Idx(o, n, back) == IF back THEN n - Num(o) ELSE Num(o)
Load(m, w, i) == m[w.b][w.o + i + 1]
Store(m, w, i, x) == [m EXCEPT ![w.b][w.o + i + 1] = x]
All(m, w) == [i \in 1..w.n |-> Load(m, w, i - 1)]

Get(s, m, v) == LET w == v[s.a] IN IF IdxOk(s.i, w.n, s.back) THEN Done(<<Load(m, w, Idx(s.i, w.n, s.back))>>, m, v) ELSE Fail("index", <<>>)
Get2(s, m, v) == LET w == v[s.a]  u == v[s.b] IN
    IF ~IdxOk(s.i, u.n, s.back) THEN Fail("index", <<>>)
    ELSE LET j == Load(m, u, Idx(s.i, u.n, s.back)) - s.d IN IF j >= 0 /\ j < w.n THEN Done(<<Load(m, w, j)>>, m, v) ELSE Fail("index", <<>>)
Set(s, m, v) == LET w == v[s.a]  e == IF s.op = "=ev" THEN <<s.v>> ELSE <<>> IN
    IF ~IdxOk(s.i, w.n, s.back) THEN Fail("index", <<>>)
    ELSE LET i == Idx(s.i, w.n, s.back)  old == Load(m, w, i)
             new == CASE s.op = "+=" -> old + s.v [] s.op = "-=" -> old - s.v [] s.op = "++" -> old + 1 [] OTHER -> s.v
             m2 == Store(m, w, i, new)
         IN Done(e \o SubSeq(All(m2, w), 1, s.dump), m2, v)
\* a range starts at 0..n; with an end, which must be inside and not before the start; or with a length, which
\* must not be negative nor reach beyond the end
Slice(s, m, v) ==
    LET w == v[s.a]
        sOk == s.f \in {"to", "tolen", "all"} \/ In(s.s, 0, w.n)
        st == IF s.f \in {"to", "tolen", "all"} THEN 0 ELSE IF s.sb THEN w.n - Num(s.s) ELSE Num(s.s)
        eOk == CASE s.f \in {"range", "to"} -> IF s.eb THEN In(s.e, 1, w.n - st) ELSE In(s.e, st, w.n - 1)
                 [] s.f \in {"len", "tolen"} -> In(s.e, 0, w.n - st)
                 [] OTHER -> s.f = "all" \/ ~w.arr \/ st < w.n     \* an array has no [n..] at its end, a slice does
        n == CASE s.f \in {"range", "to"} -> (IF s.eb THEN w.n - Num(s.e) ELSE Num(s.e)) - st + 1
               [] s.f \in {"len", "tolen"} -> Num(s.e)
               [] OTHER -> w.n - st
        u == [b |-> w.b, o |-> w.o + st, n |-> n, arr |-> FALSE]
    IN IF sOk /\ eOk THEN Done(<<n>> \o All(m, u), m, Append(v, u)) ELSE Fail("slice", <<>>)
Copy(s, m, v) ==
    LET w == v[s.a]  u == v[s.b]  l == Num(s.x) IN
    IF ~In(s.x, 0, w.n) \/ ~In(s.y, 0, u.n) THEN Fail("slice", <<>>)
    ELSE IF Num(s.x) # Num(s.y) THEN Fail("copy", <<>>)
    ELSE Done(<<>>, [m EXCEPT ![w.b] = [j \in 1..Len(m[w.b]) |-> IF j > w.o /\ j <= w.o + l THEN m[u.b][u.o + j - w.o] ELSE m[w.b][j]]], v)
Fill(s, m, v) ==
    LET w == v[s.a]  l == Num(s.x) IN
    IF ~In(s.x, 0, w.n) THEN Fail("slice", <<s.v>>)
    ELSE Done(<<s.v>>, [m EXCEPT ![w.b] = [j \in 1..Len(m[w.b]) |-> IF j > w.o /\ j <= w.o + l THEN s.v ELSE m[w.b][j]]], v)
Shift(s, m, v) ==
    LET t == IF s.asg THEN s.x.t ELSE Promote(s.x.t) IN
    IF ~In(s.y, 0, Bits[t] - 1) THEN Fail("shift", <<>>)
    ELSE Done(IF s.asg THEN Assign(s.op, s.x, s.y).v ELSE Binary(s.op, s.x, s.y).v, m, v)
Div(s, m, v) == IF IsZero(s.y.v) THEN Fail(IF s.op = "/" THEN "div" ELSE "mod", <<>>)
                ELSE Done(IF s.asg THEN Assign(s.op, s.x, s.y).v ELSE Binary(s.op, s.x, s.y).v, m, v)
VecOp(s, m, v) ==
    LET n == Len(s.xs)  t == s.xs[1].t
        bad == \E i \in 1..n : IF s.op \in {"/", "%"} THEN IsZero(s.ys[i].v) ELSE ~In(s.ys[i], 0, Bits[t] - 1)
        RECURSIVE Cat(_)
        Cat(i) == IF i > n THEN <<>> ELSE Assign(s.op, s.xs[i], s.ys[i]).v \o Cat(i + 1)
    IN IF bad THEN Fail(CASE s.op = "/" -> "div" [] s.op = "%" -> "mod" [] OTHER -> "shift", <<>>) ELSE Done(Cat(1), m, v)
\* with trap-on-wrap, a result that does not fit its type stops the program
Wrap(s, m, v) ==
    LET t == CASE s.op = "neg" -> Promote(s.x.t) [] s.asg -> s.x.t [] OTHER -> Promote(Common(s.x.t, s.y.t))
        x == Resize(Cast(t, s.x).v, 40, Signed(t))  y == Resize(Cast(t, s.y).v, 40, Signed(t))
        r == CASE s.op = "+" -> Plus(x, y) [] s.op = "-" -> Minus(x, y) [] s.op = "*" -> Times(x, y) [] OTHER -> Negate(x)
        low == SubSeq(r, 1, Width(t))
    IN IF Resize(low, 40, Signed(t)) = r \/ (s.op = "neg" /\ ~Signed(t)) THEN Done(low, m, v) ELSE Fail("wrap", <<>>)
Deref(s, m, v) ==
    LET w == v[s.a]  new == CASE s.how = "set" -> s.v [] s.how = "add" -> Load(m, w, 0) + s.v [] OTHER -> Load(m, w, 0)
    IN IF s.null THEN Fail("null", <<>>) ELSE Done(<<new>>, Store(m, w, 0, new), v)
Test(s, m, v) == IF s.fail THEN Fail(s.kind, s.pre) ELSE Done(s.pre \o s.post, m, v)
Cmp(s, m, v) == IF Holds(s.op, s.x, s.y) THEN Done(s.pre \o s.ok, m, v) ELSE Fail(s.kind, s.pre)
Enum(s, m, v) == IF In(s.x, 0, s.n - 1) THEN Done(<<Num(s.x)>>, m, v) ELSE Fail("enum", <<>>)
Loop(s, m, v) == LET w == v[s.a]  n == IF Neg(s.x) THEN 0 ELSE Num(s.x) IN
                 IF n > w.n THEN Fail("index", All(m, w)) ELSE Done(SubSeq(All(m, w), 1, n), m, v)

Do(s, m, v) == CASE s.k = "get" -> Get(s, m, v) [] s.k = "get2" -> Get2(s, m, v) [] s.k = "set" -> Set(s, m, v) [] s.k = "slice" -> Slice(s, m, v)
                 [] s.k = "copy" -> Copy(s, m, v) [] s.k = "fill" -> Fill(s, m, v) [] s.k = "shift" -> Shift(s, m, v) [] s.k = "div" -> Div(s, m, v)
                 [] s.k = "vecop" -> VecOp(s, m, v) [] s.k = "arith" -> Wrap(s, m, v) [] s.k = "deref" -> Deref(s, m, v) [] s.k = "test" -> Test(s, m, v)
                 [] s.k = "cmp" -> Cmp(s, m, v) [] s.k = "enum" -> Enum(s, m, v) [] OTHER -> Loop(s, m, v)

\* ---------------------------------------------------------------- the machine
VARIABLES c, pc, mode, mem, views
vars == <<c, pc, mode, mem, views>>
P == Cases[c].p
Log == Cases[c].log
Init == c \in 1..Len(Cases) /\ pc = 1 /\ mode = "run" /\ mem = Cases[c].mem /\ views = Cases[c].views
Step == /\ mode = "run" /\ pc <= Len(P)
        /\ LET r == Do(P[pc], mem, views)
               o == IF pc <= Len(Log) THEN Log[pc] ELSE [ok |-> FALSE, kind |-> "no log", ev |-> <<>>]
               agree == /\ r.ok = o.ok /\ r.ev = o.ev
                        /\ r.kind = o.kind \/ (Cases[c].trap /\ r.kind = "slice" /\ o.kind = "wrap")   \* length - index wraps
           IN /\ IF agree THEN TRUE ELSE PrintT(<<"MISMATCH", c, pc, r.ok, r.kind, r.ev, o.ok, o.kind, o.ev>>)
              /\ mode' = IF ~agree THEN "differ" ELSE IF r.ok THEN "run" ELSE "panic"
              /\ mem' = r.mem /\ views' = r.views
              /\ pc' = pc + 1
        /\ UNCHANGED c
Spec == Init /\ [][Step]_vars
\* no view ever reaches outside its array
Inside == mode = "run" => \A i \in 1..Len(views) : views[i].n >= 0 /\ views[i].o >= 0 /\ views[i].o + views[i].n <= Len(mem[views[i].b])
Sizes == mode = "run" => \A i \in 1..Len(mem) : Len(mem[i]) = Len(Cases[c].mem[i])
=============================================================================
