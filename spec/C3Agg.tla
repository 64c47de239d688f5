------------------------------- MODULE C3Agg -------------------------------
(* Aggregates: initializers, assignments to parts, slices and vector operations. A variable is the sequence of  *)
(* the values of its scalar parts (leaves) in the order of the declaration; a union has the leaves of all its   *)
(* members, of which those outside the member last written are unspecified (ANY). A program is a list of steps; *)
(* the log has for each step the leaves of the variable written, or the answer.                                 *)
EXTENDS Integers, Sequences, TLC, Json, Bitwise

Cases == JsonDeserialize("cases.json")
ANY == -999999999

\* ---------------------------------------------------------------- types: [k |-> "leaf" | "arr" (n, e) | "st" (m) | "un" (m)]
RECURSIVE Size(_)
Size(t) == CASE t.k = "leaf" -> 1 [] t.k = "arr" -> t.n * Size(t.e)
             [] OTHER -> LET f[i \in 0..Len(t.m)] == IF i = 0 THEN 0 ELSE f[i - 1] + Size(t.m[i]) IN f[Len(t.m)]
Before(t, i) == IF t.k = "arr" THEN i * Size(t.e)
                ELSE LET f[j \in 0..i] == IF j = 0 THEN 0 ELSE f[j - 1] + Size(t.m[j]) IN f[i]
Part(t, i) == IF t.k = "arr" THEN t.e ELSE t.m[i + 1]
Parts(t) == IF t.k = "arr" THEN t.n ELSE Len(t.m)
RECURSIVE Offset(_, _)
Offset(t, p) == IF p = <<>> THEN 0 ELSE Before(t, p[1]) + Offset(Part(t, p[1]), Tail(p))
RECURSIVE TypeAt(_, _)
TypeAt(t, p) == IF p = <<>> THEN t ELSE TypeAt(Part(t, p[1]), Tail(p))

Same(n, v) == [i \in 1..n |-> v]
Cut(q, off, n) == SubSeq(q, off + 1, off + n)
Paste(q, off, v) == [i \in 1..Len(q) |-> IF i > off /\ i <= off + Len(v) THEN v[i - off] ELSE q[i]]
RECURSIVE Concat(_)
Concat(s) == IF s = <<>> THEN <<>> ELSE s[1] \o Concat(Tail(s))

\* ---------------------------------------------------------------- lanes
Wrap(b, s, x) == IF b = 0 THEN x ELSE LET y == x % (2 ^ b) IN IF s /\ y >= 2 ^ (b - 1) THEN y - 2 ^ b ELSE y
Pat(b, x) == x % (2 ^ b)
Quot(x, y) == LET q == (IF x < 0 THEN -x ELSE x) \div (IF y < 0 THEN -y ELSE y) IN IF (x < 0) = (y < 0) THEN q ELSE -q
Lane(op, b, s, x, y) ==
    CASE x = ANY \/ y = ANY -> ANY
      [] op = "+" -> Wrap(b, s, x + y) [] op = "-" -> Wrap(b, s, x - y) [] op = "*" -> Wrap(b, s, x * y)
      [] op = "/" -> Wrap(b, s, Quot(x, y)) [] op = "%" -> Wrap(b, s, x - y * Quot(x, y))
      [] op = "&" -> Wrap(b, s, Pat(b, x) & Pat(b, y)) [] op = "|" -> Wrap(b, s, Pat(b, x) | Pat(b, y)) [] op = "^" -> Wrap(b, s, Pat(b, x) ^^ Pat(b, y))
      [] op = "<<" -> Wrap(b, s, Pat(b, x) * (2 ^ y)) [] op = ">>" -> x \div (2 ^ y)
      [] op = "<" -> IF x < y THEN 1 ELSE 0 [] op = "<=" -> IF x <= y THEN 1 ELSE 0 [] op = ">" -> IF x > y THEN 1 ELSE 0
      [] op = ">=" -> IF x >= y THEN 1 ELSE 0 [] op = "==" -> IF x = y THEN 1 ELSE 0 [] op = "!=" -> IF x # y THEN 1 ELSE 0
      [] op = "neg" -> Wrap(b, s, -x) [] op = "not" -> Wrap(b, s, -x - 1) [] op = "lnot" -> 1 - x
      [] op = "min" -> IF x < y THEN x ELSE y [] op = "max" -> IF x > y THEN x ELSE y

\* ---------------------------------------------------------------- initializers
\* mem: the variables; vt: their types
RECURSIVE Val(_, _, _, _)
RECURSIVE Put(_, _, _, _, _, _)
Read(mem, vt, x, p) == Cut(mem[x], Offset(vt[x], p), Size(TypeAt(vt[x], p)))
\* what one entry of a positional list contributes, for elements (or a member) of type t
Entry(t, e, mem, vt) == IF e.k = "splat" THEN Read(mem, vt, e.x, e.p) ELSE Val(t, e, mem, vt)
\* how many elements it stands for
Takes(e, vt) == IF e.k = "splat" THEN Parts(TypeAt(vt[e.x], e.p)) ELSE 1
\* a union whose member i has the leaves v
InUnion(t, i, v) == Paste(Same(Size(t), ANY), Before(t, i), v)
Val(t, e, mem, vt) ==
    CASE e.k = "v" -> <<e.v>>
      [] e.k = "zero" -> Same(Size(t), 0)
      [] e.k = "bcast" -> Same(t.n, e.v)
      [] e.k = "str" -> [i \in 1..t.n |-> IF i <= Len(e.s) THEN e.s[i] ELSE 0]
      [] e.k = "copy" -> Read(mem, vt, e.x, e.p)
      [] e.k = "pick" -> LET v == Read(mem, vt, e.x, e.p) IN [i \in 1..Len(e.ix) |-> v[e.ix[i] + 1]]
      [] e.k = "pos" /\ t.k = "arr" -> Concat([i \in 1..Len(e.es) |-> Entry(t.e, e.es[i], mem, vt)])
      [] e.k = "pos" /\ t.k = "st" -> Concat([i \in 1..Len(e.es) |-> Val(t.m[i], e.es[i], mem, vt)])
      [] e.k = "pos" /\ t.k = "un" -> InUnion(t, 0, Val(t.m[1], e.es[1], mem, vt))
      [] e.k = "des" -> LET f[i \in 0..Len(e.ds)] == IF i = 0 THEN Same(Size(t), 0) ELSE Put(t, f[i - 1], e.ds[i].p, e.ds[i].e, mem, vt)
                        IN f[Len(e.ds)]
      [] e.k = "mix" -> LET old == Read(mem, vt, e.x, e.p)  v == Val(e.t, e.e, mem, vt)
                        IN [i \in 1..Len(old) |-> IF \E j \in 1..Len(e.ix) : e.ix[j] + 1 = i
                                                   THEN v[CHOOSE j \in 1..Len(e.ix) : e.ix[j] + 1 = i] ELSE old[i]]
      [] e.k = "op" -> LET a == Val(e.t, e.a, mem, vt)  b == Val(e.t, e.b, mem, vt) IN [i \in 1..e.t.n |-> Lane(e.op, e.w, e.s, a[i], b[i])]
\* q, the leaves of a value of type t, after the part p (steps are ranges lo..hi) is set to e
Put(t, q, p, e, mem, vt) ==
    IF p = <<>> THEN Val(t, e, mem, vt)
    ELSE LET one(r, i) == LET o == Before(t, i)  u == Part(t, i)  v == Put(u, Cut(r, o, Size(u)), Tail(p), e, mem, vt)
                          IN IF t.k = "un" THEN InUnion(t, i, v) ELSE Paste(r, o, v)
             f[i \in (p[1][1] - 1)..p[1][2]] == IF i = p[1][1] - 1 THEN q ELSE one(f[i - 1], i)
         IN f[p[1][2]]
\* the length of an array [*] with this initializer
Infer(e, vt) ==
    IF e.k = "pos" THEN LET f[i \in 0..Len(e.es)] == IF i = 0 THEN 0 ELSE f[i - 1] + Takes(e.es[i], vt) IN f[Len(e.es)]
    ELSE LET f[i \in 0..Len(e.ds)] == IF i = 0 THEN 0 ELSE IF e.ds[i].p[1][2] + 1 > f[i - 1] THEN e.ds[i].p[1][2] + 1 ELSE f[i - 1] IN f[Len(e.ds)]

\* ---------------------------------------------------------------- slices: [x: variable, o: first leaf, z: leaves of an element, n: elements]
\* a range: start (from the end if ae), then "to" an index (inclusive; be: from the end), or "len"gth, or up to the "end"
First(r, n) == IF r.ae THEN n - r.a ELSE r.a
Count(r, n) == CASE r.f = "to" -> (IF r.be THEN n - r.b ELSE r.b) - First(r, n) + 1 [] r.f = "len" -> r.b [] r.f = "end" -> n - First(r, n)
Sub(s, r) == [s EXCEPT !.o = @ + First(r, s.n) * s.z, !.n = Count(r, s.n)]
Whole(vt, x, p) == LET t == TypeAt(vt[x], p) IN [x |-> x, o |-> Offset(vt[x], p), z |-> Size(t.e), n |-> t.n]
Content(mem, s) == Cut(mem[s.x], s.o, s.n * s.z)
\* what a step takes a range of: a part of a variable, or a slice
Base(b, vt, sl) == IF b.s > 0 THEN sl[b.s] ELSE Whole(vt, b.x, b.p)

\* ---------------------------------------------------------------- steps
Do(s, mem, vt, sl) ==
    CASE s.k = "put" -> <<[mem EXCEPT ![s.d] = Put(vt[s.d], @, s.p, s.e, mem, vt)], sl>>
      [] s.k = "slice" -> <<mem, [sl EXCEPT ![s.d] = Sub(Base(s.b, vt, sl), s.r)]>>
      [] s.k = "fill" -> LET b == Sub(Base(s.b, vt, sl), s.r)  v == Val(s.t, s.e, mem, vt)
                         IN <<[mem EXCEPT ![b.x] = Paste(@, b.o, Concat([i \in 1..b.n |-> v]))], sl>>
      [] s.k = "move" -> LET b == Sub(Base(s.b, vt, sl), s.r)  a == Sub(Base(s.b2, vt, sl), s.r2)
                         IN <<[mem EXCEPT ![b.x] = Paste(@, b.o, Content(mem, a))], sl>>
      [] s.k = "each" -> LET b == Base(s.b, vt, sl)
                         IN <<[mem EXCEPT ![b.x] = Paste(@, b.o, [i \in 1..b.n |-> LET q == @[b.o + i] IN IF q = ANY THEN q ELSE q + i - 1])], sl>>
      [] OTHER -> <<mem, sl>>
Agree(v, o) == Len(v) = Len(o) /\ \A i \in 1..Len(v) : v[i] = ANY \/ v[i] = o[i]
Known(v) == \A i \in 1..Len(v) : v[i] # ANY
\* whether two are the same; not known when parts of them are not
Equal(a, b) == IF Known(a) /\ Known(b) THEN IF a = b THEN 1 ELSE 0 ELSE ANY
Expected(s, mem, vt, sl) ==
    CASE s.k = "put" -> mem[s.d]
      [] s.k \in {"fill", "move", "each"} -> mem[Base(s.b, vt, sl).x]
      [] s.k = "show" -> mem[s.d]
      [] s.k = "slice" -> <<sl[s.d].n>> \o Content(mem, sl[s.d])
      [] s.k = "infer" -> <<Infer(s.e, vt)>>
      [] s.k = "val" -> Val(s.t, s.e, mem, vt)
      [] s.k = "eq" -> <<Equal(Read(mem, vt, s.x, s.p), Read(mem, vt, s.y, s.q))>>
      [] s.k = "eqv" -> LET q == Equal(Val(s.t, s.a, mem, vt), Val(s.t, s.b, mem, vt)) IN <<IF q = ANY \/ ~s.n THEN q ELSE 1 - q>>
      [] s.k = "eqs" -> LET a == Sub(Base(s.b, vt, sl), s.r)  b == Sub(Base(s.b2, vt, sl), s.r2)
                        IN <<IF a.n # b.n THEN 0 ELSE Equal(Content(mem, a), Content(mem, b))>>

\* ---------------------------------------------------------------- the machine
VARIABLES c, pc, ok, mem, sl
allvars == <<c, pc, ok, mem, sl>>
C == Cases[c]
NoSlice == [x |-> 1, o |-> 0, z |-> 1, n |-> 0]
Init == c \in 1..Len(Cases) /\ pc = 1 /\ ok = TRUE /\ mem = [i \in 1..Len(C.vt) |-> Same(Size(C.vt[i]), ANY)] /\ sl = [i \in 1..C.slices |-> NoSlice]
Step == /\ ok /\ pc <= Len(C.p)
        /\ LET s == C.p[pc]
               r == Do(s, mem, C.vt, sl)
               good == pc <= Len(C.log) /\ Agree(Expected(s, r[1], C.vt, r[2]), C.log[pc])
           IN /\ IF good THEN TRUE ELSE PrintT(<<"MISMATCH", c, pc, Expected(s, r[1], C.vt, r[2])>>)
              /\ ok' = good /\ mem' = r[1] /\ sl' = r[2] /\ pc' = pc + 1
        /\ UNCHANGED c
Spec == Init /\ [][Step]_allvars

\* every variable keeps its shape, every slice stays inside its variable
Shape == /\ \A i \in 1..Len(C.vt) : Len(mem[i]) = Size(C.vt[i])
         /\ \A i \in 1..C.slices : sl[i].n >= 0 /\ sl[i].o >= 0 /\ sl[i].o + sl[i].n * sl[i].z <= Len(mem[sl[i].x])
\* a step changes one variable at most, and an assignment to a part nothing outside of that part (unless it is in a union)
Frame == [][ \A i \in 1..Len(C.vt) : (mem'[i] # mem[i]) =>
               LET s == C.p[pc] IN IF s.k = "put" THEN s.d = i ELSE Base(s.b, C.vt, sl).x = i ]_allvars
=============================================================================
