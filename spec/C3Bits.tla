------------------------------- MODULE C3Bits -------------------------------
(* Bitstructs. The storage of a variable is a sequence of bits; a member is a range of them, and with          *)
(* @bigendian the bytes of the storage (of an integer) or of each member (in an array) are reversed. A program  *)
(* is a list of steps on variables of one bitstruct type; the log of a case has for every step either the       *)
(* value that was read or the bytes of the variable after it.                                                   *)
EXTENDS Integers, Sequences, TLC, Json

Cases == JsonDeserialize("cases.json")
Max(a, b) == IF a > b THEN a ELSE b

\* numbers are given as digits of base 256, least significant first
Bit(d, j) == IF j \div 8 >= Len(d) THEN 0 ELSE (d[j \div 8 + 1] \div (2 ^ (j % 8))) % 2
Value(d) == [j \in 0..127 |-> Bit(d, j)]

\* ---------------------------------------------------------------- members
\* where bit j of the member is in the storage
Place(m, j) == IF m.swap /\ m.w > 8 THEN m.lo + ((m.w \div 8) - 1 - (j \div 8)) * 8 + (j % 8) ELSE m.lo + j
Covers(m, k) == k >= m.lo /\ k < m.lo + m.w
\* the value read: sign extended from its top bit when its type is signed
Get(st, m) == LET top == st[Place(m, m.w - 1)] IN [j \in 0..127 |-> IF j < m.w THEN st[Place(m, j)] ELSE IF m.s THEN top ELSE 0]
\* a write changes the bits of the member and no other
Put(st, m, x) == LET at == [p \in {Place(m, j) : j \in 0..(m.w - 1)} |-> CHOOSE j \in 0..(m.w - 1) : Place(m, j) = p]
                 IN [k \in DOMAIN st |-> IF k \in DOMAIN at THEN x[at[k]] ELSE st[k]]
\* where bit k of the storage is in memory (8 * address + position)
Mem(c, k) == IF c.rev THEN ((c.n \div 8) - 1 - (k \div 8)) * 8 + (k % 8) ELSE k

\* ---------------------------------------------------------------- arithmetic of 128 bits
Carry(x, y, c0) == LET f[j \in 0..128] == IF j = 0 THEN c0 ELSE IF x[j - 1] + y[j - 1] + f[j - 1] >= 2 THEN 1 ELSE 0 IN f
Add(x, y, c0) == LET f == Carry(x, y, c0) IN [j \in 0..127 |-> (x[j] + y[j] + f[j]) % 2]
Not(x) == [j \in DOMAIN x |-> 1 - x[j]]
Number(n) == [j \in 0..127 |-> IF j < 20 THEN (n \div (2 ^ j)) % 2 ELSE 0]
Shift(x, n) == [j \in 0..127 |-> IF j - n \in 0..127 THEN x[j - n] ELSE IF n < 0 THEN x[127] ELSE 0]
Join(op, a, b) == CASE op = "&" -> a * b [] op = "|" -> Max(a, b) [] op = "^" -> (a + b) % 2
Apply(op, x, y, n) == CASE op = "=" -> y [] op = "+" -> Add(x, y, 0) [] op = "-" -> Add(x, Not(y), 1)
                        [] op \in {"&", "|", "^"} -> [j \in 0..127 |-> Join(op, x[j], y[j])]
                        [] op = "<<" -> Shift(x, n) [] op = ">>" -> Shift(x, -n)

\* ---------------------------------------------------------------- steps
\* vars: the storages; free: for each, the bits that belong to no member and have been inverted (not specified)
Zero(c) == [k \in 0..(c.n - 1) |-> 0]
Unused(c) == {k \in 0..(c.n - 1) : \A i \in 1..Len(c.m) : ~Covers(c.m[i], k)}
Lit(c, s) == LET f[i \in 0..Len(s.vals)] == IF i = 0 THEN Zero(c) ELSE Put(f[i - 1], c.m[s.vals[i].m], Value(s.vals[i].v)) IN f[Len(s.vals)]
Do(c, s, vars, free) ==
    CASE s.k = "lit" -> <<[vars EXCEPT ![s.d] = Lit(c, s)], [free EXCEPT ![s.d] = {}]>>
      [] s.k = "put" -> LET m == c.m[s.m]  x == Get(vars[s.d], m) IN <<[vars EXCEPT ![s.d] = Put(@, m, Apply(s.op, x, Value(s.v), s.n))], free>>
      [] s.k = "join" -> <<[vars EXCEPT ![s.d] = [k \in DOMAIN @ |-> Join(s.op, vars[s.a][k], vars[s.b][k])]], [free EXCEPT ![s.d] = free[s.a] \cup free[s.b]]>>
      [] s.k = "not" -> <<[vars EXCEPT ![s.d] = Not(vars[s.a])], [free EXCEPT ![s.d] = Unused(c)]>>
      [] s.k = "copy" -> <<[vars EXCEPT ![s.d] = vars[s.a]], [free EXCEPT ![s.d] = free[s.a]]>>
      [] s.k = "from" -> <<[vars EXCEPT ![s.d] = [k \in DOMAIN @ |-> Bit(s.v, Mem(c, k))]], [free EXCEPT ![s.d] = {}]>>
      [] OTHER -> <<vars, free>>
Written == {"lit", "put", "join", "not", "copy", "from"}
\* what the log of a step may be
Shown(c, s, vars, free, o) ==
    CASE s.k \in Written \/ s.k = "bytes" -> \A k \in 0..(c.n - 1) : k \in free[s.d] \/ Bit(o, Mem(c, k)) = vars[s.d][k]
      [] s.k = "get" -> Value(o) = Get(vars[s.d], c.m[s.m])
      [] s.k = "eq" -> free[s.a] # {} \/ free[s.b] # {} \/ o = <<IF vars[s.a] = vars[s.b] THEN 1 ELSE 0>>

\* ---------------------------------------------------------------- the machine
VARIABLES c, pc, ok, st, free
allvars == <<c, pc, ok, st, free>>
C == Cases[c]
Init == c \in 1..Len(Cases) /\ pc = 1 /\ ok = TRUE /\ st = [i \in 1..C.vars |-> Zero(C)] /\ free = [i \in 1..C.vars |-> {}]
Step == /\ ok /\ pc <= Len(C.p)
        /\ LET s == C.p[pc]
               r == Do(C, s, st, free)
               o == IF pc <= Len(C.log) THEN C.log[pc] ELSE <<-1>>
               good == o # <<-1>> /\ Shown(C, s, r[1], r[2], o)
           IN /\ IF good THEN TRUE ELSE PrintT(<<"MISMATCH", c, pc>>)
              /\ ok' = good /\ st' = r[1] /\ free' = r[2] /\ pc' = pc + 1
        /\ UNCHANGED c
Spec == Init /\ [][Step]_allvars

Bounded == \A i \in 1..C.vars : DOMAIN st[i] = 0..(C.n - 1) /\ \A k \in 0..(C.n - 1) : st[i][k] \in {0, 1}
\* writing one member leaves the members that do not overlap it alone
Frame == [][ (pc <= Len(C.p) /\ C.p[pc].k = "put") =>
             \A i \in 1..Len(C.m) : LET m == C.m[i]  w == C.m[C.p[pc].m] IN
                 (m.lo + m.w <= w.lo \/ w.lo + w.w <= m.lo) => Get(st'[C.p[pc].d], m) = Get(st[C.p[pc].d], m) ]_allvars
\* and what is written is read back, up to the width
Last == [][ (pc <= Len(C.p) /\ C.p[pc].k = "put" /\ C.p[pc].op = "=") =>
             LET m == C.m[C.p[pc].m]  x == Get(st'[C.p[pc].d], m)  v == Value(C.p[pc].v) IN \A j \in 0..(m.w - 1) : x[j] = v[j] ]_allvars
=============================================================================
