------------------------------- MODULE C3Seq -------------------------------
(* The sequence containers of the standard library as sequences of values: List, ElasticArray, LinkedList,    *)
(* AnyList, RingBuffer.  The state is a pair of sequences, the container operated on and a second one that    *)
(* operations like add_all and equals use.  Growth, links and wrap-around are not part of the state: whatever *)
(* the representation does, these are the answers.                                                            *)
EXTENDS TraceLib

R(a, b, r) == [s |-> <<a, b>>, r |-> r]
Ok(a, b) == R(a, b, <<>>)

Index(x, n) == Mod(x, n)
Num(q) == <<Len(q)>> \o q
Pairs(q) == [j \in 1..(2 * Len(q)) |-> IF Mod(j, 2) = 1 THEN (j - 1) \div 2 ELSE q[j \div 2]]
PairsR(q) == LET n == Len(q) IN [j \in 1..(2 * n) |-> IF Mod(j, 2) = 1 THEN n - 1 - (j - 1) \div 2 ELSE q[n + 1 - j \div 2]]

\* The operations, for a container that holds at most max elements.
Op(q, p, a, max) ==
    LET x == Nth(a, 1)
        y == Nth(a, 2)
        n == Len(q)
        i == IF n = 0 THEN 0 ELSE Index(x, n)
        j == IF n = 0 THEN 0 ELSE Index(y, n)
        ii == Index(x, n + 1)
        Skip == R(q, p, <<SKIP>>)
        Pos == Positions(q, x)
        Sel(m, r) == SelectSeq(q, LAMBDA v : Mod(v, m) = r)
        Rej(m, r) == SelectSeq(q, LAMBDA v : Mod(v, m) # r)
        OptFirst == IF n = 0 THEN FAULT ELSE q[1]
        OptLast == IF n = 0 THEN FAULT ELSE q[n]
    IN CASE a[1] = 1 -> IF n >= max THEN Skip ELSE Ok(Append(q, x), p)
         [] a[1] = 2 -> IF n = 0 THEN R(q, p, <<FAULT>>) ELSE R(Front(q), p, <<q[n]>>)
         [] a[1] = 3 -> IF n = 0 THEN (IF max = 6 THEN Skip ELSE R(q, p, <<FAULT>>)) ELSE R(Tail(q), p, <<q[1]>>)
         [] a[1] = 4 -> IF n = 0 THEN Skip ELSE Ok(RemoveAt(q, i), p)
         [] a[1] = 5 -> IF n >= max THEN Skip ELSE Ok(InsertAt(q, ii, y), p)
         [] a[1] \in {6, 34} -> IF n = 0 THEN Skip ELSE Ok(SetAt(q, i, y), p)
         [] a[1] = 7 -> IF n >= max THEN Skip ELSE Ok(<<x>> \o q, p)
         [] a[1] = 8 -> Ok(Rev(q), p)
         [] a[1] = 9 -> Ok(<<>>, p)
         [] a[1] = 10 -> IF n = 0 THEN R(q, p, <<FAULT>>) ELSE R(Front(q), p, <<0>>)
         [] a[1] = 11 -> IF n = 0 THEN R(q, p, <<FAULT>>) ELSE R(Tail(q), p, <<0>>)
         [] a[1] = 12 -> R(q, p, <<OptFirst>>)
         [] a[1] = 13 -> R(q, p, <<OptLast>>)
         [] a[1] = 14 -> R(q, p, <<Bool(n = 0)>>)
         [] a[1] = 15 -> IF n = 0 THEN Skip ELSE R(q, p, <<q[i + 1]>>)
         [] a[1] = 16 -> IF n = 0 THEN Skip ELSE Ok([q EXCEPT ![i + 1] = q[j + 1], ![j + 1] = q[i + 1]], p)
         [] a[1] \in {17, 19} -> R(Rej(x, y), p, <<n - Len(Rej(x, y))>>)
         [] a[1] \in {18, 20} -> R(Sel(x, y), p, <<n - Len(Sel(x, y))>>)
         [] a[1] = 21 -> R(q, p, <<IF Pos = {} THEN FAULT ELSE MinOf(Pos) - 1>>)
         [] a[1] = 22 -> R(q, p, <<IF Pos = {} THEN FAULT ELSE MaxOf(Pos) - 1>>)
         [] a[1] = 23 -> R(q, p, <<Bool(Pos # {})>>)
         [] a[1] = 24 -> IF Pos = {} THEN R(q, p, <<0>>) ELSE R(RemoveAt(q, MaxOf(Pos) - 1), p, <<1>>)
         [] a[1] = 25 -> IF Pos = {} THEN R(q, p, <<0>>) ELSE R(RemoveAt(q, MinOf(Pos) - 1), p, <<1>>)
         [] a[1] = 26 -> R(SelectSeq(q, LAMBDA v : v # x), p, <<Cardinality(Pos)>>)
         [] a[1] = 27 -> IF n + Len(a) - 1 > max THEN Skip ELSE Ok(q \o Args(a), p)
         [] a[1] = 28 -> IF n + Len(p) > max THEN Skip ELSE Ok(q \o p, p)
         [] a[1] = 29 -> Ok(p, q)
         [] a[1] = 30 -> Ok(SelectSeq(q, LAMBDA v : Positions(p, v) = {}), p)
         [] a[1] = 31 -> R(q, p, <<Bool(q = p)>>)
         [] a[1] \in {32, 33, 39} -> R(q, p, Num(q))
         [] a[1] = 35 -> IF n = 0 THEN Skip ELSE Ok(SetAt(q, i, q[i + 1] + y), p)
         [] a[1] = 36 -> R(q, p, Pairs(q))
         [] a[1] = 37 -> R(q, p, PairsR(q))
         [] a[1] = 38 -> Ok([k \in 1..n |-> q[k] + x], p)
         [] a[1] = 40 -> Ok(q, p)
         [] a[1] = 41 -> Ok(<<>>, p)
         [] a[1] = 42 -> Ok(Args(a), p)
         [] a[1] = 43 -> IF n >= max THEN R(q, p, <<FAULT>>) ELSE R(Append(q, x), p, <<0>>)
         [] a[1] = 44 -> IF n >= max THEN R(q, p, <<FAULT>>) ELSE R(<<x>> \o q, p, <<0>>)
         [] a[1] = 45 -> IF n >= max THEN R(q, p, <<FAULT>>) ELSE R(InsertAt(q, ii, y), p, <<0>>)
         [] a[1] = 46 -> LET k == Min2(Len(p), max - n) IN R(q \o Take(p, k), p, <<Len(p) - k>>)
         [] a[1] = 47 -> LET k == Min2(Len(a) - 1, max - n) IN R(q \o Take(Args(a), k), p, <<Len(a) - 1 - k>>)
         [] a[1] = 48 -> R(q, p, <<OptFirst>>)
         [] a[1] = 49 -> R(q, p, <<OptLast>>)
         [] a[1] = 52 -> R(q, p, <<n - Cardinality(Positions(q, 0))>>)
         [] a[1] = 53 -> R(SelectSeq(q, LAMBDA v : v # 0), p, <<Cardinality(Positions(q, 0))>>)

\* AnyList: the elements are copies on the heap; a mismatching type is a fault
AnyOp(q, p, a) ==
    LET n == Len(q)
        Pop(r) == IF n = 0 THEN R(q, p, <<FAULT>>) ELSE R(Front(q), p, <<q[n]>>)
        PopFirst == IF n = 0 THEN R(q, p, <<FAULT>>) ELSE R(Tail(q), p, <<q[1]>>)
    IN CASE a[1] \in {10, 11} -> IF n = 0 THEN R(q, p, <<SKIP>>) ELSE Ok(IF a[1] = 10 THEN Front(q) ELSE Tail(q), p)
         [] a[1] \in {32, 50} -> Pop(0)
         [] a[1] \in {33, 51} -> PopFirst
         [] a[1] = 48 -> R(q, p, <<FAULT>>)
         [] OTHER -> Op(q, p, a, 1000000)

\* a ring of m elements keeps the last m values pushed
LastN(q, m) == IF Len(q) <= m THEN q ELSE Drop(q, Len(q) - m)
RingOp(q, a, m) ==
    LET x == Nth(a, 1)
        n == Len(q)
    IN CASE a[1] = 1 -> Ok(LastN(Append(q, x), m), <<>>)
         [] a[1] = 2 -> IF n = 0 THEN R(q, <<>>, <<FAULT>>) ELSE R(Front(q), <<>>, <<q[n]>>)
         [] a[1] = 15 -> IF Mod(x, m) < n THEN R(q, <<>>, <<q[Mod(x, m) + 1]>>) ELSE R(q, <<>>, <<SKIP>>)
         [] a[1] = 60 -> LET k == Mod(x, m)
                             avail == IF k >= n THEN 0 ELSE Min2(n - k, Nth(a, 2))
                         IN R(q, <<>>, <<avail>> \o [z \in 1..Nth(a, 2) |-> IF z <= avail THEN q[k + z] ELSE -5])
         [] a[1] = 61 -> Ok(LastN(q \o Args(a), m), <<>>)
         [] a[1] = 9 -> Ok(<<>>, <<>>)

Start(k) == <<<<>>, <<>>>>
Step(k, s, a) ==
    LET t == CASE k \in {0, 2, 4, 5} -> Op(s[1], s[2], a, 1000000)
               [] k = 1 -> Op(s[1], s[2], a, 6)
               [] k = 3 -> AnyOp(s[1], s[2], a)
               [] k \in 11..19 -> RingOp(s[1], a, k - 10)
    IN [s |-> t.s, r |-> t.r \o <<-7, Len(t.s[1])>> \o t.s[1]]
Final(k, s) == <<0, 0>>

----------------------------------------------------------------------------
VARIABLES c, i, s
vars == <<c, i, s>>
Init == c \in 1..Len(Cases) /\ i = 1 /\ s = Start(Cases[c].k)
Fail(want, got) == PrintT(<<"MISMATCH", c, i, want, got>>) /\ i' = 1000000 /\ UNCHANGED <<c, s>>
Next == \/ /\ i <= Len(Cases[c].o)
           /\ LET t == Step(Cases[c].k, s, Cases[c].o[i])
              IN IF t.r = Cases[c].r[i] THEN i' = i + 1 /\ s' = t.s /\ UNCHANGED c ELSE Fail(t.r, Cases[c].r[i])
        \/ /\ i = Len(Cases[c].o) + 1 /\ Cases[c].e = 1
           /\ IF Final(Cases[c].k, s) = Cases[c].r[i] THEN i' = i + 1 /\ UNCHANGED <<c, s>> ELSE Fail(Final(Cases[c].k, s), Cases[c].r[i])
Spec == Init /\ [][Next]_vars
=============================================================================
