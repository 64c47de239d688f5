------------------------------ MODULE C3Order ------------------------------
(* Priority queues as bags with an order, and the sorting, selecting and searching functions as relations      *)
(* between their input and their output.  Where the order does not decide (equal keys) any result is allowed.  *)
EXTENDS TraceLib

Sort(q) == SortSeq(q, LAMBDA a, b : a < b)
Prio(v) == IF v < 0 THEN -((-v) \div 100) ELSE v \div 100        \* C3's division truncates
RemoveOne(q, v) == RemoveAt(q, MinOf(Positions(q, v)) - 1)
InsertSorted(q, v) == LET n == Cardinality({j \in 1..Len(q) : q[j] <= v}) IN InsertAt(q, n, v)

\* --- priority queues: the state is the sorted bag
Key(k, v) == CASE k \in {0, 4} -> v [] k = 1 -> -v [] k = 2 -> Prio(v) [] k = 3 -> -Prio(v)
IsTop(k, s, v) == v \in {s[j] : j \in 1..Len(s)} /\ \A j \in 1..Len(s) : Key(k, v) <= Key(k, s[j])
Dump(s) == <<-7, Len(s)>> \o s
QueueStep(k, s, a, res) ==
    LET x == Nth(a, 1)
        n == Len(s)
        Must(t, r) == [ok |-> res = r \o Dump(t), s |-> t, w |-> r \o Dump(t)]
        v == IF Len(res) > 0 THEN res[1] ELSE 0
        In == v \in {s[j] : j \in 1..n}
        Bad == [ok |-> FALSE, s |-> s, w |-> <<"an element of the queue that comes first", s>>]
    IN CASE a[1] = 1 -> Must(InsertSorted(s, x), <<>>)
         [] a[1] = 2 -> IF n = 0 THEN Must(s, <<FAULT>>) ELSE IF IsTop(k, s, v) THEN Must(RemoveOne(s, v), <<v>>) ELSE Bad
         [] a[1] = 3 -> IF n = 0 THEN Must(s, <<FAULT>>) ELSE IF IsTop(k, s, v) THEN Must(s, <<v>>) ELSE Bad
         [] a[1] = 4 -> IF n = 0 THEN Must(s, <<SKIP>>) ELSE IF In THEN Must(RemoveOne(s, v), <<v>>) ELSE Bad
         [] a[1] = 5 -> Must(s, <<Bool(n = 0)>>)
         [] a[1] = 6 -> IF n = 0 THEN Must(s, <<SKIP>>) ELSE IF IsTop(k, s, v) THEN Must(s, <<v>>) ELSE Bad

\* --- sorting and searching: a = <<algorithm, p, q>> \o data
Data(a) == SubSeq(a, 4, Len(a))
Ordered(q, K(_)) == \A j \in 1..(Len(q) - 1) : K(q[j]) <= K(q[j + 1])
Id(v) == v
Neg(v) == -v
P(v) == Prio(v)
NP(v) == -Prio(v)
Low(v, b) == v % b      \* data are not negative where this is used
SortedBy(d, r, K(_)) == Len(r) = Len(d) /\ Sort(r) = Sort(d) /\ Ordered(r, K)
DirKey(a, v) == IF Mod(a[2], 2) = 0 THEN Prio(v) ELSE -Prio(v)
Trunc(d, b) == [j \in 1..Len(d) |-> d[j] % b]
\* the part from p to q (exclusive) of d is ordered, the rest is untouched
Part(d, r, p, q, K(_)) == /\ Len(r) = Len(d)
                          /\ \A j \in 1..Len(d) : (j <= p \/ j > q) => r[j] = d[j]
                          /\ SortedBy(SubSeq(d, p + 1, q), SubSeq(r, p + 1, q), K)
\* the position returned by a search of x in d ordered by K: all before are not after x, all from it on are not
\* before x, and when x occurs it is at that position
Search(d, x, r, K(_)) == /\ Len(r) = 1 /\ r[1] \in 0..Len(d)
                         /\ \A j \in 1..Len(d) : IF j <= r[1] THEN K(d[j]) <= K(x) ELSE K(d[j]) >= K(x)
                         /\ (\E j \in 1..Len(d) : K(d[j]) = K(x)) => r[1] < Len(d) /\ K(d[r[1] + 1]) = K(x)
Select(d, k, r, K(_)) == /\ Len(r) = Len(d) + 1
                         /\ LET t == Tail(r) IN Sort(t) = Sort(d) /\ t[k + 1] = r[1]
                         /\ K(r[1]) = K(SortSeq(d, LAMBDA x, y : K(x) < K(y))[k + 1])
Monotone(d, K(_)) == Ordered(d, K) \/ \A j \in 1..(Len(d) - 1) : K(d[j]) >= K(d[j + 1])

Right(a, r) ==
    LET d == Data(a)
        n == Len(d)
        p0 == IF n = 0 THEN 0 ELSE Mod(a[2], n + 1)
        q0 == IF n = 0 THEN 0 ELSE Mod(a[3], n + 1)
        DK(v) == DirKey(a, v)
    IN CASE a[1] \in {1, 6, 7, 11, 14, 15, 19, 22} -> r = Sort(d)
         [] a[1] = 12 -> r = Sort(Trunc(d, 256))
         [] a[1] = 13 -> r = Sort(Trunc(d, 65536))
         [] a[1] \in {2, 3, 8, 10, 16, 17, 18, 20, 21, 25} -> SortedBy(d, r, P)
         [] a[1] \in {4, 5, 9} -> SortedBy(d, r, DK)
         [] a[1] = 23 -> Part(d, r, Min2(p0, q0), Max2(p0, q0), Id)
         [] a[1] = 24 -> Part(d, r, Min2(p0, q0), Max2(p0, q0), P)
         [] a[1] = 26 -> r = Sort([j \in 1..5 |-> IF n = 0 THEN 0 ELSE d[Mod(j - 1, n) + 1]])
         [] a[1] = 30 -> IF n = 0 THEN r = <<SKIP>> ELSE Select(d, Mod(a[2], n), r, Id)
         [] a[1] = 31 -> IF n = 0 THEN r = <<SKIP>> ELSE Select(d, Mod(a[2], n), r, P)
         [] a[1] = 32 -> Search(d, a[2], r, Id)
         [] a[1] \in {33, 34, 35, 36, 37} -> Search(d, a[2], r, P)
         [] a[1] = 40 -> r = <<Bool(Monotone(d, Id))>>
         [] a[1] \in {41, 42, 43, 44, 45} -> r = <<Bool(Monotone(d, P))>>

Start(k) == <<>>
Step(k, s, a, res) == IF k = 20 THEN [ok |-> Right(a, res), s |-> s, w |-> <<"algorithm", a[1]>>] ELSE QueueStep(k, s, a, res)
Final(k, s) == <<0, 0>>

----------------------------------------------------------------------------
VARIABLES c, i, s
vars == <<c, i, s>>
Init == c \in 1..Len(Cases) /\ i = 1 /\ s = Start(Cases[c].k)
Fail(want, got) == PrintT(<<"MISMATCH", c, i, want, got>>) /\ i' = 1000000 /\ UNCHANGED <<c, s>>
Next == \/ /\ i <= Len(Cases[c].o)
           /\ LET t == Step(Cases[c].k, s, Cases[c].o[i], Cases[c].r[i])
              IN IF t.ok THEN i' = i + 1 /\ s' = t.s /\ UNCHANGED c ELSE Fail(t.w, Cases[c].r[i])
        \/ /\ i = Len(Cases[c].o) + 1 /\ Cases[c].e = 1
           /\ IF Final(Cases[c].k, s) = Cases[c].r[i] THEN i' = i + 1 /\ UNCHANGED <<c, s>> ELSE Fail(Final(Cases[c].k, s), Cases[c].r[i])
Spec == Init /\ [][Next]_vars
=============================================================================
