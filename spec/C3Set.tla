------------------------------- MODULE C3Set -------------------------------
(* BitSet, GrowableBitSet and EnumSet as sets of numbers. The kind is the number of elements (plus 500 for     *)
(* growable sets, whose kind gives the bits of a word, plus 1000 for enum sets).                               *)
EXTENDS TraceLib

List(S, n) == SelectSeq([j \in 1..n |-> j - 1], LAMBDA x : x \in S)

SetStep(k, s, a) ==
    LET enums == k >= 1000
        n == IF enums THEN k - 1000 ELSE k
        x == Mod(Nth(a, 1), n)
        A == s[1]
        B == s[2]
        T(S, r) == [s |-> <<S, B>>, r |-> r]
        Bit(v) == IF v > 0 THEN A \cup {x} ELSE A \ {x}
        t == CASE a[1] = 1 -> T(A \cup {x}, <<>>)
               [] a[1] = 2 -> T(A \ {x}, IF enums THEN <<Bool(x \in A)>> ELSE <<>>)
               [] a[1] \in {3, 4} -> T(Bit(Nth(a, 2)), <<>>)
               [] a[1] \in {5, 6} -> T(A, <<Bool(x \in A)>>)
               [] a[1] = 7 -> T(A, <<Cardinality(A)>>)
               [] a[1] \in {8, 11} -> T(A \cap B, <<>>)
               [] a[1] \in {9, 12} -> T(A \cup B, <<>>)
               [] a[1] = 10 \/ (a[1] = 13 /\ ~enums) -> T((A \cup B) \ (A \cap B), <<>>)
               [] a[1] = 17 \/ (a[1] = 13 /\ enums) -> T(A \ B, <<>>)
               [] a[1] = 14 -> [s |-> <<B, A>>, r |-> <<>>]
               [] a[1] = 15 -> [s |-> <<A, A>>, r |-> <<>>]
               [] a[1] = 16 -> T({}, <<>>)
    IN [s |-> t.s, r |-> t.r \o <<-7>> \o List(t.s[1], n) \o <<-8>> \o List(t.s[2], n)]

\* the growable set never gives up words: its length is that of the highest bit in its last word
GrowStep(k, s, a) ==
    LET bits == k - 500
        A == s[1]
        x == Nth(a, 1)
        T(S, r) == [s |-> <<S, IF S = {} THEN s[2] ELSE Max2(s[2], MaxOf(S) \div bits + 1)>>, r |-> r]
        Bit(v) == IF v > 0 THEN A \cup {x} ELSE A \ {x}
        t == CASE a[1] = 1 -> T(A \cup {x}, <<>>)
               [] a[1] = 2 -> T(A \ {x}, <<>>)
               [] a[1] \in {3, 4} -> T(Bit(Nth(a, 2)), <<>>)
               [] a[1] \in {5, 6} -> T(A, <<Bool(x \in A)>>)
               [] a[1] = 7 -> T(A, <<Cardinality(A)>>)
        words == t.s[2]
        last == {y \in t.s[1] : y \div bits = words - 1}
        len == IF words = 0 THEN 0 ELSE IF last = {} THEN (words - 1) * bits ELSE MaxOf(last) + 1
    IN [s |-> t.s, r |-> t.r \o <<-7>> \o List(t.s[1], 300) \o <<-8, len>>]

Start(k) == IF k > 500 /\ k < 1000 THEN <<{}, 0>> ELSE <<{}, {}>>
Step(k, s, a) == IF k > 500 /\ k < 1000 THEN GrowStep(k, s, a) ELSE SetStep(k, s, a)
Final(k, s) == <<0, 0>>

----------------------------------------------------------------------------
VARIABLES c, i, s
vars == <<c, i, s>>
Init == c \in 1..Len(Cases) /\ i = 1 /\ s = Start(Cases[c].k)
Fail(want, got) == PrintT(<<"MISMATCH", c, i, want, got>>) /\ i' = 1000000 /\ UNCHANGED <<c, s>>
Next == \/ /\ i <= Len(Cases[c].o)
           /\ LET t == Step(Cases[c].k, s, Cases[c].o[i])
              IN IF t.r = Cases[c].r[i] THEN i' = i + 1 /\ s' = t.s /\ UNCHANGED c ELSE Fail(t.r, Cases[c].r[i])
        \/ /\ i = Len(Cases[c].o) + 1 /\ Cases[c].e = 1
           /\ IF Final(Cases[c].k, s) = Cases[c].r[i] THEN i' = i + 1 /\ UNCHANGED <<c, s>> ELSE Fail(Final(Cases[c].k, s), Cases[c].r[i])
Spec == Init /\ [][Next]_vars
=============================================================================
