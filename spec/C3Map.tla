------------------------------- MODULE C3Map -------------------------------
(* The maps of the standard library as finite functions: HashMap with several key types and hash functions     *)
(* (all equal, three values, uncopied and copied keys), EnumMap, and the Object tree (map and array nodes).     *)
EXTENDS TraceLib

Keys == [j \in 1..280 |-> j - 91]
Sorted(f) == SelectSeq(Keys, LAMBDA k : k \in DOMAIN f)
Dump(f) == LET q == Sorted(f) IN [j \in 1..(2 * Len(q)) |-> IF Mod(j, 2) = 1 THEN q[(j + 1) \div 2] ELSE f[q[j \div 2]]]
Values(f) == LET q == Sorted(f) IN SortSeq([j \in 1..Len(q) |-> f[q[j]]], LAMBDA a, b : a < b)
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
With(f, k, v) == (k :> v) @@ f
Empty == [x \in {} |-> 0]

\* --- HashMap: m the map, o the second map, u whether they were initialised
HashOp(s, a) ==
    LET x == Nth(a, 1)
        y == Nth(a, 2)
        m == s.m
        has == x \in DOMAIN m
        n == Cardinality(DOMAIN m)
        T(m2, r) == [s |-> [s EXCEPT !.m = m2], r |-> r]
        Set == [m |-> With(m, x, y), o |-> s.o, mi |-> TRUE, oi |-> s.oi]
    IN CASE a[1] = 1 -> [s |-> Set, r |-> <<Bool(has)>>]
         [] a[1] = 2 -> [s |-> Set, r |-> <<>>]
         [] a[1] \in {3, 4} -> T(m, <<IF has THEN m[x] ELSE FAULT>>)
         [] a[1] = 5 -> T(m, <<Bool(has)>>)
         [] a[1] = 6 -> T(Without(m, x), <<IF has THEN 0 ELSE FAULT>>)
         [] a[1] = 7 -> T(Empty, <<>>)
         [] a[1] = 8 -> T(m, <<Bool(n = 0)>>)
         [] a[1] = 9 -> IF has THEN T(With(m, x, m[x] + y), <<1>>) ELSE T(m, <<0>>)
         [] a[1] = 10 -> T(m, IF has THEN <<x, m[x]>> ELSE <<FAULT>>)
         [] a[1] = 11 -> IF has THEN T(m, <<m[x], 0>>) ELSE [s |-> Set, r |-> <<y, 1>>]
         [] a[1] = 12 -> T(m, <<Bool(\E k \in DOMAIN m : m[k] = x)>>)
         [] a[1] \in {13, 17} -> T(m, Sorted(m))
         [] a[1] \in {14, 18} -> T(m, Values(m))
         [] a[1] \in {15, 16} -> T(m, Dump(m))
         [] a[1] = 19 -> IF s.mi THEN [s |-> [m |-> m, o |-> m, mi |-> TRUE, oi |-> TRUE], r |-> <<>>] ELSE T(m, <<SKIP>>)
         [] a[1] = 20 -> [s |-> [m |-> s.o, o |-> m, mi |-> s.oi, oi |-> s.mi], r |-> <<>>]
         [] a[1] = 21 -> [s |-> [s EXCEPT !.m = Empty, !.mi = TRUE], r |-> <<>>]
         [] a[1] = 24 -> IF s.mi THEN T(1 :> y + 2 @@ 2 :> y + 1, <<>>) ELSE T(m, <<SKIP>>)
         [] a[1] = 23 -> T(m, IF n = 0 THEN <<SKIP>> ELSE <<1, 1>>)
Skipped(t) == t.r = <<SKIP>>
HashStep(s, a) ==
    LET t == HashOp(s, a)
    IN IF Skipped(t) THEN t
       ELSE [s |-> t.s, r |-> t.r \o <<-7, Cardinality(DOMAIN t.s.m)>> \o Dump(t.s.m)]

\* --- EnumMap: a value for each of the five enum values
EnumStep(s, a) ==
    LET k == Mod(Nth(a, 1), 5) + 1
        y == Nth(a, 2)
        t == CASE a[1] \in {1, 2, 10} -> [s |-> [s EXCEPT ![k] = y], r |-> <<>>]
               [] a[1] \in {3, 4} -> [s |-> s, r |-> <<s[k]>>]
               [] a[1] = 9 -> [s |-> [s EXCEPT ![k] = @ + y], r |-> <<>>]
               [] a[1] = 7 -> [s |-> [j \in 1..5 |-> y], r |-> <<>>]
    IN [s |-> t.s, r |-> t.r \o <<-7, 5>> \o t.s]

\* --- Object trees: a node is <<tag, value>>, tags 1 int, 2 string, 3 bool, 4 null, 5 map with a member "in"
Node(o) == IF o[1] = 5 THEN <<5, 1, o[2]>> ELSE o
IntOf(o) == CASE o[1] = 1 -> o[2]
              [] o[1] = 2 /\ Mod(o[2] + 100, 5) = 0 -> o[2]     \* the text is a numeral exactly then (no leading letters)
              [] OTHER -> FAULT
StrOf(o) == IF o[1] = 2 THEN o[2] ELSE FAULT
BoolOf(o) == IF o[1] = 3 THEN o[2] ELSE FAULT
Flat(q) == LET F[j \in 0..Len(q)] == IF j = 0 THEN <<>> ELSE F[j - 1] \o q[j] IN F[Len(q)]
ArrStep(s, a) ==
    LET x == Nth(a, 1)
        y == Nth(a, 2)
        n == Len(s)
        Pad == IF n < x THEN s \o [j \in 1..(x - n) |-> <<4, 0>>] ELSE s
        t == CASE a[1] = 1 -> [s |-> Append(s, <<1, y>>), r |-> <<>>]
               [] a[1] = 2 -> [s |-> Append(s, <<2, y>>), r |-> <<>>]
               [] a[1] = 3 -> [s |-> Append(s, <<3, Bool(y > 0)>>), r |-> <<>>]
               [] a[1] = 4 -> [s |-> IF x < Len(Pad) THEN [Pad EXCEPT ![x + 1] = <<1, y>>] ELSE Append(Pad, <<1, y>>), r |-> <<>>]
               [] a[1] = 5 -> [s |-> s, r |-> IF x >= n THEN <<SKIP>> ELSE <<IntOf(s[x + 1])>>]
               [] a[1] = 6 -> [s |-> s, r |-> IF x >= n THEN <<SKIP>> ELSE <<StrOf(s[x + 1])>>]
    IN [s |-> t.s, r |-> t.r \o <<-7, Len(t.s)>> \o Flat([j \in 1..Len(t.s) |-> Node(t.s[j])])]
ObjStep(s, a) ==
    LET x == Nth(a, 1)
        y == Nth(a, 2)
        has == x \in DOMAIN s
        t == CASE a[1] = 1 -> [s |-> With(s, x, <<1, y>>), r |-> <<>>]
               [] a[1] = 2 -> [s |-> With(s, x, <<2, y>>), r |-> <<>>]
               [] a[1] = 3 -> [s |-> With(s, x, <<3, Bool(y > 0)>>), r |-> <<>>]
               [] a[1] = 4 -> [s |-> With(s, x, <<4, 0>>), r |-> <<>>]
               [] a[1] = 5 -> [s |-> s, r |-> <<IF has THEN IntOf(s[x]) ELSE FAULT>>]
               [] a[1] = 6 -> [s |-> s, r |-> <<IF has THEN StrOf(s[x]) ELSE FAULT>>]
               [] a[1] = 7 -> [s |-> s, r |-> <<Bool(has)>>]
               [] a[1] = 8 -> IF has /\ s[x][1] \in {1, 2, 3} THEN [s |-> s, r |-> <<>>] ELSE [s |-> With(s, x, <<5, y>>), r |-> <<>>]
               [] a[1] = 9 -> [s |-> s, r |-> <<IF has THEN BoolOf(s[x]) ELSE FAULT>>]
    IN [s |-> t.s, r |-> t.r \o <<-7>> \o Flat([j \in 1..12 |-> IF (j - 1) \in DOMAIN t.s THEN Node(t.s[j - 1]) ELSE <<0>>])]

Start(k) == CASE k <= 4 -> [m |-> Empty, o |-> Empty, mi |-> TRUE, oi |-> TRUE]
              [] k = 5 -> [m |-> Empty, o |-> Empty, mi |-> FALSE, oi |-> TRUE]
              [] k = 6 -> [j \in 1..5 |-> 0]
              [] k = 7 -> << <<1, 0>> >>
              [] k = 8 -> Empty
Step(k, s, a) == CASE k <= 5 -> HashStep(s, a)
                   [] k = 6 -> EnumStep(s, a)
                   [] k = 7 -> ArrStep(s, a)
                   [] k = 8 -> ObjStep(s, a)
Final(k, s) == <<0, 0>>

----------------------------------------------------------------------------
VARIABLES c, i, s
vars == <<c, i, s>>
Init == c \in 1..Len(Cases) /\ i = 1 /\ s = Start(Cases[c].k)
Fail(want, got) == PrintT(<<"MISMATCH", c, i, want, got>>) /\ i' = 1000000 /\ UNCHANGED <<c, s>>
Next == \/ /\ i <= Len(Cases[c].o)
           /\ LET t == Step(Cases[c].k, s, Cases[c].o[i])
              IN IF t.r = Cases[c].r[i] THEN i' = i + 1 /\ s' = t.s /\ UNCHANGED c ELSE Fail(t.r, Cases[c].r[i])
        \/ /\ i = Len(Cases[c].o) + 1 /\ Cases[c].e = 1
           /\ IF Final(Cases[c].k, s) = Cases[c].r[i] THEN i' = i + 1 /\ UNCHANGED <<c, s>> ELSE Fail(Final(Cases[c].k, s), Cases[c].r[i])
Spec == Init /\ [][Next]_vars
=============================================================================
