------------------------------ MODULE TraceLib ------------------------------
(* Recorded histories of the real code. A case is a record: k the kind of object, o the operations, r the      *)
(* answers (one per operation, then the final observations), e = 1 when the history ran to its end.            *)
(* A module on top of this defines Start(k), Step(k, s, a) == [s |-> next state, r |-> answer], Final(k, s).   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Cases == JsonDeserialize("cases.json")

Bool(b) == IF b THEN 1 ELSE 0
FAULT == -1000000
SKIP == -600006
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

\* sequences (1-based here, the implementation counts from 0)
Take(q, n) == SubSeq(q, 1, n)
Drop(q, n) == SubSeq(q, n + 1, Len(q))
RemoveAt(q, i) == Take(q, i) \o Drop(q, i + 1)
InsertAt(q, i, x) == Take(q, i) \o <<x>> \o Drop(q, i)
SetAt(q, i, x) == [q EXCEPT ![i + 1] = x]
Last(q) == q[Len(q)]
Front(q) == SubSeq(q, 1, Len(q) - 1)
Rev(q) == [j \in 1..Len(q) |-> q[Len(q) + 1 - j]]
Args(a) == Tail(a)
Nth(a, j) == IF j + 1 <= Len(a) THEN a[j + 1] ELSE 0   \* argument j of an operation, counted from 0
Positions(q, x) == {j \in 1..Len(q) : q[j] = x}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
Mod(x, m) == LET r == (IF x < 0 THEN -x ELSE x) % m IN IF x < 0 THEN -r ELSE r   \* the sign of C3's remainder
=============================================================================
