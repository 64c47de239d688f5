------------------------------ MODULE C3Alloc ------------------------------
(* Memory allocators. The state is the set of live blocks: slot -> address (two parts of 24 bits), size, the    *)
(* number of bytes whose contents are known, alignment, the nesting level it came from and its order. A block   *)
(* handed out is aligned, disjoint from every live block and (for an arena over a buffer) inside the buffer; it *)
(* is zero when that was asked for; live blocks keep their contents whatever happens to the others. A request   *)
(* fails only when the provider of memory failed, or an arena really has no room left.                          *)
(* kinds: 1 arena, 2 dynamic arena, 3 backed arena, 4 on-stack, 5 temp, 6 simple heap, 7 libc, 8 tracking, 9 pools *)
EXTENDS TraceLib

Unit == 16777216
End(b) == IF b.lo + b.n >= Unit THEN <<b.hi + 1, b.lo + b.n - Unit>> ELSE <<b.hi, b.lo + b.n>>
Before(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] <= y[2])
Disjoint(a, b) == Before(End(a), <<b.hi, b.lo>>) \/ Before(End(b), <<a.hi, a.lo>>)
Aligned(b, a) == Mod(b.lo, IF a < 16 THEN 16 ELSE a) = 0
\* offset in the buffer of an arena, 0 for other allocators
Rel(s, b) == IF s.cap = 0 THEN 0 ELSE (b.hi - s.base[1]) * Unit + b.lo - s.base[2]

Start(k) == [live |-> <<>>, base |-> <<0, 0>>, cap |-> 0, top |-> 0, level |-> 0, marks |-> <<>>, ord |-> 0,
             total |-> 0, count |-> 0]

Slots(s) == DOMAIN s.live
Put(s, j, b) == [s EXCEPT !.live = [x \in Slots(s) \union {j} |-> IF x = j THEN b ELSE s.live[x]]]
Del(s, J) == [s EXCEPT !.live = [x \in Slots(s) \ J |-> s.live[x]]]

\* where -7 stands in an answer
Sep(r) == CHOOSE j \in 1..Len(r) : r[j] = -7
Head1(r) == Take(r, Sep(r) - 1)
Listing(r) == Drop(r, Sep(r))
\* after the operation every live block is there with at least the known bytes
Contents(s, r) == LET q == Listing(r)
                  IN /\ Len(q) = 2 * Cardinality(Slots(s))
                     /\ \A j \in 1..(Len(q) \div 2) : /\ q[2 * j - 1] \in Slots(s)
                                                      /\ q[2 * j] >= s.live[q[2 * j - 1]].known
Ok(s, r) == [ok |-> Contents(s, r), s |-> s, w |-> <<"contents of the live blocks", [j \in Slots(s) |-> s.live[j].known]>>]
Bad(w) == [ok |-> FALSE, s |-> <<>>, w |-> w]

\* may a request fail that the provider did not fail?
NoRoom(k, s, n, align, err) ==
  \/ k = 1 /\ (n > s.cap \/ s.top + 16 + (IF align < 16 THEN 16 ELSE align) + n > s.cap)

Step(k, s, a, res) ==
  LET h == Head1(res)
      op == a[1]
  IN IF -7 \notin {res[j] : j \in 1..Len(res)} THEN Bad("no answer")
     ELSE IF h = <<SKIP>> THEN Ok(s, res)
     ELSE CASE op = 0 -> Ok([s EXCEPT !.base = <<h[1], h[2]>>, !.cap = IF k = 1 THEN a[2] ELSE 0], res)
            [] op = 1 ->
                 LET j == Mod(a[2], 12)
                     b == [hi |-> h[1], lo |-> h[2], n |-> a[3], known |-> a[3], al |-> a[5], lv |-> a[6], o |-> s.ord]
                     t == Put([s EXCEPT !.ord = @ + 1, !.top = Rel(s, b) + b.n, !.total = @ + a[3], !.count = @ + 1], j, b)
                 IN IF j \in Slots(s) \/ a[6] > s.level THEN Bad("the driver should have skipped this")
                    ELSE IF h[1] < -900000 THEN IF h[2] > 0 \/ NoRoom(k, s, a[3], a[5], h[1]) THEN Ok(s, res) ELSE Bad("there is room for this block")
                    ELSE IF ~Aligned(b, a[5]) THEN Bad(<<"misaligned", b>>)
                    ELSE IF \E x \in Slots(s) : ~Disjoint(b, s.live[x]) THEN Bad(<<"overlaps a live block", b, s.live>>)
                    ELSE IF k = 1 /\ (Rel(s, b) < 0 \/ Rel(s, b) + b.n > s.cap) THEN Bad(<<"outside the buffer", b>>)
                    ELSE IF a[4] = 1 /\ h[3] # a[3] THEN Bad("not zeroed")
                    ELSE Ok(t, res)
            [] op = 2 ->
                 LET j == Mod(a[2], 12)
                     old == s.live[j]
                     b == [old EXCEPT !.hi = h[1], !.lo = h[2], !.n = a[3], !.known = Min2(old.known, a[3])]
                     moved == h[1] # old.hi \/ h[2] # old.lo
                     last == Rel(s, old) + old.n = s.top
                     t == Put([s EXCEPT !.top = IF moved \/ last THEN Rel(s, b) + b.n ELSE @, !.total = @ + a[3], !.count = @ + 1], j, b)
                 IN IF j \notin Slots(s) THEN Bad("the driver should have skipped this")
                    ELSE IF h[1] < -900000 THEN IF h[2] > 0 \/ NoRoom(k, s, a[3], old.al, h[1]) \/ (k = 1 /\ last /\ Rel(s, old) + a[3] > s.cap) THEN Ok(s, res) ELSE Bad("there is room for this block")
                    ELSE IF ~Aligned(b, old.al) THEN Bad(<<"misaligned", b>>)
                    ELSE IF \E x \in Slots(s) \ {j} : ~Disjoint(b, s.live[x]) THEN Bad(<<"overlaps a live block", b, s.live>>)
                    ELSE IF k = 1 /\ (Rel(s, b) < 0 \/ Rel(s, b) + b.n > s.cap) THEN Bad(<<"outside the buffer", b>>)
                    ELSE Ok(t, res)
            [] op = 3 ->
                 LET j == Mod(a[2], 12)
                 IN IF j \notin Slots(s) THEN Bad("the driver should have skipped this")
                    ELSE Ok([Del(s, {j}) EXCEPT !.top = IF Rel(s, s.live[j]) + s.live[j].n = s.top THEN Rel(s, s.live[j]) ELSE @], res)
            [] op = 4 -> LET j == Mod(a[2], 12) IN Ok(Put(s, j, [s.live[j] EXCEPT !.known = s.live[j].n]), res)
            [] op = 5 -> Ok(s, res)
            [] op = 6 -> Ok(Del(s, {a[j] : j \in 3..Len(a)}), res)
            [] op = 7 -> Ok([Del(s, Slots(s)) EXCEPT !.top = 0], res)
            [] op = 8 -> IF h # <<>> THEN (IF h[2] > 0 THEN Ok(s, res) ELSE Bad("the nested allocator must be made")) ELSE Ok([s EXCEPT !.level = @ + 1], res)
            [] op = 9 -> Ok([Del(s, {j \in Slots(s) : s.live[j].lv > a[2]}) EXCEPT !.level = a[2]], res)
            [] op = 10 -> Ok(s, res)
            [] op = 11 ->
                 LET RECURSIVE Sum(_)
                     Sum(J) == IF J = {} THEN 0 ELSE LET x == CHOOSE y \in J : TRUE IN s.live[x].n + Sum(J \ {x})
                     want == <<Sum(Slots(s)), Cardinality(Slots(s)), s.total, s.count, Bool(Slots(s) # {})>>
                 IN IF h = want THEN Ok(s, res) ELSE Bad(want)
Final(k, s) == <<0, 0, 0>>

----------------------------------------------------------------------------
VARIABLES c, i, s
vars == <<c, i, s>>
Init == c \in 1..Len(Cases) /\ i = 1 /\ s = Start(Cases[c].k)
Fail(want, got) == PrintT(<<"MISMATCH", c, i, want, got>>) /\ i' = 1000000 /\ UNCHANGED <<c, s>>
Next == \/ /\ i <= Len(Cases[c].o)
           /\ LET t == Step(Cases[c].k, s, Cases[c].o[i], Cases[c].r[i])
              IN IF t.ok THEN i' = i + 1 /\ s' = t.s /\ UNCHANGED c ELSE Fail(t.w, Cases[c].r[i])
        \/ /\ i = Len(Cases[c].o) + 1 /\ Cases[c].e = 1
           /\ IF Final(Cases[c].k, s) = Cases[c].r[i] THEN i' = i + 1 /\ UNCHANGED <<c, s>> ELSE Fail(Final(Cases[c].k, s), Cases[c].r[i])
Spec == Init /\ [][Next]_vars
=============================================================================
