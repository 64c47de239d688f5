------------------------------- MODULE C3Flow -------------------------------
(* Abstract machine for the control flow of C3: scopes with deferred          *)
(* statements, loops, switch with nextcase, labelled jumps, optional results,  *)
(* rethrow, function and macro calls.                                           *)
(*                                                                              *)
(* Cases is a sequence of [st, ar, fn, main, obs]: the statement table of one   *)
(* program, its arrays, its function bodies, and the event log that the        *)
(* compiled program produced.  The machine executes the program one statement   *)
(* at a time (expressions are evaluated within a step) and every event it      *)
(* emits must be the next event of the observed log.                            *)
(*                                                                              *)
(* K is the control stack; its items are:                                       *)
(*   seq    a statement sequence and the next position                          *)
(*   scope  an open lexical scope and the defers registered in it, oldest first *)
(*   dfr    a scope being left: the defers still to run and the pending mode    *)
(*   loop, sw, if, blk   an enclosing construct that jumps may target           *)
(*   call   the boundary of a function or macro                                 *)
(* m is the mode: "go", or a jump that is unwinding the stack.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANT CaseFile
Cases == JsonDeserialize(CaseFile)

VARIABLES c, K, m, vs, ws, tk, p, steps, st
vars == <<c, K, m, vs, ws, tk, p, steps, st>>

NV == 6                        \* int variables of a frame (the last one holds caught faults)
NW == 2                        \* optional variables of a frame
NT == 12                       \* tick counters of a program
MaxSteps == 6000

St(i) == Cases[c].st[i]
Obs == Cases[c].obs
Go == [t |-> "go", l |-> 0, v |-> 0, f |-> 0]
Ret(v) == [t |-> "ret", l |-> 0, v |-> v, f |-> 0]
Flt(f) == [t |-> "ret", l |-> 0, v |-> 0, f |-> f]
Max(a, b) == IF a > b THEN a ELSE b
B(x) == IF x THEN 1 ELSE 0

(* ---------------------------- expressions --------------------------------- *)
(* An evaluation yields the events, how it ended - "v" a value, "f" the         *)
(* optional result is a fault, "r" a rethrow leaves the function - the value or *)
(* fault, and the tick counters.                                                *)
R(e, o, v, t) == [e |-> e, o |-> o, v |-> v, t |-> t]
Seq2(a, b) == [b EXCEPT !.e = a.e \o b.e]

Truth(a) == IF a.o = "v" THEN [a EXCEPT !.v = B(a.v # 0)] ELSE a

RECURSIVE Ev(_, _, _, _)
RECURSIVE EvArgs(_, _, _, _, _)
\* Arguments left to right, stopping at the first one that does not yield a value.
EvArgs(args, i, t, v, w) ==
  IF i > Len(args) THEN [e |-> <<>>, o |-> "v", v |-> 0, t |-> t, a |-> <<>>]
  ELSE LET x == Ev(args[i], t, v, w) IN
       IF x.o # "v" THEN [e |-> x.e, o |-> x.o, v |-> x.v, t |-> x.t, a |-> <<>>]
       ELSE LET r == EvArgs(args, i + 1, x.t, v, w) IN
            [r EXCEPT !.e = x.e \o r.e, !.a = <<x.v>> \o r.a]

Bin(op, i, j) == CASE op = "+" -> i + j
                  [] op = "-" -> i - j
                  [] op = "<" -> B(i < j)
                  [] op = "==" -> B(i = j)
                  [] op = ">=" -> B(i >= j)

Ev(x, t, v, w) ==
  CASE x.k = "num" -> R(<<>>, "v", x.n, t)
    [] x.k = "var" -> R(<<>>, "v", v[x.n], t)
    [] x.k = "wvar" -> R(<<>>, IF w[x.n][2] = 0 THEN "v" ELSE "f", IF w[x.n][2] = 0 THEN w[x.n][1] ELSE w[x.n][2], t)
    [] x.k = "fault" -> R(<<>>, "f", x.n, t)
    [] x.k = "tick" -> R(<<>>, "v", B(t[x.n] < x.m), [t EXCEPT ![x.n] = @ + 1])
    [] x.k \in {"ev", "ev2", "of", "bin", "not"} ->
         LET a == EvArgs(x.a, 1, t, v, w) IN
         IF a.o # "v" THEN R(a.e, a.o, a.v, a.t)
         ELSE (CASE x.k = "ev" -> R(a.e \o <<x.n, a.a[1]>>, "v", a.a[1], a.t)
                 [] x.k = "ev2" -> R(a.e \o <<x.n, a.a[1], x.n, a.a[2]>>, "v", a.a[1] + 2 * a.a[2], a.t)
                 [] x.k = "of" -> IF a.a[2] \notin 1..3 THEN R(a.e \o <<x.n, a.a[1]>>, "v", a.a[1], a.t)
                                  ELSE R(a.e \o <<x.n, a.a[2]>>, "f", a.a[2], a.t)
                 [] x.k = "not" -> R(a.e, "v", B(a.a[1] = 0), a.t)
                 [] x.k = "bin" -> R(a.e, "v", Bin(x.op, a.a[1], a.a[2]), a.t))
    [] x.k = "and" -> LET a == Ev(x.a[1], t, v, w) IN
                      IF a.o # "v" \/ a.v = 0 THEN a ELSE Seq2(a, Truth(Ev(x.a[2], a.t, v, w)))
    [] x.k = "or" -> LET a == Ev(x.a[1], t, v, w) IN
                     IF a.o # "v" \/ a.v # 0 THEN Truth(a) ELSE Seq2(a, Truth(Ev(x.a[2], a.t, v, w)))
    [] x.k = "tern" -> LET a == Ev(x.a[1], t, v, w) IN
                       IF a.o # "v" THEN a
                       ELSE Seq2(a, Ev(IF a.v # 0 THEN x.a[2] ELSE x.a[3], a.t, v, w))
    [] x.k = "elvis" -> LET a == Ev(x.a[1], t, v, w) IN
                        IF a.o # "v" \/ a.v # 0 THEN a ELSE Seq2(a, Ev(x.a[2], a.t, v, w))
    [] x.k = "orelse" -> LET a == Ev(x.a[1], t, v, w) IN
                         IF a.o # "f" THEN a ELSE Seq2(a, Ev(x.a[2], a.t, v, w))
    [] x.k = "rethrow" -> LET a == Ev(x.a[1], t, v, w) IN
                          IF a.o = "f" THEN [a EXCEPT !.o = "r"] ELSE a
    [] x.k = "catch" -> LET a == Ev(x.a[1], t, v, w) IN
                        IF a.o = "r" THEN a ELSE [a EXCEPT !.o = "v", !.v = IF a.o = "f" THEN a.v ELSE 0]
    [] x.k = "ok" -> LET a == Ev(x.a[1], t, v, w) IN
                     IF a.o = "r" THEN a ELSE [a EXCEPT !.o = "v", !.v = B(a.o = "v")]

(* ------------------------------ the machine -------------------------------- *)
Top == K[Len(K)]
Below == SubSeq(K, 1, Len(K) - 1)
Open(b) == <<[t |-> "scope", d |-> <<>>], [t |-> "seq", b |-> b, i |-> 1]>>

\* Emitting events: they must be the next ones of the observed log.
Emit(e) ==
  IF /\ p + Len(e) <= Len(Obs)
     /\ SubSeq(Obs, p + 1, p + Len(e)) = e
  THEN p' = p + Len(e) /\ st' = st
  ELSE /\ p' = p /\ st' = "bad"
       /\ PrintT(<<"MISMATCH", c, p, e, SubSeq(Obs, p + 1, Max(p + Len(e), Len(Obs) \div 1))>>)

Silent == UNCHANGED <<p, st>>
Keep == UNCHANGED <<vs, ws, tk>>

\* Evaluate x; on a value or fault continue with F(value, fault, result), on a rethrow leave the function.
\* x.o = "f" is passed on as a fault.
Jump(mode) == m' = mode

\* Defers of a scope left with mode md: newest first, filtered by how the scope is left.
Pending(d, md) ==
  LET runs(i) == CASE St(i).w = "plain" -> TRUE
                   [] St(i).w = "try" -> md.f = 0
                   [] St(i).w = "catch" -> md.f # 0
      F[j \in 0..Len(d)] == IF j = 0 THEN <<>>
                            ELSE IF runs(d[j]) THEN <<d[j]>> \o F[j - 1] ELSE F[j - 1]
  IN F[Len(d)]

LeaveScope == /\ Top.t = "scope"
              /\ K' = Below \o <<[t |-> "dfr", r |-> Pending(Top.d, m), md |-> m]>>
              /\ m' = Go /\ Keep /\ Silent

RunDefer == /\ m.t = "go" /\ Top.t = "dfr"
            /\ Silent /\ UNCHANGED <<ws, tk>>
            /\ IF Top.r = <<>>
               THEN K' = Below /\ m' = Top.md /\ vs' = vs
               ELSE LET s == St(Head(Top.r)) IN
                    /\ K' = Below \o <<[Top EXCEPT !.r = Tail(@)]>> \o Open(s.b)
                    /\ m' = Go
                    /\ vs' = IF s.e # 0 THEN [vs EXCEPT ![s.e] = Top.md.f] ELSE vs

SeqEnd == /\ m.t = "go" /\ Top.t = "seq" /\ Top.i > Len(Top.b)
          /\ K' = Below /\ m' = m /\ Keep /\ Silent

Cur == St(Top.b[Top.i])
AtStmt(k) == m.t = "go" /\ Top.t = "seq" /\ Top.i <= Len(Top.b) /\ Cur.k = k
Next1 == Below \o <<[Top EXCEPT !.i = @ + 1]>>

SEvent == /\ AtStmt("ev")                      \* an expression statement; an unhandled fault is discarded
          /\ LET r == Ev(Cur.x, tk, vs, ws) IN
             /\ Emit(r.e) /\ tk' = r.t
             /\ m' = (IF r.o = "r" THEN Flt(r.v) ELSE Go)
          /\ K' = Next1 /\ UNCHANGED <<vs, ws>>

SAssign == /\ AtStmt("asg")
           /\ LET r == Ev(Cur.x, tk, vs, ws) IN
              /\ Emit(r.e) /\ tk' = r.t
              /\ m' = (IF r.o = "v" THEN Go ELSE Flt(r.v))
              /\ vs' = IF r.o = "v" THEN [vs EXCEPT ![Cur.n] = r.v] ELSE vs
           /\ K' = Next1 /\ UNCHANGED ws

SWAssign == /\ AtStmt("wasg")                   \* assignment to an optional variable keeps the fault
            /\ LET r == Ev(Cur.x, tk, vs, ws) IN
               /\ Emit(r.e) /\ tk' = r.t
               /\ m' = (IF r.o = "r" THEN Flt(r.v) ELSE Go)
               /\ ws' = (CASE r.o = "v" -> [ws EXCEPT ![Cur.n] = <<r.v, 0>>]
                           [] r.o = "f" -> [ws EXCEPT ![Cur.n] = <<0, r.v>>]
                           [] OTHER -> ws)
            /\ K' = Next1 /\ UNCHANGED vs

SBlock == /\ AtStmt("blk") /\ Keep /\ Silent /\ m' = m
          /\ K' = Next1 \o <<[t |-> "blk", s |-> Top.b[Top.i]]>> \o Open(Cur.b)

SDefer == /\ AtStmt("defer") /\ Keep /\ Silent /\ m' = m
          \* the innermost open scope is directly below the sequence
          /\ K' = SubSeq(K, 1, Len(K) - 2)
                  \o <<[K[Len(K) - 1] EXCEPT !.d = Append(@, Top.b[Top.i])]>>
                  \o <<[Top EXCEPT !.i = @ + 1]>>

\* Conditions of if and while: a list of plain conditions and try-unwraps, all of which must succeed.
RECURSIVE EvConds(_, _, _, _, _)
EvConds(cs, i, t, v, w) ==
  IF i > Len(cs) THEN [e |-> <<>>, o |-> "v", v |-> 1, t |-> t, vs |-> v]
  ELSE LET x == Ev(cs[i].x, t, v, w)
           res(o, val) == [e |-> x.e, o |-> o, v |-> val, t |-> x.t, vs |-> v] IN
       IF x.o = "r" THEN res("r", x.v)
       ELSE IF x.o = "f" THEN res("v", 0)
       ELSE IF cs[i].n = 0 /\ x.v = 0 THEN res("v", 0)
       ELSE LET v2 == IF cs[i].n # 0 THEN [v EXCEPT ![cs[i].n] = x.v] ELSE v
                r == EvConds(cs, i + 1, x.t, v2, w) IN
            [r EXCEPT !.e = x.e \o r.e]

SIf == /\ AtStmt("if")
       /\ LET r == EvConds(Cur.c, 1, tk, vs, ws) IN
          /\ Emit(r.e) /\ tk' = r.t /\ vs' = IF r.v # 0 /\ r.o = "v" THEN r.vs ELSE vs
          /\ IF r.o = "r" THEN m' = Flt(r.v) /\ K' = Next1
             ELSE /\ m' = m
                  /\ K' = Next1 \o <<[t |-> "if", s |-> Top.b[Top.i]]>> \o Open(IF r.v # 0 THEN Cur.b ELSE Cur.b2)
       /\ UNCHANGED ws

\* if (catch e = x1, x2, ...): the first fault is caught; the else part runs when there is none.
RECURSIVE EvCatch(_, _, _, _, _)
EvCatch(xs, i, t, v, w) ==
  IF i > Len(xs) THEN R(<<>>, "v", 0, t)
  ELSE LET x == Ev(xs[i], t, v, w) IN
       IF x.o = "v" THEN Seq2(x, EvCatch(xs, i + 1, x.t, v, w)) ELSE x

SIfCatch == /\ AtStmt("ifcatch")
            /\ LET r == EvCatch(Cur.xs, 1, tk, vs, ws) IN
               /\ Emit(r.e) /\ tk' = r.t
               /\ vs' = IF r.o = "f" THEN [vs EXCEPT ![Cur.n] = r.v] ELSE vs
               /\ IF r.o = "r" THEN m' = Flt(r.v) /\ K' = Next1
                  ELSE /\ m' = m
                       /\ K' = Next1 \o <<[t |-> "if", s |-> Top.b[Top.i]]>> \o Open(IF r.o = "f" THEN Cur.b ELSE Cur.b2)
            /\ UNCHANGED ws

SLoop == /\ AtStmt("loop") /\ Silent /\ UNCHANGED <<ws, tk>> /\ m' = m
         /\ K' = Next1 \o <<[t |-> "loop", s |-> Top.b[Top.i], x |-> 0]>>
         /\ vs' = IF Cur.w = "for" THEN [vs EXCEPT ![Cur.v] = Cur.lo] ELSE vs

\* One decision of a loop: x = 0 on entry, the number of started iterations afterwards.
LoopHead ==
  /\ m.t = "go" /\ Top.t = "loop"
  /\ LET s == St(Top.s)
         iter == Below \o <<[Top EXCEPT !.x = @ + 1]>> \o Open(s.b) IN
     CASE s.w \in {"while", "dowhile"} ->
            IF s.w = "dowhile" /\ Top.x = 0
            THEN K' = iter /\ m' = m /\ Keep /\ Silent
            ELSE LET r == EvConds(s.c, 1, tk, vs, ws) IN
                 /\ Emit(r.e) /\ tk' = r.t /\ UNCHANGED ws
                 /\ vs' = IF r.v # 0 /\ r.o = "v" THEN r.vs ELSE vs
                 /\ IF r.o = "r" THEN K' = Below /\ m' = Flt(r.v)
                    ELSE m' = m /\ K' = (IF r.v # 0 THEN iter ELSE Below)
       [] s.w = "once" ->                        \* do { ... };  runs its body once
            /\ K' = (IF Top.x = 0 THEN iter ELSE Below) /\ m' = m /\ Keep /\ Silent
       [] s.w = "for" ->
            LET v2 == IF Top.x = 0 THEN vs ELSE [vs EXCEPT ![s.v] = @ + 1]
                r == EvConds(s.c, 1, tk, v2, ws) IN
            /\ Emit(r.e) /\ tk' = r.t /\ UNCHANGED ws /\ vs' = v2
            /\ IF r.o = "r" THEN K' = Below /\ m' = Flt(r.v)
               ELSE m' = m /\ K' = (IF r.v # 0 THEN iter ELSE Below)
       [] s.w \in {"foreach", "foreach_r"} ->
            LET arr == Cases[c].ar[s.a]
                i == IF s.w = "foreach" THEN Top.x + 1 ELSE Len(arr) - Top.x IN
            /\ Silent /\ UNCHANGED <<ws, tk>> /\ m' = m
            /\ IF Top.x >= Len(arr) THEN K' = Below /\ vs' = vs
               ELSE K' = iter /\ vs' = [vs EXCEPT ![s.v] = arr[i] + 10 * (i - 1)]

\* Case lookup: the first case that contains v, otherwise the default, otherwise 0.
Lookup(s, v) ==
  LET hit == {i \in 1..Len(s.cs) : ~s.cs[i].d /\ s.cs[i].lo <= v /\ v <= s.cs[i].hi}
      def == {i \in 1..Len(s.cs) : s.cs[i].d} IN
  IF hit # {} THEN CHOOSE i \in hit : \A j \in hit : i <= j
  ELSE IF def # {} THEN CHOOSE i \in def : TRUE ELSE 0

\* Entering case i: an empty case shares the body of the next one.
RECURSIVE Enter(_, _)
Enter(s, i) == IF i = 0 \/ i > Len(s.cs) THEN 0
               ELSE IF s.cs[i].b = <<>> THEN Enter(s, i + 1) ELSE i
CaseStack(base, sid, i) ==
  LET e == Enter(St(sid), i) IN
  IF e = 0 THEN base ELSE base \o <<[t |-> "sw", s |-> sid, x |-> e]>> \o Open(St(sid).cs[e].b)

SSwitch == /\ AtStmt("switch")
           /\ LET r == Ev(Cur.x, tk, vs, ws) IN
              /\ Emit(r.e) /\ tk' = r.t
              /\ IF r.o = "r" THEN m' = Flt(r.v) /\ K' = Next1
                 ELSE m' = m /\ K' = CaseStack(Next1, Top.b[Top.i], Lookup(Cur, r.v))
           /\ UNCHANGED <<vs, ws>>

\* A switch without an expression: the first case whose condition holds.
RECURSIVE EvBool(_, _, _, _, _)
EvBool(cs, i, t, v, w) ==
  IF i > Len(cs) THEN R(<<>>, "v", 0, t)
  ELSE IF cs[i].d THEN EvBool(cs, i + 1, t, v, w)
  ELSE LET x == Ev(cs[i].x, t, v, w) IN
       IF x.o = "r" THEN x
       ELSE IF x.v # 0 THEN [x EXCEPT !.v = i]
       ELSE Seq2(x, EvBool(cs, i + 1, x.t, v, w))
SBoolSwitch == /\ AtStmt("bswitch")
               /\ LET r == EvBool(Cur.cs, 1, tk, vs, ws)
                      def == {i \in 1..Len(Cur.cs) : Cur.cs[i].d} IN
                  /\ Emit(r.e) /\ tk' = r.t
                  /\ IF r.o = "r" THEN m' = Flt(r.v) /\ K' = Next1
                     ELSE /\ m' = m
                          /\ K' = CaseStack(Next1, Top.b[Top.i],
                                            IF r.v # 0 THEN r.v
                                            ELSE IF def # {} THEN CHOOSE i \in def : TRUE ELSE 0)
               /\ UNCHANGED <<vs, ws>>

SBreak == AtStmt("break") /\ m' = [Go EXCEPT !.t = "brk", !.l = Cur.l] /\ K' = Next1 /\ Keep /\ Silent
SContinue == AtStmt("continue") /\ m' = [Go EXCEPT !.t = "cnt", !.l = Cur.l] /\ K' = Next1 /\ Keep /\ Silent
\* nextcase evaluates its operand before any scope is left. w: "next", "default" or "value"
SNextcase == /\ AtStmt("nextcase")
             /\ LET r == IF Cur.w = "value" THEN Ev(Cur.x, tk, vs, ws) ELSE R(<<>>, "v", 0, tk) IN
                /\ Emit(r.e) /\ tk' = r.t
                /\ m' = IF r.o = "r" THEN Flt(r.v) ELSE [t |-> "nxt", l |-> Cur.l, v |-> r.v, f |-> 0, w |-> Cur.w]
             /\ K' = Next1 /\ UNCHANGED <<vs, ws>>

SReturn == /\ AtStmt("return")
           /\ LET r == Ev(Cur.x, tk, vs, ws) IN
              /\ Emit(r.e) /\ tk' = r.t
              /\ m' = (IF r.o = "v" THEN Ret(r.v) ELSE Flt(r.v))
           /\ K' = Next1 /\ UNCHANGED <<vs, ws>>

\* A call: the argument is evaluated, then the body runs in a frame of its own.
NewVars(a) == [i \in 1..NV |-> IF i = 1 THEN a ELSE 0]
NewOpts == [i \in 1..NW |-> <<0, 0>>]
SCall == /\ AtStmt("call")
         /\ LET r == Ev(Cur.x, tk, vs, ws) IN
            /\ Emit(r.e) /\ tk' = r.t
            /\ IF r.o # "v" THEN m' = Flt(r.v) /\ K' = Next1 /\ UNCHANGED <<vs, ws>>
               ELSE /\ m' = m
                    /\ K' = Next1 \o <<[t |-> "call", s |-> Top.b[Top.i], v |-> vs, w |-> ws]>>
                            \o Open(Cases[c].fn[Cur.f])
                    /\ vs' = NewVars(r.v) /\ ws' = NewOpts

\* Returning to the caller: r is the outcome (mode "ret", or "go" when the end was reached: 0).
Return(r) ==
  LET s == St(Top.s)
      set(v) == [Top.v EXCEPT ![s.n] = v] IN
  /\ Top.t = "call" /\ ws' = Top.w /\ tk' = tk /\ Silent
  /\ CASE s.w = "void" -> m' = Go /\ K' = Below /\ vs' = Top.v
       [] s.w = "rethrow" -> /\ m' = (IF r.f # 0 THEN Flt(r.f) ELSE Go) /\ K' = Below
                             /\ vs' = IF r.f # 0 THEN Top.v ELSE set(r.v)
       [] s.w = "orelse" -> m' = Go /\ K' = Below /\ vs' = set(IF r.f # 0 THEN s.d ELSE r.v)
       [] s.w = "catch" -> m' = Go /\ K' = Below /\ vs' = set(r.f)
       [] s.w = "iftry" -> /\ m' = Go /\ vs' = IF r.f # 0 THEN Top.v ELSE set(r.v)
                           /\ K' = Below \o <<[t |-> "if", s |-> Top.s]>> \o Open(IF r.f # 0 THEN s.b2 ELSE s.b)
       [] s.w = "ifcatch" -> /\ m' = Go /\ vs' = IF r.f # 0 THEN set(r.f) ELSE Top.v
                             /\ K' = Below \o <<[t |-> "if", s |-> Top.s]>> \o Open(IF r.f # 0 THEN s.b ELSE s.b2)

\* Constructs reached by normal completion of their body, or met while unwinding.
Construct ==
  /\ Top.t \in {"if", "blk", "sw", "loop", "seq", "call"}
  /\ CASE m.t = "go" /\ Top.t \in {"if", "blk", "sw"} -> K' = Below /\ m' = m /\ Keep /\ Silent
       [] m.t = "go" /\ Top.t = "call" -> Return(Ret(0))
       [] m.t = "ret" /\ Top.t = "call" -> Return(m)
       [] m.t \in {"brk", "cnt", "nxt", "ret"} /\ Top.t = "seq" -> K' = Below /\ m' = m /\ Keep /\ Silent
       [] m.t = "ret" /\ Top.t \in {"if", "blk", "sw", "loop"} -> K' = Below /\ m' = m /\ Keep /\ Silent
       [] m.t = "brk" /\ Top.t \in {"if", "blk", "sw", "loop"} ->
            /\ K' = Below /\ Keep /\ Silent
            /\ m' = (IF m.l = Top.s \/ (m.l = 0 /\ Top.t \in {"sw", "loop"}) THEN Go ELSE m)
       [] m.t = "cnt" /\ Top.t \in {"if", "blk", "sw", "loop"} ->
            /\ Keep /\ Silent
            /\ IF Top.t = "loop" /\ m.l \in {0, Top.s}
               THEN K' = K /\ m' = Go ELSE K' = Below /\ m' = m
       [] m.t = "nxt" /\ Top.t \in {"if", "blk", "sw", "loop"} ->
            /\ Keep /\ Silent
            /\ IF Top.t = "sw" /\ m.l \in {0, Top.s}
               THEN LET s == St(Top.s) IN
                    /\ m' = Go
                    /\ K' = CaseStack(Below, Top.s,
                              CASE m.w = "next" -> Top.x + 1
                                [] m.w = "default" -> CHOOSE i \in 1..Len(s.cs) : s.cs[i].d
                                [] m.w = "value" -> Lookup(s, m.v))
               ELSE K' = Below /\ m' = m

Finish == /\ K = <<>>
          /\ LET e == IF m.t = "ret" /\ m.f # 0 THEN <<90002, m.f>> ELSE <<90001, m.v>> IN
             /\ IF SubSeq(Obs, p + 1, Len(Obs)) = e
                THEN p' = Len(Obs) /\ st' = "ok"
                ELSE /\ p' = p /\ st' = "bad"
                     /\ PrintT(<<"MISMATCH", c, p, e, SubSeq(Obs, p + 1, Len(Obs))>>)
          /\ UNCHANGED <<K, m, vs, ws, tk>>

Step == \/ /\ K # <<>>
           /\ \/ LeaveScope \/ RunDefer \/ SeqEnd \/ SEvent \/ SAssign \/ SWAssign \/ SBlock \/ SDefer
              \/ SIf \/ SIfCatch \/ SLoop \/ SSwitch \/ SBoolSwitch \/ SBreak \/ SContinue
              \/ SNextcase \/ SReturn \/ SCall
              \/ (~(m.t = "go" /\ Top.t \in {"seq", "loop"}) /\ Construct)
              \/ LoopHead
        \/ Finish

Init == /\ c \in 1..Len(Cases)
        /\ K = Open(Cases[c].main) /\ m = Go
        /\ vs = NewVars(0) /\ ws = NewOpts /\ tk = [i \in 1..NT |-> 0]
        /\ p = 0 /\ steps = 0 /\ st = "run"
Next == /\ st = "run" /\ steps < MaxSteps
        /\ Step /\ steps' = steps + 1 /\ c' = c
Spec == Init /\ [][Next]_vars

(* ------------------------- properties of the design ------------------------ *)
\* Every program either finishes within the bound or is stopped at its first disagreement.
Progress == (st = "run" /\ steps < MaxSteps) => ENABLED Step
\* Defers are only ever pending on the path that is being left, and the mode to resume is never lost.
DeferDiscipline ==
  \A i \in 1..Len(K) : K[i].t = "dfr" =>
     /\ \A j \in 1..Len(K[i].r) : St(K[i].r[j]).k = "defer"
     \* a defer body never leaves its own scope: nothing unwinds through an item that is running defers
     /\ (i = Len(K) => m.t = "go")
\* Try defers never run while a fault leaves the scope, catch defers only then.
DeferKind ==
  \A i \in 1..Len(K) : K[i].t = "dfr" =>
     \A j \in 1..Len(K[i].r) : /\ St(K[i].r[j]).w = "try" => K[i].md.f = 0
                               /\ St(K[i].r[j]).w = "catch" => K[i].md.f # 0
ScopeAboveSeq == \A i \in 1..Len(K) : K[i].t = "seq" => i > 1 /\ K[i - 1].t = "scope"
Fuel == steps < MaxSteps
Done == (st = "ok") => p = Len(Obs)
=============================================================================
