------------------------------ MODULE C3Reach ------------------------------
(* What the compiler accepts about the flow of a function: whether the end of a function that returns a value   *)
(* can be reached, where an optional variable counts as unwrapped, which jumps have a target, and what is dead   *)
(* code. The rules are the operators An...; the machine below runs the same function with every outcome of its   *)
(* conditions, and the invariants state that the rules are sound for it: an accepted function never falls off    *)
(* its end, an accepted use of a variable never meets a fault, and code reported dead never runs.                *)
(* The compiler's verdict on each function is compared with the rules' (first error, lines of dead code).        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Cases == JsonDeserialize("cases.json")
Vars == {"a", "b"}
Range(q) == {q[i] : i \in 1..Len(q)}

\* ---------------------------------------------------------------- rules
\* a scope: has control left it, was dead code already reported, what is unwrapped; err: first line rejected (-1: none)
Err(st, n) == IF st.err = -1 THEN [st EXCEPT !.err = n] ELSE st
Inner(st) == [st EXCEPT !.jump = FALSE, !.told = FALSE]
Outer(st, r) == [st EXCEPT !.err = r.err, !.warns = r.warns]
Need(st, vs, n) == IF vs \cap st.unw # {} THEN Err(st, n) ELSE st

Loops == {"while", "do", "for", "foreach"}
Label(env, l) == LET is == {i \in 1..Len(env.labels) : env.labels[i].l = l} IN IF is = {} THEN <<>> ELSE <<env.labels[CHOOSE i \in is : \A j \in is : j <= i]>>
WithLabel(env, s) == IF s.l = "" THEN env ELSE [env EXCEPT !.labels = Append(@, [l |-> s.l, s |-> s, def |-> env.def])]

\* does a break in the list leave the statement with that label (or, when un, the nearest loop or switch)
RECURSIVE Breaks(_, _, _)
Breaks(q, l, un) == \E i \in 1..Len(q) : LET s == q[i] IN
    CASE s.k = "break" -> IF s.l = "" THEN un ELSE s.l = l
      [] s.k = "if" -> Breaks(s.a, l, un) \/ Breaks(s.b, l, un)
      [] s.k \in {"block", "ctif"} -> Breaks(s.a, l, un)
      [] s.k \in Loops -> Breaks(s.a, l, FALSE)
      [] s.k = "switch" -> \E j \in 1..Len(s.cs) : Breaks(s.cs[j].b, l, FALSE)
      [] OTHER -> FALSE
AnyLabel == "no label"
Left(s) == LET l == IF s.l = "" THEN AnyLabel ELSE s.l IN
           IF s.k = "switch" THEN \E j \in 1..Len(s.cs) : Breaks(s.cs[j].b, l, TRUE) ELSE Breaks(s.a, l, TRUE)

Exhaustive(s) == \/ \E j \in 1..Len(s.cs) : s.cs[j].d
                 \/ s.on = "enum" /\ \A v \in 0..2 : \E j \in 1..Len(s.cs) : v \in Range(s.cs[j].v)
\* conditions: what they unwrap when true, and when false
TryVars(c) == CASE c.k \in {"try", "tryc"} -> {c.x} [] c.k = "try2" -> {c.x, c.y} [] OTHER -> {}
CatchVars(c) == CASE c.k \in {"catch", "catchf"} -> {c.x} [] c.k = "catch2" -> {c.x, c.y} [] OTHER -> {}
Cond(c, st, n) == CASE c.k \in {"c", "t", "f"} -> st
                    [] c.k = "cuse" -> IF c.x \in st.unw THEN st ELSE Err(st, n)
                    [] c.k = "trynew" -> Need(st, {c.x}, n)
                    [] c.k \in {"try", "tryc"} -> [Need(st, {c.x}, n) EXCEPT !.unw = @ \cup {c.x}]
                    [] c.k = "try2" -> IF c.x = c.y THEN Err(Need(st, {c.x}, n), n) ELSE [Need(st, {c.x, c.y}, n) EXCEPT !.unw = @ \cup {c.x, c.y}]
                    [] OTHER -> Need(st, CatchVars(c), n)

RECURSIVE AnList(_, _, _)
RECURSIVE An(_, _, _)
Jump(st) == [st EXCEPT !.jump = TRUE]
\* a statement in its place
AnAt(s, st, env) ==
    LET r == An(s, st, env) IN
    IF ~st.jump THEN r
    ELSE IF r.told THEN Jump(r)
    ELSE [r EXCEPT !.jump = TRUE, !.told = TRUE, !.warns = IF s.k \in {"assert", "ctif"} THEN @ ELSE @ \cup {s.id}]
AnList(q, st, env) == IF q = <<>> THEN st ELSE AnList(Tail(q), AnAt(q[1], st, env), env)

AnJump(s, st, env, ok(_)) ==
    IF s.l = "" THEN st
    ELSE LET t == Label(env, s.l) IN IF t = <<>> THEN Err(st, s.id) ELSE IF t[1].def # env.def \/ ~ok(t[1].s) THEN Err(st, s.id) ELSE st
AnNext(s, st, env) ==
    LET st1 == AnJump(s, st, env, LAMBDA x : x.k = "switch")
        sw == IF s.l # "" THEN LET t == Label(env, s.l) IN IF t = <<>> THEN <<>> ELSE <<t[1].s>> ELSE env.sw
    IN IF st1.err # -1 THEN st1
       ELSE IF s.f = "plain" THEN (IF env.next THEN st1 ELSE Err(st1, s.id))
       ELSE IF sw = <<>> THEN Err(st1, s.id)
       ELSE IF s.f = "default" THEN (IF \E j \in 1..Len(sw[1].cs) : sw[1].cs[j].d THEN st1 ELSE Err(st1, s.id))
       ELSE IF sw[1].on = "bool" THEN Err(st1, s.id)
       ELSE IF s.f = "val" THEN (IF \E j \in 1..Len(sw[1].cs) : s.v \in Range(sw[1].cs[j].v) THEN st1 ELSE Err(st1, s.id))
       ELSE st1
RECURSIVE AnCases(_, _, _, _, _)
AnCases(s, j, st, env, jumps) ==
    IF j > Len(s.cs) THEN [st EXCEPT !.jump = jumps]
    ELSE LET c == s.cs[j]
             r == AnList(c.b, Inner(st), [env EXCEPT !.brk = TRUE, !.next = j < Len(s.cs), !.sw = <<s>>])
         IN AnCases(s, j + 1, Outer(st, r), env, IF c.none THEN jumps /\ j < Len(s.cs) ELSE jumps /\ r.jump)

An(s, st, env) ==
    CASE s.k \in {"call", "assert", "setv"} -> st
      [] s.k = "use" -> IF s.x \in st.unw THEN st ELSE Err(st, s.id)
      [] s.k = "seto" -> Need(st, {s.x}, s.id)
      [] s.k \in {"force"} -> Need(st, {s.x}, s.id)
      [] s.k = "rethrow" -> IF env.def # 0 \/ env.fn # "opt" THEN Err(st, s.id) ELSE Need(st, {s.x}, s.id)
      [] s.k = "rethrowc" -> Jump(IF env.def # 0 \/ env.fn # "opt" THEN Err(st, s.id) ELSE st)
      [] s.k \in {"stop", "forcec"} -> Jump(st)
      [] s.k = "return" -> Jump(IF env.def # 0 THEN Err(st, s.id) ELSE st)
      [] s.k = "break" -> Jump(IF s.l = "" /\ ~env.brk THEN Err(st, s.id) ELSE AnJump(s, st, env, LAMBDA x : TRUE))
      [] s.k = "continue" -> Jump(IF s.l = "" /\ ~env.cont THEN Err(st, s.id) ELSE AnJump(s, st, env, LAMBDA x : x.k \in Loops))
      [] s.k = "next" -> Jump(AnNext(s, st, env))
      [] s.k = "block" -> LET r == AnList(s.a, Inner(st), env) IN [Outer(st, r) EXCEPT !.jump = r.jump]
      [] s.k = "ctif" -> AnList(s.a, st, env)
      [] s.k = "if" ->
            LET c == Cond(s.c, Inner(st), s.id)
                in == WithLabel(env, s)
                a == AnList(s.a, Inner(c), in)
                b == AnList(s.b, [Inner(c) EXCEPT !.err = a.err, !.warns = a.warns, !.unw = st.unw \cup CatchVars(s.c)], in)
                left == s.l # "" /\ Breaks(s.a, s.l, FALSE)
                lefts == left \/ (s.l # "" /\ Breaks(s.b, s.l, FALSE))
                u == IF a.jump /\ ~left THEN st.unw \cup CatchVars(s.c) ELSE st.unw
                j == /\ ~lefts
                     /\ \/ a.jump /\ b.jump /\ s.e
                        \/ a.jump /\ s.c.k = "t"
                        \/ b.jump /\ s.e /\ s.c.k = "f"
            IN [Outer(st, b) EXCEPT !.jump = j, !.unw = u]
      [] s.k \in {"while", "for", "foreach"} ->
            LET c == IF s.k = "foreach" THEN Inner(st) ELSE Cond(s.c, Inner(st), s.id)
                r == AnList(s.a, Inner(c), [WithLabel(env, s) EXCEPT !.brk = TRUE, !.cont = TRUE])
            IN [Outer(st, r) EXCEPT !.jump = s.k # "foreach" /\ s.c.k = "t" /\ ~Left(s)]
      [] s.k = "do" ->
            LET r == AnList(s.a, Inner(st), [WithLabel(env, s) EXCEPT !.brk = TRUE, !.cont = TRUE])
                c == Cond(s.c, Outer(st, r), s.id2)
            IN [Outer(st, c) EXCEPT !.jump = s.c.k = "t" /\ ~Left(s)]
      [] s.k = "switch" ->
            LET r == AnCases(s, 1, Inner(st), WithLabel(env, s), Exhaustive(s))
                e == IF s.on = "enum" /\ ~Exhaustive(s) THEN Err(r, s.id) ELSE r
            IN [Outer(st, e) EXCEPT !.jump = r.jump /\ ~Left(s)]
      [] s.k = "defer" ->
            Outer(st, AnList(s.a, Inner(st), [env EXCEPT !.brk = FALSE, !.cont = FALSE, !.next = FALSE, !.sw = <<>>, !.def = s.id]))

Start == [jump |-> FALSE, told |-> FALSE, unw |-> {}, err |-> -1, warns |-> {}]
Verdict(f) == LET r == AnList(f.body, Start, [brk |-> FALSE, cont |-> FALSE, next |-> FALSE, sw |-> <<>>, labels |-> <<>>, def |-> 0, fn |-> f.fn])
              IN IF f.fn = "void" \/ r.jump THEN r ELSE Err(r, 0)
Rule(i) == LET r == Verdict(Cases[i]) IN [err |-> r.err, warns |-> r.warns]

\* ---------------------------------------------------------------- the machine
End == <<0, "end">>
Exit == <<0, "exit">>
First(q, nxt) == IF q = <<>> THEN nxt ELSE <<q[1].id, "in">>
E(f, t, g) == [f |-> f, t |-> t, g |-> g]
Always == [k |-> "any", x |-> "a", y |-> "a"]
G(k, x) == [k |-> k, x |-> x, y |-> x]
\* the edges of a condition
CondEdges(c, from, yes, no) ==
    CASE c.k \in {"c", "cuse", "trynew"} -> {E(from, yes, Always), E(from, no, Always)}
      [] c.k = "t" -> {E(from, yes, Always)} [] c.k = "f" -> {E(from, no, Always)}
      [] c.k = "try" -> {E(from, yes, G("ok", c.x)), E(from, no, G("bad", c.x))}
      [] c.k = "tryc" -> {E(from, yes, G("ok", c.x)), E(from, no, Always)}
      [] c.k \in {"catch", "catchf"} -> {E(from, yes, G("bad", c.x)), E(from, no, G("ok", c.x))}
      [] c.k = "try2" -> {E(from, yes, [k |-> "both", x |-> c.x, y |-> c.y]), E(from, no, [k |-> "either", x |-> c.x, y |-> c.y])}
      [] c.k = "catch2" -> {E(from, yes, [k |-> "either", x |-> c.x, y |-> c.y]), E(from, no, [k |-> "both", x |-> c.x, y |-> c.y])}
RECURSIVE Edges(_, _, _)
EdgesOf(q, nxt, env) == UNION {Edges(q[i], IF i < Len(q) THEN <<q[i + 1].id, "in">> ELSE nxt, env) : i \in 1..Len(q)}
CaseFirst(s, j, nxt) == LET js == {i \in j..Len(s.cs) : ~s.cs[i].none} IN IF js = {} THEN nxt ELSE LET i == CHOOSE i \in js : \A k \in js : i <= k IN First(s.cs[i].b, nxt)
Push(env, s, brk, cont) == [env EXCEPT !.st = Append(@, [s |-> s, brk |-> brk, cont |-> cont])]
\* the innermost enclosing statement for which p holds
Target(env, p(_)) == env.st[CHOOSE i \in 1..Len(env.st) : p(env.st[i].s) /\ \A j \in i + 1..Len(env.st) : ~p(env.st[j].s)]
Edges(s, nxt, env) ==
    LET in == <<s.id, "in">> IN
    CASE s.k \in {"call", "use"} -> {E(in, nxt, Always)}
      [] s.k = "assert" -> {E(in, nxt, Always), E(in, Exit, Always)}
      [] s.k = "seto" -> {E(in, nxt, G("put", s.x)), E(in, nxt, G("spoil", s.x))}
      [] s.k = "setv" -> {E(in, nxt, G("put", s.x))}
      [] s.k \in {"rethrow", "force"} -> {E(in, nxt, G("ok", s.x)), E(in, Exit, G("bad", s.x))}
      [] s.k \in {"rethrowc", "forcec", "stop", "return"} -> {E(in, Exit, Always)}
      [] s.k = "break" -> {E(in, Target(env, LAMBDA x : IF s.l = "" THEN x.k \in Loops \cup {"switch"} ELSE x.l = s.l).brk, Always)}
      [] s.k = "continue" -> {E(in, Target(env, LAMBDA x : x.k \in Loops /\ (s.l = "" \/ x.l = s.l)).cont, Always)}
      [] s.k = "next" ->
            LET t == Target(env, LAMBDA x : x.k = "switch" /\ (s.l = "" \/ x.l = s.l))
                cs == t.s.cs
                js == CASE s.f = "plain" -> {t.cont[2] + 1}
                        [] s.f = "default" -> {j \in 1..Len(cs) : cs[j].d}
                        [] s.f = "val" -> {j \in 1..Len(cs) : s.v \in Range(cs[j].v)}
                        [] OTHER -> 1..Len(cs)
            IN {E(in, CaseFirst(t.s, j, t.brk), Always) : j \in js} \cup (IF s.f = "dyn" /\ ~Exhaustive(t.s) THEN {E(in, t.brk, Always)} ELSE {})
      [] s.k \in {"block", "ctif"} -> {E(in, First(s.a, nxt), Always)} \cup EdgesOf(s.a, nxt, env)
      [] s.k = "defer" -> {E(in, First(s.a, nxt), Always), E(in, nxt, Always)} \cup EdgesOf(s.a, nxt, env)
      [] s.k = "if" -> LET in2 == Push(env, s, nxt, nxt) IN
            CondEdges(s.c, in, First(s.a, nxt), First(s.b, nxt)) \cup EdgesOf(s.a, nxt, in2) \cup EdgesOf(s.b, nxt, in2)
      [] s.k \in {"while", "for"} -> CondEdges(s.c, in, First(s.a, in), nxt) \cup EdgesOf(s.a, in, Push(env, s, nxt, in))
      [] s.k = "foreach" -> {E(in, First(s.a, in), Always), E(in, nxt, Always)} \cup EdgesOf(s.a, in, Push(env, s, nxt, in))
      [] s.k = "do" -> LET w == <<s.id, "while">> IN {E(in, First(s.a, w), Always)} \cup EdgesOf(s.a, w, Push(env, s, nxt, w)) \cup CondEdges(s.c, w, First(s.a, w), nxt)
      [] s.k = "switch" -> {E(in, CaseFirst(s, j, nxt), Always) : j \in 1..Len(s.cs)} \cup (IF Exhaustive(s) THEN {} ELSE {E(in, nxt, Always)})
                           \cup UNION {EdgesOf(s.cs[j].b, nxt, Push(env, s, nxt, <<s.id, j>>)) : j \in 1..Len(s.cs)}
RECURSIVE Uses(_)
Uses(q) == UNION {LET s == q[i] IN
    CASE s.k = "use" -> {<<s.id, s.x>>}
      [] s.k = "if" -> Uses(s.a) \cup Uses(s.b) \cup (IF s.c.k = "cuse" THEN {<<s.id, s.c.x>>} ELSE {})
      [] s.k \in {"while", "for"} -> Uses(s.a) \cup (IF s.c.k = "cuse" THEN {<<s.id, s.c.x>>} ELSE {})
      [] s.k \in {"block", "ctif", "defer", "do", "foreach"} -> Uses(s.a)
      [] s.k = "switch" -> UNION {Uses(s.cs[j].b) : j \in 1..Len(s.cs)}
      [] OTHER -> {} : i \in 1..Len(q)}

\* rule, graph, uses: of the function, they do not change
VARIABLES c, pc, ok, rule, graph, uses
vars == <<c, pc, ok, rule, graph, uses>>
Init == /\ c \in 1..Len(Cases)
        /\ rule = Rule(c)
        /\ LET o == Cases[c].seen IN
           IF rule.err \in Range(o.err) /\ (rule.err # -1 \/ rule.warns = Range(o.warns)) THEN TRUE ELSE PrintT(<<"MISMATCH", c, rule.err, rule.warns>>)
        \* only functions that are accepted run
        /\ rule.err = -1
        /\ graph = EdgesOf(Cases[c].body, End, [st |-> <<>>])
        /\ uses = Uses(Cases[c].body)
        /\ pc = First(Cases[c].body, End) /\ ok \in [Vars -> BOOLEAN]
May(g) == CASE g.k \in {"any", "put", "spoil"} -> TRUE [] g.k = "ok" -> ok[g.x] [] g.k = "bad" -> ~ok[g.x]
            [] g.k = "both" -> ok[g.x] /\ ok[g.y] [] g.k = "either" -> ~ok[g.x] \/ ~ok[g.y]
Next == \E e \in graph : /\ e.f = pc /\ May(e.g) /\ pc' = e.t /\ UNCHANGED <<c, rule, graph, uses>>
                         /\ ok' = CASE e.g.k = "put" -> [ok EXCEPT ![e.g.x] = TRUE] [] e.g.k = "spoil" -> [ok EXCEPT ![e.g.x] = FALSE] [] OTHER -> ok
Spec == Init /\ [][Next]_vars
AlwaysReturns == Cases[c].fn # "void" => pc # End
UsesValues == \A u \in uses : pc = <<u[1], "in">> => ok[u[2]]
DeadNeverRuns == \A n \in rule.warns : pc # <<n, "in">>
=============================================================================
