----------------------------- MODULE C3Threads -----------------------------
(* std::thread: channels, mutexes, condition variables, once-flags, pools and threads as atomic objects.       *)
(* An operation begins with its call, takes effect in one or more internal steps and ends with its return; a   *)
(* history of calls and returns is right when the internal steps can be placed so that the object explains     *)
(* every result (linearizability), and a run in which nothing can go on is right only when every operation     *)
(* that has not returned is one that has to wait. k is <<kind, parameter, parameter 2>>; an event is           *)
(* <<thread, type, operation, value>>.                                                                          *)
EXTENDS TraceLib

CLOSED == -1000000
LOCK_FAILED == -1000001
LOCK_TIMEOUT == -1000002
UNLOCK_FAILED == -1000003
WAIT_FAILED == -1000005
WAIT_TIMEOUT == -1000006
INIT_FAILED == -1000009
DESTROY_FAILED == -1000010
QUEUE_FULL == -1000012
Threads == 0..23
Idle(res, arg) == [k |-> "idle", r |-> res, a |-> arg]
Pending(op, a) == [k |-> "pend", op |-> op, a |-> a, ph |-> 0]
Done(p, r) == [k |-> "done", op |-> p.op, a |-> p.a, r |-> r]
NoSlots == [j \in 0..15 |-> 0]

Object(k) ==
  CASE k[1] \in {1, 2} -> [q |-> <<>>, closed |-> FALSE]
    [] k[1] \in {3, 4, 5, 6} -> [owner |-> -1, count |-> 0]
    [] k[1] = 7 -> [owner |-> -1, count |-> 0, sp |-> k[3]]
    [] k[1] = 8 -> [st |-> 0]
    [] k[1] \in {9, 10} -> [live |-> k[4] = 1, queue |-> {}, deq |-> {}, run |-> {}, fin |-> {}, now |-> FALSE]
    [] k[1] = 11 -> NoSlots
Start(k) == {[o |-> Object(k), p |-> [t \in Threads |-> Idle(0, 0)]]}

Fin(s, t, o, r) == {[s EXCEPT !.o = o, !.p[t] = Done(s.p[t], r)]}
Phase(s, t, o, n) == {[s EXCEPT !.o = o, !.p[t].ph = n]}

\* ---- channels
BufferedStep(k, s, t, p, o) ==
  CASE p.op = 1 -> IF o.closed THEN Fin(s, t, o, CLOSED)
                   ELSE IF Len(o.q) < k[2] THEN Fin(s, t, [o EXCEPT !.q = Append(o.q, p.a)], 0) ELSE {}
    [] p.op = 2 -> IF o.q # <<>> THEN Fin(s, t, [o EXCEPT !.q = Tail(o.q)], o.q[1])
                   ELSE IF o.closed THEN Fin(s, t, o, CLOSED) ELSE {}
    [] p.op = 3 -> Fin(s, t, [o EXCEPT !.closed = TRUE], 0)
\* a push offers its value and ends when a pop has taken it
UnbufferedStep(k, s, t, p, o) ==
  CASE p.op = 1 /\ p.ph = 0 -> IF o.closed THEN Fin(s, t, o, CLOSED)
                               ELSE IF o.q = <<>> THEN Phase(s, t, [o EXCEPT !.q = <<p.a, t>>], 1) ELSE {}
    [] p.op = 1 /\ p.ph = 1 -> IF o.closed THEN Fin(s, t, [o EXCEPT !.q = <<>>], CLOSED) ELSE {}
    [] p.op = 1 /\ p.ph = 2 -> Fin(s, t, o, 0)
    [] p.op = 2 -> (IF o.q # <<>> THEN {[s EXCEPT !.o = [o EXCEPT !.q = <<>>], !.p[t] = Done(p, o.q[1]), !.p[o.q[2]].ph = 2]} ELSE {})
                   \union (IF o.closed THEN Fin(s, t, o, CLOSED) ELSE {})
    [] p.op = 3 -> Fin(s, t, [o EXCEPT !.closed = TRUE], 0)

\* ---- mutexes (kind 3 plain, 4 recursive, 5 timed, 6 timed recursive; error checking because of safe mode)
Recursive(k) == k[1] \in {4, 6}
Take1(s, t, o, r) == Fin(s, t, [o EXCEPT !.owner = t, !.count = o.count + 1], r)
MutexStep(k, s, t, p, o) ==
  LET can == o.owner = -1 \/ (o.owner = t /\ Recursive(k))
  IN CASE p.op = 10 -> IF can THEN Take1(s, t, o, 0) ELSE IF o.owner = t THEN Fin(s, t, o, LOCK_FAILED) ELSE {}
       [] p.op = 11 -> IF o.owner # t THEN Fin(s, t, o, UNLOCK_FAILED)
                       ELSE Fin(s, t, [o EXCEPT !.owner = IF o.count = 1 THEN -1 ELSE t, !.count = o.count - 1], 0)
       [] p.op = 12 -> IF can THEN Take1(s, t, o, 1) ELSE Fin(s, t, o, 0)
       [] p.op = 13 -> IF can THEN Take1(s, t, o, 0) ELSE Fin(s, t, o, LOCK_TIMEOUT)

\* ---- condition variables: phase 1 waits, phase 2 was woken, phase 3 timed out
Waiters(s) == {t \in Threads : s.p[t].k = "pend" /\ s.p[t].op \in {14, 17} /\ s.p[t].ph = 1}
CondStep(k, s, t, p, o) ==
  CASE p.op \in {14, 17} /\ p.ph = 0 -> IF o.owner = t THEN Phase(s, t, [o EXCEPT !.owner = -1, !.count = 0], 1) ELSE Fin(s, t, o, WAIT_FAILED)
    [] p.op \in {14, 17} /\ p.ph = 1 -> (IF o.sp > 0 THEN Phase(s, t, [o EXCEPT !.sp = o.sp - 1], 2) ELSE {})
                                        \union (IF p.op = 17 THEN Phase(s, t, o, 3) ELSE {})
    [] p.op \in {14, 17} /\ p.ph > 1 -> IF o.owner = -1 THEN Take1(s, t, o, IF p.ph = 2 THEN 0 ELSE WAIT_TIMEOUT) ELSE {}
    [] p.op = 15 -> IF Waiters(s) = {} THEN Fin(s, t, o, 0)
                    ELSE {[s EXCEPT !.p[w].ph = 2, !.p[t] = Done(p, 0)] : w \in Waiters(s)}
    [] p.op = 16 -> {[s EXCEPT !.p = [w \in Threads |-> IF w = t THEN Done(p, 0)
                                                         ELSE IF w \in Waiters(s) THEN [s.p[w] EXCEPT !.ph = 2] ELSE s.p[w]]]}
    [] OTHER -> MutexStep(k, s, t, p, o)

\* ---- once: phase 1 has begun the call, 2 is inside, 3 has finished it
OnceStep(k, s, t, p, o) ==
  CASE p.ph = 0 /\ o.st = 2 -> Fin(s, t, o, 0)
    [] p.ph = 0 /\ o.st = 0 -> Phase(s, t, [o EXCEPT !.st = 1], 1)
    [] p.ph = 3 -> Fin(s, t, o, 0)
    [] OTHER -> {}

\* ---- pools: tasks are queued, taken by one of the k[2] threads, run and finished
Capacity(k) == IF k[1] = 9 THEN k[2] ELSE IF k[3] = 0 THEN 32 * k[2] ELSE k[3]
PoolStep(k, s, t, p, o) ==
  CASE p.op \in {30, 33, 34} ->
         LET task == IF p.op = 34 THEN 0 ELSE p.a
         IN IF Cardinality(o.queue) < Capacity(k) THEN Fin(s, t, [o EXCEPT !.queue = @ \union {task}], 0)
            ELSE IF k[1] = 10 THEN Fin(s, t, o, QUEUE_FULL) ELSE {}
    [] p.op = 31 -> IF o.queue = {} /\ o.deq = {} /\ o.run = {} THEN Fin(s, t, [o EXCEPT !.live = FALSE], 0) ELSE {}
    [] p.op = 32 /\ p.ph = 0 -> Phase(s, t, [o EXCEPT !.now = TRUE], 1)
    [] p.op = 32 /\ p.ph = 1 -> IF o.deq = {} /\ o.run = {} THEN Fin(s, t, [o EXCEPT !.live = FALSE, !.queue = {}], 0) ELSE {}
    [] p.op = 35 -> IF k[5] = 1 THEN Fin(s, t, o, INIT_FAILED) ELSE Fin(s, t, [o EXCEPT !.live = TRUE], 0)
Dequeue(k, s, o) ==
  IF o.live /\ ~o.now /\ Cardinality(o.deq) + Cardinality(o.run) < k[2]
  THEN {[s EXCEPT !.o = [o EXCEPT !.queue = @ \ {q}, !.deq = @ \union {q}]] : q \in o.queue} ELSE {}

\* ---- threads: 1 created, 2 running, 3 ended, 4 joined or detached
ThreadStep(k, s, t, p, o) ==
  CASE p.op = 40 -> Fin(s, t, [o EXCEPT ![p.a] = 1], 0)
    [] p.op = 41 -> IF o[p.a] = 3 THEN Fin(s, t, [o EXCEPT ![p.a] = 4], p.a * 7 - 5) ELSE {}
    [] p.op = 42 -> Fin(s, t, o, 0)

Steps(k, s) ==
  UNION {LET p == s.p[t]
         IN IF p.k # "pend" THEN {}
            ELSE CASE k[1] = 1 -> BufferedStep(k, s, t, p, s.o)
                   [] k[1] = 2 -> UnbufferedStep(k, s, t, p, s.o)
                   [] k[1] \in 3..6 -> MutexStep(k, s, t, p, s.o)
                   [] k[1] = 7 -> CondStep(k, s, t, p, s.o)
                   [] k[1] = 8 -> OnceStep(k, s, t, p, s.o)
                   [] k[1] \in {9, 10} -> PoolStep(k, s, t, p, s.o)
                   [] k[1] = 11 -> ThreadStep(k, s, t, p, s.o) : t \in Threads}
  \union (IF k[1] \in {9, 10} THEN Dequeue(k, s, s.o) ELSE {})

RECURSIVE Reach(_, _, _)
Reach(k, all, frontier) ==
  IF frontier = {} THEN all
  ELSE LET new == (UNION {Steps(k, s) : s \in frontier}) \ all IN Reach(k, all \union new, new)
Closure(k, S) == Reach(k, S, S)

\* what an event observes inside the object
Observe(k, S, a) ==
  LET t == a[1] type == a[2] op == a[3] v == a[4]
  IN CASE type = 0 -> {[s EXCEPT !.p[t] = Pending(op, v)] : s \in S}
       [] type = 1 -> LET C == Closure(k, S)
                      IN {[s EXCEPT !.p[t] = Idle(v, s.p[t].a)] : s \in {x \in C : x.p[t].k = "done" /\ x.p[t].op = op /\ x.p[t].r = v}}
       \* the time an operation with a time limit took: a time-out never comes early (and when alone, not late)
       [] type = 3 -> {s \in S : s.p[t].r \in {LOCK_TIMEOUT, WAIT_TIMEOUT} =>
                                   v >= s.p[t].a /\ (k[2] = 1 => v <= s.p[t].a + 10)}
       [] type = 4 /\ k[1] = 8 -> {[s EXCEPT !.p[t].ph = 2] : s \in {x \in Closure(k, S) : x.p[t].k = "pend" /\ x.p[t].ph = 1}}
       [] type = 5 /\ k[1] = 8 -> {[s EXCEPT !.p[t].ph = 3, !.o.st = 2] : s \in {x \in S : x.p[t].k = "pend" /\ x.p[t].ph = 2}}
       [] type = 4 /\ k[1] \in {9, 10} -> {[s EXCEPT !.o.deq = @ \ {op}, !.o.run = @ \union {op}] : s \in {x \in Closure(k, S) : op \in x.o.deq}}
       [] type = 5 /\ k[1] \in {9, 10} -> {[s EXCEPT !.o.run = @ \ {op}, !.o.fin = @ \union {op}] : s \in {x \in S : op \in x.o.run}}
       [] type = 4 /\ k[1] = 11 -> {[s EXCEPT !.o[op] = 2] : s \in {x \in Closure(k, S) : x.o[op] = 1}}
       [] type = 5 /\ k[1] = 11 -> {[s EXCEPT !.o[op] = 3] : s \in {x \in S : x.o[op] = 2}}
       [] type = 7 -> {s \in Closure(k, S) : \A u \in Threads : s.p[u].k = "idle"}
       \* a mutex that is held is not destroyed; nothing is left allocated
       [] type = 8 -> {s \in S : op = 0 /\ v = IF k[1] \in 3..7 /\ s.o.owner # -1 THEN DESTROY_FAILED ELSE 0}
       [] OTHER -> {}
Step(k, S, a, res) == LET T == Observe(k, S, a) IN [ok |-> T # {}, s |-> T, w |-> "no behaviour of the object explains this event"]

\* the end of a run: nothing can go on, so whatever is left must be waiting for something that does not come
Stuck(k, s) == /\ Steps(k, s) = {}
               /\ \A t \in Threads : s.p[t].k # "done"
               /\ k[1] \in {9, 10} => s.o.deq = {} /\ s.o.run = {}
               /\ k[1] = 11 => \A j \in 0..15 : s.o[j] \in {0, 3, 4}
EndOk(k, S, f) == f = <<0, 0>> /\ \E s \in Closure(k, S) : Stuck(k, s)
----------------------------------------------------------------------------
VARIABLES c, i, s
vars == <<c, i, s>>
Init == c \in 1..Len(Cases) /\ i = 1 /\ s = Start(Cases[c].k)
Fail(want, got) == PrintT(<<"MISMATCH", c, i, want, got>>) /\ i' = 1000000 /\ UNCHANGED <<c, s>>
Next == \/ /\ i <= Len(Cases[c].o)
           /\ LET t == Step(Cases[c].k, s, Cases[c].o[i], <<>>)
              IN IF t.ok THEN i' = i + 1 /\ s' = t.s /\ UNCHANGED c ELSE Fail(t.w, Cases[c].o[i])
        \/ /\ i = Len(Cases[c].o) + 1 /\ Cases[c].e = 1
           /\ IF EndOk(Cases[c].k, s, Cases[c].f) THEN i' = i + 1 /\ UNCHANGED <<c, s>>
              ELSE Fail("the run must not end like this", Cases[c].f)
Spec == Init /\ [][Next]_vars
=============================================================================
