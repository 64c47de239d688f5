------------------------------- MODULE C3Int -------------------------------
(* The integer machine of C3. A program is a list of instructions, each computing a new register; the state is *)
(* the register file. A register has a type and the bytes of its value in two's complement, least significant *)
(* first, so the arithmetic is defined digit by digit (base 256) for every width from 8 to 128 bits.          *)
(* A case holds a program and the log of a real run (constants folded by the compiler, or executed at some     *)
(* optimization level): for each instruction the type that the compiler gave its result and its bytes.         *)
EXTENDS C3Num

Cases == JsonDeserialize("cases.json")

Eval(i, R) ==
    CASE i.k = "lit" -> Reg(i.t, i.v)
      [] i.k = "bin" -> Binary(i.op, R[i.a], R[i.b])
      [] i.k = "un" -> Unary(i.op, R[i.a])
      [] i.k = "cast" -> Cast(i.t, R[i.a])
      [] i.k = "set" -> Assign(i.op, R[i.a], R[i.b])
      [] i.k = "inc" -> Reg(R[i.a].t, IF i.op = "++" THEN Plus(R[i.a].v, One(Len(R[i.a].v))) ELSE Minus(R[i.a].v, One(Len(R[i.a].v))))
      [] i.k = "sel" -> LET t == Common(R[i.a].t, R[i.b].t) IN Cast(t, IF IsZero(R[i.c].v) THEN R[i.b] ELSE R[i.a])
      [] i.k = "fn1" -> Intrinsic(i.op, R[i.a])
      [] OTHER -> Intrinsic2(i.op, R[i.a], R[i.b])

\* ------------------------------------------------------------------ the machine
VARIABLES c, pc, regs
vars == <<c, pc, regs>>
P == Cases[c].p
Log == Cases[c].log
Init == c \in 1..Len(Cases) /\ pc = 1 /\ regs = <<>>
Report(want, got) == PrintT(<<"MISMATCH", c, pc, want.t, want.v, got.t, got.v>>)
Execute == /\ pc <= Len(P)
           /\ LET r == Eval(P[pc], regs)   o == Log[pc]
                  agree == r.t = o.t /\ r.v = o.v
              IN /\ IF agree THEN TRUE ELSE Report(r, o)
                 /\ regs' = Append(regs, r)
                 /\ pc' = IF agree THEN pc + 1 ELSE Len(P) + 1
           /\ UNCHANGED c
Spec == Init /\ [][Execute]_vars
\* every register holds a value of its type
TypeOK == \A i \in 1..Len(regs) : Len(regs[i].v) = Width(regs[i].t)
                                  /\ \A j \in 1..Len(regs[i].v) : regs[i].v[j] \in 0..255
BoolOK == \A i \in 1..Len(regs) : regs[i].t = "bool" => regs[i].v[1] \in {0, 1}
=============================================================================
