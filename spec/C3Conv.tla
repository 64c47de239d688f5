------------------------------- MODULE C3Conv -------------------------------
(* Implicit conversions between the numeric types of C3. A case is a function body seen by the type checker:   *)
(* a sequence of statements, each giving an expression where a value of some type is expected. The machine     *)
(* decides for each statement whether it is accepted (Ok and Fits below) and, if so, which value arrives. The   *)
(* recorded run says which statements the compiler rejected and the values the compiled program printed.       *)
(* Integers are digits (C3Num); floats are only given small whole values and are modelled by them.             *)
EXTENDS C3Num

Cases == JsonDeserialize("cases.json")

IsInt(t) == t \in DOMAIN Bits /\ t # "bool"
IsFloat(t) == t \in {"float16", "float", "double"}
Size(t) == IF t = "bool" THEN 1 ELSE IF IsInt(t) THEN Bits[t] \div 8 ELSE CASE t = "float16" -> 2 [] t = "float" -> 4 [] OTHER -> 8

\* the type in which two numbers meet; small ones are promoted for arithmetic
Meet(a, b) == IF IsFloat(a) /\ IsFloat(b) THEN (IF Size(a) >= Size(b) THEN a ELSE b)
              ELSE IF IsFloat(a) THEN a ELSE IF IsFloat(b) THEN b ELSE IF a = b THEN a ELSE Common(a, b)
Prom(t) == IF t = "float16" THEN "float" ELSE IF IsInt(t) THEN Promote(t) ELSE t

RECURSIVE Ty(_)
Ty(e) == CASE e.k \in {"var", "lit", "cast"} -> e.t
           [] e.k = "bin" -> Prom(Meet(Ty(e.l), Ty(e.r)))
           [] e.k = "sh" -> Prom(Ty(e.l))
           [] e.k = "un" -> Prom(Ty(e.l))
           [] e.k = "sel" -> Meet(Ty(e.l), Ty(e.r))
           [] OTHER -> "bool"

RECURSIVE Const(_)
Const(e) == CASE e.k = "lit" -> TRUE [] e.k = "bin" -> Const(e.l) /\ Const(e.r)
              [] e.k \in {"un", "cast", "sh"} -> Const(e.l) [] OTHER -> FALSE

\* ---------------------------------------------------------------- values
IntOf(x) == LET w == Resize(x, 4, TRUE) IN      \* a small number out of digits
            IF Top(w) THEN -(1 + (255 - w[1]) + 256 * (255 - w[2]) + 65536 * (255 - w[3])) ELSE w[1] + 256 * w[2] + 65536 * w[3]
SmallInt(t, x) == IntOf(Resize(x, 5, Signed(t)))
BytesOf(n) == LET p == IF n < 0 THEN -n - 1 ELSE n
                  d == <<p % 256, (p \div 256) % 256, (p \div 65536) % 256, 0>>
              IN IF n < 0 THEN Flip(d) ELSE d
Conv(t, r) == IF r.t = t THEN r
              ELSE IF IsFloat(t) THEN Reg(t, IF IsFloat(r.t) THEN r.v ELSE IF r.t = "bool" THEN r.v[1] ELSE SmallInt(r.t, r.v))
              ELSE IF IsFloat(r.t) THEN (IF t = "bool" THEN Flag(r.v # 0) ELSE Reg(t, Resize(BytesOf(r.v), Width(t), TRUE)))
              ELSE Cast(t, r)
FloatOp(op, x, y) == CASE op = "+" -> x + y [] op = "-" -> x - y [] OTHER -> x * y
RECURSIVE Val(_)
Val(e) == CASE e.k \in {"var", "lit"} -> Reg(e.t, e.v)
            [] e.k = "cast" -> Conv(e.t, Val(e.l))
            [] e.k = "bin" -> LET t == Ty(e)  x == Conv(t, Val(e.l))  y == Conv(t, Val(e.r))
                              IN IF IsFloat(t) THEN Reg(t, FloatOp(e.op, x.v, y.v)) ELSE Reg(t, Arith(e.op, x.v, y.v, t))
            [] e.k = "sh" -> Binary(e.op, Val(e.l), Val(e.r))
            [] e.k = "un" -> LET x == Conv(Ty(e), Val(e.l)) IN IF IsFloat(x.t) THEN Reg(x.t, -x.v) ELSE Unary(e.op, x)
            [] e.k = "sel" -> Conv(Ty(e), IF IsZero(e.c.v) THEN Val(e.r) ELSE Val(e.l))
            [] OTHER -> Binary(e.op, Val(e.l), Val(e.r))

\* ---------------------------------------------------------------- the rules
\* a constant keeps its value in the type
InRange(t, r) == IF IsFloat(t) \/ IsFloat(r.t) THEN TRUE
                 ELSE LET c == Cast(t, r) IN Wide(t, c.v) = Wide(r.t, r.v)
\* an operand is converted to the type of its operator; conversions to the same type leave no trace
As(e, t) == IF Ty(e) = t THEN e ELSE [k |-> "cast", t |-> t, l |-> e]
\* widening is unambiguous: there is no arithmetic inside that could have been widened instead
RECURSIVE Simple(_, _)
Simple(e, toFloat) ==
    Const(e) \/ CASE e.k = "bin" -> /\ e.op \in {"/", "%"} /\ ~(e.op = "/" /\ toFloat)
                                    /\ Simple(As(e.l, Ty(e)), toFloat) /\ Simple(As(e.r, Ty(e)), toFloat)
                  [] e.k = "sel" -> Simple(As(e.l, Ty(e)), toFloat) /\ Simple(As(e.r, Ty(e)), toFloat)
                  [] e.k = "cast" -> e.t # Ty(e.l) \/ Simple(e.l, toFloat)
                  [] e.k = "sh" -> toFloat
                  [] e.k = "un" -> e.op = "~" /\ toFloat
                  [] OTHER -> TRUE
\* every operand that decides the value already fits the narrower type
RECURSIVE Narrow(_, _)
Narrow(e, t) ==
    IF Const(e) THEN InRange(t, Val(e))
    ELSE CASE e.k \in {"bin", "sel"} -> Narrow(As(e.l, Ty(e)), t) /\ Narrow(As(e.r, Ty(e)), t)
           [] e.k \in {"sh", "un"} -> Narrow(As(e.l, Ty(e)), t)
           [] e.k = "cast" -> IF e.t = Ty(e.l) THEN Narrow(e.l, t)
                              ELSE Size(t) >= Size(e.t) \/ e.l.k = "cmp"
                                   \/ (IsInt(e.t) = IsInt(Ty(e.l)) /\ Ty(e.l) # "bool" /\ Narrow(e.l, t))
           [] OTHER -> Size(t) >= Size(Ty(e))
Fits(e, t) ==
    LET s == Ty(e) IN
    CASE s = t -> TRUE
      [] s = "bool" \/ t = "bool" -> FALSE
      [] IsFloat(s) /\ IsInt(t) -> FALSE
      [] IsInt(s) /\ IsFloat(t) -> Simple(e, TRUE)
      [] Size(t) > Size(s) -> Simple(e, IsFloat(t))
      [] OTHER -> IF Const(e) /\ ~InRange(t, Val(e)) THEN FALSE ELSE Size(t) = Size(s) \/ Narrow(e, t)
\* the operands of an operator are converted by the same rules
RECURSIVE Ok(_)
Ok(e) == CASE e.k \in {"var", "lit"} -> TRUE
           [] e.k \in {"cast", "un"} -> Ok(e.l)
           [] e.k = "sh" -> Ok(e.l)
           [] e.k \in {"bin", "sel"} -> LET t == Ty(e) IN Ok(e.l) /\ Ok(e.r) /\ Fits(e.l, t) /\ Fits(e.r, t)
           [] OTHER -> Ok(e.l) /\ Ok(e.r)
Accepted(s) == Ok(s.e) /\ Fits(s.e, s.t)
\* what the variable of type s.t holds: the converted value, or x op= value
Result(s) == LET r == Conv(s.t, Val(s.e)) IN
             IF s.op = "=" THEN r
             ELSE IF IsFloat(s.t) THEN Reg(s.t, FloatOp(s.op, s.x, r.v)) ELSE Reg(s.t, Arith(s.op, s.x, r.v, s.t))

\* ---------------------------------------------------------------- the machine
VARIABLES c, pos, env
cvars == <<c, pos, env>>
B == Cases[c].p
ConvInit == c \in 1..Len(Cases) /\ pos = 1 /\ env = <<>>
Tell(want, got) == PrintT(<<"MISMATCH", c, pos, want, got>>)
Check == /\ pos <= Len(B)
         /\ LET s == B[pos]  o == Cases[c].log[pos]  a == Accepted(s)
                r == IF a THEN Result(s) ELSE <<>>
            IN /\ IF a # o.ok THEN Tell(a, o.ok) ELSE IF a /\ r.v # o.v THEN Tell(r.v, o.v) ELSE TRUE
               /\ env' = Append(env, r)
         /\ pos' = pos + 1
         /\ UNCHANGED c
ConvSpec == ConvInit /\ [][Check]_cvars
\* a rejected statement yields nothing, an accepted one a value of the expected type;
\* widening a non-negative or same-signed value, or a constant in range, keeps it
KeepsValue == \A i \in 1..Len(env) :
    env[i] # <<>> => LET s == B[i]  v == Val(s.e) IN
        /\ env[i].t = s.t
        /\ (s.op = "=" /\ IsInt(s.t) /\ IsInt(v.t) /\ Size(s.t) >= Size(v.t) /\ (Signed(s.t) \/ ~Signed(v.t)) /\ (Size(s.t) > Size(v.t) \/ Signed(s.t) = Signed(v.t)))
              => Wide(s.t, env[i].v) = Wide(v.t, v.v)
=============================================================================
