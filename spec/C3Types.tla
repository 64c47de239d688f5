------------------------------ MODULE C3Types ------------------------------
(* Implicit conversions of variables between the types of C3. A type is a record with a kind:                  *)
(*   num t | bool | void | ptr of | slice of | arr of n | vec of n | dist name of inl | enum name of inl |     *)
(*   struct name inl (the type of its inline member, or void) impl (interfaces) | union name | bits name |      *)
(*   any | iface name | typeid | fault | fn name                                                              *)
(* The machine visits the pairs of types one by one and tells for each whether a variable of the first is      *)
(* accepted where the second is expected; the recorded run holds the verdicts of the compiler.                 *)
EXTENDS C3Num

Case == JsonDeserialize("cases.json")
Types == Case[1].types
Inits == Case[1].init      \* the verdicts for T y = x;
Returns == Case[1].ret     \* and for return x;

Void == [k |-> "void"]
VoidPtr == [k |-> "ptr", of |-> Void]
Ptr(t) == [k |-> "ptr", of |-> t]
NSize(t) == CASE t = "float16" -> 16 [] t = "float" -> 32 [] t = "double" -> 64 [] OTHER -> Bits[t]
NFloat(t) == t \in {"float16", "float", "double"}
\* the inline parent of a user-defined type
Parent(t) == IF t.k = "dist" /\ t.inl THEN t.of ELSE IF t.k = "struct" THEN t.inl ELSE Void
RECURSIVE Subtype(_, _)
Subtype(t, parent) == t = parent \/ (Parent(t) # Void /\ Subtype(Parent(t), parent))
RECURSIVE FlatInline(_)
FlatInline(t) == IF t.k = "dist" /\ t.inl THEN FlatInline(t.of) ELSE t
SameIntSize(a, b) == a.k = "num" /\ b.k = "num" /\ ~NFloat(a.t) /\ ~NFloat(b.t) /\ Bits[a.t] = Bits[b.t] /\ a # b
Listish(t) == t.k \in {"arr", "vec"}

RECURSIVE SizeOf(_)
AlignOf(t) == LET RECURSIVE A(_)
                  A(x) == CASE x.k = "num" -> NSize(x.t) \div 8 [] x.k \in {"bool", "void"} -> 1 [] x.k = "arr" -> A(x.of)
                            [] x.k = "vec" -> SizeOf(x) [] x.k = "dist" -> A(x.of) [] x.k \in {"struct", "union", "bits", "enum"} -> x.al
                            [] OTHER -> 8
              IN A(t)
SizeOf(t) == CASE t.k = "num" -> NSize(t.t) \div 8 [] t.k \in {"bool", "void"} -> 1 [] t.k = "dist" -> SizeOf(t.of)
               [] t.k \in {"arr", "vec"} -> t.n * SizeOf(t.of) [] t.k \in {"slice", "any", "iface"} -> 16 [] OTHER -> 8

\* may a pointer `from` stand for the pointer `to`: "same", "int" (integers of the same size), "align", "no"
RECURSIVE PtrCmp(_, _), ElemCmp(_, _), ListCmp(_, _)
PtrCmp(to, from) ==
    IF to = from \/ to = VoidPtr \/ from = VoidPtr THEN "same"
    ELSE LET tp == to.of  fp == from.of
             weak == IF AlignOf(tp) > AlignOf(fp) THEN "align" ELSE "same"
             asList == IF ~(Listish(fp) /\ Listish(tp)) THEN "no"
                       ELSE IF fp.n = tp.n /\ fp.of = tp.of THEN "same" ELSE ListCmp(fp, tp)
             decay == IF Listish(fp) THEN PtrCmp(to, Ptr(fp.of)) ELSE "no"
         IN CASE Subtype(fp, tp) -> "same"
              [] SameIntSize(tp, fp) -> "int"
              [] asList # "no" -> IF asList = "same" THEN weak ELSE asList
              [] decay = "same" -> weak
              [] tp.k = "ptr" /\ fp.k = "ptr" -> PtrCmp(tp, fp)
              [] OTHER -> "no"
ListCmp(a, b) == IF a.k # b.k \/ a.n # b.n THEN "no" ELSE ElemCmp(a.of, b.of)
ElemCmp(a, b) ==
    CASE a = b -> "same"
      [] (a = Void /\ b = [k |-> "num", t |-> "char"]) \/ (b = Void /\ a = [k |-> "num", t |-> "char"]) -> "same"
      [] a.k = "fn" /\ b = VoidPtr -> "same"
      [] a = VoidPtr /\ b.k = "fn" -> "same"
      [] a.k = "ptr" -> IF b.k = "ptr" THEN PtrCmp(a, b) ELSE "no"
      [] Listish(a) -> IF Listish(b) THEN ListCmp(a, b) ELSE "no"
      [] SameIntSize(a, b) -> "int"
      [] OTHER -> "no"

NumOk(f, t) == IF NFloat(f) THEN NFloat(t) /\ NSize(t) >= NSize(f)
               ELSE NFloat(t) \/ NSize(t) >= NSize(f)
VecElem == {"bool", "num", "ptr", "enum", "typeid", "fault", "fn"}
RECURSIVE UnDist(_)
UnDist(t) == IF t.k = "dist" THEN UnDist(t.of) ELSE t

RECURSIVE Implicit(_, _)
Implicit(f, t) ==
    CASE f = t -> TRUE
      [] f.k = "dist" -> Subtype(f, t) \/ (f.inl /\ Implicit(FlatInline(f), t))
      [] f.k = "enum" -> f.inl /\ Implicit(f.of, t)
      [] f.k = "struct" -> Subtype(f, t)
      [] t.k = "dist" -> FALSE
      [] f.k = "num" /\ t.k = "num" -> NumOk(f.t, t.t)
      [] f.k = "ptr" /\ t.k = "ptr" -> PtrCmp(t, f) = "same"
      [] f.k = "ptr" /\ t.k = "any" -> f # VoidPtr
      [] f.k = "ptr" /\ t.k = "iface" -> f.of.k = "struct" /\ (\E i \in 1..Len(f.of.impl) : f.of.impl[i] = t.name)
      [] f.k = "ptr" /\ t.k = "slice" -> Listish(f.of) /\ (f.of.of = t.of \/ (f.of.of.k = "ptr" /\ t.of.k = "ptr" /\ PtrCmp(t.of, f.of.of) = "same"))
      [] f = VoidPtr /\ t.k = "fn" -> TRUE
      [] f.k = "fn" /\ t.k = "fn" -> f.name = t.name
      [] t = VoidPtr -> f.k \in {"slice", "any", "iface", "fn"}
      [] f.k = "slice" /\ t.k = "ptr" -> PtrCmp(Ptr(f.of), t) = "same"
      [] f.k = "slice" /\ t.k = "slice" -> ElemCmp(t.of, f.of) \in {"same", "int"}
      [] f.k = "arr" /\ t.k = "arr" -> f.n = t.n /\ ElemCmp(t.of, f.of) \in {"same", "int"}
      [] f.k = "vec" /\ t.k = "vec" -> f.n = t.n /\ ((f.of.k = "bool" /\ t.of.k = "num" /\ ~NFloat(t.of.t)) \/ Implicit(f.of, t.of))
      [] f.k = "arr" /\ t.k = "vec" -> f.n = t.n /\ UnDist(f.of).k \in VecElem /\ Implicit([k |-> "vec", of |-> f.of, n |-> f.n], t)
      [] f.k = "vec" /\ t.k = "arr" -> f.n = t.n /\ Implicit([k |-> "arr", of |-> f.of, n |-> f.n], t)
      [] f.k = "iface" /\ t.k = "any" -> TRUE
      [] OTHER -> FALSE

VARIABLES row, col
Init == row \in 1..Len(Types) /\ col = 1
Visit == /\ col <= Len(Types)
         /\ LET f == Types[row]
                t == Types[col]
                a == Implicit(f, t)
                \* a vector may also be initialized by one value for all its elements
                i == a \/ (t.k = "vec" /\ f.k # "struct" /\ Implicit(f, t.of))
            IN IF a # Returns[row][col] \/ i # Inits[row][col]
               THEN PrintT(<<"MISMATCH", 1, row, col, i, Inits[row][col], a, Returns[row][col]>>) ELSE TRUE
         /\ col' = col + 1
         /\ UNCHANGED row
Spec == Init /\ [][Visit]_<<row, col>>
\* conversion is reflexive, and transitive through a type that both sides meet without loss
Reflexive == Implicit(Types[row], Types[row])
NoBool == col <= Len(Types) => (Types[row].k = "bool" /\ Types[col].k # "bool" => ~Implicit(Types[row], Types[col]))
=============================================================================
