------------------------------- MODULE MCTypes ------------------------------
(***************************************************************************)
(* Which types there are (C17) and which operations they have (C25):       *)
(* everything that can be built in a few steps, judged by LLVM's rules     *)
(* stated once more, as tables of what's forbidden.                        *)
(***************************************************************************)
EXTENDS Opcode, Json
CONSTANTS Depth
VARIABLES t, n
vars == <<t, n>>

Atoms == {Plain(k) : k \in PlainTypes} \cup {[k |-> "Integer", w |-> w] : w \in {<<1>>, <<65535, 255>>}}
         \cup {[k |-> "OpaquePointer", as |-> <<>>]}
Offer(r) == r.ok /\ t' = r.v /\ n' = n + 1
Init == t \in Atoms /\ n = 0
Next == /\ n < Depth
        /\ \/ Offer(NewPointer(t, <<3>>))
           \/ Offer(NewArray(<<2>>, t)) \/ Offer(NewArray(<<>>, t))
           \/ \E k \in {"FixedVector", "ScalableVector"}, c \in {<<>>, <<1>>, <<0, 0, 1>>} : Offer(NewVector(k, c, t))
           \/ \E a \in Atoms : Offer(NewStruct(<<>>, <<a, t>>, TRUE)) \/ Offer(NewStruct(<<<<65, 66>>>>, <<t, a>>, FALSE))
           \/ Offer(NewStruct(<<>>, <<>>, FALSE))
           \/ \E a \in Atoms : Offer(NewFunction(t, <<a>>, TRUE)) \/ Offer(NewFunction(a, <<t, t>>, FALSE))
           \/ Offer(NewFunction(t, <<>>, FALSE))
Spec == Init /\ [][Next]_vars

\* What may not be a part of what.
NotPointee == {"Void", "Label", "Metadata", "Token", "X86Amx"}
NotArray == NotPointee \cup {"Function", "ScalableVector"}
NotField == {"Void", "Label", "Metadata", "Token", "Function"}
NotArgument == {"Void", "Function"}
NotResult == {"Function", "Label", "Metadata"}
OnlyVector == Floating \cup {"Integer", "Pointer", "OpaquePointer"}

RECURSIVE WellFormed(_)
WellFormed(x) ==
    CASE x.k \in PlainTypes -> TRUE
      [] x.k = "Integer" -> Lt(<<>>, x.w) /\ Lt(x.w, <<0, 256>>)
      [] x.k = "OpaquePointer" -> Lt(x.as, <<0, 128>>)
      [] x.k = "Pointer" -> Lt(x.as, <<0, 128>>) /\ x.t.k \notin NotPointee /\ WellFormed(x.t)
      [] x.k = "Array" -> x.t.k \notin NotArray /\ WellFormed(x.t)
      [] x.k \in {"FixedVector", "ScalableVector"} -> x.n # <<>> /\ x.t.k \in OnlyVector /\ WellFormed(x.t)
      [] x.k = "Struct" -> \A i \in 1..Len(x.f) : x.f[i].k \notin NotField /\ WellFormed(x.f[i])
      [] x.k = "Function" -> /\ x.ret.k \notin NotResult /\ WellFormed(x.ret)
                             /\ \A i \in 1..Len(x.params) : x.params[i].k \notin NotArgument /\ WellFormed(x.params[i])
OnlyLegal == WellFormed(t)
PredicatesAgree ==
    /\ IsPointee(t) = NewPointer(t, <<>>).ok
    /\ IsArrayElement(t) = NewArray(<<7>>, t).ok
    /\ IsVectorElement(t) = NewVector("FixedVector", <<7>>, t).ok /\ ~NewVector("ScalableVector", <<>>, t).ok
    /\ IsStructElement(t) = NewStruct(<<>>, <<t>>, FALSE).ok
    /\ IsReturn(t) = NewFunction(t, <<>>, FALSE).ok
    /\ IsArgument(t) = NewFunction(Plain("Void"), <<t>>, FALSE).ok
    \* rules that LLVM's own headers state as implications
    /\ IsVectorElement(t) => IsArrayElement(t)
    /\ IsArrayElement(t) => IsStructElement(t) /\ IsPointee(t)
    /\ ~(IsFloating(t) /\ IsInteger(t))

\* C25: the operations of a type, by code.
Exists(code, x) ==
    LET s == Scalar(x) IN
    \/ IsInteger(s) /\ code \in 0..12
    \/ IsFloating(s) /\ code \in {0, 1, 2, 4, 6}
OperationsAgree ==
    \A code \in 0..14 :
        /\ BinaryOp(FromInt(code), t).ok = Exists(code, t)
        /\ BinaryOp(FromInt(code), t).ok =>
             \* No two codes select the same operation, and no operation serves both kinds of operands.
             /\ \A d \in 0..12 : (d # code /\ BinaryOp(FromInt(d), t).ok) => BinaryOp(FromInt(d), t).v # BinaryOp(FromInt(code), t).v
             /\ IsFloating(Scalar(t)) => BinaryOp(FromInt(code), t).v # BinaryOp(FromInt(code), [k |-> "Integer", w |-> <<8>>]).v
Emit == PrintT("CASE " \o ToJson(t))
=============================================================================
