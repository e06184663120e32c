------------------------------ MODULE MCLayout ------------------------------
(***************************************************************************)
(* Data layout strings (C21): the effect of a string is that of its        *)
(* specifications, one after the other; each setting is as last specified. *)
(***************************************************************************)
EXTENDS Layout, Json
CONSTANTS Alphabet, MaxSpecs
VARIABLES specs
vars == <<specs>>

C(s) == CASE s = "e" -> <<101>> [] s = "E" -> <<69>> [] s = "S64" -> <<83, 54, 52>> [] s = "S8" -> <<83, 56>> [] s = "S0" -> <<83, 48>>
          [] s = "P1" -> <<80, 49>> [] s = "G2" -> <<71, 50>> [] s = "A5" -> <<65, 53>>
          [] s = "p:32:32" -> <<112, 58, 51, 50, 58, 51, 50>> [] s = "p1:16:8:16:8" -> <<112, 49, 58, 49, 54, 58, 56, 58, 49, 54, 58, 56>>
          [] s = "p1:8:8" -> <<112, 49, 58, 56, 58, 56>> [] s = "p:8:16:8" -> <<112, 58, 56, 58, 49, 54, 58, 56>>
          [] s = "i8:16" -> <<105, 56, 58, 49, 54>> [] s = "i8:8:32" -> <<105, 56, 58, 56, 58, 51, 50>> [] s = "i8:16:8" -> <<105, 56, 58, 49, 54, 58, 56>>
          [] s = "v8:8" -> <<118, 56, 58, 56>> [] s = "f32:64" -> <<102, 51, 50, 58, 54, 52>> [] s = "a:0:64" -> <<97, 58, 48, 58, 54, 52>>
          [] s = "a:8" -> <<97, 58, 56>> [] s = "a8:8" -> <<97, 56, 58, 56>>
          [] s = "Fi8" -> <<70, 105, 56>> [] s = "Fn16" -> <<70, 110, 49, 54>> [] s = "F8" -> <<70, 56>>
          [] s = "m:e" -> <<109, 58, 101>> [] s = "m:o" -> <<109, 58, 111>> [] s = "m:q" -> <<109, 58, 113>>
          [] s = "n8:16" -> <<110, 56, 58, 49, 54>> [] s = "n32" -> <<110, 51, 50>> [] s = "ni:1:4" -> <<110, 105, 58, 49, 58, 52>>
          [] s = "ni:0" -> <<110, 105, 58, 48>> [] s = "" -> <<>> [] s = "q" -> <<113>> [] s = "i0:8" -> <<105, 48, 58, 56>>
MCAll == {"e", "E", "S64", "S8", "S0", "P1", "G2", "A5", "p:32:32", "p1:16:8:16:8", "p1:8:8", "p:8:16:8", "i8:16", "i8:8:32", "i8:16:8",
          "v8:8", "f32:64", "a:0:64", "a:8", "a8:8", "Fi8", "Fn16", "F8", "m:e", "m:o", "m:q", "n8:16", "n32", "ni:1:4", "ni:0", "", "q", "i0:8"}
Wrong == {"p:8:16:8", "i8:16:8", "a8:8", "F8", "m:q", "ni:0", "", "q", "i0:8", "S0"}

Init == specs = <<>>
Next == Len(specs) < MaxSpecs /\ \E s \in Alphabet : specs' = Append(specs, s)
Spec == Init /\ [][Next]_vars

RECURSIVE Joined(_)
Joined(ss) == IF Len(ss) = 1 THEN C(ss[1]) ELSE C(ss[1]) \o <<45>> \o Joined(Tail(ss))
Text_ == IF specs = <<>> THEN <<>> ELSE Joined(specs)
Lay == LayoutOf(Text_)
\* The last specification among some, or a default.
LastOf(S) == LET is == {i \in 1..Len(specs) : specs[i] \in S} IN
             IF is = {} THEN "" ELSE specs[CHOOSE i \in is : \A j \in is : j <= i]
ErrorsAre == specs # <<>> => (Lay.ok = (\A i \in 1..Len(specs) : specs[i] \notin Wrong))
Settings == (specs # <<>> /\ Lay.ok) =>
    /\ Lay.v.endian = (IF LastOf({"e", "E"}) = "e" THEN "Little" ELSE "Big")
    /\ Lay.v.stack = (CASE LastOf({"S8", "S64"}) = "" -> <<>> [] LastOf({"S8", "S64"}) = "S8" -> <<<<1>>>> [] OTHER -> <<<<8>>>>)
    /\ Lay.v.prog = (IF LastOf({"P1"}) = "" THEN <<>> ELSE <<1>>)
    /\ Lay.v.glob = (IF LastOf({"G2"}) = "" THEN <<>> ELSE <<2>>)
    /\ Lay.v.alloca = (IF LastOf({"A5"}) = "" THEN <<>> ELSE <<5>>)
    /\ Lay.v.fn = (CASE LastOf({"Fi8", "Fn16"}) = "" -> <<>> [] LastOf({"Fi8", "Fn16"}) = "Fi8" -> <<"Independent", <<1>>>>
                     [] OTHER -> <<"MultipleOfFunctionAlign", <<2>>>>)
    /\ Lay.v.mangling = (CASE LastOf({"m:e", "m:o"}) = "" -> "" [] LastOf({"m:e", "m:o"}) = "m:e" -> "Elf" [] OTHER -> "Macho")
    /\ Lay.v.widths = (CASE LastOf({"n8:16", "n32"}) = "" -> <<>> [] LastOf({"n8:16", "n32"}) = "n32" -> <<<<32>>>> [] OTHER -> <<<<8>>, <<16>>>>)
    /\ Lay.v.nonint = (IF LastOf({"ni:1:4"}) = "" THEN <<>> ELSE <<<<1>>, <<4>>>>)
    /\ \A e \in {Lay.v.types[i] : i \in 1..Len(Lay.v.types)} :
         e[1] = "Integer" /\ e[2] = <<8>> => e = (CASE LastOf({"i8:16", "i8:8:32"}) = "" -> <<"Integer", <<8>>, <<1>>, <<1>>>>
                                                   [] LastOf({"i8:16", "i8:8:32"}) = "i8:16" -> <<"Integer", <<8>>, <<2>>, <<2>>>>
                                                   [] OTHER -> <<"Integer", <<8>>, <<1>>, <<4>>>>)
    /\ Len(Lay.v.types) = Len(DefaultTypes) + (IF LastOf({"v8:8"}) = "" THEN 0 ELSE 1)
    /\ Len(Lay.v.ptrs) = 1 + (IF LastOf({"p1:16:8:16:8", "p1:8:8"}) = "" THEN 0 ELSE 1)
\* Specifications of different settings may be swapped.
Commute == (Len(specs) = 2 /\ Lay.ok /\ C(specs[1])[1] # C(specs[2])[1] /\ {C(specs[1])[1], C(specs[2])[1]} # {101, 69}) =>
               LayoutOf(Joined(<<specs[2], specs[1]>>)) = Lay
Emit == Len(specs) = MaxSpecs => PrintT("CASE " \o ToJson(Text_))
=============================================================================
