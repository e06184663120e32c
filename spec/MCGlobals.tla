----------------------------- MODULE MCGlobals ------------------------------
(***************************************************************************)
(* String table lookups (C15) and the records that refer to everything     *)
(* else (C19, C20): an operand decides its own field of what's reported,   *)
(* and no other; or the record is refused.                                 *)
(***************************************************************************)
EXTENDS Globals, Types, Json
VARIABLES kind, f, moved, g
vars == <<kind, f, moved, g>>

Tab == <<102, 111, 195, 169, 98>>
I8 == [k |-> "Integer", w |-> <<8>>]
Fn == [k |-> "Function", ret |-> Plain("Void"), params |-> <<>>, va |-> FALSE]
Fn2 == [k |-> "Function", ret |-> I8, params |-> <<I8>>, va |-> TRUE]
Ctx == [version |-> <<2>>, strtab |-> Tab, sections |-> <<<<115>>, <<116>>>>, gcs |-> <<<<103>>>>,
        types |-> <<Fn, I8, Fn2>>, lists |-> <<<<>>, <<[at |-> "x", attrs |-> <<>>]>>>>]
Base(k) == [i \in 1..(CASE k = "fn" -> 15 [] k = "alias" -> 11 [] k = "comdat" -> 3) |->
              IF i = 2 THEN <<2>> ELSE IF i = 3 /\ k = "comdat" THEN <<1>> ELSE <<>>]
Values == {<<>>, <<1>>, <<2>>, <<3>>, <<4>>, <<5>>, <<9>>, <<17>>, <<64>>, <<65>>, <<70>>, <<256>>, <<1, 1>>, <<0, 0, 1>>, <<2, 0, 1>>,
           <<65535, 65535>>, Max64}
Of(k, x) == CASE k = "fn" -> FunctionOf(Ctx, [f |-> x]) [] k = "alias" -> AliasOf(Ctx, [f |-> x]) [] k = "comdat" -> ComdatOf(Ctx, [f |-> x])
\* The field that an operand decides.
Decides(k, i) ==
    CASE i \in 1..2 -> {"name"}
      [] k = "fn" -> (CASE i = 3 -> {"ty"} [] i = 4 -> {"cc"} [] i = 5 -> {"decl"} [] i = 6 -> {"linkage"} [] i = 7 -> {"attrs"}
                        [] i = 8 -> {"align"} [] i = 9 -> {"section"} [] i = 10 -> {"vis"} [] i = 11 -> {"gc"} [] i = 12 -> {"unnamed"}
                        [] i = 14 -> {"dll"} [] OTHER -> {})
      [] k = "alias" -> (CASE i = 3 -> {"ty"} [] i = 5 -> {"val"} [] i = 6 -> {"linkage"} [] i = 7 -> {"vis"} [] i = 8 -> {"dll"}
                           [] i = 9 -> {"tls"} [] i = 10 -> {"unnamed"} [] i = 11 -> {"preempt"} [] OTHER -> {})
      [] k = "comdat" -> {"kind"}

\* f is a legal record in which one operand changes, giving g; f itself differs from the base in another.
Init == /\ kind \in {"fn", "alias", "comdat"} /\ moved = 0
        /\ \E i \in 1..Len(Base(kind)), v \in Values : f = [Base(kind) EXCEPT ![i] = v]
        /\ g = f /\ Of(kind, f).ok
Next == /\ moved = 0 /\ UNCHANGED <<kind, f>>
        /\ moved' \in 1..Len(f) /\ \E v \in Values : g' = [f EXCEPT ![moved'] = v]
Spec == Init /\ [][Next]_vars

Local == LET a == Of(kind, f)  b == Of(kind, g) IN
         (moved > 0 /\ b.ok) => \A x \in DOMAIN a.v : x \notin Decides(kind, moved) => a.v[x] = b.v[x]
\* Operands at the end that are absent are as if they were zero.
Absent == \A n \in (CASE kind = "fn" -> 10 [] kind = "alias" -> 6 [] OTHER -> 3)..Len(g) :
            (\A i \in (n + 1)..Len(g) : g[i] = <<>>) => Of(kind, SubSeq(g, 1, n)) = Of(kind, g)
Short == \A n \in 0..(CASE kind = "fn" -> 9 [] kind = "alias" -> 5 [] OTHER -> 2) : ~Of(kind, SubSeq(g, 1, n)).ok
\* Records of older formats spell their operands differently.
Version == \A v \in {<<>>, <<1>>} :
            LET c == [Ctx EXCEPT !.version = v]  r == [f |-> g] IN
            ~FunctionOf(c, r).ok /\ ~AliasOf(c, r).ok /\ ~ComdatOf(c, r).ok
\* C15, for the first two operands of any record.
Inside ==
    LET r == Lookup(Tab, g[1], g[2]) IN
    r.ok = (\E o \in 0..4, s \in 1..5 : o + s <= 5 /\ g[1] = FromInt(o) /\ g[2] = FromInt(s)
                                        /\ ~(o = 3 \/ o + s = 3))
    /\ r.ok => Len(r.v) = ToInt(g[2]) /\ \A i \in 1..Len(r.v) : r.v[i] = Tab[ToInt(g[1]) + i]
Emit == PrintT("CASE " \o ToJson(<<kind, g, Of(kind, g).ok>>))
=============================================================================
