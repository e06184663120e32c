----------------------------- MODULE MCTypeTable ----------------------------
(***************************************************************************)
(* The type table (C16): resolving references in any order that respects   *)
(* what they need arrives at what TypesOf says, or is stuck exactly when   *)
(* TypesOf says that the table is in error.                                *)
(***************************************************************************)
EXTENDS TypeTable, Json
CONSTANTS Forms, Size
VARIABLES recs, entries, done, result
vars == <<recs, entries, done, result>>

R(code, f) == [code |-> <<code>>, f |-> [i \in 1..Len(f) |-> FromInt(f[i])]]
Refs == 0..Size         \* one too many
FormsSmall == {R(7, <<8>>), R(2, <<>>)} \cup {R(8, <<r, 0>>) : r \in Refs} \cup {R(18, <<0, r>>) : r \in Refs}
              \cup {R(21, <<0, r, s>>) : r \in Refs, s \in Refs}
FormsAll == FormsSmall \cup {R(11, <<2, r>>) : r \in Refs} \cup {R(12, <<4, r>>) : r \in Refs} \cup {R(12, <<4, r, 1>>) : r \in Refs}
            \cup {R(21, <<1, r>>) : r \in Refs} \cup {R(18, <<1, r, s>>) : r \in Refs, s \in Refs}
            \cup {R(25, <<1>>), R(22, <<>>), R(10, <<>>), R(18, <<1>>), R(5, <<>>)}
Table(rs) == <<R(1, <<Len(rs)>>)>> \o rs

Init == recs = <<>> /\ entries = <<>> /\ done = [i \in 1..Size |-> <<>>] /\ result = Bad
Write == /\ Len(recs) < Size
         /\ \E r \in Forms : recs' = Append(recs, r)
         /\ IF Len(recs') < Size THEN UNCHANGED <<entries, result>>
            ELSE entries' = PassOver(Pass, recs', 1, Len(recs')).entries /\ result' = TypesOf(Table(recs'))
         /\ UNCHANGED done
Written == Len(recs) = Size
Entry(i) == entries[i]
RefsOf(e) == CASE e.k \in {"Pointer", "Array", "FixedVector", "ScalableVector"} -> <<e.t>>
               [] e.k = "Struct" -> e.f
               [] e.k = "Function" -> <<e.ret>> \o e.params
               [] OTHER -> <<>>
Known(r) == SatInt(r) < Size /\ done[SatInt(r) + 1] # <<>>
The(r) == done[SatInt(r) + 1][1]
Made(e) == CASE e.k = "Integer" -> NewInteger(e.w)
             [] e.k = "Pointer" -> NewPointer(The(e.t), e.as)
             [] e.k = "Array" -> NewArray(e.n, The(e.t))
             [] e.k \in {"FixedVector", "ScalableVector"} -> NewVector(e.k, e.n, The(e.t))
             [] e.k = "Struct" -> NewStruct(e.name, [j \in 1..Len(e.f) |-> The(e.f[j])], e.packed)
             [] e.k = "Function" -> NewFunction(The(e.ret), [j \in 1..Len(e.params) |-> The(e.params[j])], e.va)
             [] OTHER -> Good(e)
Ready(i) == done[i] = <<>> /\ \A j \in 1..Len(RefsOf(Entry(i))) : Known(RefsOf(Entry(i))[j])
Resolve(i) == Ready(i) /\ Made(Entry(i)).ok /\ done' = [done EXCEPT ![i] = <<Made(Entry(i)).v>>]
Next == Write \/ (Written /\ (\E i \in 1..Size : Resolve(i)) /\ UNCHANGED <<recs, entries, result>>)
Spec == Init /\ [][Next]_vars

Result == result
Stuck == Written /\ \A i \in 1..Size : Ready(i) => ~Made(Entry(i)).ok
Complete == \A i \in 1..Size : done[i] # <<>>
\* What's resolved is what TypesOf says; all of it is resolved unless TypesOf says it can't be.
Agree == Written =>
         /\ Result.ok => \A i \in 1..Size : done[i] # <<>> => done[i][1] = Result.v[i]
         /\ Stuck => (Result.ok = Complete)
         /\ Complete => Result.ok
Fresh == Written /\ done = [i \in 1..Size |-> <<>>]
\* A table with another number of entries isn't one.
CountMatters == Fresh => ~TypesOf(<<R(1, <<Size + 1>>)>> \o recs).ok /\ ~TypesOf(recs).ok
Emit == Fresh => PrintT("CASE " \o ToJson(recs))
=============================================================================
