---------------------------- MODULE MCAttributes ----------------------------
(***************************************************************************)
(* Attribute groups (C18): what a writer emits, attribute by attribute, is *)
(* what's decoded; and a record cut short is an error or a shorter list.   *)
(***************************************************************************)
EXTENDS Attributes, Json
CONSTANTS Alphabet, MaxAttrs
VARIABLES attrs, fields, pos
vars == <<attrs, fields, pos>>

Name(n) == CHOOSE i \in 1..Len(AttributeNames) : AttributeNames[i] = n
Str(s) == [i \in 1..Len(s) |-> <<s[i]>>] \o <<<<>>>>
\* <<what's meant, what's written>>
Enums == {<<[k |-> "enum", n |-> n], <<<<>>, FromInt(Name(n))>>>> : n \in {"AlwaysInline", "UwTable", "NoUnwind", "SkipProfile"}}
IntAttr(n, payload, raw) == <<[k |-> "int", n |-> n, v |-> payload], <<<<1>>, FromInt(Name(n)), raw>>>>
IntAttrs == { IntAttr("Alignment", <<<<8>>>>, <<8>>), IntAttr("StackAlignment", <<>>, <<>>),
          IntAttr("Dereferenceable", <<<<>>>>, <<>>), IntAttr("DereferenceableOrNull", <<<<0, 0, 1>>>>, <<0, 0, 1>>),
          IntAttr("AllocSize", <<<<3>>>>, <<65535, 65535, 3>>), IntAttr("AllocSize", <<<<>>, <<1>>>>, <<1>>),
          IntAttr("VScaleRange", <<<<2>>, <<4>>>>, <<4, 0, 2>>), IntAttr("VScaleRange", <<<<1>>, <<>>>>, <<0, 0, 1>>),
          IntAttr("UwTable", <<<<2>>>>, <<2>>), IntAttr("AllocKind", <<<<9>>>>, <<9>>), IntAttr("Memory", <<<<3>>>>, <<3>>) }
Strs == { <<[k |-> "str", key |-> <<97>>], <<<<3>>>> \o Str(<<97>>)>>,
          <<[k |-> "kv", key |-> <<97, 98>>, val |-> <<99>>], <<<<4>>>> \o Str(<<97, 98>>) \o Str(<<99>>)>>,
          <<[k |-> "kv", key |-> <<3>>, val |-> <<195, 169>>], <<<<4>>>> \o Str(<<3>>) \o Str(<<195, 169>>)>> }
MCAll == Enums \cup IntAttrs \cup Strs
MCSome == {x \in MCAll : x[1].k # "int" \/ x[1].n \in {"AllocSize", "VScaleRange", "UwTable"}}

Init == attrs = <<>> /\ fields = <<>> /\ pos \in {<<>>, <<65535, 65535>>, <<1>>, <<65534, 65535>>}
Next == /\ Len(attrs) < MaxAttrs
        /\ \E a \in Alphabet : attrs' = Append(attrs, a[1]) /\ fields' = fields \o a[2]
        /\ UNCHANGED pos
Spec == Init /\ [][Next]_vars

Rec(fs) == [code |-> <<3>>, f |-> <<<<7>>, pos>> \o fs]
At == CASE pos = <<>> -> [p |-> "Return", i |-> <<>>] [] pos = <<65535, 65535>> -> [p |-> "Function", i |-> <<>>]
        [] OTHER -> [p |-> "Parameter", i |-> pos]
RoundTrip == attrs # <<>> => GroupOf(Rec(fields)) = Good([id |-> <<7>>, at |-> At, attrs |-> attrs])
Truncated == \A n \in 0..(Len(fields) - 1) :
                LET g == GroupOf(Rec(SubSeq(fields, 1, n))) IN
                g.ok => Len(g.v.attrs) < Len(attrs) /\ g.v.attrs = SubSeq(attrs, 1, Len(g.v.attrs))
\* No other record is one.
OtherCodes == \A code \in {<<>>, <<1>>, <<2>>, <<4>>} : ~GroupOf([Rec(fields) EXCEPT !.code = code]).ok
Emit == Len(attrs) = MaxAttrs => PrintT("CASE " \o ToJson(<<pos, fields>>))
=============================================================================
