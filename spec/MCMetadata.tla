----------------------------- MODULE MCMetadata -----------------------------
(***************************************************************************)
(* The contents of a module block (C14): which collections of records and  *)
(* blocks make a module, and what's reported about it, told from the list  *)
(* of what was written.                                                    *)
(***************************************************************************)
EXTENDS Mapper, Json, FiniteSets
CONSTANTS Alphabet, MaxMore
VARIABLES items, base
vars == <<items, base>>

\* The items: <<name, code or block id, fields or records>>.
R(code, f) == [code |-> <<code>>, f |-> f]
Bytes_(s) == [i \in 1..Len(s) |-> FromInt(s[i])]
Rec(x) == CASE x = "version" -> R(1, <<<<2>>>>) [] x = "version0" -> R(1, <<<<>>, <<2>>>>) [] x = "no version" -> R(1, <<>>)
            [] x = "triple" -> R(2, Bytes_(<<97, 45, 98>>)) [] x = "bad triple" -> R(2, Bytes_(<<97, 255>>))
            [] x = "layout" -> R(3, Bytes_(<<101, 45, 83, 56>>)) [] x = "bad layout" -> R(3, Bytes_(<<83, 55>>)) [] x = "no layout" -> R(3, <<>>)
            [] x = "asm" -> R(4, Bytes_(<<110, 10, 10, 195, 169>>)) [] x = "wide asm" -> R(4, <<<<110>>, <<366>>>>)
            [] x = "section" -> R(5, Bytes_(<<46, 97>>)) [] x = "section2" -> R(5, Bytes_(<<46, 98>>)) [] x = "bad section" -> R(5, <<<<0, 1>>, <<66>>>>)
            [] x = "lib" -> R(6, Bytes_(<<108, 97>>)) [] x = "lib2" -> R(6, Bytes_(<<108, 98>>)) [] x = "no lib" -> R(6, <<>>)
            [] x = "gc" -> R(11, Bytes_(<<103, 97>>)) [] x = "gc2" -> R(11, Bytes_(<<103, 98>>)) [] x = "bad gc" -> R(11, Bytes_(<<192, 128>>))
            [] x = "other" -> R(7, <<<<1>>>>) [] x = "far" -> [code |-> <<2, 0, 1>>, f |-> Bytes_(<<97, 98>>)]
B(id, recs) == [id |-> <<id>>, recs |-> recs, subs |-> <<>>]
Sub_(x) == CASE x = "types" -> B(17, <<R(1, <<<<1>>>>), R(2, <<>>)>>) [] x = "bad types" -> B(17, <<R(1, <<<<2>>>>), R(2, <<>>)>>)
             [] x = "values" -> B(14, <<R(1, <<<<1>>, <<2>>>>)>>)
             [] x = "groups" -> B(10, <<R(3, <<<<7>>, <<>>, <<>>, <<18>>>>)>>) [] x = "bad groups" -> B(10, <<R(3, <<<<7>>, <<>>, <<>>, <<1>>>>)>>)
             [] x = "lists" -> B(9, <<R(2, <<<<7>>>>), R(2, <<<<7>>, <<7>>>>)>>) [] x = "no lists" -> B(9, <<>>)
             [] x = "body" -> B(12, <<>>) [] x = "neutral" -> B(15, <<R(1, <<>>)>>)
             [] x = "far types" -> [B(17, <<>>) EXCEPT !.id = <<17, 0, 1>>]
SubNames == {"types", "bad types", "values", "groups", "bad groups", "lists", "no lists", "body", "neutral", "far types"}
MCAll == SubNames \cup {"version", "version0", "no version", "triple", "bad triple", "layout", "bad layout", "no layout", "asm", "wide asm", "section",
          "section2", "bad section", "lib", "lib2", "no lib", "gc", "gc2", "bad gc", "other", "far"}
MCSome == {"types", "values", "groups", "lists", "version", "triple", "layout", "asm", "section", "section2", "lib", "gc", "gc2", "other"}

All_ == base \o items
RECURSIVE Built(_, _)
Built(b, xs) == IF xs = <<>> THEN b
                ELSE Built(IF Head(xs) \in SubNames THEN AddBlock(b, Sub_(Head(xs))) ELSE AddRecord(b, Rec(Head(xs)).code, Rec(Head(xs)).f), Tail(xs))
Block == Built(NewBlock(<<8>>), All_)
Ident == B(13, <<R(1, Bytes_(<<109, 109>>)), R(2, <<<<3>>>>)>>)
Strtab == B(23, <<R(1, Bytes_(<<102, 111>>))>>)
M == ModuleOf([ident |-> Ident, module |-> <<Block>>, strtab |-> <<Strtab>>, symtab |-> <<>>])

\* All of the base, or all but one of its parts.
Init == items = <<>> /\ base \in {<<"version", "types", "values">>, <<"types", "values">>, <<"values", "version">>, <<"types", "version">>}
Next == Len(items) < MaxMore /\ \E x \in Alphabet : items' = Append(items, x) /\ base' = base
Spec == Init /\ [][Next]_vars

Count(S) == Len(SelectSeq(All_, LAMBDA x : x \in S))
Wrong == {"no version", "bad triple", "bad layout", "no layout", "wide asm", "bad section", "no lib", "bad gc", "bad types", "bad groups", "body"}
Legal == /\ Count(Wrong) = 0
         /\ Count({"version", "version0"}) = 1 /\ Count({"types"}) = 1 /\ Count({"values"}) = 1
         /\ Count({"triple"}) <= 1 /\ Count({"layout"}) <= 1 /\ Count({"asm"}) <= 1
         /\ Count({"groups"}) <= 1 /\ Count({"lists", "no lists"}) <= 1
         /\ Count({"lists"}) > 0 => Count({"groups"}) = 1
Accepted == M.ok = Legal
Texts(S) == LET is == SelectSeq(All_, LAMBDA x : x \in S) IN [i \in 1..Len(is) |-> BytesOf(Rec(is[i]).f)]
Reports == M.ok =>
    /\ M.v.producer = <<109, 109>> /\ M.v.epoch = <<3>> /\ M.v.strtab = <<102, 111>> /\ M.v.symtab = <<>>
    /\ M.v.triple = (IF Count({"triple"}) = 1 THEN <<97, 45, 98>> ELSE HostTriple)
    /\ M.v.asm = (IF Count({"asm"}) = 1 THEN <<<<110>>, <<>>, <<195, 169>>>> ELSE <<>>)
    /\ M.v.deplibs = Texts({"lib", "lib2"})
    /\ M.v.ctx.sections = Texts({"section", "section2"}) /\ M.v.ctx.gcs = Texts({"gc", "gc2"})
    /\ M.v.ctx.version = (IF Count({"version"}) = 1 THEN <<2>> ELSE <<>>)
    /\ M.v.ctx.layout.endian = (IF Count({"layout"}) = 1 THEN "Little" ELSE "Big")
    /\ M.v.ctx.types = <<Plain("Void")>>
    /\ Cardinality(M.v.ctx.groups) = Count({"groups"}) /\ Len(M.v.ctx.lists) = 2 * Count({"lists"})
Emit == Len(items) = MaxMore => PrintT("CASE " \o ToJson(<<Block.recs, Block.subs>>))
=============================================================================
