------------------------------- MODULE MCCodes ------------------------------
(***************************************************************************)
(* Codes (C24): no two codes of a table stand for the same thing (but for  *)
(* legacy linkages), every entity's own code stands for it, and anything   *)
(* from somewhere on is an error or the default.                           *)
(***************************************************************************)
EXTENDS SupportSM, FiniteSets
VARIABLES table, code
vars == <<table, code, pool, types, ptrs>>

Sizes == ("Linkage" :> 20 @@ "Visibility" :> 3 @@ "DllStorageClass" :> 3 @@ "ThreadLocalMode" :> 5 @@ "UnnamedAddr" :> 3
    @@ "RuntimePreemption" :> 2 @@ "CallingConvention" :> 42 @@ "SelectionKind" :> 5 @@ "ReservedBlockId" :> 8 @@ "IrBlockId" :> 19
    @@ "ReservedAbbrevId" :> 4 @@ "AbbrevOpEnc" :> 5 @@ "BlockInfoCode" :> 3 @@ "IdentificationCode" :> 2 @@ "ModuleCode" :> 17
    @@ "TypeCode" :> 25 @@ "StrtabCode" :> 1 @@ "SymtabCode" :> 1 @@ "AttributeCode" :> 3 @@ "FunctionCode" :> 50 @@ "UnaryOpcode" :> 1
    @@ "BinaryOpcode" :> 13 @@ "RMWOperation" :> 13 @@ "AttributeKind" :> 4 @@ "AttributeId" :> 86)
Total == {"Linkage", "ThreadLocalMode", "UnnamedAddr", "RuntimePreemption"}
Codes_ == 0..130
Far == {<<256>>, <<65535>>, <<0, 1>>, <<1, 1>>, <<65535, 32767>>, <<0, 32768>>, <<1, 32768>>, <<65535, 65535>>, <<0, 0, 1>>, <<1, 0, 1>>, <<8, 0, 1>>, Max64}

Init == SInit /\ table \in DOMAIN Sizes /\ code = 0
Next == code < 130 /\ code' = code + 1 /\ UNCHANGED <<table, pool, types, ptrs>>
Spec == Init /\ [][Next]_vars

Of(c) == CodeOf(table, c)
Valid == {c \in Codes_ : Of(FromInt(c)).ok /\ (table \in Total => (Meaningful(table, FromInt(c)) /\ (table = "Linkage" => c < 20)))}
AsMany == Cardinality(Valid) = Sizes[table]
Injective == (table # "Linkage" /\ code \in Valid) =>
                \A d \in Valid \ {code} : Of(FromInt(d)).v # Of(FromInt(code)).v
OwnCode == Of(FromInt(code)).ok => Of(CodeBack(table, FromInt(code))) = Of(FromInt(code))
Beyond == \A c \in Far : Of(c).ok = (table \in Total)
DefaultBeyond == table \in Total => \A c \in Far : Of(c).v = (CASE table = "Linkage" -> "External" [] table = "ThreadLocalMode" -> "GeneralDynamicTls"
                                                             [] table = "UnnamedAddr" -> "None" [] OTHER -> Of(<<>>).v)
Legacy == (table = "Linkage" /\ code \in 0..19) =>
    \E d \in {0, 2, 3, 7, 8, 9, 12, 16, 17, 18, 19} : Of(FromInt(d)) = Of(FromInt(code))
=============================================================================
