-------------------------------- MODULE Types -------------------------------
(***************************************************************************)
(* LLVM's types: which ones exist, and what may be built from them (C17).  *)
(*                                                                         *)
(* A type is a record whose field k says what it is:                       *)
(*   a name of PlainTypes; "Integer" w; "OpaquePointer" as;                *)
(*   "Pointer" t as; "Array"/"FixedVector"/"ScalableVector" n t;           *)
(*   "Struct" name (<<>> or <<bytes>>) f packed; "Function" ret params va  *)
(***************************************************************************)
EXTENDS Result

Floating == {"Half", "BFloat", "Float", "Double", "X86Fp80", "Fp128", "PpcFp128"}
PlainTypes == Floating \cup {"Void", "Label", "Metadata", "X86Mmx", "X86Amx", "Token"}
Plain(k) == [k |-> k]

MaxWidth == 16777215            \* 2^24 - 1
MaxAddressSpace == 8388607      \* 2^23 - 1

\* ---- predicates -----------------------------------------------------------
IsFloating(t) == t.k \in Floating
IsInteger(t) == t.k = "Integer"
Scalar(t) == IF t.k \in {"FixedVector", "ScalableVector"} THEN t.t ELSE t
IsPointee(t) == t.k \notin {"Void", "Label", "Metadata", "Token", "X86Amx"}
IsArrayElement(t) == t.k \notin {"Void", "Label", "Metadata", "Function", "Token", "X86Amx", "ScalableVector"}
IsStructElement(t) == t.k \notin {"Void", "Label", "Metadata", "Function", "Token"}
IsVectorElement(t) == IsFloating(t) \/ t.k \in {"Integer", "Pointer", "OpaquePointer"}
IsArgument(t) == t.k \notin {"Function", "Void"}
IsReturn(t) == t.k \notin {"Function", "Label", "Metadata"}

\* ---- constructors ---------------------------------------------------------
AddressSpaceOf(l) == IF SatInt(l) <= MaxAddressSpace THEN Good(l) ELSE Bad
If(p, t) == IF p THEN Good(t) ELSE Bad
NewInteger(w) == If(SatInt(w) \in 1..MaxWidth, [k |-> "Integer", w |-> w])
NewOpaquePointer(as) == If(AddressSpaceOf(as).ok, [k |-> "OpaquePointer", as |-> as])
NewPointer(t, as) == If(IsPointee(t) /\ AddressSpaceOf(as).ok, [k |-> "Pointer", t |-> t, as |-> as])
NewArray(n, t) == If(IsArrayElement(t), [k |-> "Array", n |-> n, t |-> t])
NewVector(kind, n, t) == If(n # <<>> /\ IsVectorElement(t), [k |-> kind, n |-> n, t |-> t])
NewStruct(name, f, packed) ==
    If(\A i \in 1..Len(f) : IsStructElement(f[i]), [k |-> "Struct", name |-> name, f |-> f, packed |-> packed])
NewFunction(ret, params, va) ==
    If(IsReturn(ret) /\ \A i \in 1..Len(params) : IsArgument(params[i]),
       [k |-> "Function", ret |-> ret, params |-> params, va |-> va])
=============================================================================
