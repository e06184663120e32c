------------------------------ MODULE SupportSM -----------------------------
(***************************************************************************)
(* The support types as a state machine: a pool of types that's only added *)
(* to by constructing legal ones (C17), and two alignment tables that are  *)
(* only changed by updates (C22).                                          *)
(***************************************************************************)
EXTENDS Opcode, Layout, Char6

VARIABLES
    pool,       \* the types constructed so far
    types,      \* the type alignment table
    ptrs        \* the pointer alignment table
svars == <<pool, types, ptrs>>

SInit == pool = <<Plain("Void")>> /\ types = DefaultTypes /\ ptrs = DefaultPointers

\* Element i of the pool, counted from 0 and wrapping around.
In(p, i) == p[(i % Len(p)) + 1]

\* The type that constructing, as a record says, yields.
Constructed(p, e) ==
    CASE e.c = "Integer" -> NewInteger(e.w)
      [] e.c = "OpaquePointer" -> NewOpaquePointer(e.as)
      [] e.c = "Pointer" -> NewPointer(In(p, e.t), e.as)
      [] e.c = "Array" -> NewArray(e.n, In(p, e.t))
      [] e.c \in {"FixedVector", "ScalableVector"} -> NewVector(e.c, e.n, In(p, e.t))
      [] e.c = "Struct" -> NewStruct(e.name, [i \in 1..Len(e.f) |-> In(p, e.f[i])], e.packed)
      [] e.c = "Function" -> NewFunction(In(p, e.ret), [i \in 1..Len(e.params) |-> In(p, e.params[i])], e.va)
      [] OTHER -> Good(Plain(e.c))
Construct(e) ==
    /\ LET r == Constructed(pool, e) IN pool' = IF r.ok THEN Append(pool, r.v) ELSE pool
    /\ UNCHANGED <<types, ptrs>>

UpdateType(r) ==
    /\ types' = IF r.ok THEN UpdateTypes(types, r.v) ELSE types
    /\ UNCHANGED <<pool, ptrs>>
UpdatePointer(r) ==
    /\ ptrs' = IF r.ok THEN UpdatePointers(ptrs, r.v) ELSE ptrs
    /\ UNCHANGED <<pool, types>>

\* A type alignment by its values in bytes (as far as these are alignments).
TypeSpecOf(ty, abi, pref) ==
    LET a == FromBytes(abi)  p == FromBytes(pref)
        w == IF ty[1] = "Aggregate" THEN Good(<<>>) ELSE TypeWidth(ty[2])
    IN IF a.ok /\ p.ok /\ w.ok THEN TypeSpec(ty[1], w.v, abi, pref) ELSE Bad
PointerSpecOf(as, abi, pref, size, index) ==
    IF AddressSpaceOf(as).ok /\ FromBytes(abi).ok /\ FromBytes(pref).ok
    THEN PointerSpec(as, abi, pref, size, index) ELSE Bad
\* ... and as spelled in a data layout.
TypeSpecIn(s) ==
    IF s = <<>> \/ s[1] \notin {Ch("i"), Ch("v"), Ch("f"), Ch("a")} THEN Bad
    ELSE TypeAlign(Class(s[1]), Split(Tail(s), Ch(":")))
PointerSpecIn(s) == IF s = <<>> \/ s[1] # Ch("p") THEN Bad ELSE PointerAlign(Split(Tail(s), Ch(":")))

\* ---- observations of a type -----------------------------------------------------
Predicates(t) == <<IsFloating(t), IsInteger(t), IsPointee(t), IsArrayElement(t), IsStructElement(t),
                   IsVectorElement(t), IsArgument(t), IsReturn(t), IsFloating(Scalar(t)), IsInteger(Scalar(t))>>
Inner(t) == IF t.k \in {"Pointer", "Array", "FixedVector", "ScalableVector"} THEN <<t.t>> ELSE <<>>
Widths(t) == IF t.k = "Integer" THEN <<t.w, ShiftRight(Add(t.w, <<7>>), 3)>> ELSE <<>>

\* ---- order ------------------------------------------------------------------------
Order(lt, gt) == IF lt THEN -1 ELSE IF gt THEN 1 ELSE 0
AlignedOf(x) == IF x[1] = "Aggregate" THEN Good(<<"Aggregate", <<>>>>)
                ELSE IF TypeWidth(x[2]).ok THEN Good(x) ELSE Bad
OrderOf(what, a, b) ==
    CASE what = "align" ->
            IF FromBytes(a).ok /\ FromBytes(b).ok THEN Good(Order(Lt(a, b), Lt(b, a))) ELSE Bad
      [] what = "width" ->
            IF TypeWidth(a).ok /\ TypeWidth(b).ok THEN Good(Order(Lt(a, b), Lt(b, a))) ELSE Bad
      [] what \in {"space", "pspec"} ->
            IF AddressSpaceOf(a).ok /\ AddressSpaceOf(b).ok THEN Good(Order(Lt(a, b), Lt(b, a))) ELSE Bad
      [] what \in {"type", "tspec"} ->
            IF AlignedOf(a).ok /\ AlignedOf(b).ok
            THEN LET x == AlignedOf(a).v  y == AlignedOf(b).v IN Good(Order(TypeBefore(x, y), TypeBefore(y, x)))
            ELSE Bad

\* ---- the documented constants ----------------------------------------------------
\* Alignments are in bytes; widths, bounds, magics and first codes are themselves.
Constants == [
    ALIGN8 |-> <<1>>, ALIGN16 |-> <<2>>, ALIGN32 |-> <<4>>, ALIGN64 |-> <<8>>, ALIGN128 |-> <<16>>,
    MAX_SHIFT |-> <<MaxShift>>, MAX_ALIGN |-> MaxTypeAlign,
    MAX_TYPE_BIT_WIDTH |-> FromInt(MaxTypeWidth), MAX_WIDTH |-> FromInt(MaxTypeWidth),
    MAX_SPACE |-> FromInt(MaxAddressSpace), DEFAULT_SPACE |-> <<>>, DEFAULT_POINTER |-> <<64>>,
    WIDTH1 |-> <<1>>, WIDTH8 |-> <<8>>, WIDTH16 |-> <<16>>, WIDTH32 |-> <<32>>, WIDTH64 |-> <<64>>, WIDTH128 |-> <<128>>,
    FLOAT16 |-> <<16>>, FLOAT32 |-> <<32>>, FLOAT64 |-> <<64>>, FLOAT128 |-> <<128>>,
    INTEGER1 |-> <<1>>, INTEGER8 |-> <<8>>, INTEGER16 |-> <<16>>, INTEGER32 |-> <<32>>, INTEGER64 |-> <<64>>,
    MIN_INT_BITS |-> <<1>>, MAX_INT_BITS |-> FromInt(MaxWidth),
    LLVM_IR_MAGIC |-> <<17218, 57024>>, BITCODE_WRAPPER_MAGIC |-> <<49374, 2839>>,
    INITIAL_ABBREV_ID_WIDTH |-> <<2>>, FIRST_APPLICATION_ABBREV_ID |-> <<4>>, FIRST_APPLICATION_BLOCK_ID |-> <<8>> ]

\* ---- codes --------------------------------------------------------------------------
CodeOf(t, l) ==
    CASE t = "Linkage" -> Good(Linkage(l))
      [] t = "Visibility" -> Visibility(l)
      [] t = "DllStorageClass" -> DllStorage(l)
      [] t = "ThreadLocalMode" -> Good(ThreadLocal(l))
      [] t = "UnnamedAddr" -> Good(UnnamedAddr(l))
      [] t = "RuntimePreemption" -> Good(Preemption(l))
      [] t = "CallingConvention" -> CallingConv(l)
      [] t = "SelectionKind" -> Selection(l)
      [] t = "BlockId" -> Good(BlockIdOf(l))
      [] t = "ReservedBlockId" -> Named(ReservedBlocks, 0, l)
      [] t = "IrBlockId" -> Named(IrBlocks, 8, l)
      [] t = "ReservedAbbrevId" -> ReservedAbbrevs(l)
      [] t = "AbbrevOpEnc" -> AbbrevOps(l)
      [] t = "BlockInfoCode" -> BlockInfoCodes(l)
      [] t = "IdentificationCode" -> IdentificationCodes(l)
      [] t = "ModuleCode" -> ModuleCodes(l)
      [] t = "TypeCode" -> TypeCodes(l)
      [] t = "StrtabCode" -> StrtabCodes(l)
      [] t = "SymtabCode" -> SymtabCodes(l)
      [] t = "AttributeCode" -> AttributeCodes(l)
      [] t = "FunctionCode" -> FunctionCodes(l)
      [] t = "UnaryOpcode" -> UnaryCodes(l)
      [] t = "BinaryOpcode" -> BinaryCodes(l)
      [] t = "RMWOperation" -> RmwCodes(l)
      [] t = "AttributeKind" -> AttributeKinds(l)
      [] t = "AttributeId" -> AttributeIds(l)
      [] t = "UnaryOp" -> UnaryOp(l)
\* The code of the entity a code stands for: its own, if it has a meaning.
Default(t) == IF t = "ThreadLocalMode" THEN <<1>> ELSE <<>>
Meaningful(t, l) ==
    CASE t = "ThreadLocalMode" -> SatInt(l) <= 4
      [] t = "UnnamedAddr" -> SatInt(l) <= 2
      [] t = "RuntimePreemption" -> SatInt(l) <= 1
      [] OTHER -> TRUE
CodeBack(t, l) == IF Meaningful(t, l) THEN l ELSE Default(t)

\* ---- numbers ----------------------------------------------------------------------------
Views(a) == <<FromInt(ShiftOf(a)), a, IF ShiftOf(a) <= 60 THEN <<BitsOf(a)>> ELSE <<>> >>
Mapped(r, Op(_)) == IF r.ok THEN Good(Op(r.v)) ELSE Bad
Same(v) == v
ScalarOf(op, l) ==
    CASE op = "shift" -> Mapped(FromShift(SatInt(l)), Views)
      [] op = "bytes" -> Mapped(FromBytes(l), Views)
      [] op = "bits" -> Mapped(FromBits(l), Views)
      [] op = "maybe" -> FromEncoded(SatInt(l))
      [] op = "width" -> TypeWidth(l)
      [] op \in {"space32", "space64"} -> AddressSpaceOf(l)
=============================================================================
