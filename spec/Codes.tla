-------------------------------- MODULE Codes -------------------------------
(***************************************************************************)
(* What LLVM's bitcode format assigns to numeric codes (C24).              *)
(***************************************************************************)
EXTENDS Result

\* Names in order, for codes base, base+1, ...
Named(names, base, l) ==
    LET n == SatInt(l) IN
    IF n >= base /\ n - base < Len(names) THEN Good(names[n - base + 1]) ELSE Bad

\* See getDecodedLinkage: codes 0..19, unknown ones mean external.
LinkageNames == <<"External", "WeakAny", "Appending", "Internal", "LinkOnceAny", "External", "External",
                  "ExternalWeak", "Common", "Private", "WeakOdr", "LinkOnceOdr", "AvailableExternally",
                  "Private", "Private", "External", "WeakAny", "WeakOdr", "LinkOnceAny", "LinkOnceOdr">>
OrElse(r, default) == IF r.ok THEN r.v ELSE default
Linkage(l) == OrElse(Named(LinkageNames, 0, l), "External")
Visibility(l) == Named(<<"Default", "Hidden", "Protected">>, 0, l)
DllStorage(l) == Named(<<"Default", "Import", "Export">>, 0, l)
\* Unknown thread-local modes mean general dynamic.
ThreadLocal(l) == OrElse(Named(<<"NotThreadLocal", "GeneralDynamicTls", "LocalDynamicTls",
                                 "InitialExecTls", "LocalExecTls">>, 0, l), "GeneralDynamicTls")
UnnamedAddr(l) == OrElse(Named(<<"None", "Global", "Local">>, 0, l), "None")
Preemption(l) == OrElse(Named(<<"DsoPreemptable", "DsoLocal">>, 0, l), "DsoPreemptable")
Selection(l) == Named(<<"Any", "ExactMatch", "Largest", "NoDeduplicate", "SameSize">>, 1, l)

First8 == <<"Fast", "Cold", "GHC", "HiPE", "WebKitJS", "AnyReg", "PreserveMost", "PreserveAll",
            "Swift", "CXXFASTTLS">>
From64 == <<"X86Stdcall", "X86Fastcall", "ARMAPCS", "ARMAAPCS", "ARMAAPCSVFP", "MSP430INTR", "X86ThisCall",
            "PTXKernel", "PTXDevice">>
From75 == <<"SPIRFUNC", "SPIRKERNEL", "IntelOCLBI", "X8664SysV", "Win64", "X86VectorCall", "HHVM", "HHVMC",
            "X86INTR", "AVRINTR", "AVRSIGNAL", "AVRBUILTIN", "AMDGPUVS", "AMDGPUGS", "AMDGPUPS", "AMDGPUCS",
            "AMDGPUKERNEL", "X86RegCall", "AMDGPUHS", "MSP430BUILTIN", "AMDGPULS", "AMDGPUES">>
CallingConv(l) ==
    CASE l = <<>> -> Good("C")
      [] Named(First8, 8, l).ok -> Named(First8, 8, l)
      [] Named(From64, 64, l).ok -> Named(From64, 64, l)
      [] OTHER -> Named(From75, 75, l)

ReservedBlocks == <<"BlockInfo", "Reserved1", "Reserved2", "Reserved3", "Reserved4", "Reserved5",
                    "Reserved6", "Reserved7">>
IrBlocks == <<"Module", "ParamAttr", "ParamAttrGroup", "Constants", "Function", "Identification",
              "ValueSymtab", "Metadata", "MetadataAttachment", "Type", "Uselist", "ModuleStrtab",
              "GlobalValSummary", "OperandBundleTags", "MetadataKind", "Strtab", "FullLtoGlobalValSummary",
              "Symtab", "SyncScopeNames">>
BlockIdOf(l) ==
    IF Named(ReservedBlocks, 0, l).ok THEN [k |-> "Reserved", n |-> Named(ReservedBlocks, 0, l).v, v |-> <<>>]
    ELSE IF Named(IrBlocks, 8, l).ok THEN [k |-> "Ir", n |-> Named(IrBlocks, 8, l).v, v |-> <<>>]
    ELSE [k |-> "Unknown", n |-> "", v |-> l]

ModuleCodes(l) ==
    LET a == Named(<<"Version", "Triple", "DataLayout", "Asm", "SectionName", "DepLib", "GlobalVar",
                     "Function", "AliasOld">>, 1, l) IN
    IF a.ok THEN a
    ELSE Named(<<"GcName", "Comdat", "VstOffset", "Alias", "MetadataValuesUnused", "SourceFilename",
                 "Hash", "IFunc">>, 11, l)
TypeCodes(l) == Named(<<"NumEntry", "Void", "Float", "Double", "Label", "Opaque", "Integer", "Pointer",
    "FunctionOld", "Half", "Array", "Vector", "X86Fp80", "Fp128", "PpcFp128", "Metadata", "X86Mmx",
    "StructAnon", "StructName", "StructNamed", "Function", "Token", "BFloat", "X86Amx", "OpaquePointer">>, 1, l)
IdentificationCodes(l) == Named(<<"ProducerString", "Epoch">>, 1, l)
StrtabCodes(l) == Named(<<"Blob">>, 1, l)
SymtabCodes(l) == Named(<<"Blob">>, 1, l)
BlockInfoCodes(l) == Named(<<"SetBid", "BlockName", "SetRecordName">>, 1, l)
AttributeCodes(l) == Named(<<"EntryOld", "Entry", "GroupCodeEntry">>, 1, l)
AttributeKinds(l) == IF l = <<>> THEN Good("Enum")
                     ELSE IF l = <<1>> THEN Good("IntKeyValue")
                     ELSE Named(<<"StrKey", "StrKeyValue">>, 3, l)
AbbrevOps(l) == Named(<<"Fixed", "Vbr", "Array", "Char6", "Blob">>, 1, l)
ReservedAbbrevs(l) == Named(<<"EndBlock", "EnterSubBlock", "DefineAbbrev", "UnabbrevRecord">>, 0, l)
UnaryCodes(l) == Named(<<"FNeg">>, 0, l)
BinaryCodes(l) == Named(<<"Add", "Sub", "Mul", "UDiv", "SDiv", "URem", "SRem", "Shl", "LShr", "AShr",
                          "And", "Or", "Xor">>, 0, l)
RmwCodes(l) == Named(<<"Xchg", "Add", "Sub", "And", "Nand", "Or", "Xor", "Max", "Min", "UMax", "UMin",
                       "FAdd", "FSub">>, 0, l)
\* FunctionCodes, with the gaps left by retired codes.
FunctionCodeNames == (1 :> "DeclareBlocks" @@ 2 :> "InstBinop" @@ 3 :> "InstCast" @@ 4 :> "InstGepOld"
    @@ 5 :> "InstSelect" @@ 6 :> "InstExtractelt" @@ 7 :> "InstInsertelt" @@ 8 :> "InstShufflevec"
    @@ 9 :> "InstCmp" @@ 10 :> "InstRet" @@ 11 :> "InstBr" @@ 12 :> "InstSwitch" @@ 13 :> "InstInvoke"
    @@ 15 :> "InstUnreachable" @@ 16 :> "InstPhi" @@ 19 :> "InstAlloca" @@ 20 :> "InstLoad"
    @@ 23 :> "InstVaarg" @@ 24 :> "InstStoreOld" @@ 26 :> "InstExtractval" @@ 27 :> "InstInsertval"
    @@ 28 :> "InstCmp2" @@ 29 :> "InstVselect" @@ 30 :> "InstInboundsGepOld" @@ 31 :> "InstIndirectbr"
    @@ 33 :> "DebugLocAgain" @@ 34 :> "InstCall" @@ 35 :> "DebugLoc" @@ 36 :> "InstFence"
    @@ 37 :> "InstCmpxchgOld" @@ 38 :> "InstAtomicrmwOld" @@ 39 :> "InstResume" @@ 40 :> "InstLandingpadOld"
    @@ 41 :> "InstLoadatomic" @@ 42 :> "InstStoreatomicOld" @@ 43 :> "InstGep" @@ 44 :> "InstStore"
    @@ 45 :> "InstStoreatomic" @@ 46 :> "InstCmpxchg" @@ 47 :> "InstLandingpad" @@ 48 :> "InstCleanupret"
    @@ 49 :> "InstCatchret" @@ 50 :> "InstCatchpad" @@ 51 :> "InstCleanuppad" @@ 52 :> "InstCatchswitch"
    @@ 55 :> "OperandBundle" @@ 56 :> "InstUnop" @@ 57 :> "Instcallbr" @@ 58 :> "InstFreeze"
    @@ 59 :> "InstAtomicrmw")
FunctionCodes(l) == LET n == SatInt(l) IN
    IF n \in DOMAIN FunctionCodeNames THEN Good(FunctionCodeNames[n]) ELSE Bad

AttributeNames == <<"Alignment", "AlwaysInline", "ByVal", "InlineHint", "InReg", "MinSize", "Naked", "Nest",
    "NoAlias", "NoBuiltin", "NoCapture", "NoDuplicate", "NoImplicitFloat", "NoInline", "NonLazyBind",
    "NoRedZone", "NoReturn", "NoUnwind", "OptimizeForSize", "ReadNone", "ReadOnly", "Returned",
    "ReturnsTwice", "SExt", "StackAlignment", "StackProtect", "StackProtectReq", "StackProtectStrong",
    "StructRet", "SanitizeAddress", "SanitizeThread", "SanitizeMemory", "UwTable", "ZExt", "Builtin", "Cold",
    "OptimizeNone", "InAlloca", "NonNull", "JumpTable", "Dereferenceable", "DereferenceableOrNull",
    "Convergent", "SafeStack", "ArgMemOnly", "SwiftSelf", "SwiftError", "NoRecurse", "InaccessiblememOnly",
    "InaccessiblememOrArgmemonly", "AllocSize", "WriteOnly", "Speculatable", "StrictFp", "SanitizeHwAddress",
    "NoCfCheck", "OptForFuzzing", "Shadowcallstack", "SpeculativeLoadHardening", "ImmArg", "WillReturn",
    "NoFree", "NoSync", "SanitizeMemtag", "Preallocated", "NoMerge", "NullPointerIsValid", "NoUndef", "ByRef",
    "MustProgress", "NoCallback", "Hot", "NoProfile", "VScaleRange", "SwiftAsync", "NoSanitizeCoverage",
    "ElementType", "DisableSanitizerInstrumentation", "NoSanitizeBounds", "AllocAlign", "AllocatedPointer",
    "AllocKind", "PresplitCoroutine", "FnretthunkExtern", "SkipProfile", "Memory">>
AttributeIds(l) == Named(AttributeNames, 1, l)
=============================================================================
