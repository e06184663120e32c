------------------------------- MODULE Globals ------------------------------
(***************************************************************************)
(* String tables (C15); function (C19), COMDAT and alias (C20) records.    *)
(* ctx: [version, strtab, sections, gcs, types, lists]                     *)
(***************************************************************************)
EXTENDS Codes

\* The text at a range of the string table.
Lookup(tab, off, size) ==
    IF size = <<>> \/ ~Lt(off, FromInt(Len(tab))) \/ ~Le(Add(off, size), FromInt(Len(tab))) THEN Bad
    ELSE LET b == SubSeq(tab, ToInt(off) + 1, ToInt(off) + ToInt(size)) IN
         IF Utf8(b) THEN Good(b) ELSE Bad

\* Number i (from zero) of a table.
Nth(tab, i) == IF SatInt(i) < Len(tab) THEN Good(tab[SatInt(i) + 1]) ELSE Bad
\* An optional one: zero for none, or its number plus one.
NthOrNone(tab, i) ==
    IF i = <<>> THEN Good(<<>>)
    ELSE LET e == Nth(tab, Sub(i, <<1>>)) IN IF e.ok THEN Good(<<e.v>>) ELSE Bad

UsesStrtab(ctx) == Le(<<2>>, ctx.version)
Opt(f, i) == IF i <= Len(f) THEN f[i] ELSE <<>>       \* every default has the code 0

FunctionOf(ctx, r) ==
    LET f == r.f IN
    IF ~UsesStrtab(ctx) \/ Len(f) < 10 THEN Bad
    ELSE LET name == Lookup(ctx.strtab, f[1], f[2])
             ty == Nth(ctx.types, f[3])
             cc == CallingConv(f[4])
             attrs == NthOrNone(ctx.lists, f[7])
             align == SatInt(f[8])      \* shift plus one
             section == NthOrNone(ctx.sections, f[9])
             vis == Visibility(f[10])
             gc == NthOrNone(ctx.gcs, Opt(f, 11))
             dll == DllStorage(Opt(f, 14))
         IN IF /\ name.ok /\ ty.ok /\ ty.v.k = "Function" /\ cc.ok /\ attrs.ok /\ align <= 64
               /\ section.ok /\ vis.ok /\ gc.ok /\ dll.ok
            THEN Good([name |-> name.v, ty |-> ty.v, cc |-> cc.v, decl |-> f[5] # <<>>,
                       linkage |-> Linkage(f[6]), attrs |-> attrs.v,
                       align |-> IF align = 0 THEN <<>> ELSE <<Pow2(align - 1)>>,
                       section |-> section.v, vis |-> vis.v, gc |-> gc.v,
                       unnamed |-> UnnamedAddr(Opt(f, 12)), dll |-> dll.v])
            ELSE Bad

ComdatOf(ctx, r) ==
    IF ~UsesStrtab(ctx) \/ Len(r.f) # 3 THEN Bad
    ELSE LET name == Lookup(ctx.strtab, r.f[1], r.f[2])
             kind == Selection(r.f[3])
         IN IF name.ok /\ kind.ok THEN Good([name |-> name.v, kind |-> kind.v]) ELSE Bad

\* [name, name, type, address space, aliasee, linkage, visibility, storage, tls, unnamed, preemption]
AliasOf(ctx, r) ==
    LET f == r.f IN
    IF ~UsesStrtab(ctx) \/ Len(f) < 6 THEN Bad
    ELSE LET name == Lookup(ctx.strtab, f[1], f[2])
             ty == Nth(ctx.types, f[3])
             vis == Visibility(Opt(f, 7))
             dll == DllStorage(Opt(f, 8))
         IN IF name.ok /\ ty.ok /\ vis.ok /\ dll.ok
            THEN Good([name |-> name.v, ty |-> ty.v, val |-> f[5], linkage |-> Linkage(f[6]), vis |-> vis.v,
                       dll |-> dll.v, tls |-> ThreadLocal(Opt(f, 9)), unnamed |-> UnnamedAddr(Opt(f, 10)),
                       preempt |-> Preemption(Opt(f, 11))])
            ELSE Bad
=============================================================================
