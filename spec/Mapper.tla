-------------------------------- MODULE Mapper ------------------------------
(***************************************************************************)
(* From unrolled blocks to modules: identification, module metadata, and   *)
(* the context their parts are interpreted in (C14), with everything in    *)
(* them (C15, C16, C18-C21).                                               *)
(***************************************************************************)
EXTENDS Unroll, TypeTable, Attributes, Globals, Layout

CONSTANT HostTriple     \* what's reported for modules without a triple

ByCode(recs, n) == SelectSeq(recs, LAMBDA r : r.code = <<n>>)
TextOf(r) == Text(r.f)

\* Sections, libraries etc.: one name per record.
Names(recs, n) == Each(TextOf, ByCode(recs, n))
\* At most one record: <<>> or <<record>>.
AtMostOne(rs) == IF Len(rs) <= 1 THEN Good(rs) ELSE Bad
\* A single text, or a default.
TextOr(recs, n, default) ==
    LET rs == ByCode(recs, n) IN
    CASE rs = <<>> -> Good(default)
      [] Len(rs) = 1 -> TextOf(rs[1])
      [] OTHER -> Bad

IdentificationOf(b) ==
    LET who == ByCode(b.recs, 1)  epoch == ByCode(b.recs, 2) IN
    IF who = <<>> \/ epoch = <<>> THEN Bad
    ELSE IF ~TextOf(who[1]).ok \/ epoch[1].f = <<>> THEN Bad
    ELSE Good([producer |-> TextOf(who[1]).v, epoch |-> epoch[1].f[1]])

\* String and symbol tables.
TableOf(b) == LET rs == ByCode(b.recs, 1) IN IF rs = <<>> THEN Bad ELSE Blob(rs[1].f)

\* The context of a module block: everything records refer to.
ContextOf(b, strtab) ==
    LET version == ByCode(b.recs, 1)
        layout == TextOr(b.recs, 3, <<>>)
        sections == Names(b.recs, 5)
        gcs == Names(b.recs, 11)
        types == SubsOf(b, <<17>>)
        values == SubsOf(b, <<14>>)
        groups == SubsOf(b, <<10>>)
        lists == SubsOf(b, <<9>>)
    IN IF \/ Len(version) # 1 \/ ~layout.ok \/ ~sections.ok \/ ~gcs.ok
          \/ Len(types) # 1 \/ Len(values) # 1 \/ Len(groups) > 1 \/ Len(lists) > 1
       THEN Bad
       ELSE IF version[1].f = <<>> THEN Bad
       ELSE
       LET lay == IF ByCode(b.recs, 3) = <<>> THEN Good(DefaultLayout) ELSE LayoutOf(layout.v)
           ty == TypesOf(types[1].recs)
           gr == IF groups = <<>> THEN Good(<<>>) ELSE GroupsOf(groups[1].recs)
           li == IF ~gr.ok THEN Bad ELSE IF lists = <<>> THEN Good(<<>>) ELSE ListsOf(lists[1].recs, gr.v)
       IN IF ~lay.ok \/ ~ty.ok \/ ~gr.ok \/ ~li.ok THEN Bad
          ELSE LET ctx == [version |-> version[1].f[1], strtab |-> strtab, layout |-> lay.v,
                           sections |-> sections.v, gcs |-> gcs.v, types |-> ty.v,
                           groups |-> GroupSet(gr.v), lists |-> li.v]
                   comdats == Each(LAMBDA r : ComdatOf(ctx, r), ByCode(b.recs, 12))
               IN IF comdats.ok THEN Good([ctx |-> ctx, comdats |-> comdats.v]) ELSE Bad

\* A whole module.  Function bodies aren't supported: they're refused.
ModuleOf(m) ==
    IF m.strtab = <<>> \/ m.module = <<>> THEN Bad
    ELSE LET strtab == TableOf(m.strtab[1])
             ident == IdentificationOf(m.ident)
             symtab == IF m.symtab = <<>> THEN Good(<<>>) ELSE TableOf(m.symtab[1])
             b == m.module[1]
         IN IF ~strtab.ok \/ ~ident.ok \/ ~symtab.ok \/ SubsOf(b, <<12>>) # <<>> THEN Bad
         ELSE LET ctx == ContextOf(b, strtab.v)
                  triple == TextOr(b.recs, 2, HostTriple)
                  asm == TextOr(b.recs, 4, <<>>)
                  libs == Names(b.recs, 6)
              IN IF ~ctx.ok \/ ~triple.ok \/ ~asm.ok \/ ~libs.ok THEN Bad
              ELSE LET fns == Each(LAMBDA r : FunctionOf(ctx.v.ctx, r), ByCode(b.recs, 8))
                       aliases == Each(LAMBDA r : AliasOf(ctx.v.ctx, r), ByCode(b.recs, 14))
                   IN IF fns.ok /\ aliases.ok
                      THEN Good([producer |-> ident.v.producer, epoch |-> ident.v.epoch,
                                 triple |-> triple.v,
                                 asm |-> IF ByCode(b.recs, 4) = <<>> THEN <<>> ELSE Split(asm.v, 10),
                                 deplibs |-> libs.v,
                                 strtab |-> strtab.v,
                                 symtab |-> IF m.symtab = <<>> THEN <<>> ELSE <<symtab.v>>,
                                 ctx |-> ctx.v.ctx, comdats |-> ctx.v.comdats,
                                 functions |-> fns.v, aliases |-> aliases.v])
                      ELSE Bad

ModulesOf(ms) == Each(ModuleOf, ms)
=============================================================================
