----------------------------- MODULE TraceMapper ----------------------------
(***************************************************************************)
(* Checks what the real Bitcode::try_from makes of a stream: parsing       *)
(* (ParserSM), unrolling and grouping (Unroll) and mapping (Mapper),       *)
(* composed.                                                               *)
(*                                                                         *)
(* mode "bytes": the stream's bytes are parsed and unrolled step by step.  *)
(*               Its first T.skip entries were taken before mapping it.    *)
(* mode "tree":  the stream is given as its unrolled modules; only mapping *)
(*               is followed here.                                         *)
(* mode "crash": only required to end properly (C26).                      *)
(* Pieces of the mapping state that couldn't be observed are <<>>.         *)
(***************************************************************************)
EXTENDS ParserSM, Mapper, FiniteSets, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Host == Trace[1].host

VARIABLES c, l, ph, un
tvars == <<c, l, ph, un, win, ps>>

T == Trace[c]

\* C26: what mapping may allocate is bounded by the input's size (in KB).
MemoryOk == T.peak <= 16384 + 8 * T.len

\* ---- unrolled blocks, as reported --------------------------------------------
RECURSIVE Reported(_)
Reported(b) == [id |-> BlockIdOf(b.id), recs |-> b.recs,
                subs |-> [i \in 1..Len(b.subs) |->
                            <<BlockIdOf(b.subs[i][1]), [j \in 1..Len(b.subs[i][2]) |-> Reported(b.subs[i][2][j])]>>]]
ReportedOpt(o) == IF o = <<>> THEN <<>> ELSE <<Reported(o[1])>>
ReportedModule(m) == [ident |-> Reported(m.ident), module |-> ReportedOpt(m.module),
                      strtab |-> ReportedOpt(m.strtab), symtab |-> ReportedOpt(m.symtab)]

\* ---- a module, as reported -----------------------------------------------------
Seen(o, v) == IF o = <<>> THEN TRUE ELSE o[1] = v
LookOf(tab, r) == LET t == Lookup(tab, r[1], r[2]) IN IF t.ok THEN <<t.v>> ELSE <<>>

MetadataAs(o, m) ==
    /\ o.producer = m.producer /\ o.epoch = m.epoch /\ o.triple = m.triple
    /\ o.asm = m.asm /\ o.deplibs = m.deplibs /\ o.strtab = m.strtab /\ o.symtab = m.symtab
LookupsAs(o, m) == \A k \in 1..Len(T.looks) : o.look[k] = LookOf(m.strtab, T.looks[k])
ContextAs(x, m) ==
    /\ Seen(x.version, m.ctx.version) /\ Seen(x.strtab, m.strtab) /\ Seen(x.layout, m.ctx.layout)
    /\ Seen(x.sections, m.ctx.sections) /\ Seen(x.gcs, m.ctx.gcs) /\ Seen(x.types, m.ctx.types)
    /\ Seen(x.lists, m.ctx.lists) /\ Seen(x.comdats, m.comdats)
    /\ x.groups # <<>> => /\ {x.groups[1][i] : i \in 1..Len(x.groups[1])} = m.ctx.groups
                          /\ Len(x.groups[1]) = Cardinality(m.ctx.groups)

ModuleAs(i, m) ==
    /\ MetadataAs(T.modules[i], m)
    /\ LookupsAs(T.modules[i], m)
    /\ T.trees # <<>> => Seen(T.trees[i], ReportedModule(un.mods[i]))
    /\ T.ctxs # <<>> => ContextAs(T.ctxs[i], m)
    /\ T.functions # <<>> => Seen(T.functions[i], m.functions)
    /\ T.aliases # <<>> => Seen(T.aliases[i], m.aliases)

\* The data layout texts of the modules are ones whose meaning is specified.
LayoutJudged(m) ==
    \A b \in {m.module[i] : i \in 1..Len(m.module)} :
        \A i \in 1..Len(b.recs) : b.recs[i].code = <<3>> /\ Text(b.recs[i].f).ok => Judged(Text(b.recs[i].f).v)

\* One-byte texts are a known finding (C14) that's checked for separately.
TextCodes(id) == CASE id = <<13>> -> {<<1>>} [] id = <<23>> -> {<<1>>} [] id = <<25>> -> {<<1>>}
                   [] id = <<8>> -> {<<2>>, <<3>>, <<4>>, <<5>>, <<6>>, <<11>>} [] id = <<17>> -> {<<19>>}
                   [] OTHER -> {}
ShortTextIn(b) == \E i \in 1..Len(b.recs) : Len(b.recs[i].f) = 1 /\ b.recs[i].code \in TextCodes(b.id)
ShortText(m) ==
    /\ ~T.short
    /\ \/ ShortTextIn(m.ident)
       \/ \E o \in {m.module, m.strtab, m.symtab} : o # <<>> /\ ShortTextIn(o[1])
       \/ /\ m.module # <<>>
          /\ LET t == SubsOf(m.module[1], <<17>>) IN \E i \in 1..Len(t) : ShortTextIn(t[i])
AllJudged == \A i \in 1..Len(un.mods) : LayoutJudged(un.mods[i]) /\ ~ShortText(un.mods[i])

\* C27: however the content is spelled, it means the same.
Ctxs(o) == [i \in 1..Len(o.ctxs) |->
              [o.ctxs[i] EXCEPT !.groups = IF @ = <<>> THEN {} ELSE {@[1][k] : k \in 1..Len(@[1])}]]
SpelledAlike == \A i \in 1..Len(T.alts) :
    /\ T.alts[i].res = T.res /\ T.alts[i].modules = T.modules /\ Ctxs(T.alts[i]) = Ctxs(T)
    /\ T.alts[i].functions = T.functions /\ T.alts[i].aliases = T.aliases

\* ---- behaviours ------------------------------------------------------------------
End(res) == T.res = res /\ ph' = "end"
Mapping(u) == IF u.mods = <<>> THEN End("ok") /\ T.modules = <<>> ELSE ph' = "map"

TInit ==
    /\ c \in 1..Len(Trace)
    /\ T.out = "ok" /\ T.same /\ MemoryOk /\ SpelledAlike
    /\ l = 1
    /\ CASE T.mode = "crash" -> ph = "end" /\ un = Fresh /\ win = <<>> /\ ps = Start(0)
         [] T.mode = "tree" -> ph = "map" /\ un = [Fresh EXCEPT !.mods = T.mods] /\ win = <<>> /\ ps = Start(0)
         [] T.mode = "bytes" ->
              LET o == Open(T.data, T.kind) IN
              /\ un = Fresh
              /\ IF o.ok THEN ph = "parse" /\ win = o.win /\ ps = Start(o.pos)
                 ELSE T.res = "err" /\ ph = "end" /\ win = <<>> /\ ps = Failed(Start(0))

TParse ==
    /\ ph = "parse"
    /\ ParserNext
    /\ UNCHANGED c
    /\ IF ps'.out = Detail THEN UNCHANGED <<un, ph, l>>
       ELSE IF l <= T.skip THEN UNCHANGED <<un, ph>> /\ l' = l + 1
       ELSE /\ un' = Consume(un, ps'.out)
            /\ CASE un'.st = "run" -> ph' = ph /\ l' = l
                 [] un'.st = "done" -> Mapping(un') /\ l' = 1
                 [] OTHER -> End("err") /\ l' = l

TMap ==
    /\ ph = "map"
    /\ UNCHANGED <<c, un, win, ps>>
    /\ IF ~AllJudged THEN ph' = "end" /\ l' = l
       ELSE LET m == ModuleOf(un.mods[l]) IN
       IF ~m.ok THEN End("err") /\ l' = l
       ELSE /\ T.res = "ok" => Len(T.modules) = Len(un.mods) /\ ModuleAs(l, m.v)
            /\ l' = l + 1
            /\ IF l < Len(un.mods) THEN ph' = ph ELSE End("ok")

TNext == TParse \/ TMap

Accepted == ph = "end" => PrintT(<<"DONE", c>>)
At == PrintT(<<"AT", c, l>>)
=============================================================================
