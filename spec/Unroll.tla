-------------------------------- MODULE Unroll ------------------------------
(***************************************************************************)
(* Unrolling a stream's entries into blocks (C12), and grouping top-level  *)
(* blocks into modules (C13).                                              *)
(*                                                                         *)
(* A block: [id, recs, subs]; recs are [code, f] in order; subs are        *)
(* <<id, blocks>> pairs, by first appearance of the id.                    *)
(* A module in the making: [ident, module, strtab, symtab], the last three *)
(* being <<>> or <<block>>.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences

IdentificationId == <<13>>
ModuleId == <<8>>
StrtabId == <<23>>
SymtabId == <<25>>

NewBlock(id) == [id |-> id, recs |-> <<>>, subs |-> <<>>]
AddRecord(b, code, f) == [b EXCEPT !.recs = Append(b.recs, [code |-> code, f |-> f])]

Index(subs, id) == IF \E i \in 1..Len(subs) : subs[i][1] = id
                   THEN CHOOSE i \in 1..Len(subs) : subs[i][1] = id ELSE 0
AddBlock(b, sub) ==
    LET i == Index(b.subs, sub.id) IN
    IF i = 0 THEN [b EXCEPT !.subs = Append(b.subs, <<sub.id, <<sub>>>>)]
    ELSE [b EXCEPT !.subs[i][2] = Append(b.subs[i][2], sub)]

\* Sub-blocks with an id.
SubsOf(b, id) == LET i == Index(b.subs, id) IN IF i = 0 THEN <<>> ELSE b.subs[i][2]

\* ---- grouping ------------------------------------------------------------------
NewModule(b) == [ident |-> b, module |-> <<>>, strtab |-> <<>>, symtab |-> <<>>]

RECURSIVE GiveStrtab(_, _, _), GiveSymtab(_, _, _)
GiveStrtab(ms, b, i) == IF i = 0 \/ ms[i].strtab # <<>> THEN ms
                        ELSE GiveStrtab([ms EXCEPT ![i].strtab = <<b>>], b, i - 1)
GiveSymtab(ms, b, i) == IF i = 0 \/ ms[i].symtab # <<>> THEN ms
                        ELSE GiveSymtab([ms EXCEPT ![i].symtab = <<b>>], b, i - 1)

\* ---- the unrolling machine: [stack, mods, st], st \in {"run", "done", "err"} ------
Fresh == [stack |-> <<>>, mods |-> <<>>, st |-> "run"]
Fail_(u) == [u EXCEPT !.st = "err"]

TopLevel(u, b) ==
    LET n == Len(u.mods) IN
    CASE b.id = IdentificationId -> [u EXCEPT !.mods = Append(u.mods, NewModule(b))]
      [] b.id = ModuleId -> IF n = 0 THEN Fail_(u)
                            ELSE IF u.mods[n].module # <<>> THEN Fail_(u)
                            ELSE [u EXCEPT !.mods[n].module = <<b>>]
      [] b.id = StrtabId -> [u EXCEPT !.mods = GiveStrtab(u.mods, b, n)]
      [] b.id = SymtabId -> [u EXCEPT !.mods = GiveSymtab(u.mods, b, n)]
      [] OTHER -> Fail_(u)

\* One entry of the stream.
Consume(u, e) ==
    LET n == Len(u.stack) IN
    CASE e.t = "block" -> [u EXCEPT !.stack = Append(u.stack, NewBlock(e.id))]
      [] e.t = "rec" -> IF n = 0 THEN Fail_(u)
                        ELSE [u EXCEPT !.stack[n] = AddRecord(u.stack[n], e.code, e.f)]
      [] e.t = "end" ->
            IF n = 0 THEN Fail_(u)
            ELSE LET b == u.stack[n]
                     v == [u EXCEPT !.stack = SubSeq(u.stack, 1, n - 1)]
                 IN IF n = 1 THEN TopLevel(v, b)
                    ELSE [v EXCEPT !.stack[n - 1] = AddBlock(v.stack[n - 1], b)]
      [] e.t = "eos" -> IF n = 0 THEN [u EXCEPT !.st = "done"] ELSE Fail_(u)
      [] OTHER -> Fail_(u)
=============================================================================
