------------------------------ MODULE MCUnroll ------------------------------
(***************************************************************************)
(* Unrolling (C12) and grouping (C13), exhaustively: the machine of Unroll *)
(* against what the properties say about the history of entries.           *)
(***************************************************************************)
EXTENDS Unroll, Json, TLC
CONSTANTS Ids, Tops, MaxEntries, MaxDepth
VARIABLES u, hist
vars == <<u, hist>>

RECURSIVE Feed(_, _)
Feed(m, es) == IF es = <<>> \/ m.st # "run" THEN m ELSE Feed(Consume(m, Head(es)), Tail(es))
Rec(n) == [t |-> "rec", code |-> <<7>>, f |-> <<<<n>>>>]
Enter(id) == [t |-> "block", id |-> id]
EndBlock == [t |-> "end"]
Eos == [t |-> "eos"]

Do(es) == /\ u.st = "run" /\ Len(hist) + Len(es) <= MaxEntries
          /\ u' = Feed(u, es) /\ hist' = hist \o es
Init == u = Fresh /\ hist = <<>>
\* Whole blocks in a single step, with a record that tells them apart.
Whole == u.stack = <<>> /\ \E id \in Tops : Do(<<Enter(id), Rec(Len(hist) + 1), EndBlock>>)
Next == \/ Whole
        \/ Len(u.stack) < MaxDepth /\ \E id \in Ids : Do(<<Enter(id)>>)
        \/ Ids # {} /\ Do(<<Rec(Len(hist) + 1)>>)
        \/ Ids # {} /\ Do(<<EndBlock>>)
        \/ Do(<<Eos>>)
Spec == Init /\ [][Next]_vars

\* ---- what the properties say -----------------------------------------------------
N == Len(hist)
Count(k, n) == Len(SelectSeq(SubSeq(hist, 1, n), LAMBDA e : e.t = k))
Depth(i) == Count("block", i) - Count("end", i)
RECURSIVE Ascending(_)
Ascending(S) == IF S = {} THEN <<>>
                ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Ascending(S \ {m})
\* The end of the block entered at i, or 0.
EndOf(i) == LET js == {j \in (i + 1)..N : Depth(j) < Depth(i)} IN
            IF js = {} THEN 0 ELSE CHOOSE j \in js : \A k \in js : j <= k
Inside(i) == (i + 1)..(EndOf(i) - 1)
Distinct(s) == SelectSeq([k \in 1..Len(s) |-> <<k, s[k]>>], LAMBDA x : \A j \in 1..(x[1] - 1) : s[j] # x[2])
RECURSIVE Tree(_)
Tree(i) ==
    LET own == Ascending({k \in Inside(i) : hist[k].t = "rec" /\ Depth(k) = Depth(i)})
        kids == Ascending({k \in Inside(i) : hist[k].t = "block" /\ Depth(k) = Depth(i) + 1})
        ids == Distinct([k \in 1..Len(kids) |-> hist[kids[k]].id])
        with(id) == SelectSeq(kids, LAMBDA k : hist[k].id = id)
    IN [id |-> hist[i].id,
        recs |-> [k \in 1..Len(own) |-> [code |-> hist[own[k]].code, f |-> hist[own[k]].f]],
        subs |-> [k \in 1..Len(ids) |->
                    <<ids[k][2], [j \in 1..Len(with(ids[k][2])) |-> Tree(with(ids[k][2])[j])]>>]]

\* The complete top-level blocks.
TopBlocks == Ascending({i \in 1..N : hist[i].t = "block" /\ Depth(i) = 1 /\ EndOf(i) # 0})
With(id) == SelectSeq(TopBlocks, LAMBDA i : hist[i].id = id)
FirstAfter(id, i) == LET s == SelectSeq(With(id), LAMBDA j : j > i) IN IF s = <<>> THEN <<>> ELSE <<Tree(s[1])>>
\* Module blocks between identification block number k and the next one.
Between(k) == LET is == With(IdentificationId) IN
              SelectSeq(With(ModuleId), LAMBDA j : j > is[k] /\ (k = Len(is) \/ j < is[k + 1]))
Modules == LET is == With(IdentificationId) IN
           [k \in 1..Len(is) |-> [ident |-> Tree(is[k]),
                                  module |-> IF Between(k) = <<>> THEN <<>> ELSE <<Tree(Between(k)[1])>>,
                                  strtab |-> FirstAfter(StrtabId, is[k]), symtab |-> FirstAfter(SymtabId, is[k])]]
IllFormed ==
    \/ \E i \in 1..N : hist[i].t = "rec" /\ Depth(i) = 0
    \/ \E i \in 1..N : Depth(i) < 0
    \/ \E i \in 1..N : hist[i].t = "eos" /\ Depth(i) # 0
    \/ \E k \in 1..Len(TopBlocks) : hist[TopBlocks[k]].id \notin {IdentificationId, ModuleId, StrtabId, SymtabId}
    \/ \E k \in 1..Len(With(ModuleId)) : With(IdentificationId) = <<>> \/ With(ModuleId)[k] < With(IdentificationId)[1]
    \/ \E k \in 1..Len(With(IdentificationId)) : Len(Between(k)) > 1

AsDeclared ==
    /\ (u.st = "err") = IllFormed
    /\ (u.st = "done") = (~IllFormed /\ N > 0 /\ hist[N] = Eos)
    /\ u.st # "err" => u.mods = Modules
Emit == u.st # "run" => PrintT("CASE " \o ToJson([i \in 1..N |->
            IF hist[i].t = "block" THEN <<"block", hist[i].id>> ELSE <<hist[i].t, <<>>>>]))
\* Random walks shouldn't end right away.
Seldom == u'.st # "run" => RandomElement(1..(IF u'.st = "err" THEN 8 ELSE 3)) = 1
MCNestIds == {<<8>>, <<11>>, <<13>>}
MCTops == {<<13>>, <<8>>, <<23>>, <<25>>}
MCTopsMore == MCTops \cup {<<11>>}
None == {}
=============================================================================
