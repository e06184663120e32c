----------------------------- MODULE MCRoundTrip -----------------------------
(***************************************************************************)
(* Whatever the writer wrote, the parser reports (C07, C08, C09), and any  *)
(* word-aligned prefix of it yields a prefix of it (C10).                  *)
(***************************************************************************)
EXTENDS Writer, Json, TLC
CONSTANTS MaxOps
VARIABLE ops
vars == <<bits, stack, winfo, hist, ops>>

L(v) == [t |-> "lit", v |-> v]
Fx(w) == [t |-> "fixed", w |-> w]
Vb(w) == [t |-> "vbr", w |-> w]
Ch == [t |-> "char6"]
Ar(e) == [t |-> "array", e |-> e]
Bl == [t |-> "blob"]
MCAbbrevs == { <<Fx(7), Ar(Ch)>>, <<L(97), Vb(2), Fx(7)>>, <<Vb(6), Bl>>, <<Ar(Vb(3))>>,
               <<Fx(0), Ar(Fx(1))>>, <<Ch, Fx(7), Vb(8)>> }
MCRecords == { <<0, <<>>>>, <<0, <<1, 0>>>>, <<97, <<95, 98>>>> }
MCRecordsBig == MCRecords \cup { <<300, <<255, 0, 31, 32>>>>, <<97, <<>>>>, <<1, <<97>>>> }

Init == WInit /\ ops = 0
Next == ops < MaxOps /\ WNext /\ ops' = ops + 1
\* Once the bound is reached, blocks are only closed.
NextOrClose == \/ Next
               \/ ops >= MaxOps /\ WEnd /\ UNCHANGED ops
Spec == Init /\ [][NextOrClose]_vars

RECURSIVE Entries(_, _, _)
Entries(d, s, acc) ==
    LET n == Step(d, s) IN
    IF n.out = Detail THEN Entries(d, n, acc)
    ELSE IF Done(n) THEN Append(acc, n.out)
    ELSE Entries(d, n, Append(acc, n.out))

RoundTrip == Closed => Entries(Bytes, Start(32), <<>>) = Append(hist, EndOfStream)
\* While blocks are open, everything so far is already delivered, then the stream ends or fails.
PrefixDelivered ==
    ~Closed => LET got == Entries(Bytes, Start(32), <<>>) IN
               /\ Len(got) > Len(hist)
               /\ SubSeq(got, 1, Len(hist)) = hist
Emit == (Closed /\ ops >= MaxOps) => PrintT("CASE " \o ToJson(Bytes))
=============================================================================
