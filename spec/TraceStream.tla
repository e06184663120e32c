---------------------------- MODULE TraceStream -----------------------------
(***************************************************************************)
(* Checks that what the real Bitstream reports for some bytes - container, *)
(* magic, entries, outcome - is the behaviour of ParserSM on these bytes.  *)
(* Entries are the events; items that surface nothing are silent steps.    *)
(* A case of mode "crash" is only required to end properly.                *)
(***************************************************************************)
EXTENDS ParserSM, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES c, l
tvars == <<c, l, win, ps>>

T == Trace[c]
E == T.ev[l]

\* C11: what a single step may allocate is bounded by the input's size.
MemoryOk == T.peak <= 64 + T.len \div 4

\* C07: the records are those that were written.
Records == SelectSeq(T.ev, LAMBDA e : e.t = "rec")
AsWritten == T.wanted => T.want = [i \in 1..Len(Records) |-> <<Records[i].code, Records[i].f>>]

TInit ==
    /\ c \in 1..Len(Trace)
    /\ T.out = "ok"
    /\ MemoryOk
    /\ AsWritten
    /\ T.n <= 8 * T.len + 1
    /\ IF T.mode = "crash"
       THEN /\ T.last \in {"eos", "err", "rejected"}
            /\ win = <<>> /\ ps = Start(0) /\ l = Len(T.ev) + 1
       ELSE LET o == Open(T.data, T.kind) IN
            IF o.ok
            THEN /\ T.open = "ok" /\ T.magic = o.magic /\ T.wrapper = o.wrapper
                 /\ win = o.win /\ ps = Start(o.pos) /\ l = 1
            ELSE /\ T.open = "err"
                 /\ win = <<>> /\ ps = Failed(Start(0)) /\ l = Len(T.ev) + 1

TNext == /\ l <= Len(T.ev)
         /\ IF Done(ps)       \* iterating past the end: it stays the end
            THEN ps.out = EndOfStream /\ E = EndOfStream /\ l' = l + 1 /\ UNCHANGED <<c, win, ps>>
            ELSE /\ ParserNext
                 /\ UNCHANGED c
                 /\ IF ps'.out = Detail THEN l' = l
                    ELSE l' = l + 1 /\ ps'.out = E

Accepted == l = Len(T.ev) + 1 => PrintT(<<"DONE", c>>)
At == PrintT(<<"AT", c, l>>)
=============================================================================
