------------------------------ MODULE CursorSM ------------------------------
(***************************************************************************)
(* The cursor as a state machine.  win is the readable window (fixed for   *)
(* the life of the cursor), pos the bit position, out the last outcome:    *)
(* what the caller saw.  Every public operation of BitCursor is an action. *)
(***************************************************************************)
EXTENDS Cursor

VARIABLES win, pos, out
cvars == <<win, pos, out>>

Outcome(kind, v) == [res |-> kind, v |-> v]
Nothing == Outcome("ok", <<>>)

\* A cursor over the first len bytes of buf; creating it fails if there are fewer.
CanOpen(buf, len) == len <= Len(buf)
Open(buf, len) == /\ CanOpen(buf, len)
                  /\ win = SubSeq(buf, 1, len)
                  /\ pos = 0
                  /\ out = Nothing

\* A decoder's result becomes the outcome.  A decoder that fails leaves the
\* position somewhere between where it was and the end of the window.
Decode(r) == /\ UNCHANGED win
             /\ IF r.ok THEN pos' = r.pos /\ out' = Outcome("ok", r.v)
                        ELSE pos' \in pos..BitEnd(win) /\ out' = Outcome("err", <<>>)
\* A failed seek doesn't move at all.
Move(r) == /\ UNCHANGED win
           /\ IF r.ok THEN pos' = r.pos /\ out' = Outcome("ok", r.v)
                      ELSE pos' = pos /\ out' = Outcome("err", <<>>)

Read(n)            == Decode(ReadBits(win, pos, n))
ReadTyped(n, bits) == Decode(ReadAs(win, pos, n, bits))
ReadVbr(w)         == Decode(Vbr(win, pos, w))
ReadSvbr(w)        == Decode(Svbr(win, pos, w))
Align              == UNCHANGED win /\ pos' = Align32(win, pos) /\ out' = Nothing
SeekToBit(x)       == Move(LET r == SeekBit(win, x) IN [r EXCEPT !.v = <<>>])
SeekFromStart(x)   == Move(SeekStart(win, x))
SeekFromEnd(neg, x)     == Move(SeekEnd(win, neg, x))
SeekFromCurrent(neg, x) == Move(SeekCurrent(win, pos, neg, x))

\* ---- properties ----------------------------------------------------------
InWindow == pos \in 0..BitEnd(win)                                     \* C05
ReadsOnlyMoveForward ==                                                \* C05
    [][(\E n \in 0..64 : Read(n)) => pos' >= pos]_cvars
=============================================================================
