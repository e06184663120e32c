---------------------------- MODULE TraceCursor -----------------------------
(***************************************************************************)
(* Checks that recorded behaviours of the real BitCursor are behaviours of *)
(* CursorSM.  Every line of the trace file is one cursor's life: the       *)
(* buffer, the window asked for, and every operation with its outcome and  *)
(* everything observable afterwards (tell_bit, tell_byte, exhausted,       *)
(* stream_position).                                                       *)
(***************************************************************************)
EXTENDS CursorSM, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES c, l        \* which trace, and the next event of it
tvars == <<c, l, win, pos, out>>

T == Trace[c]
E == T.ops[l]

\* Widths beyond any legal one are logged saturated.
TypeBits(t) == CASE t = "u8" -> 8 [] t = "u16" -> 16 [] t = "u32" -> 32 [] t = "u64" -> 64
                 [] t = "usize" -> 64
                 [] t = "i8" -> 7 [] t = "i16" -> 15 [] t = "i32" -> 31 [] t = "i64" -> 63
TypeSize(t) == CASE t \in {"u8", "i8"} -> 8 [] t \in {"u16", "i16"} -> 16
                 [] t \in {"u32", "i32"} -> 32 [] OTHER -> 64

TInit == /\ c \in 1..Len(Trace)
         /\ l = 1
         /\ IF CanOpen(T.data, T.win)
            THEN /\ T.new = "ok"
                 /\ T.lens = <<T.win, 8 * T.win>>
                 /\ Open(T.data, T.win)
            ELSE /\ T.new = "err"
                 /\ Len(T.ops) = 0
                 /\ win = <<>> /\ pos = 0 /\ out = Nothing

\* The observed outcome, bound before the specification's action is evaluated.
Observed == /\ l <= Len(T.ops)
            /\ E.res \in {"ok", "err"}
            /\ out' = Outcome(E.res, E.v)
            /\ pos' = E.pos
            /\ E.tb = E.pos \div 8
            /\ E.sp = E.pos \div 8
            /\ E.ex = Exhausted(win, E.pos)
            /\ l' = l + 1
            /\ UNCHANGED c

IsEvent(op) == l <= Len(T.ops) /\ E.op = op /\ Observed

TRead    == IsEvent("read") /\ Read(E.n)
TReadAs  == IsEvent("read_as") /\ ReadTyped(E.n, TypeBits(E.t))
TExact   == IsEvent("exact") /\ ReadTyped(TypeSize(E.t), TypeBits(E.t))
TVbr     == IsEvent("vbr") /\ ReadVbr(E.n)
TSvbr    == IsEvent("svbr") /\ ReadSvbr(E.n)
TAlign   == IsEvent("align") /\ Align
TSeekBit == IsEvent("seek_bit") /\ SeekToBit(E.x)
TStart   == IsEvent("seek_start") /\ SeekFromStart(E.x)
TRewind  == IsEvent("rewind") /\ SeekFromStart(<<>>)
TEnd     == IsEvent("seek_end") /\ SeekFromEnd(E.neg, E.x)
TCurrent == IsEvent("seek_cur") /\ SeekFromCurrent(E.neg, E.x)

Step == \/ TRead \/ TReadAs \/ TExact \/ TVbr \/ TSvbr \/ TAlign
        \/ TSeekBit \/ TStart \/ TRewind \/ TEnd \/ TCurrent

TNext == Step

Accepted == l = Len(T.ops) + 1 => PrintT(<<"DONE", c>>)
\* Used to locate the rejected events of a trace file that isn't accepted.
At == PrintT(<<"AT", c, l>>)

InWindowInv == InWindow
=============================================================================
