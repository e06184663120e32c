----------------------------- MODULE CursorImpl -----------------------------
(***************************************************************************)
(* How BitCursor works: a 64-bit block cache over the window.  byteNext is *)
(* the first byte not yet loaded, blk holds the bitIdx not yet consumed    *)
(* bits of the last loaded block.  Blocks may be short (at the end of the  *)
(* window) and may start at any byte (after a byte seek), which is what    *)
(* makes "the next 32-bit boundary" and "the current position" subtle.     *)
(* The model checker establishes that every operation refines the abstract *)
(* cursor of CursorSM, whose only state is the position.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, Bits

CONSTANTS Windows, Widths, VbrWidths

VARIABLES win, byteNext, blk, bitIdx, out, last
ivars == <<win, byteNext, blk, bitIdx, out, last>>
View == <<win, byteNext, blk, bitIdx>>

BLOCK == 8

C == INSTANCE CursorSM WITH pos <- 8 * byteNext - bitIdx

Pos == 8 * byteNext - bitIdx

St(b, k, i) == [bn |-> b, blk |-> k, bi |-> i, ok |-> TRUE, v |-> <<>>]

\* Load the next block: up to 8 bytes from the (byte-aligned) position.
Load(s) ==
    IF 8 * s.bn - s.bi >= 8 * Len(win) THEN [s EXCEPT !.ok = FALSE]
    ELSE LET n == Min2(BLOCK, Len(win) - s.bn) IN
         [s EXCEPT !.bn = s.bn + n, !.blk = BitsAt(win, 8 * s.bn, 8 * n), !.bi = 8 * n]

Consume(s, n) == [s EXCEPT !.blk = ShiftRight(s.blk, n), !.bi = s.bi - n]

ReadOp(s, n) ==
    IF n \notin 1..63 THEN [s EXCEPT !.ok = FALSE]
    ELSE IF s.bi >= n THEN [Consume(s, n) EXCEPT !.v = LowBits(s.blk, n)]
    ELSE LET left == n - s.bi
             part1 == IF s.bi > 0 THEN s.blk ELSE <<>>
             s2 == Load(s)
         IN IF ~s2.ok THEN s2
            ELSE IF left > s2.bi THEN [s2 EXCEPT !.ok = FALSE]
            ELSE [Consume(s2, left) EXCEPT
                    !.v = Add(part1, ShiftLeft(LowBits(s2.blk, left), n - left))]

RECURSIVE VbrOp(_, _, _, _)
VbrOp(s, w, shift, acc) ==
    LET r == ReadOp(s, w) IN
    IF ~r.ok THEN r
    ELSE LET masked == LowBits(r.v, w - 1) IN
         IF shift >= 64 \/ shift + BitLength(masked) > 64 THEN [r EXCEPT !.ok = FALSE]
         ELSE LET a == Add(acc, ShiftLeft(masked, shift)) IN
              IF BitOf(r.v, w - 1) = 1 THEN VbrOp(r, w, shift + w - 1, a)
              ELSE [r EXCEPT !.v = a]

AlignOp(s) ==
    LET skip == (32 - ((8 * s.bn - s.bi) % 32)) % 32 IN
    IF skip < s.bi THEN Consume(s, skip)
    ELSE St(Min2(s.bn + (skip - s.bi) \div 8, Len(win)), <<>>, 0)

SeekByteOp(b) == St(b, <<>>, 0)

SeekBitOp(s, p) ==
    IF p > 8 * Len(win) THEN [s EXCEPT !.ok = FALSE]
    ELSE LET s2 == St(8 * (p \div 64), <<>>, 0) IN
         IF p % 64 > 0 THEN [ReadOp(s2, p % 64) EXCEPT !.v = <<>>] ELSE s2

Cur == [bn |-> byteNext, blk |-> blk, bi |-> bitIdx, ok |-> TRUE, v |-> <<>>]
Become(s, op, arg) ==
    /\ UNCHANGED win
    /\ byteNext' = s.bn /\ blk' = s.blk /\ bitIdx' = s.bi
    /\ out' = IF s.ok THEN [res |-> "ok", v |-> s.v] ELSE [res |-> "err", v |-> <<>>]
    /\ last' = [op |-> op, arg |-> arg]

Init == /\ win \in Windows
        /\ byteNext = 0 /\ blk = <<>> /\ bitIdx = 0
        /\ out = [res |-> "ok", v |-> <<>>]
        /\ last = [op |-> "open", arg |-> 0]

DoRead  == \E n \in Widths : Become(ReadOp(Cur, n), "read", n)
DoVbr   == \E w \in VbrWidths : Become(VbrOp(Cur, w, 0, <<>>), "vbr", w)
DoAlign == Become(AlignOp(Cur), "align", 0)
DoSeekByte == \E b \in 0..(Len(win) + 1) :
                IF b <= Len(win) THEN Become([SeekByteOp(b) EXCEPT !.v = FromInt(b)], "seek", b)
                ELSE Become([Cur EXCEPT !.ok = FALSE], "seek", b)
DoSeekBit == \E p \in 0..(8 * Len(win) + 1) : Become(SeekBitOp(Cur, p), "seekbit", p)

Next == DoRead \/ DoVbr \/ DoAlign \/ DoSeekByte \/ DoSeekBit
Spec == Init /\ [][Next]_ivars

\* Every step is the corresponding step of the abstract cursor.
Refines ==
    [][ CASE last'.op = "read"    -> C!Read(last'.arg)
          [] last'.op = "vbr"     -> C!ReadVbr(last'.arg)
          [] last'.op = "align"   -> C!Align
          [] last'.op = "seek"    -> C!SeekFromStart(FromInt(last'.arg))
          [] last'.op = "seekbit" -> C!SeekToBit(FromInt(last'.arg)) ]_ivars

InWindow == Pos \in 0..(8 * Len(win)) /\ byteNext \in 0..Len(win)
\* The cached bits are those at the position: earlier history is irrelevant.
CacheIsCurrent == bitIdx > 0 => blk = BitsAt(win, Pos, bitIdx)
ExhaustedIsEnd == (bitIdx = 0 /\ Len(win) <= byteNext) <=> Pos = 8 * Len(win)
AlignIsIdempotent == C!Align32(win, C!Align32(win, Pos)) = C!Align32(win, Pos)
=============================================================================
