------------------------------ MODULE Container ------------------------------
(***************************************************************************)
(* Bitstream containers: a raw bitstream, or one embedded in the bitcode   *)
(* wrapper (five little-endian 32-bit fields, then the bitstream at the    *)
(* given offset with the given size, then any padding).                    *)
(***************************************************************************)
EXTENDS Cursor

WrapperMagic == <<49374, 2839>>        \* 0x0B17C0DE

Word(d, byte) == BitsAt(d, 8 * byte, 32)

Rejected == [ok |-> FALSE, magic |-> <<>>, wrapper |-> <<>>, win |-> <<>>, pos |-> 0]

\* The stream found in the first `len` bytes of d, beginning at byte `start`.
StreamIn(d, start, len, wrapper) ==
    IF len % 4 = 0 /\ start + 4 <= len
    THEN [ok |-> TRUE, magic |-> Word(d, start), wrapper |-> wrapper,
          win |-> SubSeq(d, 1, len), pos |-> 8 * start + 32]
    ELSE Rejected

OpenRaw(d) == StreamIn(d, 0, Len(d), <<>>)

WrapperFields(d) == [i \in 1..5 |-> Word(d, 4 * (i - 1))]

OpenWrapped(d) ==
    IF Len(d) < 20 THEN Rejected
    ELSE LET h == WrapperFields(d)
             end == Add(h[3], h[4])
         IN IF Le(end, FromInt(Len(d))) THEN StreamIn(d, ToInt(h[3]), ToInt(end), h)
            ELSE Rejected

Open(d, kind) ==
    CASE kind = "raw"     -> OpenRaw(d)
      [] kind = "wrapped" -> OpenWrapped(d)
      [] kind = "auto"    -> IF Len(d) < 4 THEN Rejected
                             ELSE IF Word(d, 0) = WrapperMagic THEN OpenWrapped(d)
                             ELSE OpenRaw(d)

\* What a wrapper must satisfy for the wrapped stream to be word-aligned and after its header;
\* the container formats say nothing about others.
WellPlaced(d) == Len(d) >= 20 =>
    LET off == WrapperFields(d)[3] IN Le(<<20>>, off) /\ Limb(off, 1) % 4 = 0
=============================================================================
