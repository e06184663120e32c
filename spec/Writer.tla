------------------------------- MODULE Writer -------------------------------
(***************************************************************************)
(* The other side of the bitstream: a writer, as a state machine.  It may  *)
(* nest blocks, define abbreviations (locally or through BLOCKINFO) and    *)
(* write records in any legal encoding.  hist is what a reader is owed:    *)
(* the entries, in order.                                                  *)
(***************************************************************************)
EXTENDS Parser

CONSTANTS BlockIds,    \* block ids (integers; 0 is BLOCKINFO)
          Widths,      \* abbreviation id widths
          Records,     \* <<code, fields>> (integers)
          Abbrevs,     \* abbreviations: operands as in Parser, literal values as integers
          Lengths,     \* encoded block lengths, in words
          MaxDepth

VARIABLES bits, stack, winfo, hist
wvars == <<bits, stack, winfo, hist>>

\* ---- bits ------------------------------------------------------------------
Fixed(v, n) == [i \in 1..n |-> IF i > 24 THEN 0 ELSE (v \div (2 ^ (i - 1))) % 2]   \* v < 2^24
RECURSIVE VbrBits(_, _)
VbrBits(v, w) == IF v < 2 ^ (w - 1) THEN Fixed(v, w - 1) \o <<0>>
                 ELSE Fixed(v % (2 ^ (w - 1)), w - 1) \o <<1>> \o VbrBits(v \div (2 ^ (w - 1)), w)
RECURSIVE Concat(_)
Concat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Concat(Tail(s))
Pad(b) == [i \in 1..((32 - (Len(b) % 32)) % 32) |-> 0]
Padded(b) == b \o Pad(b)

\* ---- what abbreviations can write --------------------------------------------
Chars == {Char6Alphabet[i] : i \in 1..64}
Char6Of(v) == (CHOOSE i \in 1..64 : Char6Alphabet[i] = v) - 1
ScalarCan(op, v) ==
    CASE op.t = "lit" -> v = op.v
      [] op.t = "fixed" -> v < 2 ^ op.w
      [] op.t = "vbr" -> op.w > 0 \/ v = 0
      [] op.t = "char6" -> v \in Chars
RECURSIVE Can(_, _)
Can(ops, vals) ==
    IF ops = <<>> THEN vals = <<>>
    ELSE CASE Head(ops).t = "array" -> \A i \in 1..Len(vals) : ScalarCan(Head(ops).e, vals[i])
           [] Head(ops).t = "blob"  -> \A i \in 1..Len(vals) : vals[i] < 256
           [] OTHER -> vals # <<>> /\ ScalarCan(Head(ops), Head(vals)) /\ Can(Tail(ops), Tail(vals))

ScalarBits(op, v) ==
    CASE op.t = "lit" -> <<>>
      [] op.t = "fixed" -> Fixed(v, op.w)
      [] op.t = "vbr" -> IF op.w = 0 THEN <<>> ELSE VbrBits(v, op.w)
      [] op.t = "char6" -> Fixed(Char6Of(v), 6)

\* b is everything written before: blobs are aligned relative to it.
RECURSIVE WriteValues(_, _, _)
WriteValues(b, ops, vals) ==
    IF ops = <<>> THEN b
    ELSE CASE Head(ops).t = "array" ->
                b \o VbrBits(Len(vals), 6) \o Concat([i \in 1..Len(vals) |-> ScalarBits(Head(ops).e, vals[i])])
           [] Head(ops).t = "blob" ->
                LET start == Padded(b \o VbrBits(Len(vals), 6))
                IN Padded(start \o Concat([i \in 1..Len(vals) |-> Fixed(vals[i], 8)]))
           [] OTHER -> WriteValues(b \o ScalarBits(Head(ops), Head(vals)), Tail(ops), Tail(vals))

RECURSIVE OpBits(_)
OpBits(op) ==
    CASE op.t = "lit" -> <<1>> \o VbrBits(op.v, 8)
      [] op.t = "fixed" -> <<0>> \o Fixed(1, 3) \o VbrBits(op.w, 5)
      [] op.t = "vbr" -> <<0>> \o Fixed(2, 3) \o VbrBits(op.w, 5)
      [] op.t = "array" -> <<0>> \o Fixed(3, 3) \o OpBits(op.e)
      [] op.t = "char6" -> <<0>> \o Fixed(4, 3)
      [] op.t = "blob" -> <<0>> \o Fixed(5, 3)
NumOps(ops) == Len(ops) + (IF \E i \in 1..Len(ops) : ops[i].t = "array" THEN 1 ELSE 0)

\* ---- writer state ----------------------------------------------------------
WTop == stack[Len(stack)]
WWidth == IF stack = <<>> THEN 2 ELSE WTop.width
IdBits(i) == Fixed(i, WWidth)
InInfo == stack # <<>> /\ WTop.id = 0
Known(id) == LET mine == SelectSeq(winfo, LAMBDA x : x[1] = id) IN [i \in 1..Len(mine) |-> mine[i][2]]

Magic == Fixed(66, 8) \o Fixed(67, 8) \o Fixed(192, 8) \o Fixed(222, 8)

WInit == bits = Magic /\ stack = <<>> /\ winfo = <<>> /\ hist = <<>>

Emitted(e) == hist' = IF InInfo THEN hist ELSE Append(hist, e)

WEnter == /\ Len(stack) < MaxDepth
          /\ \E id \in BlockIds, w \in Widths, n \in Lengths :
               /\ bits' = Padded(bits \o IdBits(1) \o VbrBits(id, 8) \o VbrBits(w, 4)) \o Fixed(n, 32)
               /\ stack' = Append(stack, [id |-> id, width |-> w, setbid |-> 0, abbrevs |-> Known(id)])
               /\ hist' = IF id = 0 THEN hist ELSE Append(hist, BlockEntry(FromInt(id), FromInt(4 * n)))
               /\ UNCHANGED winfo
WEnd == /\ stack # <<>>
        /\ bits' = Padded(bits \o IdBits(0))
        /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
        /\ Emitted(EndBlockEntry)
        /\ UNCHANGED winfo
WDefine == /\ stack # <<>> /\ Len(WTop.abbrevs) < 3
           /\ InInfo => WTop.setbid # 0
           /\ \E a \in Abbrevs :
                /\ bits' = bits \o IdBits(2) \o VbrBits(NumOps(a), 5) \o Concat([i \in 1..Len(a) |-> OpBits(a[i])])
                /\ IF InInfo THEN winfo' = Append(winfo, <<WTop.setbid, a>>) /\ UNCHANGED stack
                   ELSE stack' = [stack EXCEPT ![Len(stack)].abbrevs = Append(@, a)] /\ UNCHANGED winfo
                /\ UNCHANGED hist
UnabbrevBits(code, f) == IdBits(3) \o VbrBits(code, 6) \o VbrBits(Len(f), 6)
                         \o Concat([i \in 1..Len(f) |-> VbrBits(f[i], 6)])
Limbs(f) == [i \in 1..Len(f) |-> FromInt(f[i])]
WUnabbrev == /\ stack # <<>> /\ ~InInfo
             /\ \E r \in Records :
                  /\ bits' = bits \o UnabbrevBits(r[1], r[2])
                  /\ hist' = Append(hist, RecordEntry(<<>>, FromInt(r[1]), Limbs(r[2])))
             /\ UNCHANGED <<stack, winfo>>
WAbbreviated ==
    /\ stack # <<>> /\ ~InInfo
    /\ \E r \in Records, k \in 1..Len(WTop.abbrevs) :
         /\ k + 3 < 2 ^ WTop.width
         /\ Can(WTop.abbrevs[k], <<r[1]>> \o r[2])
         /\ bits' = WriteValues(bits \o IdBits(k + 3), WTop.abbrevs[k], <<r[1]>> \o r[2])
         /\ hist' = Append(hist, RecordEntry(FromInt(k + 3), FromInt(r[1]), Limbs(r[2])))
    /\ UNCHANGED <<stack, winfo>>
WSetBid == /\ InInfo
           /\ \E id \in BlockIds \ {0} :
                /\ bits' = bits \o UnabbrevBits(1, <<id>>)
                /\ stack' = [stack EXCEPT ![Len(stack)].setbid = id]
           /\ UNCHANGED <<winfo, hist>>

WNext == WEnter \/ WEnd \/ WDefine \/ WUnabbrev \/ WAbbreviated \/ WSetBid

Closed == stack = <<>>
ByteOf(b, i) == b[8 * i + 1] + 2 * b[8 * i + 2] + 4 * b[8 * i + 3] + 8 * b[8 * i + 4]
                + 16 * b[8 * i + 5] + 32 * b[8 * i + 6] + 64 * b[8 * i + 7] + 128 * b[8 * i + 8]
Bytes == LET b == Padded(bits) IN [i \in 1..(Len(b) \div 8) |-> ByteOf(b, i - 1)]
=============================================================================
