------------------------------- MODULE Parser -------------------------------
(***************************************************************************)
(* The LLVM bitstream parser (llvm-bitstream) as a state machine over the  *)
(* window d of a bitstream.  The parser's state is                         *)
(*                                                                         *)
(*   pos    the bit position                                               *)
(*   scopes the open blocks, innermost last: [id, width, setbid, abbrevs]  *)
(*   binfo  abbreviations registered by BLOCKINFO: pairs <<id, abbrev>>    *)
(*   out    what the last step surfaced: an entry, Detail (nothing), the   *)
(*          end of the stream, or an error                                 *)
(*                                                                         *)
(* Parsing one item is one step; Kind says which item comes next.          *)
(***************************************************************************)
EXTENDS Cursor, Char6

\* ---- what a step surfaces --------------------------------------------------
Detail == [t |-> "detail"]
EndBlockEntry == [t |-> "end"]
BlockEntry(id, len) == [t |-> "block", id |-> id, len |-> len]
RecordEntry(ab, code, f) == [t |-> "rec", ab |-> ab, code |-> code, f |-> f]
EndOfStream == [t |-> "eos"]
Error == [t |-> "err"]

\* ---- abbreviation definitions (DEFINE_ABBREV) -----------------------------
(* Operands: [t |-> "lit", v], [t |-> "fixed", w], [t |-> "vbr", w],        *)
(* [t |-> "char6"], [t |-> "array", e], [t |-> "blob"].                     *)

Lit(v) == [t |-> "lit", v |-> v]

\* A scalar encoding (its 3-bit code already read as enc), as an operand.
\* Zero-width scalars stand for the literal zero - but not as array elements.
ScalarEnc(d, p, enc, isElem) ==
    CASE enc \in {1, 2} ->
            LET w == Vbr(d, p, 5) IN
            IF ~w.ok THEN Fail
            ELSE IF w.v = <<>> /\ ~isElem THEN Ok(Lit(<<>>), w.pos)
            ELSE Ok([t |-> IF enc = 1 THEN "fixed" ELSE "vbr", w |-> SatInt(w.v)], w.pos)
      [] enc = 4 -> Ok([t |-> "char6"], p)
      [] OTHER -> Fail

\* Operand number i of n.
OperandAt(d, p, i, n) ==
    LET lit == ReadBits(d, p, 1) IN
    IF ~lit.ok THEN Fail
    ELSE IF lit.v = <<1>> THEN
        LET v == Vbr(d, lit.pos, 8) IN IF v.ok THEN Ok(Lit(v.v), v.pos) ELSE Fail
    ELSE LET e == ReadBits(d, lit.pos, 3) IN
    IF ~e.ok THEN Fail
    ELSE LET enc == ToInt(e.v) IN
    CASE enc \in {1, 2, 4} -> ScalarEnc(d, e.pos, enc, FALSE)
      [] enc = 3 ->     \* array: second to last, its element encoding takes the last place
            IF i + 1 # n THEN Fail
            ELSE LET elit == ReadBits(d, e.pos, 1) IN
                 IF ~elit.ok \/ elit.v = <<1>> THEN Fail
                 ELSE LET ee == ReadBits(d, elit.pos, 3) IN
                      IF ~ee.ok THEN Fail
                      ELSE LET elem == ScalarEnc(d, ee.pos, ToInt(ee.v), TRUE) IN
                           IF elem.ok THEN Ok([t |-> "array", e |-> elem.v], elem.pos) ELSE Fail
      [] enc = 5 -> IF i = n THEN Ok([t |-> "blob"], e.pos) ELSE Fail
      [] OTHER -> Fail

\* Operands i to j of n (only the next to last may take two places).
RECURSIVE OperandsAt(_, _, _, _, _)
OperandsAt(d, p, i, j, n) ==
    IF i > j THEN Ok(<<>>, p)
    ELSE IF i = j \/ i + 1 = n THEN
         LET o == OperandAt(d, p, i, n) IN
         IF ~o.ok THEN Fail
         ELSE IF i = j \/ o.v.t = "array" THEN Ok(<<o.v>>, o.pos)
         ELSE LET z == OperandAt(d, o.pos, j, n) IN
              IF z.ok THEN Ok(<<o.v, z.v>>, z.pos) ELSE Fail
    ELSE LET h == IF j = n THEN Min2(i + (j - i) \div 2, n - 2) ELSE i + (j - i) \div 2
             a == OperandsAt(d, p, i, h, n)
         IN IF ~a.ok THEN Fail
            ELSE LET b == OperandsAt(d, a.pos, h + 1, j, n) IN
                 IF b.ok THEN Ok(a.v \o b.v, b.pos) ELSE Fail

AbbrevDefinition(d, p) ==
    LET n == Vbr(d, p, 5) IN
    IF ~n.ok \/ n.v = <<>> THEN Fail
    ELSE OperandsAt(d, n.pos, 1, SatInt(n.v), SatInt(n.v))

\* ---- values of operands ------------------------------------------------------
ScalarValue(d, p, op) ==
    CASE op.t = "lit"   -> Ok(op.v, p)
      [] op.t = "fixed" -> ReadBits(d, p, op.w)
      [] op.t = "vbr"   -> Vbr(d, p, op.w)
      [] op.t = "char6" -> LET r == ReadBits(d, p, 6) IN
                           IF r.ok THEN Ok(<<Char6Alphabet[ToInt(r.v) + 1]>>, r.pos) ELSE Fail

\* n consecutive VBR values: those of the first half, then those of the second (records can be long).
RECURSIVE VbrsAt(_, _, _, _)
VbrsAt(d, p, w, n) ==
    IF n = 0 THEN Ok(<<>>, p)
    ELSE IF n = 1 THEN LET r == Vbr(d, p, w) IN IF r.ok THEN Ok(<<r.v>>, r.pos) ELSE Fail
    ELSE LET a == VbrsAt(d, p, w, n \div 2) IN
         IF ~a.ok THEN Fail
         ELSE LET b == VbrsAt(d, a.pos, w, n - n \div 2) IN
              IF b.ok THEN Ok(a.v \o b.v, b.pos) ELSE Fail

\* n consecutive fixed-width values (every value takes at least a bit, so n is bounded).
FixedsAt(d, p, w, n) ==
    IF n = 0 THEN Ok(<<>>, p)
    ELSE IF w \notin 1..63 \/ n > BitEnd(d) \/ p + n * w > BitEnd(d) THEN Fail
    ELSE Ok([i \in 1..n |-> BitsAt(d, p + (i - 1) * w, w)], p + n * w)

ArrayValues(d, p, elem, n) ==
    CASE elem.t = "fixed" -> FixedsAt(d, p, elem.w, n)
      [] elem.t = "vbr"   -> VbrsAt(d, p, elem.w, n)
      [] elem.t = "char6" -> LET r == FixedsAt(d, p, 6, n) IN
                             IF r.ok THEN Ok([i \in 1..n |-> <<Char6Alphabet[ToInt(r.v[i]) + 1]>>], r.pos)
                             ELSE Fail

\* The values an operand contributes: one, or as many as its array or blob holds.
OperandValues(d, p, op) ==
    CASE op.t = "array" ->
            LET n == Vbr(d, p, 6) IN
            IF n.ok THEN ArrayValues(d, n.pos, op.e, SatInt(n.v)) ELSE Fail
      [] op.t = "blob" ->
            LET n == Vbr(d, p, 6) IN
            IF ~n.ok THEN Fail
            ELSE LET r == FixedsAt(d, Align32(d, n.pos), 8, SatInt(n.v)) IN
                 IF r.ok THEN Ok(r.v, Align32(d, r.pos)) ELSE Fail
      [] OTHER -> LET r == ScalarValue(d, p, op) IN IF r.ok THEN Ok(<<r.v>>, r.pos) ELSE Fail

\* The values of operands i to j.
RECURSIVE ValuesAt(_, _, _, _, _)
ValuesAt(d, p, ops, i, j) ==
    IF i > j THEN Ok(<<>>, p)
    ELSE IF i = j THEN OperandValues(d, p, ops[i])
    ELSE LET h == i + (j - i) \div 2
             a == ValuesAt(d, p, ops, i, h)
         IN IF ~a.ok THEN Fail
            ELSE LET b == ValuesAt(d, a.pos, ops, h + 1, j) IN
                 IF b.ok THEN Ok(a.v \o b.v, b.pos) ELSE Fail

\* ---- parser states -----------------------------------------------------------
Start(p) == [pos |-> p, scopes |-> <<>>, binfo |-> <<>>, out |-> Detail]

InBlock(s) == s.scopes # <<>>
Top(s) == s.scopes[Len(s.scopes)]
Width(s) == IF InBlock(s) THEN Top(s).width ELSE 2
IsBlockInfo(sc) == sc.id = <<>>
Failed(s) == [s EXCEPT !.out = Error]
Done(s) == s.out.t \in {"eos", "err"}

\* The next abbreviation id (saturated); kinds of items.
NextId(d, s) == ReadBits(d, s.pos, Width(s))
Kind(d, s) ==
    IF Exhausted(d, s.pos) THEN "eos"
    ELSE LET id == NextId(d, s) IN
         IF ~id.ok THEN "bad"
         ELSE CASE id.v = <<>>  -> "end"
                [] id.v = <<1>> -> "enter"
                [] id.v = <<2>> -> "define"
                [] id.v = <<3>> -> "unabbrev"
                [] OTHER        -> "abbrev"

\* What BLOCKINFO has registered for a block id, in order.
Registered(s, id) ==
    LET mine == SelectSeq(s.binfo, LAMBDA b : b[1] = id)
    IN [i \in 1..Len(mine) |-> mine[i][2]]

\* ENTER_SUBBLOCK: [id vbr8, new width vbr4, align, length in words 32]
EnterSubBlock(d, s) ==
    LET id == Vbr(d, NextId(d, s).pos, 8) IN
    IF ~id.ok THEN Failed(s)
    ELSE LET w == Vbr(d, id.pos, 4) IN
    IF ~w.ok \/ w.v = <<>> THEN Failed(s)
    ELSE LET len == ReadBits(d, Align32(d, w.pos), 32) IN
    IF ~len.ok THEN Failed(s)
    ELSE LET sc == [id |-> id.v, width |-> SatInt(w.v), setbid |-> <<>>,
                    abbrevs |-> Registered(s, id.v)]
         IN [s EXCEPT !.pos = len.pos, !.scopes = Append(s.scopes, sc),
                      !.out = IF IsBlockInfo(sc) THEN Detail
                              ELSE BlockEntry(id.v, ShiftLeft(len.v, 2))]

\* END_BLOCK: [align]
EndBlock(d, s) ==
    IF ~InBlock(s) THEN Failed(s)
    ELSE [s EXCEPT !.pos = Align32(d, NextId(d, s).pos),
                   !.scopes = SubSeq(s.scopes, 1, Len(s.scopes) - 1),
                   !.out = IF IsBlockInfo(Top(s)) THEN Detail ELSE EndBlockEntry]

\* DEFINE_ABBREV: local to the block, or registered for the current SETBID in a BLOCKINFO.
DefineAbbrev(d, s) ==
    LET a == AbbrevDefinition(d, NextId(d, s).pos) IN
    IF ~a.ok \/ ~InBlock(s) THEN Failed(s)
    ELSE IF IsBlockInfo(Top(s)) THEN
        IF Top(s).setbid = <<>> THEN Failed(s)
        ELSE [s EXCEPT !.pos = a.pos, !.out = Detail,
                       !.binfo = Append(s.binfo, <<Top(s).setbid[1], a.v>>)]
    ELSE [s EXCEPT !.pos = a.pos, !.out = Detail,
                   !.scopes[Len(s.scopes)].abbrevs = Append(Top(s).abbrevs, a.v)]

\* A complete record: surfaced, or interpreted if it belongs to a BLOCKINFO block.
Surface(s, p, ab, code, f) ==
    IF ~IsBlockInfo(Top(s)) THEN [s EXCEPT !.pos = p, !.out = RecordEntry(ab, code, f)]
    ELSE CASE code = <<1>> /\ f # <<>> ->                             \* SETBID
                [s EXCEPT !.pos = p, !.out = Detail, !.scopes[Len(s.scopes)].setbid = <<f[1]>>]
           [] code = <<2>> \/ code = <<3>> -> [s EXCEPT !.pos = p, !.out = Detail]
           [] OTHER -> Failed(s)

\* UNABBREV_RECORD: [code vbr6, numops vbr6, op vbr6 ...]
Unabbrev(d, s) ==
    IF ~InBlock(s) THEN Failed(s)
    ELSE LET code == Vbr(d, NextId(d, s).pos, 6) IN
    IF ~code.ok THEN Failed(s)
    ELSE LET n == Vbr(d, code.pos, 6) IN
    IF ~n.ok THEN Failed(s)
    ELSE LET f == VbrsAt(d, n.pos, 6, SatInt(n.v)) IN
    IF ~f.ok THEN Failed(s)
    ELSE Surface(s, f.pos, <<>>, code.v, f.v)

\* A record written with a defined abbreviation; its first value is the code.
Abbreviated(d, s) ==
    LET id == NextId(d, s) IN
    IF ~InBlock(s) \/ SatInt(id.v) - 3 > Len(Top(s).abbrevs) THEN Failed(s)
    ELSE LET f == LET ops == Top(s).abbrevs[ToInt(id.v) - 3] IN ValuesAt(d, id.pos, ops, 1, Len(ops)) IN
    IF ~f.ok \/ f.v = <<>> THEN Failed(s)
    ELSE Surface(s, f.pos, id.v, f.v[1], Tail(f.v))

\* One step of the parser.
Step(d, s) ==
    LET k == Kind(d, s) IN
    CASE k = "eos"      -> [s EXCEPT !.out = EndOfStream]
      [] k = "bad"      -> Failed(s)
      [] k = "end"      -> EndBlock(d, s)
      [] k = "enter"    -> EnterSubBlock(d, s)
      [] k = "define"   -> DefineAbbrev(d, s)
      [] k = "unabbrev" -> Unabbrev(d, s)
      [] k = "abbrev"   -> Abbreviated(d, s)
=============================================================================
