-------------------------------- MODULE Align -------------------------------
(***************************************************************************)
(* Alignments (C23) and the alignment tables of a data layout (C22).       *)
(* An alignment is represented by its number of bytes, as limbs.           *)
(***************************************************************************)
EXTENDS Result

MaxShift == 63
FromShift(s) == IF s <= MaxShift THEN Good(Pow2(s)) ELSE Bad
FromBytes(l) == IF IsPow2(l) THEN Good(l) ELSE Bad
FromBits(l) == IF Limb(l, 1) % 8 = 0 THEN FromBytes(ShiftRight(l, 3)) ELSE Bad
ShiftOf(a) == BitLength(a) - 1
BitsOf(a) == ShiftLeft(a, 3)
\* The encoded optional alignment: zero for none, or a shift plus one.
FromEncoded(n) == IF n = 0 THEN Good(<<>>)
                  ELSE LET a == FromShift(n - 1) IN IF a.ok THEN Good(<<a.v>>) ELSE Bad

MaxTypeWidth == 8388607         \* 2^23 - 1
TypeWidth(l) == IF SatInt(l) \in 1..MaxTypeWidth THEN Good(l) ELSE Bad

\* ---- type alignments: <<class, width, abi, pref>> -----------------------------
MaxTypeAlign == <<32768>>
Rank(class) == CASE class = "Aggregate" -> 0 [] class = "Float" -> 1
                 [] class = "Integer" -> 2 [] class = "Vector" -> 3
TypeSpec(class, width, abi, pref) ==
    IF Le(abi, pref) /\ Le(pref, MaxTypeAlign) THEN Good(<<class, width, abi, pref>>) ELSE Bad

TypeBefore(a, b) == Rank(a[1]) < Rank(b[1]) \/ (a[1] = b[1] /\ Lt(a[2], b[2]))
\* The first place of an ordered table t (among from..to) whose entry isn't before e.
RECURSIVE PlaceOf(_, _, _, _, _)
PlaceOf(t, e, Before(_, _), from, to) ==
    IF from = to THEN from
    ELSE LET mid == (from + to) \div 2 IN
         IF Before(t[mid], e) THEN PlaceOf(t, e, Before, mid + 1, to) ELSE PlaceOf(t, e, Before, from, mid)
\* Put an entry in its place, replacing what was there for its key.
Update(t, e, Before(_, _)) ==
    LET i == PlaceOf(t, e, Before, 1, Len(t) + 1)
        rest == IF i > Len(t) \/ Before(e, t[i]) THEN i ELSE i + 1
    IN SubSeq(t, 1, i - 1) \o <<e>> \o SubSeq(t, rest, Len(t))
UpdateTypes(t, e) == Update(t, TLCEval(e), TypeBefore)
DefaultTypes == <<
    <<"Aggregate", <<>>, <<8>>, <<8>>>>,
    <<"Float", <<16>>, <<2>>, <<2>>>>, <<"Float", <<32>>, <<4>>, <<4>>>>,
    <<"Float", <<64>>, <<8>>, <<8>>>>, <<"Float", <<128>>, <<16>>, <<16>>>>,
    <<"Integer", <<1>>, <<1>>, <<1>>>>, <<"Integer", <<8>>, <<1>>, <<1>>>>,
    <<"Integer", <<16>>, <<2>>, <<2>>>>, <<"Integer", <<32>>, <<4>>, <<4>>>>,
    <<"Integer", <<64>>, <<8>>, <<8>>>> >>

\* ---- pointer alignments: <<address space, abi, pref, size, index size>> ---------
PointerSpec(as, abi, pref, size, index) ==
    IF Le(abi, pref) THEN Good(<<as, abi, pref, size, index>>) ELSE Bad
PointerBefore(a, b) == Lt(a[1], b[1])
UpdatePointers(t, e) == Update(t, TLCEval(e), PointerBefore)
DefaultPointers == << << <<>>, <<8>>, <<8>>, <<64>>, <<64>> >> >>
=============================================================================
