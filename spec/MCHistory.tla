------------------------------ MODULE MCHistory -----------------------------
(***************************************************************************)
(* Histories of cursor operations, generated by random walks through       *)
(* CursorSM (C01-C05), to be replayed in the real cursor: the harness      *)
(* reports what each operation did, and TraceCursor judges it.             *)
(* A decoder that fails may stop anywhere, so histories end there (the     *)
(* random ones, made elsewhere, go on).                                    *)
(***************************************************************************)
EXTENDS CursorSM, Json, TLC
CONSTANTS Lengths, MaxOps
VARIABLES hist, buf
vars == <<win, pos, out, hist, buf>>

Pat(n, k) == [i \in 1..n |-> (i * (37 + k) + k * 101 + (i * i * k) \div 3) % 256]
Bits_ == {1, 2, 3, 5, 7, 8, 9, 13, 16, 24, 31, 32, 33, 47, 48, 56, 62, 63}
VWidths == {2, 3, 4, 6, 8, 16, 31, 32}
Types_ == {<<"u8", 8>>, <<"u16", 16>>, <<"u32", 32>>, <<"u64", 64>>, <<"i8", 7>>, <<"i16", 15>>, <<"i32", 31>>, <<"i64", 63>>}
L == Len(win)
Did(e) == hist' = Append(hist, e) /\ buf' = buf /\ (out'.res = "err" => pos' = pos)
\* One of them, at random.
Some(S) == {RandomElement(S)}
Seeks == {"seek_bit", "seek_start", "seek_end", "seek_cur"}
Over == IF hist = <<>> THEN FALSE ELSE out.res = "err" /\ Head(hist[Len(hist)]) \notin Seeks
Init == \E n \in Lengths, k \in 0..6, w \in {0, 1, 4} :
            /\ w <= n /\ buf = Pat(n, k) /\ win = SubSeq(buf, 1, n - w) /\ pos = 0 /\ out = Nothing /\ hist = <<>>
Next ==
    /\ Len(hist) < MaxOps /\ ~Over
    /\ \/ \E n \in Some(Bits_) : Read(n) /\ Did(<<"read", n>>)
       \/ \E n \in Some(Bits_), t \in Some(Types_) : ReadTyped(n, t[2]) /\ Did(<<"read_as", n, t[1]>>)
       \/ \E w \in Some(VWidths) : ReadVbr(w) /\ Did(<<"vbr", w>>)
       \/ \E w \in Some(VWidths) : ReadSvbr(w) /\ Did(<<"svbr", w>>)
       \/ Align /\ Did(<<"align">>)
       \/ \E x \in Some((0..(8 * L)) \cup {8 * L + 1, 8 * L + 64}) : SeekToBit(FromInt(x)) /\ Did(<<"seek_bit", x>>)
       \/ \E x \in Some(0..(L + 1)) : SeekFromStart(FromInt(x)) /\ Did(<<"seek_start", x>>)
       \/ \E x \in Some(0..(L + 1)) : SeekFromEnd(TRUE, FromInt(x)) /\ Did(<<"seek_end", 0 - x>>)
       \/ \E x \in Some(0..(L + 1)) : SeekFromCurrent(FALSE, FromInt(x)) /\ Did(<<"seek_cur", x>>)
       \/ \E x \in Some(1..(L + 1)) : SeekFromCurrent(TRUE, FromInt(x)) /\ Did(<<"seek_cur", 0 - x>>)
Spec == Init /\ [][Next]_vars
Emit == InWindow /\ ((Len(hist) = MaxOps \/ Over) => PrintT("CASE " \o ToJson(<<buf, Len(win), hist>>)))
=============================================================================
