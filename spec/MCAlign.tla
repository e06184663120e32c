------------------------------- MODULE MCAlign ------------------------------
(***************************************************************************)
(* Alignments (C23): the views of an alignment agree, each view determines *)
(* it, and no other numbers make one.                                      *)
(***************************************************************************)
EXTENDS SupportSM, Json
VARIABLES shift, near
vars == <<shift, near, pool, types, ptrs>>

Init == SInit /\ shift = 0 /\ near = <<1>>
\* Every power of two and what's around it, then on to the next one.
Below(l) == Sub(l, <<1>>)
Next == /\ UNCHANGED <<pool, types, ptrs>>
        /\ IF near = Pow2(shift)
           THEN \/ near' \in {Below(near), Add(near, <<1>>), Add(near, <<2>>), Add(near, <<8>>)} \cup
                             {Add(near, Pow2(k)) : k \in {0, 3, 8, 15, 16, 24, 31, 32, 40, 62} \cap 0..(shift - 1)}
                   /\ shift' = shift
                \/ shift < 63 /\ shift' = shift + 1 /\ near' = Pow2(shift + 1)
           ELSE UNCHANGED <<shift, near>>
Spec == Init /\ [][Next]_vars

Power == near = Pow2(shift)
Views_ == Power =>
    LET a == FromShift(shift) IN
    /\ a.ok /\ a.v = near /\ ShiftOf(a.v) = shift
    /\ FromBytes(a.v) = a
    /\ shift <= 60 => FromBits(BitsOf(a.v)) = a /\ BitsOf(a.v) = Pow2(shift + 3)
    /\ FromEncoded(shift + 1) = Good(<<a.v>>)
    /\ \A s \in 0..(shift - 1) : OrderOf("align", Pow2(s), a.v) = Good(-1) /\ OrderOf("align", a.v, Pow2(s)) = Good(1)
    /\ OrderOf("align", a.v, a.v) = Good(0)
OnlyPowers == FromBytes(near).ok = (\E s \in 0..63 : near = Pow2(s))
BitsArePowers == FromBits(near).ok = (\E s \in 3..63 : near = Pow2(s))
NoShift == \A s \in {64, 65, 127, 128, 255} : ~FromShift(s).ok /\ ~FromEncoded(s + 1).ok
NoneIsZero == FromEncoded(0) = Good(<<>>)
WidthsAre == TypeWidth(near).ok = (Lt(<<>>, near) /\ Lt(near, <<0, 128>>))
SpacesAre == AddressSpaceOf(near).ok = Lt(near, <<0, 128>>)
Emit == PrintT("CASE " \o ToJson(near))
=============================================================================
