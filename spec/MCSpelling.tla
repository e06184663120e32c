----------------------------- MODULE MCSpelling ------------------------------
(***************************************************************************)
(* However a stream's content is spelled, it means the same (C27): some    *)
(* modules' content, written with any widths, abbreviations (local or from *)
(* BLOCKINFO), interleaving of records with sub-blocks, and blocks and     *)
(* records that mean nothing in between; parsed, unrolled and mapped.      *)
(***************************************************************************)
EXTENDS Writer, Mapper, Json
CONSTANTS Contents,     \* what is to be written: blocks
          Extras        \* how often something that means nothing may be written
VARIABLES left,         \* per open block (and the top level), what's yet to be written
          extra,
          what          \* which of the contents is written
vars == <<bits, stack, winfo, hist, left, extra, what>>

\* ---- the content ---------------------------------------------------------------
R(code, f) == [t |-> "rec", code |-> code, f |-> f]
B(id, items) == [t |-> "block", id |-> id, items |-> items]
MCIdent == B(13, <<R(1, <<97, 98>>), R(2, <<3>>)>>)
MCModule == B(8, <<R(1, <<2>>), B(17, <<R(1, <<1>>), R(2, <<>>)>>), R(2, <<97, 45>>), B(14, <<>>)>>)
MCSmall == <<MCIdent, MCModule, B(23, <<R(1, <<102, 111>>)>>)>>
\* With everything in it.
MCTypeTable == B(17, <<R(1, <<5>>), R(7, <<32>>), R(2, <<>>), R(21, <<0, 1, 0>>), R(19, <<115, 46>>), R(20, <<1, 0, 4>>), R(25, <<0>>)>>)
MCFull == B(8, <<R(1, <<2>>), MCTypeTable, R(2, <<97, 45>>), R(3, <<83, 56>>), R(5, <<46, 116>>), R(11, <<103, 99>>),
                 B(10, <<R(3, <<5, 0, 0, 18, 3, 97, 0>>), R(3, <<6, 1, 1, 1, 8>>)>>), B(9, <<R(2, <<5>>), R(2, <<6, 5>>)>>),
                 R(12, <<0, 3, 2>>), R(8, <<0, 3, 2, 0, 1, 0, 2, 3, 1, 0, 1>>), R(14, <<3, 3, 0, 0, 0, 0>>),
                 R(4, <<110, 10, 110>>), B(14, <<R(1, <<1, 2>>)>>), R(6, <<108, 105, 98>>)>>)
MCRich == <<MCIdent, MCFull, B(23, <<R(1, <<102, 111, 111, 98, 97, 114>>)>>), B(25, <<R(1, <<115, 0, 1>>)>>)>>
MCTwo == <<MCIdent, MCModule, B(13, <<R(1, <<99, 100>>), R(2, <<1, 2>>)>>), MCModule, B(25, <<R(1, <<115, 121>>)>>),
           B(23, <<R(1, <<102, 111>>)>>)>>
OnlySmall == <<MCSmall>>
OnlyRich == <<MCRich>>
All_ == <<MCSmall, MCRich, MCTwo>>

L(v) == [t |-> "lit", v |-> v]
Fx(w) == [t |-> "fixed", w |-> w]
Vb(w) == [t |-> "vbr", w |-> w]
MCAbbrevs ==
    { <<Fx(3), [t |-> "array", e |-> Vb(2)]>>, <<L(1), [t |-> "blob"]>>,
      <<Vb(6), [t |-> "array", e |-> [t |-> "char6"]]>> }

RECURSIVE TreeOf(_, _)
TreeOf(b, items) ==
    IF items = <<>> THEN b
    ELSE LET x == Head(items) IN
         TreeOf(IF x.t = "rec" THEN AddRecord(b, FromInt(x.code), Limbs(x.f))
                ELSE AddBlock(b, TreeOf(NewBlock(FromInt(x.id)), x.items)), Tail(items))
RECURSIVE Grouped(_, _)
Grouped(u, tops) == IF tops = <<>> THEN u
                    ELSE Grouped(TopLevel(u, TreeOf(NewBlock(FromInt(Head(tops).id)), Head(tops).items)), Tail(tops))
Meanings == [c \in 1..Len(Contents) |-> ModulesOf(Grouped(Fresh, Contents[c]).mods)]

\* ---- spelling it -----------------------------------------------------------------
Now == left[Len(left)]
\* What may come next: the first record, or the first block of any id (but at the top level, in order).
KindOf(x) == IF x.t = "rec" THEN <<"rec", 0>> ELSE <<"block", x.id>>
Firsts == IF stack = <<>> THEN (IF Now = <<>> THEN {} ELSE {1})
          ELSE {i \in 1..Len(Now) : \A j \in 1..(i - 1) : KindOf(Now[j]) # KindOf(Now[i])}
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Remaining(i) == [left EXCEPT ![Len(left)] = Without(@, i)]

DefineBits(a) == VbrBits(NumOps(a), 5) \o Concat([i \in 1..Len(a) |-> OpBits(a[i])])
EnterBits(b, id, w) == Padded(b \o IdBits(1) \o VbrBits(id, 8) \o VbrBits(w, 4)) \o Fixed(1, 32)

SEnter == \E i \in Firsts, w \in Widths :
            /\ Now[i].t = "block"
            /\ bits' = EnterBits(bits, Now[i].id, w)
            /\ stack' = Append(stack, [id |-> Now[i].id, width |-> w, setbid |-> 0, abbrevs |-> Known(Now[i].id)])
            /\ left' = Append(Remaining(i), Now[i].items)
            /\ UNCHANGED <<winfo, hist, extra>>
SEnd == /\ stack # <<>> /\ Now = <<>>
        /\ bits' = Padded(bits \o IdBits(0))
        /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
        /\ left' = SubSeq(left, 1, Len(left) - 1)
        /\ UNCHANGED <<winfo, hist, extra>>
SRecord == \E i \in Firsts :
            /\ Now[i].t = "rec"
            /\ \/ bits' = bits \o UnabbrevBits(Now[i].code, Now[i].f)
               \/ \E k \in 1..Len(WTop.abbrevs) :
                    /\ k + 3 < 2 ^ WTop.width
                    /\ Can(WTop.abbrevs[k], <<Now[i].code>> \o Now[i].f)
                    /\ \* Blobs and arrays that begin a record must not be empty; these have a code.
                       bits' = WriteValues(bits \o IdBits(k + 3), WTop.abbrevs[k], <<Now[i].code>> \o Now[i].f)
            /\ left' = Remaining(i)
            /\ UNCHANGED <<stack, winfo, hist, extra>>
\* Without meaning: definitions, BLOCKINFO, unknown blocks and records in a module block.
Spend == extra < Extras /\ extra' = extra + 1 /\ UNCHANGED <<left, hist>>
SDefine == /\ Spend /\ stack # <<>>
           /\ \E a \in Abbrevs :
                /\ bits' = bits \o IdBits(2) \o DefineBits(a)
                /\ stack' = [stack EXCEPT ![Len(stack)].abbrevs = Append(@, a)]
           /\ UNCHANGED winfo
SInfo == /\ Spend
         /\ \E a \in Abbrevs, id \in BlockIds :
              \* A block of width 3 that sets the id, defines, and ends.
              LET rec == Fixed(3, 3) \o VbrBits(1, 6) \o VbrBits(1, 6) \o VbrBits(id, 6) IN
              /\ bits' = Padded(EnterBits(bits, 0, 3) \o rec \o Fixed(2, 3) \o DefineBits(a) \o Fixed(0, 3))
              /\ winfo' = Append(winfo, <<id, a>>)
         /\ UNCHANGED stack
SNothing == /\ Spend /\ stack # <<>> /\ WTop.id = 8
            /\ \/ bits' = bits \o UnabbrevBits(99, <<1>>)
               \/ bits' = Padded(EnterBits(bits, 15, 3) \o Fixed(3, 3) \o VbrBits(2, 6) \o VbrBits(0, 6) \o Fixed(0, 3))
            /\ UNCHANGED <<stack, winfo>>

Init == WInit /\ extra = 0 /\ what \in 1..Len(Contents) /\ left = <<Contents[what]>>
Next == (SEnter \/ SEnd \/ SRecord \/ SDefine \/ SInfo \/ SNothing) /\ UNCHANGED what
Spec == Init /\ [][Next]_vars

\* ---- it means the same -------------------------------------------------------------
RECURSIVE Parsed(_, _, _)
Parsed(d, s, u) ==
    LET n == Step(d, s) IN
    IF n.out = Detail THEN Parsed(d, n, u)
    ELSE LET v == Consume(u, n.out) IN IF v.st = "run" THEN Parsed(d, n, v) ELSE v

Complete == left = <<<<>>>>
Means == Complete => LET u == Parsed(Bytes, Start(32), Fresh) IN
                     u.st = "done" /\ Meanings[what].ok /\ ModulesOf(u.mods) = Meanings[what]
Emit == Complete => PrintT("CASE " \o ToJson(<<what, Bytes>>))
=============================================================================
