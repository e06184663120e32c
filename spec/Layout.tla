-------------------------------- MODULE Layout ------------------------------
(***************************************************************************)
(* Data layout strings (C21): dash-separated specifications, applied from  *)
(* left to right to the default layout.                                    *)
(*                                                                         *)
(* LLVM itself ignores what follows some complete specifications (e.g.     *)
(* after "e"); strings relying on that are not judged: outcome "any".      *)
(***************************************************************************)
EXTENDS Align

Ch(c) == CASE c = "-" -> 45 [] c = ":" -> 58 [] c = "0" -> 48 [] c = "9" -> 57
           [] c = "e" -> 101 [] c = "E" -> 69 [] c = "S" -> 83 [] c = "P" -> 80 [] c = "G" -> 71
           [] c = "A" -> 65 [] c = "p" -> 112 [] c = "i" -> 105 [] c = "v" -> 118 [] c = "f" -> 102
           [] c = "a" -> 97 [] c = "F" -> 70 [] c = "m" -> 109 [] c = "n" -> 110 [] c = "o" -> 111
           [] c = "x" -> 120 [] c = "w" -> 119

\* ---- numbers ---------------------------------------------------------------
RECURSIVE DecimalFrom(_, _, _)
DecimalFrom(b, i, acc) == IF i > Len(b) THEN acc ELSE DecimalFrom(b, i + 1, MulAddSmall(acc, 10, b[i] - 48))
\* A decimal numeral of a value of at most that many bits.
Number(b, bits) ==
    IF b = <<>> \/ \E i \in 1..Len(b) : b[i] \notin 48..57 THEN Bad
    ELSE IF \A i \in 1..Len(b) : b[i] = 48 THEN Good(<<>>)
    ELSE LET from == CHOOSE i \in 1..Len(b) : b[i] # 48 /\ \A j \in 1..(i - 1) : b[j] = 48
         IN IF Len(b) - from > 20 THEN Bad
            ELSE LET v == DecimalFrom(b, from, <<>>) IN IF Fits(v, bits) THEN Good(v) ELSE Bad

Then(r, Op(_)) == IF r.ok THEN Op(r.v) ELSE Bad
AlignIn(b) == Then(Number(b, 64), FromBits)
Space(b) == Then(Number(b, 32), LAMBDA n : IF SatInt(n) <= MaxTypeWidth THEN Good(n) ELSE Bad)

\* ---- specifications ------------------------------------------------------------
From(b, i) == SubSeq(b, i, Len(b))

DefaultLayout == [
    endian |-> "Big", stack |-> <<>>, prog |-> <<>>, glob |-> <<>>, alloca |-> <<>>,
    types |-> DefaultTypes, ptrs |-> DefaultPointers, agg |-> <<1>>,
    fn |-> <<>>, mangling |-> "", widths |-> <<>>, nonint |-> <<>>]

\* [i|v|f]<width>:<abi>[:<pref>] and a:<abi>[:<pref>], in bits
TypeAlign(class, parts) ==
    LET width == IF class = "Aggregate" THEN (IF parts[1] = <<>> THEN Good(<<>>) ELSE Bad)
                 ELSE Then(Number(parts[1], 32), TypeWidth)
        abi == IF Len(parts) < 2 THEN Bad
               \* aggregates may have no ABI alignment of their own
               ELSE IF class = "Aggregate" /\ Number(parts[2], 64) = Good(<<>>) THEN Good(<<1>>)
               ELSE AlignIn(parts[2])
        pref == IF Len(parts) < 3 THEN abi ELSE AlignIn(parts[3])
    IN IF width.ok /\ abi.ok /\ pref.ok THEN TypeSpec(class, width.v, abi.v, pref.v) ELSE Bad

\* p[<space>]:<size>:<abi>[:<pref>[:<index>]]
PointerAlign(parts) ==
    LET as == IF parts[1] = <<>> THEN Good(<<>>) ELSE Space(parts[1])
        size == IF Len(parts) < 3 THEN Bad ELSE Number(parts[2], 64)
        abi == IF Len(parts) < 3 THEN Bad ELSE AlignIn(parts[3])
        pref == IF Len(parts) < 4 THEN abi ELSE AlignIn(parts[4])
        index == IF Len(parts) < 5 THEN size ELSE Number(parts[5], 64)
    IN IF as.ok /\ size.ok /\ abi.ok /\ pref.ok /\ index.ok
       THEN PointerSpec(as.v, abi.v, pref.v, size.v, index.v) ELSE Bad

Class(c) == CASE c = Ch("i") -> "Integer" [] c = Ch("v") -> "Vector"
              [] c = Ch("f") -> "Float" [] c = Ch("a") -> "Aggregate"
Mangler(c) == CASE c = Ch("e") -> "Elf" [] c = Ch("m") -> "Mips" [] c = Ch("o") -> "Macho"
                [] c = Ch("x") -> "WindowsX86Coff" [] c = Ch("w") -> "WindowsCoff" [] c = Ch("a") -> "XCoff"
                [] OTHER -> ""
NonZeroSpace(b) == Then(Space(b), LAMBDA n : IF n = <<>> THEN Bad ELSE Good(n))

\* Whether LLVM would (or might) tolerate what follows a complete specification.
Lenient(spec) ==
    LET c == spec[1]  body == Tail(spec)  parts == Split(body, Ch(":")) IN
    CASE c \in {Ch("e"), Ch("E")} -> body # <<>>
      [] c = Ch("m") -> Len(body) > 2
      [] c \in {Ch("i"), Ch("v"), Ch("f"), Ch("a")} -> Len(parts) > 3
      [] c = Ch("p") -> Len(parts) > 5
      [] c = Ch("n") -> Len(body) > 1 /\ body[1] = Ch("i") /\ body[2] # Ch(":")
      [] OTHER -> FALSE

\* One specification applied to a layout.
Specify(lay, spec) ==
    IF spec = <<>> THEN Bad
    ELSE LET c == spec[1]  body == Tail(spec)  parts == Split(body, Ch(":")) IN
    CASE c = Ch("e") -> Good([lay EXCEPT !.endian = "Little"])
      [] c = Ch("E") -> Good([lay EXCEPT !.endian = "Big"])
      [] c = Ch("S") -> Then(AlignIn(body), LAMBDA a : Good([lay EXCEPT !.stack = <<a>>]))
      [] c = Ch("P") -> Then(Space(body), LAMBDA n : Good([lay EXCEPT !.prog = n]))
      [] c = Ch("G") -> Then(Space(body), LAMBDA n : Good([lay EXCEPT !.glob = n]))
      [] c = Ch("A") -> Then(Space(body), LAMBDA n : Good([lay EXCEPT !.alloca = n]))
      [] c = Ch("p") -> Then(PointerAlign(parts), LAMBDA e : Good([lay EXCEPT !.ptrs = UpdatePointers(lay.ptrs, e)]))
      [] c \in {Ch("i"), Ch("v"), Ch("f"), Ch("a")} ->
            Then(TypeAlign(Class(c), parts), LAMBDA e : Good([lay EXCEPT !.types = UpdateTypes(lay.types, e)]))
      [] c = Ch("F") ->
            IF body = <<>> \/ body[1] \notin {Ch("i"), Ch("n")} THEN Bad
            ELSE Then(AlignIn(Tail(body)), LAMBDA a :
                      Good([lay EXCEPT !.fn = <<IF body[1] = Ch("i") THEN "Independent" ELSE "MultipleOfFunctionAlign", a>>]))
      [] c = Ch("m") ->
            IF Len(body) < 2 \/ body[1] # Ch(":") \/ Mangler(body[2]) = "" THEN Bad
            ELSE Good([lay EXCEPT !.mangling = Mangler(body[2])])
      [] c = Ch("n") ->
            IF body = <<>> THEN Bad
            ELSE IF body[1] = Ch("i")
            THEN Then(IF Len(parts) < 2 THEN Bad ELSE Each(NonZeroSpace, Tail(parts)),
                      LAMBDA ns : Good([lay EXCEPT !.nonint = ns]))
            ELSE Then(Each(LAMBDA p : Number(p, 32), parts), LAMBDA ns : Good([lay EXCEPT !.widths = ns]))
      [] OTHER -> Bad

\* Those from one place to another, in halves.
RECURSIVE SpecifyAll(_, _, _, _)
SpecifyAll(lay, specs, from, to) ==
    IF from > to THEN Good(lay)
    ELSE IF from = to THEN Specify(lay, specs[from])
    ELSE LET mid == (from + to) \div 2
             r == SpecifyAll(lay, specs, from, mid)
         IN IF r.ok THEN SpecifyAll(TLCEval(r.v), specs, mid + 1, to) ELSE Bad

Ascii(b) == \A i \in 1..Len(b) : b[i] <= 127
LayoutOf(b) ==
    IF Ascii(b) THEN LET specs == Split(b, Ch("-")) IN SpecifyAll(DefaultLayout, specs, 1, Len(specs)) ELSE Bad
\* Is the outcome specified?  ("+5" is a numeral to some parsers.)
Judged(b) ==
    /\ \A i \in 1..Len(b) : b[i] # 43
    /\ LET ss == Split(b, Ch("-")) IN \A i \in 1..Len(ss) : ss[i] = <<>> \/ ~Lenient(ss[i])
=============================================================================
