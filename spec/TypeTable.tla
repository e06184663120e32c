------------------------------ MODULE TypeTable -----------------------------
(***************************************************************************)
(* The type block (C16): a first pass over the records yields entries that *)
(* refer to each other by number; each entry denotes a type.               *)
(***************************************************************************)
EXTENDS Types, Codes

Field(r, i) == IF i <= Len(r.f) THEN Good(r.f[i]) ELSE Bad
Truthy(l) == l # <<>>
Rest(f, i) == SubSeq(f, i, Len(f))

\* State of the pass over the records.
Pass == [ok |-> TRUE, entries |-> <<>>, name |-> <<>>]
Broken(s) == [s EXCEPT !.ok = FALSE]
Put(s, e) == [s EXCEPT !.entries = Append(s.entries, e)]
Named_(s, e) == [s EXCEPT !.entries = Append(s.entries, e), !.name = <<>>]

TypeRecord(s, r) ==
    LET code == TypeCodes(r.code)
        need(n) == Len(r.f) >= n
    IN
    IF ~s.ok THEN s
    ELSE IF ~code.ok THEN Broken(s)
    ELSE CASE code.v = "NumEntry" -> s
      [] code.v \in PlainTypes -> Put(s, Plain(code.v))
      [] code.v = "Integer" ->
            IF need(1) THEN Put(s, [k |-> "Integer", w |-> r.f[1]]) ELSE Broken(s)
      [] code.v = "Pointer" ->
            IF need(2) /\ AddressSpaceOf(r.f[2]).ok
            THEN Put(s, [k |-> "Pointer", t |-> r.f[1], as |-> r.f[2]]) ELSE Broken(s)
      [] code.v = "OpaquePointer" ->
            IF need(1) /\ AddressSpaceOf(r.f[1]).ok
            THEN Put(s, [k |-> "OpaquePointer", as |-> r.f[1]]) ELSE Broken(s)
      [] code.v = "Array" ->
            IF need(2) THEN Put(s, [k |-> "Array", n |-> r.f[1], t |-> r.f[2]]) ELSE Broken(s)
      [] code.v = "Vector" ->
            IF need(2)
            THEN Put(s, [k |-> IF need(3) /\ Truthy(r.f[3]) THEN "ScalableVector" ELSE "FixedVector",
                         n |-> r.f[1], t |-> r.f[2]])
            ELSE Broken(s)
      [] code.v = "StructAnon" ->
            IF need(1) THEN Put(s, [k |-> "Struct", name |-> <<>>, f |-> Rest(r.f, 2), packed |-> Truthy(r.f[1])])
            ELSE Broken(s)
      [] code.v = "StructNamed" ->
            IF need(1) THEN Named_(s, [k |-> "Struct", name |-> <<s.name>>, f |-> Rest(r.f, 2), packed |-> Truthy(r.f[1])])
            ELSE Broken(s)
      [] code.v = "Opaque" ->
            IF s.name # <<>> THEN Named_(s, [k |-> "Struct", name |-> <<s.name>>, f |-> <<>>, packed |-> FALSE])
            ELSE Broken(s)
      [] code.v = "StructName" ->
            IF Text(r.f).ok THEN [s EXCEPT !.name = s.name \o Text(r.f).v] ELSE Broken(s)
      [] code.v = "Function" ->
            IF need(2) THEN Put(s, [k |-> "Function", va |-> Truthy(r.f[1]), ret |-> r.f[2], params |-> Rest(r.f, 3)])
            ELSE Broken(s)
      [] OTHER -> Broken(s)

\* The pass over records i to j.
RECURSIVE PassOver(_, _, _, _)
PassOver(s, recs, i, j) ==
    IF i > j \/ ~s.ok THEN s
    ELSE IF i = j THEN TypeRecord(s, recs[i])
    ELSE LET m == i + (j - i) \div 2 IN PassOver(PassOver(s, recs, i, m), recs, m + 1, j)

MaxTypeDepth == 256

\* The type that reference `ref` denotes.
RECURSIVE Denotes(_, _, _), DenoteAll(_, _, _, _, _)
Denotes(es, ref, depth) ==
    IF SatInt(ref) >= Len(es) \/ depth > MaxTypeDepth THEN Bad
    ELSE LET e == es[SatInt(ref) + 1] IN
    CASE e.k = "Integer" -> NewInteger(e.w)
      [] e.k = "Pointer" -> LET t == Denotes(es, e.t, depth + 1) IN IF t.ok THEN NewPointer(t.v, e.as) ELSE Bad
      [] e.k = "Array" -> LET t == Denotes(es, e.t, depth + 1) IN IF t.ok THEN NewArray(e.n, t.v) ELSE Bad
      [] e.k \in {"FixedVector", "ScalableVector"} ->
            LET t == Denotes(es, e.t, depth + 1) IN IF t.ok THEN NewVector(e.k, e.n, t.v) ELSE Bad
      [] e.k = "Struct" ->
            LET f == DenoteAll(es, e.f, 1, Len(e.f), depth + 1) IN
            IF f.ok THEN NewStruct(e.name, f.v, e.packed) ELSE Bad
      [] e.k = "Function" ->
            LET r == Denotes(es, e.ret, depth + 1) IN
            IF ~r.ok THEN Bad
            ELSE LET p == DenoteAll(es, e.params, 1, Len(e.params), depth + 1) IN
                 IF p.ok THEN NewFunction(r.v, p.v, e.va) ELSE Bad
      [] OTHER -> Good(e)       \* refers to nothing
\* The types of references i to j.
DenoteAll(es, refs, i, j, depth) ==
    IF i > j THEN Good(<<>>)
    ELSE IF i = j THEN LET t == Denotes(es, refs[i], depth) IN IF t.ok THEN Good(<<t.v>>) ELSE Bad
    ELSE LET a == DenoteAll(es, refs, i, i + (j - i) \div 2, depth) IN
         IF ~a.ok THEN Bad
         ELSE LET b == DenoteAll(es, refs, i + (j - i) \div 2 + 1, j, depth) IN
              IF b.ok THEN Good(a.v \o b.v) ELSE Bad

TypesOf(recs) ==
    LET counts == SelectSeq(recs, LAMBDA r : r.code = <<1>>)
        s == PassOver(Pass, recs, 1, Len(recs))
    IN IF counts = <<>> \/ ~s.ok THEN Bad
       ELSE IF counts[1].f = <<>> \/ SatInt(counts[1].f[1]) # Len(s.entries) THEN Bad
       ELSE DenoteAll(s.entries, [i \in 1..Len(s.entries) |-> FromInt(i - 1)], 1, Len(s.entries), 0)
=============================================================================
