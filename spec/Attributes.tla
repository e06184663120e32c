----------------------------- MODULE Attributes -----------------------------
(***************************************************************************)
(* Attribute group and attribute list blocks (C18).                        *)
(***************************************************************************)
EXTENDS Codes

IntIds == {"Alignment", "StackAlignment", "Dereferenceable", "DereferenceableOrNull", "AllocSize",
           "VScaleRange", "UwTable", "AllocKind", "Memory"}
\* uwtable comes both with and without a kind
EnumIds == {AttributeNames[i] : i \in 1..Len(AttributeNames)} \ (IntIds \ {"UwTable"})

Hi32(l) == ShiftRight(l, 32)
Lo32(l) == LowBits(l, 32)

IntPayload(id, v) ==
    CASE id \in {"Alignment", "StackAlignment"} ->      \* bytes; zero: unspecified
            IF v = <<>> THEN Good(<<>>) ELSE IF IsPow2(v) THEN Good(<<v>>) ELSE Bad
      [] id \in {"Dereferenceable", "DereferenceableOrNull", "AllocKind", "Memory"} -> Good(<<v>>)
      [] id = "AllocSize" ->        \* element size parameter, and number of elements parameter if any
            IF v = <<>> THEN Bad
            ELSE IF Lo32(v) = <<65535, 65535>> THEN Good(<<Hi32(v)>>) ELSE Good(<<Hi32(v), Lo32(v)>>)
      [] id = "VScaleRange" -> Good(<<Hi32(v), Lo32(v)>>)
      [] id = "UwTable" -> IF SatInt(v) <= 2 THEN Good(<<v>>) ELSE Bad
      [] OTHER -> Bad

\* Position of the first zero operand from i on; 0 if there is none.
RECURSIVE ZeroIn(_, _, _)
ZeroIn(f, i, j) ==
    IF i > j THEN 0
    ELSE IF i = j THEN IF f[i] = <<>> THEN i ELSE 0
    ELSE LET z == ZeroIn(f, i, i + (j - i) \div 2) IN
         IF z # 0 THEN z ELSE ZeroIn(f, i + (j - i) \div 2 + 1, j)
ZeroFrom(f, i) == ZeroIn(f, i, Len(f))

\* The terminated string at i, and the position after its terminator.
StringAt(f, i) ==
    LET z == ZeroFrom(f, i) IN
    IF z = 0 THEN Bad
    ELSE LET t == Text(SubSeq(f, i, z - 1)) IN IF t.ok THEN Good([s |-> t.v, next |-> z + 1]) ELSE Bad

RECURSIVE AttributesFrom(_, _, _)
AttributesFrom(f, i, acc) ==
    IF i > Len(f) THEN Good(acc)
    ELSE LET kind == AttributeKinds(f[i]) IN
    IF ~kind.ok THEN Bad
    ELSE CASE kind.v = "Enum" ->
            IF i + 1 > Len(f) THEN Bad
            ELSE LET id == AttributeIds(f[i + 1]) IN
                 IF id.ok /\ id.v \in EnumIds
                 THEN AttributesFrom(f, i + 2, TLCEval(Append(acc, [k |-> "enum", n |-> id.v]))) ELSE Bad
      [] kind.v = "IntKeyValue" ->
            IF i + 2 > Len(f) THEN Bad
            ELSE LET id == AttributeIds(f[i + 1]) IN
                 IF ~id.ok \/ id.v \notin IntIds THEN Bad
                 ELSE LET p == IntPayload(id.v, f[i + 2]) IN
                      IF p.ok THEN AttributesFrom(f, i + 3, TLCEval(Append(acc, [k |-> "int", n |-> id.v, v |-> p.v])))
                      ELSE Bad
      [] kind.v = "StrKey" ->
            LET s == StringAt(f, i + 1) IN
            IF s.ok THEN AttributesFrom(f, s.v.next, TLCEval(Append(acc, [k |-> "str", key |-> s.v.s]))) ELSE Bad
      [] kind.v = "StrKeyValue" ->
            LET s == StringAt(f, i + 1) IN
            IF ~s.ok THEN Bad
            ELSE LET v == StringAt(f, s.v.next) IN
                 IF v.ok THEN AttributesFrom(f, v.v.next, TLCEval(Append(acc, [k |-> "kv", key |-> s.v.s, val |-> v.v.s])))
                 ELSE Bad

Disposition(l) ==
    CASE l = <<>> -> [p |-> "Return", i |-> <<>>]
      [] l = <<65535, 65535>> -> [p |-> "Function", i |-> <<>>]
      [] OTHER -> [p |-> "Parameter", i |-> l]

\* A group record: [group number, position, attributes ...]
GroupOf(r) ==
    IF r.code # <<3>> \/ Len(r.f) < 3 THEN Bad
    ELSE LET a == AttributesFrom(r.f, 3, <<>>) IN
         IF a.ok THEN Good([id |-> r.f[1], at |-> Disposition(r.f[2]), attrs |-> a.v]) ELSE Bad

\* The groups by number; the last record with a number defines it.
GroupsOf(recs) ==
    LET gs == Each(GroupOf, recs) IN
    IF ~gs.ok THEN Bad
    ELSE Good(SelectSeq([i \in 1..Len(gs.v) |-> <<i, gs.v[i]>>],
                        LAMBDA g : \A j \in (g[1] + 1)..Len(gs.v) : gs.v[j].id # g[2].id))

GroupSet(groups) == {groups[i][2] : i \in 1..Len(groups)}
GroupById(groups, id) ==
    LET m == SelectSeq(groups, LAMBDA g : g[2].id = id) IN
    IF m = <<>> THEN Bad ELSE Good(m[1][2])

\* Without its number.
Bare(g) == [at |-> g.at, attrs |-> g.attrs]

\* An attribute list record names its groups in order.
ListsOf(recs, groups) ==
    LET one(r) == IF r.code # <<2>> THEN Bad
                  ELSE Each(LAMBDA id : LET g == GroupById(groups, id) IN
                                        IF g.ok THEN Good(Bare(g.v)) ELSE Bad, r.f)
    IN Each(one, recs)
=============================================================================
