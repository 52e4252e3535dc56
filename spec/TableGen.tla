------------------------------ MODULE TableGen ------------------------------
(* Every small character map (two ranges, by delta or by glyph array, in    *)
(* formats 4 and 12, around the 8 and 16 bit limits) and every small        *)
(* kerning table and number of long metrics, with all queries near them,    *)
(* for the driver to make fonts of.                                         *)
EXTENDS BehBase, Integers, FiniteSets
CONSTANTS Deep, What
VARIABLES what, fmt, base, one, two, pairs, nh

Ranges == {<<s, e>> \in (0..5) \X (0..5) : s <= e}
Kinds(r) == {<<"delta", 3>>, <<"delta", -1>>, <<"array", 0>>, <<"array", 2>>}
None == <<0, 0>>
AllPairs == (0..2) \X (0..2)
Init == \/ /\ what = "cmap" /\ what \in What
           /\ fmt \in {4, 12} /\ base \in {0, 252, 32765, IF fmt = 4 THEN 65528 ELSE 65532}
           /\ one \in Ranges
           /\ two \in {r \in Ranges : r[1] > one[2]} \cup {None}
           /\ nh \in (IF Deep THEN 0..15 ELSE {(one[1] + (3 * one[2]) + two[1] + (5 * two[2]) + k) % 16 : k \in {0, 5, 10, 3}})
           /\ pairs = {}
        \/ /\ what = "kern" /\ what \in What /\ fmt = 4 /\ base = 0 /\ one = None /\ two = None
           /\ pairs \in {p \in SUBSET AllPairs : Cardinality(p) <= (IF Deep THEN 9 ELSE 4)}
           /\ nh \in (IF Deep THEN 1..4 ELSE {1 + (Cardinality({p \in pairs : p[1] <= p[2]}) % 4)})
Next ==  UNCHANGED <<what, fmt, base, one, two, pairs, nh>>

(* nh chooses the kinds of the two ranges: a delta, another, glyph arrays with and without a delta. *)
Seg(r, k) == LET n == (r[2] - r[1]) + 1
             IN CASE fmt = 12 -> [s |-> base + r[1], e |-> base + r[2], d |-> 1 + (k * 2), g |-> << >>]
                  [] k = 0 -> [s |-> base + r[1], e |-> base + r[2], d |-> 3 - base, g |-> << >>]
                  [] k = 1 -> [s |-> base + r[1], e |-> base + r[2], d |-> 0 - (base + r[1]), g |-> << >>]
                  [] k = 2 -> [s |-> base + r[1], e |-> base + r[2], d |-> 0, g |-> [i \in 1..n |-> (5 * i) % 7]]
                  [] OTHER -> [s |-> base + r[1], e |-> base + r[2], d |-> 65535, g |-> [i \in 1..n |-> (3 * i) % 4]]
Segs == IF what = "kern" THEN << >>
        ELSE IF two = None THEN <<Seg(one, nh % 4)>> ELSE <<Seg(one, nh % 4), Seg(two, nh \div 4)>>
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN << >>
             ELSE LET m == CHOOSE x \in S : \A y \in S : x[1] < y[1] \/ (x[1] = y[1] /\ x[2] <= y[2])
                  IN <<m>> \o Sorted(S \ {m})
Value(p) == (100 * p[1]) - (37 * p[2]) - 15
Queries == IF what = "cmap"
           THEN [i \in 1..24 |-> [o |-> "index", a |-> <<(IF i <= 9 THEN base - 2 ELSE IF i <= 15 THEN (base % 256) - 11 ELSE base + 65519) + i>>]]
           ELSE [i \in 1..25 |-> [o |-> "kern", a |-> <<2000, IF i > 20 THEN 65535 ELSE (i - 1) \div 5, (i - 1) % 5>>]]
                \o [i \in 1..7 |-> [o |-> "hm", a |-> <<2000, i - 1>>]]
Emit == EmitBehaviour([segs |-> Segs, fmt |-> fmt, pairs |-> [i \in 1..Cardinality(pairs) |-> LET p == Sorted(pairs)[i] IN <<p[1], p[2], Value(p)>>],
                       nh |-> IF what = "kern" THEN nh ELSE 2, q |-> Queries])
=============================================================================
