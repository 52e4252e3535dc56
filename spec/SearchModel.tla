----------------------------- MODULE SearchModel -----------------------------
(* Design model for P02 and P03: binary search over sorted, disjoint ranges *)
(* (characters; kerning pairs are ranges of length one), for every list of  *)
(* ranges and every key.  It ends, looks only at existing ranges and finds  *)
(* exactly the range that contains the key.                                 *)
(* Design = "code" is what is implemented; TLC refutes the others.          *)
EXTENDS Integers, Sequences
CONSTANTS Design, Top, MaxRanges
VARIABLES rs, c, i, j, res, n      \* n: steps taken

Keys == 0..Top
RECURSIVE Lists(_, _)
Lists(lo, k) ==    \* ranges from lo on
  {<< >>} \cup
  (IF k = 0 THEN {} ELSE
   UNION {UNION {{<< <<a, b>> >> \o r : r \in Lists(b + 1, k - 1)} : b \in a..Top} : a \in lo..Top})

Init == /\ rs \in Lists(0, MaxRanges)
        /\ c \in Keys
        /\ i = 0 /\ j = Len(rs) /\ res = -2 /\ n = 0       \* res: -2 searching, -1 not found
Next == /\ res = -2
        /\ n <= Len(rs) + 1      \* (a search that does not end is cut off)
        /\ UNCHANGED <<rs, c>> /\ n' = n + 1
        /\ IF i >= j THEN res' = -1 /\ UNCHANGED <<i, j>>
           ELSE LET h == IF Design = "ceil" THEN i + ((j - i + 1) \div 2) ELSE i + ((j - i) \div 2)
                    r == IF h + 1 \in DOMAIN rs THEN rs[h + 1] ELSE <<Top + 1, Top + 1>>
                IN IF c < r[1] THEN j' = (IF Design = "before" THEN h - 1 ELSE h) /\ UNCHANGED <<i, res>>
                   ELSE IF (IF Design = "atend" THEN r[2] <= c /\ r[1] < r[2] ELSE r[2] < c) THEN i' = (IF Design = "same" THEN h ELSE h + 1) /\ UNCHANGED <<j, res>>
                   ELSE res' = h /\ UNCHANGED <<i, j>>

Declared == LET S == {k \in 1..Len(rs) : rs[k][1] <= c /\ c <= rs[k][2]}
            IN IF S = {} THEN -1 ELSE (CHOOSE k \in S : TRUE) - 1
InRange == 0 <= i /\ i <= j /\ j <= Len(rs)
Found == res # -2 => res = Declared
(* Nothing that contains the key has been excluded. *)
Kept == (res = -2 /\ Declared >= 0) => (i <= Declared /\ Declared < j)
\* Every step shrinks the part that is left to look at.
Ends == n + (j - i) <= Len(rs) + 1
=============================================================================
