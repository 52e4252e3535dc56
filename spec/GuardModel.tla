----------------------------- MODULE GuardModel -----------------------------
(* Design model for P01: the conditions under which Sfnt accepts a table    *)
(* are enough for every later look-up to stay inside the table, for every   *)
(* table length and every value of the fields that are used as lengths,     *)
(* counts, offsets and indexes (in units of the smallest record).           *)
(* Design = "code" is what is implemented. Each of the others leaves one    *)
(* condition out or has it slightly wrong, and TLC finds a read outside.    *)
EXTENDS Integers
CONSTANTS Design, N, K    \* greatest table length; greatest count
VARIABLES case, len, s, cnt, ro, arg, reads, ok

(* A look-up reads the bytes a..b-1. *)
R(a, b) == <<a, b>>
(* A character map of format 4 at offset s, cnt ranges, the range's         *)
(* idRangeOffset ro, and arg = 16 * (range looked at) + (character - start). *)
Fmt4Ok == s > 0 /\ s + 14 <= len /\ s + (IF Design = "fmt4" THEN 14 ELSE 16) + (8 * cnt) <= len
Fmt4Reads ==
  LET h == arg \div 16
      d == arg % 16
      at == s + 16 + (6 * cnt) + (2 * h) + ro + (2 * d)
  IN IF h >= cnt THEN {}
     ELSE {R(s, s + 14), R(s + 14 + (2 * h), s + 16 + (2 * h)), R(s + 16 + (6 * cnt) + (2 * h), s + 18 + (6 * cnt) + (2 * h))}
          \cup IF ro = 0 THEN {} ELSE IF at + (IF Design = "array" THEN 0 ELSE 2) > len \/ at < s + 16 + (8 * cnt) THEN {} ELSE {R(at, at + 2)}
(* Format 12: cnt groups. *)
Fmt12Ok == s > 0 /\ s + 16 <= len /\ (IF Design = "fmt12" THEN 0 ELSE s) + 16 + (12 * cnt) <= len
Fmt12Reads == IF arg >= cnt THEN {} ELSE {R(s, s + 16), R(s + 16 + (12 * arg), s + 28 + (12 * arg))}
(* Kerning: cnt pairs. *)
KernOk == len >= 18 /\ (IF Design = "kern" THEN 14 ELSE 18) + (6 * cnt) <= len
KernReads == IF arg >= cnt THEN {} ELSE {R(0, 18), R(18 + (6 * arg), 24 + (6 * arg))}
(* Horizontal metrics: cnt long metrics, s glyphs; glyph arg. *)
HmtxOk == (2 * cnt) + (2 * s) = len /\ (cnt > 0 \/ s = 0 \/ Design = "hmtx")
HmtxReads ==
  IF arg >= s THEN {}
  ELSE IF arg < cnt THEN {R(4 * arg, (4 * arg) + 4)}
  ELSE {R(4 * (cnt - 1), (4 * (cnt - 1)) + 4), R((4 * cnt) + (2 * (arg - cnt)), (4 * cnt) + (2 * (arg - cnt)) + 2)}
(* Vertical metrics: no condition on the table, one on each look-up. *)
VmtxReads == IF (4 * arg) + (IF Design = "vmtx" THEN 2 ELSE 4) <= len THEN {R(4 * arg, (4 * arg) + 4)} ELSE {}
(* Names: cnt records, string of length ro at s. *)
NameOk == len >= 6 /\ len >= 6 + (12 * cnt)
NameReads == IF arg >= cnt THEN {}
             ELSE {R(6 + (12 * arg), 18 + (12 * arg))} \cup IF (IF Design = "name" THEN s > len \/ ro > len ELSE s + ro > len) THEN {} ELSE {R(s, s + ro)}
(* Encoding records of the character map. *)
RecsOk == len >= 4 /\ len >= (IF Design = "recs" THEN 0 ELSE 4) + (8 * cnt)
RecsReads == IF arg >= cnt THEN {} ELSE {R(4 + (8 * arg), 12 + (8 * arg))}

Case == {"fmt4", "fmt12", "kern", "hmtx", "vmtx", "name", "recs"}
Init == /\ case \in Case
        /\ len \in 0..N /\ s \in 0..4 \cup {10, 20, 60} /\ cnt \in 0..K
        /\ ro \in {0, 1, 2, 3, 4, 6, 8, 10, 20, 60} /\ arg \in 0..K \cup {16, 17, 18, 32, 33, 40, 48}
        /\ reads = {} /\ ok = FALSE
Next == /\ ~ok
        /\ ok' = CASE case = "fmt4" -> Fmt4Ok [] case = "fmt12" -> Fmt12Ok [] case = "kern" -> KernOk
                   [] case = "hmtx" -> HmtxOk [] case = "vmtx" -> TRUE [] case = "name" -> NameOk [] case = "recs" -> RecsOk
        /\ ok'
        /\ reads' = CASE case = "fmt4" -> Fmt4Reads [] case = "fmt12" -> Fmt12Reads [] case = "kern" -> KernReads
                   [] case = "hmtx" -> HmtxReads [] case = "vmtx" -> VmtxReads [] case = "name" -> NameReads [] case = "recs" -> RecsReads
        /\ UNCHANGED <<case, len, s, cnt, ro, arg>>
Inside == \A r \in reads : 0 <= r[1] /\ r[1] <= r[2] /\ r[2] <= len
=============================================================================
