----------------------------- MODULE PathModel ------------------------------
(* Design model for S02: the words that record a path's operations, read    *)
(* forwards (to replay, print or stroke it) and backwards (to add a join to *)
(* the right side of a stroke), and paths added to each other, as every     *)
(* short sequence of operations on two paths leaves them.  Co-ordinates     *)
(* take the values of the operations' codes, so that a word may be either.  *)
(* Design = "code" is what is implemented; TLC refutes the others.          *)
(* Emit gives each sequence to the driver.                                  *)
EXTENDS BehBase
CONSTANTS Design, Longest
VARIABLES calls, ops, words     \* ops, words: of the first path and of the other

Sizes == [S |-> 2, L |-> 2, Q |-> 4, C |-> 6]
Kinds == {"S", "L", "Q", "C"}
Code(o) == CASE o = "S" -> 0 [] o = "L" -> 1 [] o = "Q" -> 2 [] o = "C" -> 3
Size(c) == CASE c = 0 -> 2 [] c = 1 -> 2 [] c = 2 -> 4 [] c = 3 -> 6 [] OTHER -> -1
Name(c) == CASE c = 0 -> "S" [] c = 1 -> "L" [] c = 2 -> "Q" [] OTHER -> "C"

Bad == << [o |-> "bad", p |-> << >>] >>
Record(o) == IF Design = "once" THEN <<Code(o.o)>> \o o.p ELSE (<<Code(o.o)>> \o o.p) \o <<Code(o.o)>>

RECURSIVE Read(_, _, _)
Read(w, i, acc) ==      \* acc: a sequence of operations, or Bad
  IF i > Len(w) THEN acc
  ELSE LET n == Size(w[i])
           skip == CASE Design = "once" -> n + 1
                     [] Design = "flat" -> 4       \* every operation as long as a line's
                     [] OTHER -> n + 2
       IN IF n < 0 \/ i + n + (IF Design = "once" THEN 0 ELSE 1) > Len(w) THEN Bad
          ELSE Read(w, i + skip, Append(acc, [o |-> Name(w[i]), p |-> SubSeq(w, i + 1, i + n)]))

Flip(p) == [k \in 1..Len(p) |-> LET h == Len(p) \div 2
                                    pt == h + 1 - ((k + 1) \div 2)
                                IN p[(2 * pt) - (k % 2)]]
(* Backwards: each operation's points but the last, and where the operation before it ends. *)
RECURSIVE Back(_, _, _)
Back(w, i, acc) ==
  IF i < 1 THEN acc
  ELSE LET c == w[i]
           n == Size(c)
           j == i - (n + 2)      \* the end of the operation before
       IN IF n < 0 \/ j < 0 THEN Bad
          ELSE IF c = 0 THEN acc                     \* the start of the curve
          ELSE IF j < 3 THEN Bad
          ELSE LET mine == SubSeq(w, i - n, i - 1)
                   inner == SubSeq(mine, 1, n - 2)
                   to == IF Design = "end" THEN SubSeq(mine, n - 1, n) ELSE SubSeq(w, j - 2, j - 1)
               IN Back(w, j, Append(acc, [o |-> Name(c), p |-> (IF Design = "order" THEN inner ELSE Flip(inner)) \o to]))

(* What those should be. *)
LastCurve(s) == LET st == {i \in 1..Len(s) : s[i].o = "S"}
                IN IF st = {} THEN 0 ELSE CHOOSE i \in st : \A j \in st : j <= i
End(o) == SubSeq(o.p, Len(o.p) - 1, Len(o.p))
RECURSIVE BackOps(_, _, _)
BackOps(s, i, lo) ==
  IF i <= lo THEN << >>
  ELSE << [o |-> s[i].o, p |-> Flip(SubSeq(s[i].p, 1, Len(s[i].p) - 2)) \o End(s[i - 1])] >> \o BackOps(s, i - 1, lo)

Point(i) == CASE i % 4 = 0 -> <<0, 0>> [] i % 4 = 1 -> <<1, 2>> [] i % 4 = 2 -> <<3, i>> [] OTHER -> <<2, 1>>
RECURSIVE Points(_, _)
Points(i, n) == IF n = 0 THEN << >> ELSE Point(i) \o Points(i + 1, n - 1)

Init == calls = << >> /\ ops = << << >>, << >> >> /\ words = << << >>, << >> >>
Do(k) ==
  LET o == [o |-> k, p |-> IF k \in Kinds THEN Points(Len(calls), Sizes[k] \div 2) ELSE << >>]
  IN /\ Len(calls) < Longest
     /\ calls' = Append(calls, o)
     /\ ops' = CASE k = "clear" -> << << >>, ops[2]>>
                 [] k = "swap" -> <<ops[2], ops[1]>>
                 [] k = "P" -> <<ops[1] \o ops[2], ops[2]>>
                 [] OTHER -> <<Append(ops[1], o), ops[2]>>
     /\ words' = CASE k = "clear" -> << << >>, words[2]>>
                   [] k = "swap" -> <<words[2], words[1]>>
                   [] k = "P" -> IF Design = "curve" /\ words[2] # << >> /\ words[2][1] # 0 THEN words
                                 ELSE <<words[1] \o words[2], words[2]>>
                   [] OTHER -> <<words[1] \o Record(o), words[2]>>
Next == \E k \in Kinds \cup {"clear", "swap", "P"} : Do(k)

Forward == \A i \in {1, 2} : Read(words[i], 1, << >>) = ops[i]
Backward == LET s == ops[1]
                lo == LastCurve(s)
            IN lo > 0 => Back(words[1], Len(words[1]), << >>) = BackOps(s, Len(s), lo)
Emit == Len(calls) = 0 \/ EmitBehaviour([calls |-> calls])
=============================================================================
