--------------------------- MODULE CompoundModel ----------------------------
(* Design model for G01: loading compound glyphs whose components may be    *)
(* compound, or themselves, with a limit on the depth and one on the        *)
(* number of components of the whole glyph; and a second glyph loaded into  *)
(* the same buffer, whose metrics come from whichever component gave its    *)
(* own.  Every graph of three glyphs with up to two components each.        *)
(* Design = "code" is what is implemented; TLC refutes the others.          *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Design, Depth, Budget
VARIABLES comps, roots, stack, total, work, result, metrics, answers

Glyphs == 1..3
Component == [t : Glyphs, m : BOOLEAN]
Lists == {<< >>} \cup {<<c>> : c \in Component} \cup {<<b, c>> : b \in {x \in Component : ~x.m \/ x.t = 3}, c \in Component}

(* What should happen: how many components there are below glyph g, -1 if   *)
(* that is too many or too deep, and whose metrics it has.                  *)
RECURSIVE Below(_, _), BelowFrom(_, _, _, _)
Below(g, d) == IF d >= Depth THEN -1 ELSE BelowFrom(g, d, 1, 0)
BelowFrom(g, d, k, n) ==
  IF k > Len(comps[g]) THEN n
  ELSE IF n + 1 > Budget THEN -1
  ELSE LET b == Below(comps[g][k].t, d + 1)
       IN IF b < 0 \/ n + 1 + b > Budget THEN -1 ELSE BelowFrom(g, d, k + 1, n + 1 + b)
RECURSIVE Whose(_)      \* The last component whose metrics are used gives them.
Whose(g) == LET u == {k \in 1..Len(comps[g]) : comps[g][k].m}
            IN IF u = {} THEN g ELSE Whose(comps[g][CHOOSE k \in u : \A j \in u : j <= k].t)
Right(g) == IF Below(g, 0) < 0 THEN [ok |-> FALSE, n |-> 0, m |-> 0]
            ELSE [ok |-> TRUE, n |-> Below(g, 0), m |-> Whose(g)]

(* The loader. A frame: the glyph, its next component, the metrics so far   *)
(* of the glyph around it, and whether this one's are used.                 *)
Init == /\ comps \in [Glyphs -> Lists]
        /\ roots \in [1..2 -> {1, 2}]
        /\ stack = << [g |-> roots[1], k |-> 1, saved |-> 0, use |-> TRUE] >>
        /\ total = 0 /\ work = 0 /\ metrics = 0 /\ result = "run" /\ answers = << >>

Top == stack[Len(stack)]
Pop == SubSeq(stack, 1, Len(stack) - 1)
Finish(r) ==
  /\ answers' = Append(answers, r)
  /\ IF Len(answers) = 0
     THEN /\ stack' = << [g |-> roots[2], k |-> 1, saved |-> 0, use |-> TRUE] >>
          /\ total' = (IF Design = "keeps" THEN total ELSE 0)
          /\ metrics' = 0 /\ work' = 0 /\ result' = "run"
     ELSE /\ result' = "done" /\ stack' = << >> /\ UNCHANGED <<total, metrics, work>>
Enter ==
  LET c == comps[Top.g][Top.k]
      deep == Len(stack) >= Depth
      many == total + 1 > Budget
      no == CASE Design = "depth" -> deep
              [] Design = "count" -> many
              [] Design = "itself" -> c.t = Top.g \/ many
              [] OTHER -> deep \/ many
  IN IF no THEN Finish([ok |-> FALSE, n |-> 0, m |-> 0])
     ELSE /\ stack' = Append([stack EXCEPT ![Len(stack)].k = @ + 1], [g |-> c.t, k |-> 1, saved |-> metrics, use |-> c.m])
          /\ total' = total + 1 /\ work' = work + 1
          /\ metrics' = (IF Design = "outer" THEN metrics ELSE 0)
          /\ UNCHANGED <<result, answers>>
Leave ==      \* of a glyph all of whose components are loaded
  LET own == IF metrics = 0 THEN Top.g ELSE metrics
  IN IF Len(stack) = 1 THEN Finish([ok |-> TRUE, n |-> total, m |-> own])
     ELSE /\ stack' = Pop
          /\ metrics' = IF Top.use THEN own
                        ELSE IF Design = "leak" THEN metrics ELSE Top.saved
          /\ total' = (IF Design = "level" THEN 0 ELSE total)
          /\ UNCHANGED <<work, result, answers>>
Step == result = "run" /\ (IF Top.k > Len(comps[Top.g]) THEN Leave ELSE Enter) /\ UNCHANGED <<comps, roots>>
Next == Step \/ (result = "done" /\ UNCHANGED <<comps, roots, stack, total, work, result, metrics, answers>>)
Spec == Init /\ [][Next]_<<comps, roots, stack, total, work, result, metrics, answers>> /\ WF_<<comps, roots, stack, total, work, result, metrics, answers>>(Next)

Bounded == work <= Budget
Shallow == Len(stack) <= Depth
Assembled == \A i \in DOMAIN answers : answers[i] = Right(roots[i])
Ends == <>(result = "done")
=============================================================================
