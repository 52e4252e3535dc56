----------------------------- MODULE SharedModel ----------------------------
(* Users of one parsed font.  A user's operation goes in steps: it takes    *)
(* what it needs of the font, works on it in a place for working (which it  *)
(* may have to set up first, for the operation's environment), and gives    *)
(* the result.  The places belong to the users (Place = "own"); the         *)
(* alternatives, which TLC refutes, are a place that belongs to the font    *)
(* (Place = "font") and one that the font lends to one user at a time       *)
(* but that keeps what it was set up for (Place = "lent").                  *)
EXTENDS BehBase, FiniteSets
CONSTANTS Users, Ops, Len0, Place
VARIABLES bytes,        \* the font's data
          work,         \* place -> what is in it: what it was set up for, and what has been worked out
          pc, op, res,  \* per user
          done,         \* per user, the operations finished and their results
          hist
vars == <<bytes, work, pc, op, res, done, hist>>
Bytes0 == 7
Places == IF Place = "own" THEN Users ELSE {0}
P(u) == IF Place = "own" THEN u ELSE 0
Empty == [for |-> 0, val |-> 0]
Init == /\ bytes = Bytes0 /\ work = [p \in Places |-> Empty]
        /\ pc = [u \in Users |-> "idle"] /\ op = [u \in Users |-> 0] /\ res = [u \in Users |-> 0]
        /\ done = [u \in Users |-> << >>] /\ hist = << >>
Begin(u, o) == /\ pc[u] = "idle" /\ Len(done[u]) < Len0
               /\ (Place = "lent" => \A v \in Users : pc[v] = "idle")
               /\ pc' = [pc EXCEPT ![u] = "take"] /\ op' = [op EXCEPT ![u] = o]
               /\ UNCHANGED <<bytes, work, res, done, hist>>
\* A set-up is reused when the place holds one (its environment: the operation's number over 2).
Take(u) == /\ pc[u] = "take"
           /\ LET e == op[u] \div 2
                  w == work[P(u)]
              IN work' = [work EXCEPT ![P(u)] = IF w.for # 0 /\ (Place = "lent" \/ w.for = e + 1) THEN [w EXCEPT !.val = w.for * bytes]
                                                ELSE [for |-> e + 1, val |-> (e + 1) * bytes]]
           /\ pc' = [pc EXCEPT ![u] = "work"] /\ UNCHANGED <<bytes, op, res, done, hist>>
Work(u) == /\ pc[u] = "work" /\ work' = [work EXCEPT ![P(u)].val = @ + op[u]]
           /\ pc' = [pc EXCEPT ![u] = "give"] /\ UNCHANGED <<bytes, op, res, done, hist>>
Give(u) == /\ pc[u] = "give" /\ pc' = [pc EXCEPT ![u] = "idle"]
           /\ done' = [done EXCEPT ![u] = Append(@, <<op[u], work[P(u)].val>>)]
           /\ UNCHANGED <<bytes, work, op, res, hist>>
Next == \E u \in Users : (\E o \in Ops : Begin(u, o)) \/ Take(u) \/ Work(u) \/ Give(u)
Alone(o) == ((o \div 2) + 1) * Bytes0 + o
Immutable == bytes = Bytes0
AsAlone == \A u \in Users : \A i \in DOMAIN done[u] : done[u][i][2] = Alone(done[u][i][1])
\* Two users about to use one place, one of them writing to it.
NoRace == \A u, v \in Users : u # v /\ pc[u] \in {"take", "work"} /\ pc[v] \in {"take", "work", "give"} => P(u) # P(v)

(* Histories for the driver, operation by operation. *)
Kinds == <<"glyph", "glyph", "glyph", "glyph", "index", "hm", "vm", "kern", "bounds", "name", "upem",
           "face", "face", "fbounds", "fkern", "draw", "draw", "parse">>
Pick(S) == RandomElement(S)
WalkLen == 24
Walk == /\ Len(hist) < WalkLen
        /\ \E u \in {Pick(Users)}, k \in {Pick(1..Len(Kinds))}, a \in {Pick(0..7)}, b \in {Pick(0..5)}, h \in {Pick({0, 1, 2, 3})} :
             LET same == hist # << >> /\ Pick(1..3) = 1     \* another user does the same
             IN hist' = Append(hist, IF same THEN [hist[Len(hist)] EXCEPT !.p = u]
                                     ELSE [p |-> u, o |-> Kinds[k], a |-> a, b |-> b, h |-> IF h = 3 THEN 2 ELSE h])
        /\ UNCHANGED <<bytes, work, pc, op, res, done>>
Emit == Len(hist) = WalkLen =>
          EmitBehaviour([seed |-> RandomElement(1..1000000), n |-> Cardinality(Users), hist |-> hist])
=============================================================================
