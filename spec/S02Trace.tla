------------------------------ MODULE S02Trace ------------------------------
(* S02: paths record and replay operations; strokes are strokes of curves.  *)
EXTENDS Stroke, TraceBase

Code(o) == CASE o = "S" -> 0 [] o = "L" -> 1 [] o = "Q" -> 2 [] o = "C" -> 3
RECURSIVE Encode(_, _)
Encode(ops, i) == IF i > Len(ops) THEN << >>
                  ELSE <<Code(ops[i].o)>> \o ops[i].p \o <<Code(ops[i].o)>> \o Encode(ops, i + 1)

RECURSIVE Cat(_, _)
Cat(s, i) == IF i > Len(s) THEN << >> ELSE s[i] \o Cat(s, i + 1)

End(o) == <<o.p[Len(o.p) - 1], o.p[Len(o.p)]>>

(* Every curve of ops ends where it starts. *)
Closed(ops) ==
  \A i \in 1..Len(ops) : ops[i].o = "S" =>
    \E j \in i..Len(ops) : /\ \A k \in (i + 1)..j : ops[k].o # "S"
                           /\ (j = Len(ops) \/ ops[j + 1].o = "S")
                           /\ j > i /\ End(ops[j]) = ops[i].p

(* The control polygon of the curve: the directions in which operation i    *)
(* leaves its start and arrives at its end.                                 *)
Leave(ops, i) == Sub(<<ops[i].p[1], ops[i].p[2]>>, End(ops[i - 1]))
Arrive(ops, i) == IF ops[i].o = "L" THEN Leave(ops, i)
                  ELSE Sub(End(ops[i]), <<ops[i].p[1], ops[i].p[2]>>)

(* n is a normal of direction d of length hw, on the left (sg = 1) or right *)
NormalOK(n, d, hw, sg) ==
  LET tol == hw \div 50 + 3
      l8 == Len8(d)
  IN /\ Abs(Len8(n) \div 8 - hw) <= tol
     /\ Abs(8 * Dot(n, d)) \div l8 <= tol
     /\ sg * Cross(n, d) > 0

(* The calls a custom capper and joiner must get, in the form of predicates *)
(* on the i'th of them.                                                     *)
Curves(ops) == {i \in 1..Len(ops) : ops[i].o = "S" /\ i < Len(ops) /\ ops[i + 1].o # "S"}
LastOf(ops, i) == CHOOSE j \in i..Len(ops) : /\ \A k \in (i + 1)..j : ops[k].o # "S"
                                            /\ (j = Len(ops) \/ ops[j + 1].o = "S")
Inner(ops) == {i \in 2..Len(ops) : ops[i].o # "S" /\ ops[i - 1].o # "S"}
Rank(S, i) == Cardinality({j \in S : j <= i})

Bends(ops) == {i \in 1..Len(ops) : ops[i].o = "Q"}

(* Is o what the k'th custom join added on the right, backwards? *)
Backwards(style, c, k, o) ==
  CASE style = 1 -> TRUE
    [] style = 2 -> o.o = "Q" /\ <<o.p[1], o.p[2]>> = <<c[1] + k, c[2] + 7>>
    [] style = 3 -> o.o = "C" /\ SubSeq(o.p, 1, 4) = <<c[1] + 9, c[2] + k, c[1] + k, c[2] + 7>>

CustomBad(in, out) ==
  LET ops == in.ops
      hw == in.width \div 2
      cs == Curves(ops)
      is == Inner(ops)
  IN CASE Len(out.caps) # 2 * Cardinality(cs) -> "wrong number of caps"
       [] Len(out.joins) # Cardinality(is) -> "wrong number of joins"
       [] \E c \in cs : LET k == 2 * Rank(cs, c)
                            l == LastOf(ops, c)
                            c1 == out.caps[k - 1]
                            c2 == out.caps[k]
                        IN \/ c1.hw # hw \/ c2.hw # hw
                           \/ c1.pivot # End(ops[l]) \/ c2.pivot # ops[c].p
                           \/ l \notin Bends(ops) /\ ~NormalOK(c1.n1, Arrive(ops, l), hw, -1)
                           \/ ~NormalOK(c2.n1, Leave(ops, c + 1), hw, 1) -> "wrong cap arguments"
       [] \E i \in is : LET j == out.joins[Rank(is, i)]
                        IN \/ j.hw # hw \/ j.pivot # End(ops[i - 1])
                           \/ i - 1 \notin Bends(ops) /\ ~NormalOK(j.n0, Arrive(ops, i - 1), hw, 1)
                           \/ ~NormalOK(j.n1, Leave(ops, i), hw, 1) -> "wrong join arguments"
       [] \E k \in DOMAIN out.joins : ~\E i \in DOMAIN out.custom : Backwards(in.style, out.joins[k].pivot, k, out.custom[i]) ->
            "what a custom join adds on the right is not there backwards"
       [] ~Closed(out.custom) -> "stroke with custom caps does not close"
       [] OTHER -> ""

Pixels(ss) == UNION {{<<ss[k][1], x, ss[k][4]>> : x \in ss[k][2]..(ss[k][3] - 1)} : k \in 1..Len(ss)}

JStroke(in, out) ==
  CASE out.all # Cat(out.each, 1) -> "stroke of the path is not the strokes of its curves"
    [] Curves(in.ops) = {} /\ out.all # << >> -> "a path without segments has a stroke"
    [] Curves(in.ops) # {} /\ Cardinality({i \in 1..Len(out.all) : out.all[i].o = "S"}) # Cardinality(Curves(in.ops)) -> "wrong number of curves"
    [] ~Closed(out.all) -> "stroke does not end where it starts"
    [] out.viapath # Encode(out.all, 1) -> "stroke added to a path differs"
    [] Pixels(out.pixels.spans) # Pixels(out.replay.spans) -> "stroke added to a rasterizer differs"
    [] out.nil # out.round -> "missing cap and join are not the round ones"
    [] OTHER -> CustomBad(in, out)

RECURSIVE Paths(_, _, _)
Paths(calls, i, s) ==     \* s: <<first, other>>
  IF i > Len(calls) THEN s
  ELSE LET c == calls[i] IN
       Paths(calls, i + 1,
         CASE c.o = "clear" -> << << >>, s[2]>>
           [] c.o = "swap" -> <<s[2], s[1]>>
           [] c.o = "P" -> <<s[1] \o s[2], s[2]>>
           [] OTHER -> <<Append(s[1], c), s[2]>>)

(* A co-ordinate as a 26.6 number prints: its whole pixels, and 64ths. *)
Two(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)
Coord(v) == IF v >= 0 THEN ToString(v \div 64) \o ":" \o Two(v % 64)
            ELSE "-" \o ToString((-v) \div 64) \o ":" \o Two((-v) % 64)
RECURSIVE Coords(_, _), Text(_, _)
Coords(p, i) == IF i > Len(p) THEN "" ELSE (IF i = 1 THEN "" ELSE " ") \o Coord(p[i]) \o Coords(p, i + 1)
TextOf(o) == (CASE o = "S" -> "S0" [] o = "L" -> "A1" [] o = "Q" -> "A2" [] o = "C" -> "A3")
Text(ops, i) == IF i > Len(ops) THEN ""
                ELSE (IF i = 1 THEN "" ELSE " ") \o TextOf(ops[i].o) \o "[" \o Coords(ops[i].p, 1) \o "]" \o Text(ops, i + 1)

JPath(in, out) ==
  LET s == Paths(in.calls, 1, << << >>, << >> >>)
  IN IF out.a # Encode(s[1], 1) \/ out.b # Encode(s[2], 1) THEN "path contents differ"
     ELSE IF out.text # Text(s[1], 1) THEN "path text is " \o out.text \o ", not " \o Text(s[1], 1)
     ELSE ""

J(e) == IF "calls" \in DOMAIN e.in THEN JPath(e.in, e.out) ELSE JStroke(e.in, e.out)
Next == Consume(J)
=============================================================================
