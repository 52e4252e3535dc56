------------------------------ MODULE S01Trace ------------------------------
(* S01: the filled stroke is the band around the path.                      *)
EXTENDS Stroke, TraceBase

Caps == <<"round", "round", "butt", "square">>
Joins == <<"round", "round", "bevel">>

(* Adds points, leaving out those that are where the one before them is. *)
RECURSIVE Extend(_, _, _)
Extend(pts, more, i) ==
  IF i > Len(more) THEN pts
  ELSE Extend(IF more[i] = pts[Len(pts)] THEN pts ELSE Append(pts, more[i]), more, i + 1)

(* The points of a path, its curves in sixteen segments each. *)
RECURSIVE Points(_, _, _)
Points(ops, i, pts) ==
  IF i > Len(ops) THEN pts
  ELSE LET o == ops[i]
           a == pts[Len(pts)]
           more == IF o.o = "L" THEN <<o.p>> ELSE Quad(a, <<o.p[1], o.p[2]>>, <<o.p[3], o.p[4]>>, 3)
       IN Points(ops, i + 1, Extend(pts, more, 1))

(* Does quadratic i turn by little more than a right angle at most? *)
EndOf(o) == <<o.p[Len(o.p) - 1], o.p[Len(o.p)]>>
Gentle(ops, i) ==
  LET u == Sub(<<ops[i].p[1], ops[i].p[2]>>, EndOf(ops[i - 1]))
      v == Sub(EndOf(ops[i]), <<ops[i].p[1], ops[i].p[2]>>)
  IN 5 * Dot(u, v) >= -((Len8(u) \div 8) * (Len8(v) \div 8))

J(e) ==
  LET in == e.in
      ops == in.ops
      curves == {i \in 2..Len(ops) : ops[i].o = "Q"}
      pts == Points(ops, 2, <<ops[1].p>>)
      corners == {Len(Points(SubSeq(ops, 1, i), 2, <<ops[1].p>>)) - 1 : i \in 2..(Len(ops) - 1)}
      ss == TLCEval([i \in 1..(Len(pts) - 1) |-> Seg(pts[i], pts[i + 1])])
      hw == in.width \div 2
      cap == Caps[in.cap + 1]
      join == Joins[in.join + 1]
      m == (IF curves # {} THEN 128 ELSE 32) + 46
      cover(p) == IF curves = {} THEN Must(ss, p, hw, cap, join, m)
                  ELSE MustCurve(ss, p, hw, cap, m, IF join = "round" THEN {} ELSE corners)
      gentle == \A i \in curves : Gentle(ops, i)
      badIn(r) ==
        LET row == RowOf(e.out.spans, r)
        IN {c \in 0..(in.w - 1) :
             LET a == AlphaIn(row, c, 1)
                 p == <<64 * c + 32, 64 * r + 32>>
             IN \/ a # 65535 /\ gentle /\ cover(p)
                \/ a # 0 /\ ~May(ss, p, hw, cap, join, m)}
      bad0 == {<<r, badIn(r)>> : r \in 0..(in.h - 1)}
      bad1 == {b \in bad0 : b[2] # {}}
  IN IF Structure(e.out, in.w, in.h, 0, 0) # "" THEN Structure(e.out, in.w, in.h, 0, 0)
     ELSE IF Len(pts) < 2 \/ bad1 = {} THEN "" ELSE "not the band around the path at (row, columns) " \o ToString(bad1)

Next == Consume(J)
=============================================================================
