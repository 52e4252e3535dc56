------------------------------ MODULE C03Trace ------------------------------
(* C03: with a clip rectangle, the pixels inside it and inside the          *)
(* destination are those that drawing without it gives, and no others       *)
(* change.                                                                  *)
EXTENDS Fixed, TraceBase
In(b, x, y) == b[1] <= x /\ x < b[3] /\ b[2] <= y /\ y < b[4]
J(e) ==
  IF e.out.skip THEN ""
  ELSE LET p == e.in.parent
           w == p[3] - p[1]
           h == p[4] - p[2]
           At(img, x, y) == img[(y - p[2]) + 1][(x - p[1]) + 1]
           Area0 == (p[1]..(p[3] - 1)) \X (p[2]..(p[4] - 1))
           Bad(x, y) ==
             IF ~In(e.in.dst, x, y)
             THEN At(e.out.with, x, y) # At(e.out.before, x, y) \/ At(e.out.free, x, y) # At(e.out.before, x, y)
             ELSE IF In(e.in.clip, x, y) THEN At(e.out.with, x, y) # At(e.out.free, x, y)
             ELSE At(e.out.with, x, y) # At(e.out.before, x, y)
           b == {q \in Area0 : Bad(q[1], q[2])}
       IN IF b = {} THEN "" ELSE "wrong pixels: " \o ToString(b)
Next == Consume(J)
=============================================================================
