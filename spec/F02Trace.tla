------------------------------ MODULE F02Trace ------------------------------
(* F02: sub-pixel quantization and option defaults.                         *)
EXTENDS FaceSpec, TraceBase
MovedBy(v, dx, dy) == <<v[1] + dx, v[2] + dy, v[3] + dx, v[4] + dy, v[5]>>
J(e) ==
  LET o == e.in.o
      ro == e.out.refo
      V(s, p) ==
        IF s.got.ok # s.ref.ok THEN "ok"
        ELSE IF s.got.ok /\ s.got.v # s.ref.v THEN "rectangle or advance"
        ELSE IF s.got.m # s.ref.m THEN "mask"
        ELSE IF s.moved.ok # s.got.ok THEN "ok, moved"
        ELSE IF s.got.ok /\ s.moved.v # MovedBy(s.got.v, p[1], p[2]) THEN "rectangle, moved"
        ELSE IF s.moved.m # s.got.m THEN "mask, moved"
        ELSE IF s.got.ok /\ s.got.v[5] # s.adv.v[1] THEN "advance"
        ELSE ""
      P(i) == e.out.p[i].p
      Good(i) == LET s == e.out.p[i]  p == s.p
                 IN /\ s.qx = Quantized(p.x, SubX(o)) /\ s.qy = Quantized(p.y, SubY(o))
      wrong == {i \in DOMAIN e.out.p : V(e.out.p[i], <<P(i).dx, P(i).dy>>) # ""}
  IN IF \/ \E i \in DOMAIN e.out.p : ~Good(i)
        \/ <<Size0(ro), Dpi0(ro), Hinted(ro)>> # <<Size0(o), Dpi0(o), Hinted(o)>>
        \/ SubX(ro) # 64 \/ SubY(ro) # 64 \/ ro.nil
     THEN "generator: wrong reference"
     ELSE IF wrong = {} THEN ""
     ELSE LET i == MinOf(wrong)
          IN "probe " \o ToString(P(i)) \o ": " \o V(e.out.p[i], <<P(i).dx, P(i).dy>>)
Next == Consume(J)
=============================================================================
