------------------------------ MODULE F05Trace ------------------------------
(* F05: whatever the font that was accepted and whatever the size, the      *)
(* options, the characters and the places, faces and drawing contexts come  *)
(* back with a whole answer or with none.  (A panic or a hang is recorded   *)
(* as out.fail.)                                                            *)
EXTENDS Integers, Sequences, TraceBase

WH(r) == <<r[3] - r[1], r[4] - r[2]>>
V(r, c) ==
  CASE r.o = "glyph" /\ ~r.ok -> IF r.nil /\ r.zero THEN "" ELSE "something is delivered of a glyph that is not there"
    [] r.o = "glyph" -> IF r.nil THEN "no mask"
                        ELSE IF WH(r.dr)[1] < 0 \/ WH(r.dr)[2] < 0 THEN "a rectangle that cannot be"
                        ELSE IF WH(r.mask) # WH(r.dr) \/ ~r.has THEN "the mask does not have what is to be drawn"
                        ELSE ""
    [] r.o = "bounds" -> IF ~r.ok THEN (IF r.zero THEN "" ELSE "bounds of a glyph that is not there")
                         ELSE IF r.dr[1] <= r.dr[3] /\ r.dr[2] <= r.dr[4] THEN "" ELSE "bounds that cannot be"
    [] r.o = "adv" -> IF r.ok \/ r.zero THEN "" ELSE "an advance of a glyph that is not there"
    [] r.o = "draw" -> IF r.out # 0 THEN "drawn outside the clip rectangle"
                       ELSE IF r.ok THEN (IF r.y = c.y THEN "" ELSE "another line")
                       ELSE IF r.zero THEN "" ELSE "an error and a point"
    [] OTHER -> ""
J(e) ==
  IF ~e.out.ok THEN ""
  ELSE IF Len(e.out.res) # Len(e.in.calls) THEN "calls are missing"
  ELSE LET wrong == {k \in DOMAIN e.out.res : V(e.out.res[k], e.in.calls[k]) # ""}
       IN IF wrong = {} THEN ""
          ELSE LET k == CHOOSE k \in wrong : \A j \in wrong : k <= j
               IN "call " \o ToString(e.in.calls[k]) \o ": " \o V(e.out.res[k], e.in.calls[k])
Next == Consume(J)
=============================================================================
