------------------------------ MODULE R06Trace ------------------------------
(* R06: the monochrome painter.                                             *)
EXTENDS Paint, TraceBase

One(want, got) ==
  IF ~OneFinal(got.dones) THEN "final mark not on exactly the last batch"
  ELSE IF got.spans = want THEN "" ELSE "expected " \o ToString(want)

J(e) ==
  IF "rasters" \in DOMAIN e.in
  THEN LET bads == {k \in 1..Len(e.in.rasters) :
                      One(Mono(Flat(e.in.rasters[k], 1)), e.out.rasters[k]) # ""}
       IN IF bads = {} THEN ""
          ELSE LET k == CHOOSE k \in bads : TRUE
               IN One(Mono(Flat(e.in.rasters[k], 1)), e.out.rasters[k])
  ELSE LET want == Mono(e.out.plain.spans)
       IN One(want, e.out.mono) \o One(want, e.out.again)

Next == Consume(J)
=============================================================================
