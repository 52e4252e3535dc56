------------------------------ MODULE R02Trace ------------------------------
(* R02: for closed polygons the alpha of every pixel is the covered area.   *)
EXTENDS Raster, TraceBase

J(e) ==
  LET es == Edges(e.in.ops, 1)
      d == Diff(es, e.out, e.in.w, e.in.h, e.in.dx, e.in.dy, e.in.nz)
  IN IF d = {} THEN ""
     ELSE LET b == BadPixels(es, d, e.in.nz)
          IN IF b = {} THEN "" ELSE "alpha is not the covered area at " \o ToString(b)

Next == Consume(J)
=============================================================================
