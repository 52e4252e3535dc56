------------------------------ MODULE R01Trace ------------------------------
(* R01: the spans of any rasterization are ordered, disjoint, in bounds.    *)
EXTENDS Raster, TraceBase
J(e) == Structure(e.out, Max2(0, e.in.w), Max2(0, e.in.h), e.in.dx, e.in.dy)
Next == Consume(J)
=============================================================================
