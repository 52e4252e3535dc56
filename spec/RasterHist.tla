----------------------------- MODULE RasterHist -----------------------------
(* The life of one Rasterizer: a state machine whose state is what its      *)
(* output may depend on. The current path is the sequence of operations     *)
(* since the last clear or resize.                                          *)
EXTENDS Fixed

NoPath == << >>
Fresh(w, h) == [path |-> NoPath, w |-> w, h |-> h, nz |-> FALSE, dx |-> 0, dy |-> 0,
                split |-> FALSE]

(* The state after one call. Calls are records with field "o".              *)
(* split: the path was rasterized half way, which may (invisibly) cut spans *)
(* differently.                                                             *)
After(s, c) ==
  CASE c.o \in {"S", "L", "Q", "C"} -> [s EXCEPT !.path = Append(@, c)]
    [] c.o = "P" -> [s EXCEPT !.path = @ \o c.ops]          \* AddPath
    [] c.o = "clear" -> [s EXCEPT !.path = NoPath, !.split = FALSE]
    [] c.o = "bounds" -> [s EXCEPT !.path = NoPath, !.w = Max2(0, c.p[1]), !.h = Max2(0, c.p[2]),
                                   !.split = FALSE]
    [] c.o = "nz" -> [s EXCEPT !.nz = (c.p[1] = 1)]
    [] c.o = "off" -> [s EXCEPT !.dx = c.p[1], !.dy = c.p[2]]
    [] c.o = "raster" -> [s EXCEPT !.split = TRUE]
=============================================================================
