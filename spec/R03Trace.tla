------------------------------ MODULE R03Trace ------------------------------
(* R03: replays each history on the state machine RasterHist; every         *)
(* rasterization must deliver the spans that the current path has by itself.*)
(* out.rasters holds one record per rasterization: what it delivered (got)  *)
(* and what a new rasterizer delivered for the operations issued one by one *)
(* since the last clear (fresh).                                            *)
EXTENDS Raster, RasterHist, TraceBase

RECURSIVE Walk(_, _, _, _)
Walk(s, calls, j, n) ==    \* <<state before>> for every rasterization, in order
  IF j > Len(calls) THEN << >>
  ELSE LET rest == Walk(After(s, calls[j]), calls, j + 1, n)
       IN IF calls[j].o = "raster" THEN <<s>> \o rest ELSE rest

RECURSIVE ClosedFrom(_, _, _, _)
(* Does every curve from operation i on end where it starts? *)
ClosedFrom(path, i, start, cur) ==
  IF i > Len(path) THEN cur = start
  ELSE LET o == path[i]
           end == <<o.p[Len(o.p) - 1], o.p[Len(o.p)]>>
       IN IF o.o = "S" THEN cur = start /\ ClosedFrom(path, i + 1, end, end)
          ELSE ClosedFrom(path, i + 1, start, end)

(* A curve that is left open has no inside: what it leaves on its right is  *)
(* painted up to the last pixel the rasterizer has an entry for, and there  *)
(* are more of them when it rasterized half way.                            *)
Beyond(s, r, d1, d2) ==
  /\ s.split
  /\ ~ClosedFrom(s.path, 1, <<0, 0>>, <<0, 0>>)
  /\ \A p \in (d1 \ d2) \cup (d2 \ d1) :
       \A k \in DOMAIN r.fresh.spans :
         LET f == r.fresh.spans[k] IN f[1] = p[1] + s.dy => f[3] <= p[2] + s.dx

OneRaster(s, r) ==
  LET es == Edges(s.path, SizeClass(s.w, s.h))
      d == Diff(es, r.got, s.w, s.h, s.dx, s.dy, s.nz)
      d0 == Diff(es, r.fresh, s.w, s.h, s.dx, s.dy, s.nz)
  IN IF Structure(r.got, s.w, s.h, s.dx, s.dy) # "" THEN Structure(r.got, s.w, s.h, s.dx, s.dy)
     ELSE IF ~s.split /\ r.got.spans # r.fresh.spans THEN "differs from a new rasterizer"
     ELSE IF d0 = d \/ Beyond(s, r, d, d0) THEN ""
     ELSE "pixels differ from a new rasterizer at " \o ToString(d)

JHist(e) ==
  LET ss == Walk(Fresh(4, 3), e.in.calls, 1, 0)
      bads == {k \in 1..Len(ss) : OneRaster(ss[k], e.out.rasters[k]) # ""}
  IN IF Len(ss) # Len(e.out.rasters) THEN "wrong number of rasterizations"
     ELSE IF bads = {} THEN ""
     ELSE LET k == CHOOSE k \in bads : \A m \in bads : k <= m
          IN "rasterization " \o ToString(k) \o ": " \o OneRaster(ss[k], e.out.rasters[k])

(* A path moved by whole pixels, rasterized in bounds that move along: out.base and out.moved. *)
JMove(e) ==
  LET in == e.in
      mv(s) == <<s[1] + in.my, s[2] + in.mx, s[3] + in.mx, s[4]>>
      \* what lies left of or above the moved window is not in the base window
      clip(s) == <<s[1], Max2(s[2], in.mx), s[3], s[4]>>
      vis == SelectSeq([k \in 1..Len(e.out.moved.spans) |-> clip(e.out.moved.spans[k])],
                       LAMBDA s : s[1] >= in.my /\ s[2] < s[3])
      pix(ss) == UNION {{<<ss[k][1], x, ss[k][4]>> : x \in ss[k][2]..(ss[k][3] - 1)} : k \in 1..Len(ss)}
  IN IF pix([k \in 1..Len(e.out.base.spans) |-> mv(e.out.base.spans[k])]) = pix(vis)
     THEN "" ELSE "moved path has other pixels"

J(e) == IF "calls" \in DOMAIN e.in THEN JHist(e) ELSE JMove(e)
Next == Consume(J)
=============================================================================
