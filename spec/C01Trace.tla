------------------------------ MODULE C01Trace ------------------------------
(* C01: a used drawing context draws each glyph as a new one with the same  *)
(* settings does, where the glyph was asked for in the same quarter column  *)
(* since the settings last changed.                                         *)
EXTENDS Fixed, TraceBase

Col(x) == (x % 64) \div 16
(* st: [set: the settings, req: what was asked for since they changed]. *)
Start0 == [set |-> [font |-> 0, size |-> <<48, 0>>, dpi |-> <<72, 0>>, hint |-> 0], req |-> {}]
With(st, set) == IF set = st.set THEN st ELSE [set |-> set, req |-> {}]
Asked(d) == {[g |-> d.req[i].g, c |-> Col(d.req[i].x), fx |-> d.req[i].x % 64, fy |-> d.req[i].y % 64] : i \in DOMAIN d.req}
After(st, c, d) ==
  CASE c.o = "font" -> With(st, [st.set EXCEPT !.font = c.a])
    [] c.o = "size" -> With(st, [st.set EXCEPT !.size = <<c.a, c.x>>])
    [] c.o = "dpi" -> With(st, [st.set EXCEPT !.dpi = <<c.a, c.x>>])
    [] c.o = "hint" -> With(st, [st.set EXCEPT !.hint = c.a])
    [] c.o = "draw" -> [st EXCEPT !.req = @ \cup Asked(d)]
    [] OTHER -> st

(* st is the state after the draw. *)
Draw(st, c, d) ==
  IF st.set.font = 0 THEN IF d.err THEN "" ELSE "no error without a font"
  ELSE IF d.skip THEN ""
  ELSE IF Len(d.req) = 0
  THEN IF ~d.err THEN "no error for a glyph that cannot be loaded"
       ELSE IF d.m # d.refs[1].m THEN "a glyph that cannot be loaded changes the image" ELSE ""
  ELSE LET may == {r \in st.req : r.g = d.req[1].g /\ r.c = Col(c.x)}
           ref(r) == {i \in DOMAIN d.refs : d.refs[i].fx = r.fx /\ d.refs[i].fy = r.fy}
       IN IF d.err THEN "an error for a glyph that can be loaded"
          ELSE IF \E r \in may : ref(r) = {} THEN "generator: no reference"
          ELSE IF \E r \in may : \E i \in ref(r) : ~d.refs[i].err /\ d.refs[i].m = d.m THEN ""
          ELSE "glyph " \o ToString(d.req[1].g) \o " does not look as a new context draws it"

RECURSIVE From(_, _, _)
From(e, i, st) ==
  IF i > Len(e.in.calls) THEN ""
  ELSE LET c == e.in.calls[i]
           d == e.out.d[i]
           n == After(st, c, d)
           v == IF c.o = "draw" THEN Draw(n, c, d) ELSE ""
       IN IF v # "" THEN "call " \o ToString(i) \o " " \o ToString(c) \o ": " \o v ELSE From(e, i + 1, n)
J(e) == From(e, 1, Start0)
Next == Consume(J)
=============================================================================
