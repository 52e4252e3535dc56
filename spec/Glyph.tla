-------------------------------- MODULE Glyph --------------------------------
(* A glyph's outline, from the bytes of the file: decoding, compound        *)
(* glyphs, scaling, metrics and hinting.                                    *)
(*                                                                          *)
(* Results are records [st, pts, un, raw, ends, ph, vm]: st is "ok", "err"  *)
(* or "wild" (nothing is said), pts the points, un and raw (of a hinted     *)
(* load) the same before hinting and before scaling, ph the four phantom    *)
(* points (origin, advance, top and bottom), vm the hinting machine's state.*)
EXTENDS Hint

Result(st, vm) == [st |-> st, pts |-> << >>, un |-> << >>, raw |-> << >>, ends |-> << >>, ph |-> << >>, vm |-> vm]

(* Where glyph i's data is: <<offset, length>>, length 0 for none, -1 if it *)
(* is not inside the file's tables.                                         *)
GlyphAt(f, t, i) ==
  LET short == U16(f, t.head[1] + 50) = 0
      lo == t.loca[1]
      p == P32(f, lo + (4 * i))
      q == P32(f, lo + (4 * i) + 4)
      a == IF short THEN 2 * U16(f, lo + (2 * i)) ELSE N32(p)
      b == IF short THEN 2 * U16(f, lo + (2 * i) + 2) ELSE N32(q)
  IN IF (IF short THEN (2 * i) + 4 ELSE (4 * i) + 8) > t.loca[2] THEN <<0, -1>>
     ELSE IF a = Huge /\ b = Huge THEN <<0, -2>>
     ELSE IF b - a < 10 THEN <<0, 0>>
     ELSE IF b > t.glyf[2] THEN <<0, -1>>
     ELSE <<t.glyf[1] + a, b - a>>

(* ---------------------------------------------------------- simple glyphs *)
RECURSIVE EndsFrom(_, _, _, _)
\* n more ends, none below prev; << -1 >> at the end if out of order
EndsFrom(f, o, n, prev) ==
  IF n = 0 THEN << >>
  ELSE LET e == U16(f, o) + 1
       IN IF e < prev THEN <<-1>> ELSE <<e>> \o EndsFrom(f, o + 2, n - 1, e)

RECURSIVE FlagsFrom(_, _, _, _, _)
\* <<flags, offset after them>>; offset -1 if the data is too short
FlagsFrom(f, o, end, n, acc) ==
  IF n = 0 THEN <<acc, o>>
  ELSE IF o >= end THEN <<acc, -1>>
  ELSE LET c == U8(f, o)
       IN IF (c \div 8) % 2 = 0 THEN FlagsFrom(f, o + 1, end, n - 1, Append(acc, c))
          ELSE IF o + 1 >= end THEN <<acc, -1>>
          ELSE LET k == U8(f, o + 1)
               IN IF k > n - 1 THEN <<acc, -1>>
                  ELSE FlagsFrom(f, o + 2, end, n - 1 - k, acc \o [j \in 1..(k + 1) |-> c])

RECURSIVE CoordsFrom(_, _, _, _, _, _, _, _)
\* short and same: the flag bits that matter
CoordsFrom(f, o, end, flags, i, v, short, acc) ==
  IF i > Len(flags) THEN <<acc, o>>
  ELSE LET isShort == (flags[i] \div short) % 2 = 1
           same == (flags[i] \div (8 * short)) % 2 = 1
           n == IF isShort THEN 1 ELSE IF same THEN 0 ELSE 2
       IN IF o + n > end THEN <<acc, -1>>
          ELSE LET d == IF isShort THEN (IF same THEN U8(f, o) ELSE -U8(f, o))
                        ELSE IF same THEN 0 ELSE S16(f, o)
                   x == Wrap16(v + d)
               IN CoordsFrom(f, o + n, end, flags, i + 1, x, short, Append(acc, x))

(* [ok, pts (font units), ends, prog] *)
Simple(f, o, n) ==
  LET bad == [ok |-> FALSE, pts |-> << >>, ends |-> << >>, prog |-> [o |-> 0, n |-> 0]]
      end == o + n
      ne == S16(f, o)
      io == o + 10 + (2 * ne)
  IN IF io + 2 > end THEN bad
     ELSE LET ends == EndsFrom(f, o + 10, ne, 0)
              prog == [o |-> io + 2, n |-> U16(f, io)]
              np == IF ne = 0 THEN 0 ELSE ends[Len(ends)]
          IN IF np < 0 \/ prog.o + prog.n > end THEN bad
             ELSE LET fl == FlagsFrom(f, prog.o + prog.n, end, np, << >>)
                  IN IF fl[2] < 0 THEN bad
                     ELSE LET xs == CoordsFrom(f, fl[2], end, fl[1], 1, 0, 2, << >>)
                          IN IF xs[2] < 0 THEN bad
                             ELSE LET ys == CoordsFrom(f, xs[2], end, fl[1], 1, 0, 4, << >>)
                                  IN IF ys[2] < 0 THEN bad
                                     ELSE [ok |-> TRUE, ends |-> ends, prog |-> prog,
                                           pts |-> [i \in 1..np |-> <<xs[1][i], ys[1][i], fl[1][i] % 2, 0, 0>>]]

(* -------------------------------------------------------- compound glyphs *)
Bit(x, b) == (x \div b) % 2 = 1

RECURSIVE CompsFrom(_, _, _, _)
(* [ok, comps, o: offset after them, flags: the last one's] *)
CompsFrom(f, o, end, acc) ==
  LET bad == [ok |-> FALSE, comps |-> << >>, o |-> 0, flags |-> 0]
      fl == U16(f, o)
      words == Bit(fl, 1)
      a == o + 4 + (IF words THEN 4 ELSE 2)
      nt == IF Bit(fl, 8) THEN 1 ELSE IF Bit(fl, 64) THEN 2 ELSE IF Bit(fl, 128) THEN 4 ELSE 0
      T(k) == S16(f, a + (2 * k))
  IN IF o + 4 > end THEN bad
     ELSE IF a + (2 * nt) > end THEN bad
     ELSE IF ~Bit(fl, 2) THEN bad
     ELSE LET c == [g |-> U16(f, o + 2),
                    dx |-> IF words THEN S16(f, o + 4) ELSE S8(f, o + 4),
                    dy |-> IF words THEN S16(f, o + 6) ELSE S8(f, o + 5),
                    tr |-> CASE nt = 0 -> << >>
                             [] nt = 1 -> <<T(0), 0, 0, T(0)>>
                             [] nt = 2 -> <<T(0), 0, 0, T(1)>>
                             [] nt = 4 -> <<T(0), T(1), T(2), T(3)>>,
                    round |-> Bit(fl, 4), metrics |-> Bit(fl, 512)]
              after == a + (2 * nt)
          IN IF Bit(fl, 32) THEN CompsFrom(f, after, end, Append(acc, c))
             ELSE [ok |-> TRUE, comps |-> Append(acc, c), o |-> after, flags |-> fl]

Round64(v) == ((v + 32) \div 64) * 64

Transformed(p, c) ==
  IF c.tr = << >> THEN p
  ELSE <<Mul14(p[1], c.tr[1], 8192) + Mul14(p[2], c.tr[3], 8192),
         Mul14(p[1], c.tr[2], 8192) + Mul14(p[2], c.tr[4], 8192), p[3], p[4], p[5]>>

Big(pts) == \E i \in DOMAIN pts : Abs(pts[i][1]) > Lim \/ Abs(pts[i][2]) > Lim
ScalePt(E, p) == <<Scaled(E, p[1]), Scaled(E, p[2]), p[3], p[4], p[5]>>
ShiftX(pts, d) == TLCEval([i \in DOMAIN pts |-> [pts[i] EXCEPT ![1] = @ + d]])
Plain(p) == <<p[1], p[2], p[3], 0, 0>>

(* The phantom points of glyph i, in font units. *)
Phantoms(f, t, i, g) ==
  LET xMin == IF g[2] > 0 THEN S16(f, g[1] + 2) ELSE 0
      yMax == IF g[2] > 0 THEN S16(f, g[1] + 8) ELSE 0
      h == UHMetric(f, t, i)
      v == UVMetric(f, t, i, yMax)
  IN << <<xMin - h[2], 0, 0, 0, 0>>, <<xMin - h[2] + h[1], 0, 0, 0, 0>>,
        <<DivT(h[1], 2), yMax + v[2], 0, 0, 0>>, <<DivT(h[1], 2), yMax + v[2] - v[1], 0, 0, 0>> >>

Last4(s) == SubSeq(s, Len(s) - 3, Len(s))
But4(s) == SubSeq(s, 1, Len(s) - 4)
(* The advance and the bottom are on the grid. *)
SnapPh(s) == LET n == Len(s) IN [s EXCEPT ![n - 2][1] = Round64(@), ![n][2] = Round64(@)]

LoadSimple(E, R, vm, i, g, hint) ==
  LET d == IF g[2] = 0 THEN [ok |-> TRUE, pts |-> << >>, ends |-> << >>, prog |-> [o |-> 0, n |-> 0]]
           ELSE Simple(E.f, g[1], g[2])
      raw == d.pts \o Phantoms(E.f, E.t, i, g)
      sc == TLCEval([k \in DOMAIN raw |-> ScalePt(E, raw[k])])
  IN IF ~d.ok THEN Result("err", vm)
     ELSE IF Big(sc) THEN Result("wild", vm)
     ELSE IF ~hint THEN [st |-> "ok", pts |-> But4(sc), un |-> << >>, raw |-> << >>, ends |-> d.ends, ph |-> Last4(sc), vm |-> vm]
     ELSE LET o == sc[Len(sc) - 3][1]
              unh == ShiftX(sc, Round64(o) - o)
              r == RunGlyph(E, R, vm, d.prog, SnapPh(unh), unh, raw, d.ends, FALSE)
          IN IF r.res # "ok" THEN Result(r.res, vm)
             ELSE [st |-> "ok", pts |-> But4(r.z[2].c), un |-> But4(unh), raw |-> But4(raw), ends |-> d.ends, ph |-> Last4(r.z[2].c), vm |-> r]

RECURSIVE LoadAny(_, _, _, _, _, _, _)
(* Adds the components from c.comps[k] on to acc. *)
RECURSIVE AddComps(_, _, _, _, _, _, _)
AddComps(E, R, comps, k, acc, depth, hint) ==
  IF k > Len(comps) \/ acc.st # "ok" THEN acc
  ELSE LET c == comps[k]
           r == LoadAny(E, R, acc.vm, c.g, depth + 1, acc.n + 1, hint)
           dx0 == Scaled(E, c.dx)
           dy0 == Scaled(E, c.dy)
           dx == IF c.round THEN Round64(dx0) ELSE dx0
           dy == IF c.round THEN Round64(dy0) ELSE dy0
           tr == TLCEval([j \in DOMAIN r.pts |-> Transformed(r.pts[j], c)])
           moved == TLCEval([j \in DOMAIN tr |-> <<tr[j][1] + dx, tr[j][2] + dy, tr[j][3], tr[j][4], tr[j][5]>>])
       IN IF r.st # "ok" THEN [acc EXCEPT !.st = r.st]
          ELSE IF BIG \in {dx0, dy0} \/ Big(tr) THEN [acc EXCEPT !.st = "wild"]
          ELSE IF Big(moved) THEN [acc EXCEPT !.st = "wild"]
          ELSE AddComps(E, R, comps, k + 1,
                 [st |-> "ok", pts |-> acc.pts \o moved,
                  \* (the record's offset and transformation apply to the points only)
                  un |-> acc.un \o r.un, raw |-> acc.raw \o r.raw,
                  ends |-> acc.ends \o [j \in DOMAIN r.ends |-> r.ends[j] + Len(acc.pts)],
                  ph |-> IF c.metrics THEN r.ph ELSE acc.ph, vm |-> r.vm, n |-> r.n,
                  set |-> acc.set + (IF c.metrics THEN 1 ELSE 0)], depth, hint)

LoadCompound(E, R, vm, i, g, depth, n, hint) ==
  LET cs == CompsFrom(E.f, g[1] + 10, g[1] + g[2], << >>)
      ph0 == Phantoms(E.f, E.t, i, g)
      ph == TLCEval([k \in 1..4 |-> ScalePt(E, ph0[k])])
      end == g[1] + g[2]
      instr == hint /\ Bit(cs.flags, 256)
      prog == IF ~instr \/ cs.o + 2 > end THEN [o |-> 0, n |-> 0] ELSE [o |-> cs.o + 2, n |-> U16(E.f, cs.o)]
  IN IF ~cs.ok THEN Result("err", vm) @@ [n |-> n]
     ELSE IF Big(ph) THEN Result("wild", vm) @@ [n |-> n]
     ELSE LET r == AddComps(E, R, cs.comps, 1,
                     [st |-> "ok", pts |-> << >>, un |-> << >>, raw |-> << >>, ends |-> << >>, ph |-> ph, vm |-> vm, n |-> n, set |-> 0], depth, hint)
          IN IF r.st # "ok" THEN r
             ELSE IF ~hint THEN r
             ELSE LET all == TLCEval([k \in 1..(Len(r.pts) + 4) |-> IF k <= Len(r.pts) THEN Plain(r.pts[k]) ELSE Plain(r.ph[k - Len(r.pts)])])
                      o == r.ph[1][1]
                      cur == SnapPh(IF prog.n > 0 THEN ShiftX(all, Round64(o) - o) ELSE all)
                      q == RunGlyph(E, R, r.vm, prog, cur, cur, cur, r.ends, TRUE)
                      done == q.z[2].c
                  IN IF instr /\ cs.o + 2 > end THEN [r EXCEPT !.st = "wild"]
                     ELSE IF prog.o + prog.n > end THEN [r EXCEPT !.st = "err"]
                     ELSE IF q.res # "ok" THEN [r EXCEPT !.st = q.res]
                     ELSE [r EXCEPT !.pts = But4(done), !.ph = IF r.set > 0 THEN @ ELSE Last4(done), !.vm = q]

MaxParts == 300        \* nothing is said about glyphs with more components

LoadAny(E, R, vm, i, depth, n, hint) ==
  LET g == GlyphAt(E.f, E.t, i)
  IN IF depth >= 32 THEN Result("err", vm) @@ [n |-> n]
     ELSE IF n > MaxParts THEN Result("wild", vm) @@ [n |-> n]
     ELSE IF g[2] = -1 THEN Result("err", vm) @@ [n |-> n]
     ELSE IF g[2] = -2 THEN Result("wild", vm) @@ [n |-> n]
     ELSE IF g[2] = 0 THEN LoadSimple(E, R, vm, i, g, hint) @@ [n |-> n]
     ELSE IF S16(E.f, g[1]) >= 0 THEN LoadSimple(E, R, vm, i, g, hint) @@ [n |-> n]
     ELSE IF S16(E.f, g[1]) = -1 THEN LoadCompound(E, R, vm, i, g, depth, n, hint)
     ELSE Result("err", vm) @@ [n |-> n]

(* ------------------------------------------------------------- the glyph *)
(* The advance width that the hdmx table gives, or -1. *)
RECURSIVE HdmxFrom(_, _, _, _, _, _)
HdmxFrom(f, o, end, size, ppem, i) ==
  IF o + size > end THEN -1
  ELSE IF U8(f, o) = ppem THEN 64 * U8(f, o + 2 + i)
  ELSE HdmxFrom(f, o + size, end, size, ppem, i)
Hdmx(f, t, scale, i) ==
  IF t.hdmx[2] < 8 THEN -1
  ELSE LET size == U32(f, t.hdmx[1] + 4)
       IN IF size <= 2 + i THEN -1
          ELSE HdmxFrom(f, t.hdmx[1] + 8, t.hdmx[1] + t.hdmx[2], size, scale \div 64, i)

MinOf(S) == CHOOSE a \in S : \A b \in S : a <= b
MaxOf(S) == CHOOSE a \in S : \A b \in S : a >= b
Down64(v) == (v \div 64) * 64

(* What a load must give: [st, pts, un, raw, ends, b, adv]. R is the machine after   *)
(* the font's programs, for a hinted load.                                  *)
Glyph(E, R, i, hint) ==
  LET none == [st |-> "err", pts |-> << >>, un |-> << >>, raw |-> << >>, ends |-> << >>, b |-> <<0, 0, 0, 0>>, adv |-> 0]
      r == LoadAny(E, R, R, i, 0, 0, hint)
      pts == TLCEval([k \in DOMAIN r.pts |-> <<r.pts[k][1] - r.ph[1][1], r.pts[k][2], r.pts[k][3]>>])
      xs == {pts[k][1] : k \in DOMAIN pts}
      ys == {pts[k][2] : k \in DOMAIN pts}
      box == IF pts = << >> THEN <<0, 0, 0, 0>> ELSE <<MinOf(xs), MinOf(ys), MaxOf(xs), MaxOf(ys)>>
      dev == Hdmx(E.f, E.t, E.scale, i)
      adv == r.ph[2][1] - r.ph[1][1]
  IN IF hint /\ R.res # "ok" THEN [none EXCEPT !.st = R.res]
     ELSE IF r.st # "ok" THEN [none EXCEPT !.st = r.st]
     ELSE [st |-> "ok", pts |-> pts, ends |-> r.ends,
           un |-> [k \in DOMAIN r.un |-> SubSeq(r.un[k], 1, 3)], raw |-> [k \in DOMAIN r.raw |-> SubSeq(r.raw[k], 1, 3)],
           b |-> IF hint THEN <<Down64(box[1]), Down64(box[2]), Down64(box[3] + 63), Down64(box[4] + 63)>> ELSE box,
           adv |-> IF ~hint THEN adv ELSE IF dev >= 0 THEN dev ELSE Round64(adv)]

(* Compares the points before hinting and scaling. *)
BeforeJudge(x, g) ==
  IF x.st # "ok" \/ g.err THEN ""
  ELSE IF Len(g.un) # Len(x.un) THEN "the number of unhinted points is " \o ToString(Len(g.un)) \o ", not " \o ToString(Len(x.un))
  ELSE IF Len(g.raw) # Len(x.raw) THEN "the number of points in font units is " \o ToString(Len(g.raw)) \o ", not " \o ToString(Len(x.raw))
  ELSE IF g.un # x.un
  THEN LET k == MinOf({j \in DOMAIN g.un : g.un[j] # x.un[j]})
       IN "unhinted point " \o ToString(k - 1) \o " is " \o ToString(g.un[k]) \o ", not " \o ToString(x.un[k])
  ELSE IF g.raw # x.raw
  THEN LET k == MinOf({j \in DOMAIN g.raw : g.raw[j] # x.raw[j]})
       IN "point " \o ToString(k - 1) \o " in font units is " \o ToString(g.raw[k]) \o ", not " \o ToString(x.raw[k])
  ELSE ""

(* Compares a recorded load g with the one that must be. *)
GlyphJudge(x, g) ==
  IF x.st = "wild" THEN ""
  ELSE IF x.st = "err" THEN IF g.err THEN "" ELSE "a glyph that cannot be loaded was loaded"
  ELSE IF g.err THEN "not loaded: " \o g.msg
  ELSE IF g.ends # x.ends THEN "contour ends are " \o ToString(g.ends) \o ", not " \o ToString(x.ends)
  ELSE IF Len(g.pts) # Len(x.pts) THEN "the number of points is " \o ToString(Len(g.pts)) \o ", not " \o ToString(Len(x.pts))
  ELSE IF g.pts # x.pts
  THEN LET k == MinOf({j \in DOMAIN g.pts : g.pts[j] # x.pts[j]})
       IN "point " \o ToString(k - 1) \o " is " \o ToString(g.pts[k]) \o ", not " \o ToString(x.pts[k])
  ELSE IF g.adv # x.adv THEN "the advance width is " \o ToString(g.adv) \o ", not " \o ToString(x.adv)
  ELSE IF g.b # x.b THEN "the bounds are " \o ToString(g.b) \o ", not " \o ToString(x.b)
  ELSE ""
=============================================================================
