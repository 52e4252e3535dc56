-------------------------------- MODULE Hint --------------------------------
(* TrueType instructions: a machine that runs a font's programs.            *)
(*                                                                          *)
(* A point is <<x, y, on, tx, ty>>: on the curve, touched in x and in y     *)
(* (0 or 1).  A program is [o, n]: n bytes of the file, from offset o.      *)
(*                                                                          *)
(* E is what does not change: [f, t, scale, upem, maxStack, maxStore].      *)
(* m is the machine: program p, pc, stack st, calls cs, number of steps n,  *)
(* graphics state, functions fn, storage, control values cvt, zones z of    *)
(* points (1: twilight, 2: glyph; c: current, u: before hinting, f: in font *)
(* units), contour ends, whether the glyph is compound, and res: "run",     *)
(* "ok", "err", or "wild": a value got so large that nothing is said about  *)
(* the outcome.                                                             *)
EXTENDS Sfnt, BigNat, SequencesExt

Lim == 67108864            \* no value is larger than this,
BIG == 536870912           \* or else it is shown as this
StepLimit == 6000          \* nothing is said about programs that run longer,
LoopLimit == 64            \* unless they are in a loop of at most so many steps
Slack == 256               \* a stack may be somewhat larger than the font says

Clip(v) == IF Abs(v) > Lim THEN BIG ELSE v

(* ---------------------------------------------------------- arithmetic *)
(* a * b / c to the nearest integer, halves away from zero. *)
MulRound(a, b, c) ==
  IF a = 0 \/ b = 0 THEN 0
  ELSE IF Abs(a) > BIG \div 2 \/ Abs(b) > BIG \div 2 THEN BIG
  ELSE IF Abs(c) >= BIG \div 2 THEN BIG
  ELSE IF (Abs(a) \div Abs(c)) + 1 > BIG \div Abs(b) THEN BIG
  ELSE LET m == MulDivMod(Abs(a), Abs(b), Abs(c))
           v == IF m[2] + (Abs(c) \div 2) >= Abs(c) THEN m[1] + 1 ELSE m[1]
       IN Clip(Sign(a) * Sign(b) * Sign(c) * v)

(* floor(x * t / 2^14 + 1/2 ulp): (x * t + h) / 2^14 rounded down. *)
Mul14(x, t, h) == LET xh == x \div 16384
                      xl == x % 16384
                  IN (xh * t) + (((xl * t) + h) \div 16384)

(* The dot product of (x, y) with a unit vector q in units of 2^-14, to the *)
(* nearest integer, halves away from zero.                                  *)
Dot(x, y, q) ==
  IF q = <<16384, 0>> THEN Clip(x)
  ELSE IF q = <<0, 16384>> THEN Clip(y)
  ELSE IF Abs(x) > 2 * Lim \/ Abs(y) > 2 * Lim THEN BIG
  ELSE LET hi == ((x \div 16384) * q[1]) + ((y \div 16384) * q[2])
           lo == ((x % 16384) * q[1]) + ((y % 16384) * q[2])
           neg == hi + (lo \div 16384) < 0
       IN Clip(hi + ((lo + (IF neg THEN 8191 ELSE 8192)) \div 16384))

(* The unit vector in the direction of (x, y); <<0, 0>> if its rounding is  *)
(* a tie.                                                                   *)
RECURSIVE UnitFrom(_, _, _, _)
\* the largest k in lo..hi-1 with ((2k - 1) / 2)^2 * hh <= xx, where xx = (16384 x)^2
UnitFrom(xx4, hh, lo, hi) ==
  IF hi - lo <= 1 THEN lo
  ELSE LET k == (lo + hi) \div 2
           o == BigOf((2 * k) - 1)
       IN IF BigLe(BigMul(BigMul(o, o), hh), xx4) THEN UnitFrom(xx4, hh, k, hi) ELSE UnitFrom(xx4, hh, lo, k)
Unit(x, y) ==
  IF y = 0 THEN <<Sign(x) * 16384, 0>>
  ELSE IF x = 0 THEN <<0, Sign(y) * 16384>>
  ELSE LET ax == BigOf(Abs(x))
           ay == BigOf(Abs(y))
           hh == BigAdd(BigMul(ax, ax), BigMul(ay, ay))
           Sq(a) == LET b == BigMul(a, BigOf(32768)) IN BigMul(b, b)
           kx == UnitFrom(Sq(ax), hh, 0, 16385)
           ky == UnitFrom(Sq(ay), hh, 0, 16385)
           Tie(k, a) == k > 0 /\ LET o == BigOf((2 * k) - 1) IN BigMul(BigMul(o, o), hh) = Sq(a)
       IN IF Tie(kx, ax) \/ Tie(ky, ay) THEN <<0, 0>> ELSE <<Sign(x) * kx, Sign(y) * ky>>

Wrap16(v) == ((v + 32768) % 65536) - 32768

(* Funits at the machine's scale. *)
Scaled(E, v) == IF SclOk(E.scale, v, E.upem) THEN Clip(Scl(E.scale, v, E.upem)) ELSE BIG

(* Rounding, as the graphics state says. *)
Grid(m, v) == IF m.s45 THEN DivT(v, m.per) * m.per ELSE v - (v % m.per)
RoundV(m, x) ==
  IF Abs(x) > Lim \/ m.per = 0 THEN x
  ELSE LET g == Grid(m, Abs(x) - m.pha + m.thr)
       IN IF x >= 0 THEN (IF x # 0 /\ g < 0 THEN 0 ELSE g) + m.pha
          ELSE -(IF g < 0 THEN 0 ELSE g) - m.pha

(* --------------------------------------------------------------- machine *)
Err(m)  == [m EXCEPT !.res = "err"]
Wild(m) == [m EXCEPT !.res = "wild"]
Nx(m)   == [m EXCEPT !.pc = @ + 1]
Arg(m, k) == m.st[Len(m.st) - k]              \* k = 0: the top
Drop(m, k) == [m EXCEPT !.st = SubSeq(@, 1, Len(@) - k)]
(* Replaces the top k elements by the sequence s. *)
Put(E, m, k, s) ==
  IF \E i \in DOMAIN s : Abs(s[i]) > Lim THEN Wild(m)
  ELSE IF Len(m.st) - k + Len(s) > E.maxStack + Slack THEN Err(m)
  ELSE IF Len(m.st) - k + Len(s) > E.maxStack THEN Wild(m)
  ELSE [m EXCEPT !.st = SubSeq(@, 1, Len(@) - k) \o s, !.pc = @ + 1]
Bool(b) == IF b THEN 1 ELSE 0

Zone(m, k) == m.zp[k + 1] + 1
PtOk(m, k, i) == i >= 0 /\ i < Len(m.z[Zone(m, k)].c)
Pt(m, k, w, i) == m.z[Zone(m, k)][w][i + 1]

(* The point p moved by d: along the freedom vector, so that its projection *)
(* changes by d.                                                            *)
Moved(m, p, d, touch) ==
  LET fx == m.fv[1]
      fy == m.fv[2]
      t == Bool(touch)
  IN IF fx = 16384 /\ m.pv[1] = 16384 THEN <<p[1] + d, p[2], p[3], Max2(p[4], t), p[5]>>
     ELSE IF fy = 16384 /\ m.pv[2] = 16384 THEN <<p[1], p[2] + d, p[3], p[4], Max2(p[5], t)>>
     ELSE LET dp == ((fx * m.pv[1]) + (fy * m.pv[2])) \div 16384
              q == IF Abs(dp) < 1024 THEN 16384 ELSE dp
          IN <<p[1] + MulRound(fx, d, q), p[2] + MulRound(fy, d, q), p[3],
               IF fx # 0 THEN Max2(p[4], t) ELSE p[4], IF fy # 0 THEN Max2(p[5], t) ELSE p[5]>>

(* Stores the current point i of zone pointer k. *)
SetPt(m, k, i, p) ==
  IF Abs(p[1]) > Lim \/ Abs(p[2]) > Lim THEN Wild(m)
  ELSE LET z == Zone(m, k) IN [m EXCEPT !.z[z].c[i + 1] = p]
Move(m, k, i, d, touch) ==
  IF Abs(d) > 4 * Lim THEN Wild(m) ELSE SetPt(m, k, i, Moved(m, Pt(m, k, "c", i), d, touch))

(* By how much to move point i of zone pointer k.  w says for what: shift   *)
(* by w.d; align with reference point 0; or interpolate between reference   *)
(* points 1 and 2, w.o apart before and w.c now, before being points of w.w. *)
LoopDist(m, k, i, w) ==
  LET b == Pt(m, k, "c", i)
      q == Pt(m, 0, "c", m.rp[1])
      r == Pt(m, 0, "c", m.rp[2])
      a == Pt(m, k, w.w, i)
      o == Pt(m, 0, w.w, m.rp[2])
      od == Dot(a[1] - o[1], a[2] - o[2], m.dv)
      cd == Dot(b[1] - r[1], b[2] - r[2], m.pv)
      nd == IF od = 0 THEN 0 ELSE IF w.o # 0 THEN MulRound(od, w.c, w.o) ELSE -od
  IN CASE w.k = "shift" -> w.d
       [] w.k = "align" -> -Dot(b[1] - q[1], b[2] - q[2], m.pv)
       [] w.k = "ip"    -> IF BIG \in {od, cd, nd} THEN BIG ELSE nd - cd

(* Moves the points that the last n elements of the stack name, last one    *)
(* first.                                                                   *)
RECURSIVE MoveLoop(_, _, _, _)
MoveLoop(m, k, n, w) ==
  IF n = 0 \/ m.res # "run" THEN m
  ELSE LET i == Arg(m, 0)
       IN IF ~PtOk(m, k, i) THEN Err(m)
          ELSE MoveLoop(Move(Drop(m, 1), k, i, LoopDist(m, k, i, w), TRUE), k, n - 1, w)
EndLoop(m) == IF m.res # "run" THEN m ELSE [m EXCEPT !.loop = 1, !.pc = @ + 1]
Looped(m, k, w) == IF Len(m.st) < m.loop THEN Err(m) ELSE EndLoop(MoveLoop(m, k, m.loop, w))

Byte(E, m, k) == E.f[m.p.o + k + 1]

(* ------------------------------------------------------------- skipping *)
(* Where the instruction after the one at pc is. *)
After(E, m, pc) ==
  LET op == Byte(E, m, pc)
  IN IF op = 64 THEN IF pc + 1 >= m.p.n THEN m.p.n + 1 ELSE pc + 2 + Byte(E, m, pc + 1)
     ELSE IF op = 65 THEN IF pc + 1 >= m.p.n THEN m.p.n + 1 ELSE pc + 2 + (2 * Byte(E, m, pc + 1))
     ELSE IF op >= 176 /\ op <= 183 THEN pc + 2 + (op - 176)
     ELSE IF op >= 184 /\ op <= 191 THEN pc + 1 + (2 * (op - 183))
     ELSE pc + 1

(* The end of an IF's branch: where the ELSE (if wanted) or EIF that closes *)
(* it is; -1 if there is none.                                              *)
RECURSIVE Branch(_, _, _, _, _)
Branch(E, m, pc, depth, else) ==
  IF pc >= m.p.n THEN -1
  ELSE LET op == Byte(E, m, pc)
       IN IF op = 88 THEN Branch(E, m, pc + 1, depth + 1, else)
          ELSE IF op = 27 /\ depth = 0 /\ else THEN pc
          ELSE IF op = 89 THEN IF depth = 0 THEN pc ELSE Branch(E, m, pc + 1, depth - 1, else)
          ELSE Branch(E, m, After(E, m, pc), depth, else)
Skip(E, m, else) ==
  LET e == Branch(E, m, m.pc + 1, 0, else) IN IF e < 0 THEN Err(m) ELSE [m EXCEPT !.pc = e + 1]

RECURSIVE FuncEnd(_, _, _)
FuncEnd(E, m, pc) ==
  IF pc >= m.p.n THEN -1
  ELSE IF Byte(E, m, pc) = 44 THEN -1
  ELSE IF Byte(E, m, pc) = 45 THEN pc
  ELSE FuncEnd(E, m, After(E, m, pc))

(* ----------------------------------------------------------- instructions *)
(* Pushes n bytes or words that follow the instruction's first `at` bytes. *)
PushN(E, m, at, n, width) ==
  IF m.pc + at + (n * width) > m.p.n THEN Err(m)
  ELSE IF Len(m.st) + n > E.maxStack + Slack THEN Err(m)
  ELSE IF Len(m.st) + n > E.maxStack THEN Wild(m)
  ELSE [m EXCEPT !.pc = @ + at + (n * width),
                 !.st = @ \o [i \in 1..n |->
                    IF width = 1 THEN Byte(E, m, m.pc + at + i - 1)
                    ELSE S16(E.f, m.p.o + m.pc + at + (2 * (i - 1)))]]

(* The direction of the line from point i2 of zone 2 to point i1 of zone 1, *)
(* or of its perpendicular.                                                 *)
LineVec(m, w, i1, i2, rot) ==
  LET a == Pt(m, 1, w, i1)
      b == Pt(m, 2, w, i2)
      dx == a[1] - b[1]
      dy == a[2] - b[2]
  IN IF dx = 0 /\ dy = 0 THEN <<16384, 0>>
     ELSE IF rot THEN Unit(-dy, dx) ELSE Unit(dx, dy)

Tied(v) == v = <<0, 0>>

(* What reference point SHP, SHC and SHZ shift by: <<zone pointer, point>>. *)
ShiftRef(m, one) == IF one THEN <<0, m.rp[2]>> ELSE <<1, m.rp[3]>>
ShiftBy(m, r) == LET a == Pt(m, r[1], "c", r[2])
                     b == Pt(m, r[1], "u", r[2])
                 IN Dot(a[1] - b[1], a[2] - b[2], m.pv)

(* Moves the points of js, except r where it is in the same zone. *)
RECURSIVE ShiftAll(_, _, _, _, _, _)
ShiftAll(m, j, end, r, d, touch) ==
  IF j >= end \/ m.res # "run" THEN m
  ELSE ShiftAll(IF j = r[2] /\ Zone(m, r[1]) = Zone(m, 2) THEN m ELSE Move(m, 2, j, d, touch),
                j + 1, end, r, d, touch)

(* Moves the points on the stack by d along the freedom vector. *)
RECURSIVE ShiftPix(_, _, _)
ShiftPix(m, n, d) ==
  IF n = 0 \/ m.res # "run" THEN m
  ELSE LET i == Arg(m, 0)
           p == Pt(m, 2, "c", i)
       IN IF ~PtOk(m, 2, i) THEN Err(m)
          ELSE ShiftPix(SetPt(Drop(m, 1), 2, i,
                 <<p[1] + MulRound(d, m.fv[1], 16384), p[2] + MulRound(d, m.fv[2], 16384), p[3],
                   IF m.fv[1] # 0 THEN 1 ELSE p[4], IF m.fv[2] # 0 THEN 1 ELSE p[5]>>), n - 1, d)

(* IUP, in coordinate a (1: x, 2: y) of one contour: points s..e-1. *)
Interp(m, a, i, r1, r2) ==
  LET z == m.z[2]
      C(j) == z.c[j + 1][a]
      U(j) == z.u[j + 1][a]
      F(j) == z.f[j + 1][a]
      swap == F(r1) > F(r2)
      l == IF swap THEN r2 ELSE r1
      h == IF swap THEN r1 ELSE r2
      x == U(i)
  IN IF F(l) = F(h) THEN IF x <= U(l) THEN x + C(l) - U(l) ELSE x + C(h) - U(h)
     ELSE IF x <= U(l) THEN x + C(l) - U(l)
     ELSE IF x >= U(h) THEN x + C(h) - U(h)
     ELSE LET s == MulRound(C(h) - C(l), 65536, F(h) - F(l))
              v == IF s = BIG THEN BIG ELSE MulRound(F(i) - F(l), s, 65536)
          IN C(l) + v

IUPContour(m, a, s, e) ==
  LET T == {i \in s..(e - 1) : m.z[2].c[i + 1][3 + a] = 1}
      lo == CHOOSE i \in T : \A j \in T : i <= j
      hi == CHOOSE i \in T : \A j \in T : j <= i
      Prev(i) == LET S == {j \in T : j < i} IN IF S = {} THEN hi ELSE CHOOSE j \in S : \A k \in S : k <= j
      Next(i) == LET S == {j \in T : j > i} IN IF S = {} THEN lo ELSE CHOOSE j \in S : \A k \in S : j <= k
      delta == m.z[2].c[lo + 1][a] - m.z[2].u[lo + 1][a]
      New(i) == IF i \in T THEN m.z[2].c[i + 1][a]
                ELSE IF lo = hi THEN m.z[2].c[i + 1][a] + delta
                ELSE Interp(m, a, i, Prev(i), Next(i))
      v == TLCEval([i \in s..(e - 1) |-> New(i)])
  IN IF T = {} THEN m
     ELSE IF \E i \in s..(e - 1) : Abs(v[i]) > Lim THEN Wild(m)
     ELSE [m EXCEPT !.z[2].c = [k \in DOMAIN @ |-> IF k - 1 \in s..(e - 1) THEN [@[k] EXCEPT ![a] = v[k - 1]] ELSE @[k]]]

RECURSIVE IUP(_, _, _)
IUP(m, a, c) ==
  IF c > Len(m.ends) \/ m.res # "run" THEN m
  ELSE IUP(IUPContour(m, a, IF c = 1 THEN 0 ELSE m.ends[c - 1], m.ends[c]), a, c + 1)

(* Control values. *)
Cvt(m, i) == IF i < 0 \/ i >= Len(m.cvt) THEN 0 ELSE m.cvt[i + 1]
SetCvt(m, i, v) ==
  IF Abs(v) > Lim THEN Wild(m)
  ELSE IF i < 0 \/ i >= Len(m.cvt) THEN m ELSE [m EXCEPT !.cvt[i + 1] = v]

(* DELTAs: n pairs below the top; point or value exceptions. *)
RECURSIVE Deltas(_, _, _, _, _)
Deltas(E, m, n, base, isP) ==
  IF n <= 0 \/ m.res # "run" THEN m
  ELSE LET a == Arg(m, 0)
           b == Arg(m, 1)
           rest == Drop(m, 2)
           ppem == ((b % 256) \div 16) + base + m.db
           k == (b % 16) - 8
           d == ((IF k >= 0 THEN k + 1 ELSE k) * 64)
           amount == DivT(d, 2 ^ m.ds)
       IN IF ppem # (E.scale + 32) \div 64 THEN Deltas(E, rest, n - 1, base, isP)
          ELSE IF isP
          THEN IF ~PtOk(m, 0, a) THEN Err(m)
               ELSE Deltas(E, Move(rest, 0, a, amount, TRUE), n - 1, base, isP)
          ELSE IF a < 0 \/ a >= Len(m.cvt) THEN Err(m)
          ELSE Deltas(E, SetCvt(rest, a, m.cvt[a + 1] + amount), n - 1, base, isP)

Delta(E, m0, base, isP) ==
  LET n == Arg(m0, 0)
      m == Drop(m0, 1)
  IN IF n > Len(m.st) \div 2 THEN Err(m)
     ELSE LET r == Deltas(E, m, n, base, isP) IN IF r.res = "run" THEN Nx(r) ELSE r

MinDist(m, old, d) ==
  IF old >= 0 THEN Max2(d, m.md) ELSE Min2(d, -m.md)

SetRefs(m, i, op) ==
  [m EXCEPT !.rp = <<IF (op \div 16) % 2 = 1 THEN i ELSE @[1], @[1], i>>]

Then(r) == IF r.res = "run" THEN Nx(r) ELSE r

Mdrp(E, m, op) ==
  LET i == Arg(m, 0)
      r == m.rp[1]
      two == m.zp[1] = 0 \/ m.zp[2] = 0
      w == IF two THEN "u" ELSE "f"
      a == Pt(m, 1, w, i)
      b == Pt(m, 0, w, r)
      raw == Dot(a[1] - b[1], a[2] - b[2], m.dv)
      o1 == IF two \/ m.comp THEN raw ELSE IF raw = BIG THEN BIG ELSE Scaled(E, raw)
      old == IF Abs(o1 - m.sw) < m.swci THEN (IF o1 >= 0 THEN m.sw ELSE -m.sw) ELSE o1
      d1 == IF (op \div 4) % 2 = 1 THEN RoundV(m, old) ELSE old
      d == IF (op \div 8) % 2 = 1 THEN MinDist(m, old, d1) ELSE d1
      p == Pt(m, 1, "c", i)
      q == Pt(m, 0, "c", r)
      cur == Dot(p[1] - q[1], p[2] - q[2], m.pv)
  IN IF ~PtOk(m, 0, r) \/ ~PtOk(m, 1, i) THEN Err(m)
     ELSE IF o1 = BIG THEN Wild(m)
     ELSE Then(Move(SetRefs(Drop(m, 1), i, op), 1, i, d - cur, TRUE))

Mirp(E, m, op) ==
  LET i == Arg(m, 1)
      r == m.rp[1]
      c1 == Cvt(m, Arg(m, 0))
      c2 == IF Abs(c1 - m.sw) < m.swci THEN (IF c1 >= 0 THEN m.sw ELSE -m.sw) ELSE c1
      a == Pt(m, 1, "u", i)
      b == Pt(m, 0, "u", r)
      old == Dot(a[1] - b[1], a[2] - b[2], m.dv)
      p == Pt(m, 1, "c", i)
      q == Pt(m, 0, "c", r)
      cur == Dot(p[1] - q[1], p[2] - q[2], m.pv)
      c == IF m.af /\ (old < 0) # (c2 < 0) THEN -c2 ELSE c2
      far == m.zp[1] = m.zp[2] /\ Abs(c - old) > m.cvci
      d1 == IF (op \div 4) % 2 = 1 THEN RoundV(m, IF far THEN old ELSE c) ELSE c
      d == IF (op \div 8) % 2 = 1 THEN MinDist(m, old, d1) ELSE d1
  IN IF m.zp[2] = 0 THEN Err(m)
     ELSE IF ~PtOk(m, 0, r) \/ ~PtOk(m, 1, i) THEN Err(m)
     ELSE IF old = BIG THEN Wild(m)
     ELSE Then(Move(SetRefs(Drop(m, 2), i, op), 1, i, d - cur, TRUE))

(* The point where the lines a0-a1 and b0-b1 meet, or between their ends if *)
(* they are almost parallel; <<BIG, BIG>> if that is unknown.               *)
Meet(a0, a1, b0, b1) ==
  LET dbx == b1[1] - b0[1]
      dby == b1[2] - b0[2]
      dax == a1[1] - a0[1]
      day == a1[2] - a0[2]
      dx == b0[1] - a0[1]
      dy == b0[2] - a0[2]
      disc == Clip(MulRound(dax, -dby, 64) + MulRound(day, dbx, 64))
      dot == Clip(MulRound(dax, dbx, 64) + MulRound(day, dby, 64))
      val == Clip(MulRound(dx, -dby, 64) + MulRound(dy, dbx, 64))
  IN IF BIG \in {disc, dot, val} THEN <<BIG, BIG>>
     ELSE IF 19 * Abs(disc) > Abs(dot)
     THEN <<a0[1] + MulRound(val, dax, disc), a0[2] + MulRound(val, day, disc)>>
     ELSE <<DivT(a0[1] + a1[1] + b0[1] + b1[1], 4), DivT(a0[2] + a1[2] + b0[2] + b1[2], 4)>>

Super(m, s45) ==
  LET x == Arg(m, 0)
      p0 == CASE (x \div 64) % 4 = 0 -> 32 [] (x \div 64) % 4 = 2 -> 128 [] OTHER -> 64
      p == IF s45 THEN (p0 * 46341) \div 65536 ELSE p0
  IN Nx([Drop(m, 1) EXCEPT !.per = p, !.s45 = s45,
           !.pha = (p * ((x \div 16) % 4)) \div 4,
           !.thr = IF x % 16 = 0 THEN p - 1 ELSE DivT(p * ((x % 16) - 4), 8)])

SetRound(m, p, ph, th) == Nx([m EXCEPT !.per = p, !.pha = ph, !.thr = th, !.s45 = FALSE])

PopCount ==
  << 0, 0, 0, 0, 0, 0, 2, 2, 2, 2, 2, 2, 0, 0, 0, 5,
     1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 1, 0, 1, 1, 1, 1,
     1, 1, 0, 2, 0, 1, 1, 2, 0, 1, 2, 1, 1, 0, 1, 1,
     0, 0, 0, 0, 1, 1, 1, 1, 1, 0, 2, 2, 0, 0, 2, 2,
     0, 0, 2, 1, 2, 1, 1, 1, 2, 2, 2, 0, 0, 0, 0, 0,
     2, 2, 2, 2, 2, 2, 1, 1, 1, 0, 2, 2, 1, 1, 1, 1,
     2, 2, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
     2, 1, 1, 1, 1, 1, 1, 1, 2, 2, 0, 0, 0, 0, 1, 1,
     0, 2, 2, 0, 0, 1, 2, 2, 1, 1, 3, 2, 2, 1, 2, 0 >>
Pops(op) == IF op < 144 THEN PopCount[op + 1] ELSE IF op < 192 THEN 0 ELSE IF op < 224 THEN 1 ELSE 2

Bin(E, m, v) == Put(E, m, 2, <<v>>)
Un(E, m, v) == Put(E, m, 1, <<v>>)

(* Instructions below 0x20. *)
Exec0(E, m, op) ==
  CASE op = 0 -> Nx([m EXCEPT !.pv = <<0, 16384>>, !.fv = <<0, 16384>>, !.dv = <<0, 16384>>])
    [] op = 1 -> Nx([m EXCEPT !.pv = <<16384, 0>>, !.fv = <<16384, 0>>, !.dv = <<16384, 0>>])
    [] op = 2 -> Nx([m EXCEPT !.pv = <<0, 16384>>, !.dv = <<0, 16384>>])
    [] op = 3 -> Nx([m EXCEPT !.pv = <<16384, 0>>, !.dv = <<16384, 0>>])
    [] op = 4 -> Nx([m EXCEPT !.fv = <<0, 16384>>])
    [] op = 5 -> Nx([m EXCEPT !.fv = <<16384, 0>>])
    [] op \in 6..9 ->                                  \* SPVTL, SFVTL
         LET i1 == Arg(m, 1)
             i2 == Arg(m, 0)
         IN IF ~PtOk(m, 1, i1) \/ ~PtOk(m, 2, i2) THEN Err(m)
            ELSE LET v == LineVec(m, "c", i1, i2, op % 2 = 1)
                 IN IF Tied(v) THEN Wild(m)
                    ELSE IF op < 8 THEN Nx([Drop(m, 2) EXCEPT !.pv = v, !.dv = v])
                    ELSE Nx([Drop(m, 2) EXCEPT !.fv = v])
    [] op \in 10..11 ->                                \* SPVFS, SFVFS
         LET x == Wrap16(Arg(m, 1))
             y == Wrap16(Arg(m, 0))
         IN IF x = 0 /\ y = 0 THEN Nx(Drop(m, 2))
            ELSE LET v == Unit(x, y)
                 IN IF Tied(v) THEN Wild(m)
                    ELSE IF op = 10 THEN Nx([Drop(m, 2) EXCEPT !.pv = v, !.dv = v])
                    ELSE Nx([Drop(m, 2) EXCEPT !.fv = v])
    [] op = 12 -> Put(E, m, 0, m.pv)
    [] op = 13 -> Put(E, m, 0, m.fv)
    [] op = 14 -> Nx([m EXCEPT !.fv = m.pv])
    [] op = 15 ->                                      \* ISECT
         LET i == Arg(m, 4)
         IN IF \/ ~PtOk(m, 2, i) \/ ~PtOk(m, 1, Arg(m, 3)) \/ ~PtOk(m, 1, Arg(m, 2))
               \/ ~PtOk(m, 0, Arg(m, 1)) \/ ~PtOk(m, 0, Arg(m, 0)) THEN Err(m)
            ELSE LET v == Meet(Pt(m, 1, "c", Arg(m, 3)), Pt(m, 1, "c", Arg(m, 2)), Pt(m, 0, "c", Arg(m, 1)), Pt(m, 0, "c", Arg(m, 0)))
                     p == Pt(m, 2, "c", i)
                 IN Then(SetPt(Drop(m, 5), 2, i, <<v[1], v[2], p[3], 1, 1>>))
    [] op \in 16..18 -> Nx([Drop(m, 1) EXCEPT !.rp[op - 15] = Arg(m, 0)])
    [] op \in 19..21 -> IF Arg(m, 0) \in {0, 1} THEN Nx([Drop(m, 1) EXCEPT !.zp[op - 18] = Arg(m, 0)]) ELSE Err(m)
    [] op = 22 -> LET v == Arg(m, 0) IN IF v \in {0, 1} THEN Nx([Drop(m, 1) EXCEPT !.zp = <<v, v, v>>]) ELSE Err(m)
    [] op = 23 -> IF Arg(m, 0) < 0 THEN Err(m) ELSE Nx([Drop(m, 1) EXCEPT !.loop = Arg(m, 0)])
    [] op = 24 -> SetRound(m, 64, 0, 32)
    [] op = 25 -> SetRound(m, 64, 32, 32)
    [] op = 26 -> Nx([Drop(m, 1) EXCEPT !.md = Arg(m, 0)])
    [] op = 27 -> Skip(E, m, FALSE)                    \* ELSE
    [] op = 28 -> [Drop(m, 1) EXCEPT !.pc = @ + Arg(m, 0)]
    [] op = 29 -> Nx([Drop(m, 1) EXCEPT !.cvci = Arg(m, 0)])
    [] op = 30 -> Nx([Drop(m, 1) EXCEPT !.swci = Arg(m, 0)])
    [] op = 31 -> LET v == Scaled(E, Arg(m, 0)) IN IF v = BIG THEN Wild(m) ELSE Nx([Drop(m, 1) EXCEPT !.sw = v])

(* 0x20 to 0x3f. *)
Exec1(E, m, op) ==
  CASE op = 32 -> Put(E, m, 1, <<Arg(m, 0), Arg(m, 0)>>)
    [] op = 33 -> Nx(Drop(m, 1))
    [] op = 34 -> Nx([m EXCEPT !.st = << >>])
    [] op = 35 -> Put(E, m, 2, <<Arg(m, 0), Arg(m, 1)>>)
    [] op = 36 -> Put(E, m, 0, <<Len(m.st)>>)
    [] op = 37 -> LET k == Arg(m, 0)
                  IN IF k <= 0 \/ k >= Len(m.st) THEN Err(m) ELSE Put(E, m, 1, <<Arg(m, k)>>)
    [] op = 38 -> LET k == Arg(m, 0)
                      n == Len(m.st)
                  IN IF k <= 0 \/ k >= n THEN Err(m)
                     ELSE Put(E, m, k + 1, SubSeq(m.st, n - k + 1, n - 1) \o <<Arg(m, k)>>)
    [] op = 39 ->                                      \* ALIGNPTS
         LET i == Arg(m, 1)
             j == Arg(m, 0)
         IN IF ~PtOk(m, 1, i) \/ ~PtOk(m, 0, j) THEN Err(m)
            ELSE LET a == Pt(m, 1, "c", i)
                     b == Pt(m, 0, "c", j)
                     v == Dot(b[1] - a[1], b[2] - a[2], m.pv)
                     d == IF v = BIG THEN BIG ELSE DivT(v, 2)
                     r == Move(Drop(m, 2), 1, i, d, TRUE)
                 IN IF r.res # "run" THEN r ELSE Then(Move(r, 0, j, -d, TRUE))
    [] op = 41 ->                                      \* UTP
         LET i == Arg(m, 0)
         IN IF ~PtOk(m, 0, i) THEN Err(m)
            ELSE LET p == Pt(m, 0, "c", i)
                 IN Then(SetPt(Drop(m, 1), 0, i, <<p[1], p[2], p[3], IF m.fv[1] # 0 THEN 0 ELSE p[4], IF m.fv[2] # 0 THEN 0 ELSE p[5]>>))
    [] op \in 42..43 ->                                \* LOOPCALL, CALL
         LET f == Arg(m, 0)
             n == IF op = 42 THEN Arg(m, 1) ELSE 1
         IN IF Len(m.cs) >= 32 \/ f \notin DOMAIN m.fn THEN Err(m)
            ELSE IF n <= 0 THEN Nx(Drop(m, 2))
            ELSE [Drop(m, 43 - op + 1) EXCEPT !.cs = Append(@, [p |-> m.p, pc |-> m.pc, n |-> n]), !.p = m.fn[f], !.pc = 0]
    [] op = 44 ->                                      \* FDEF
         LET e == FuncEnd(E, m, m.pc + 1)
         IN IF m.glyph \/ e < 0 THEN Err(m)
            ELSE LET d == [o |-> m.p.o + m.pc + 1, n |-> e - m.pc]
                     k == Arg(m, 0)
                 IN [Drop(m, 1) EXCEPT !.pc = e + 1,
                       !.fn = [x \in DOMAIN @ \cup {k} |-> IF x = k THEN d ELSE @[x]]]
    [] op = 45 ->                                      \* ENDF
         IF m.cs = << >> THEN Err(m)
         ELSE LET c == m.cs[Len(m.cs)]
              IN IF c.n > 1 THEN [m EXCEPT !.cs[Len(m.cs)].n = @ - 1, !.pc = 0]
                 ELSE [m EXCEPT !.cs = SubSeq(@, 1, Len(@) - 1), !.p = c.p, !.pc = c.pc + 1]
    [] op \in 46..47 ->                                \* MDAP
         LET i == Arg(m, 0)
         IN IF ~PtOk(m, 0, i) THEN Err(m)
            ELSE LET a == Pt(m, 0, "c", i)
                     v == Dot(a[1], a[2], m.pv)
                     d == IF op = 46 THEN 0 ELSE IF v = BIG THEN BIG ELSE RoundV(m, v) - v
                 IN Then(Move([Drop(m, 1) EXCEPT !.rp = <<i, i, @[3]>>], 0, i, d, TRUE))
    [] op \in 48..49 -> Then(IUP(m, IF op = 48 THEN 2 ELSE 1, 1))
    [] op \in 50..51 ->                                \* SHP
         LET r == ShiftRef(m, op = 51)
         IN IF Len(m.st) < m.loop \/ ~PtOk(m, r[1], r[2]) THEN Err(m)
            ELSE Looped(m, 2, [k |-> "shift", d |-> ShiftBy(m, r)])
    [] op \in 52..53 ->                                \* SHC
         LET r == ShiftRef(m, op = 53)
             c == Arg(m, 0)
         IN IF ~PtOk(m, r[1], r[2]) \/ m.zp[3] = 0 \/ c < 0 \/ c >= Len(m.ends) THEN Err(m)
            ELSE Then(ShiftAll(Drop(m, 1), IF c = 0 THEN 0 ELSE m.ends[c], m.ends[c + 1], r, ShiftBy(m, r), TRUE))
    [] op \in 54..55 ->                                \* SHZ
         LET r == ShiftRef(m, op = 55)
         IN IF ~PtOk(m, r[1], r[2]) THEN Err(m)
            ELSE LET n == Len(m.z[Zone(m, 2)].c) - (IF m.zp[3] = 1 THEN 4 ELSE 0)
                 IN Then(ShiftAll(Drop(m, 1), 0, n, r, ShiftBy(m, r), FALSE))
    [] op = 56 ->                                      \* SHPIX
         IF Len(m.st) - 1 < m.loop THEN Err(m) ELSE EndLoop(ShiftPix(Drop(m, 1), m.loop, Arg(m, 0)))
    [] op = 57 ->                                      \* IP
         LET two == m.zp[1] = 0 \/ m.zp[2] = 0 \/ m.zp[3] = 0
             w == IF two THEN "u" ELSE "f"
             r1 == m.rp[2]
             r2 == m.rp[3]
             o1 == Pt(m, 0, w, r1)
             o2 == Pt(m, 1, w, r2)
             c1 == Pt(m, 0, "c", r1)
             c2 == Pt(m, 1, "c", r2)
             orange == Dot(o2[1] - o1[1], o2[2] - o1[2], m.dv)
             crange == Dot(c2[1] - c1[1], c2[2] - c1[2], m.pv)
         IN IF Len(m.st) < m.loop \/ ~PtOk(m, 1, r2) \/ ~PtOk(m, 0, r1) THEN Err(m)
            ELSE IF orange = BIG \/ crange = BIG THEN Wild(m)
            ELSE Looped(m, 2, [k |-> "ip", w |-> w, o |-> orange, c |-> crange])
    [] op \in 58..59 ->                                \* MSIRP
         LET i == Arg(m, 1)
             d == Arg(m, 0)
         IN IF ~PtOk(m, 0, m.rp[1]) \/ ~PtOk(m, 1, i) THEN Err(m)
            ELSE IF m.zp[2] = 0 THEN Wild(m)
            ELSE LET a == Pt(m, 0, "c", m.rp[1])
                     b == Pt(m, 1, "c", i)
                     cur == Dot(b[1] - a[1], b[2] - a[2], m.pv)
                 IN Then(Move([Drop(m, 2) EXCEPT !.rp = <<IF op = 59 THEN i ELSE @[1], @[1], i>>], 1, i, d - cur, TRUE))
    [] op = 60 ->                                      \* ALIGNRP
         IF Len(m.st) < m.loop \/ ~PtOk(m, 0, m.rp[1]) THEN Err(m) ELSE Looped(m, 1, [k |-> "align"])
    [] op = 61 -> SetRound(m, 32, 0, 16)
    [] op \in 62..63 ->                                \* MIAP
         LET i == Arg(m, 1)
             c == Cvt(m, Arg(m, 0))
         IN IF ~PtOk(m, 0, i) THEN Err(m)
            ELSE LET tw == <<Mul14(c, m.fv[1], 0), Mul14(c, m.fv[2], 0), 0, 0, 0>>
                     s == IF m.zp[1] = 0 THEN [Drop(m, 2) EXCEPT !.z[1].u[i + 1] = tw, !.z[1].c[i + 1] = tw] ELSE Drop(m, 2)
                     a == Pt(s, 0, "c", i)
                     old == Dot(a[1], a[2], m.pv)
                     d == IF op = 62 THEN c
                          ELSE RoundV(m, IF Abs(c - old) > m.cvci THEN old ELSE c)
                 IN IF old = BIG THEN Wild(m)
                    ELSE Then(Move([s EXCEPT !.rp = <<i, i, @[3]>>], 0, i, d - old, TRUE))
    [] OTHER -> Err(m)

(* 0x40 to 0x6f. *)
Exec2(E, m, op) ==
  CASE op \in 64..65 -> IF m.pc + 1 >= m.p.n THEN Err(m)
                        ELSE PushN(E, m, 2, Byte(E, m, m.pc + 1), op - 63)
    [] op = 66 -> LET i == Arg(m, 1)
                  IN IF i < 0 \/ i >= Len(m.store) THEN Err(m)
                     ELSE IF i >= E.maxStore THEN Wild(m)
                     ELSE Nx([Drop(m, 2) EXCEPT !.store[i + 1] = Arg(m, 0)])
    [] op = 67 -> LET i == Arg(m, 0)
                  IN IF i < 0 \/ i >= Len(m.store) THEN Err(m)
                     ELSE IF i >= E.maxStore THEN Wild(m)
                     ELSE Un(E, m, m.store[i + 1])
    [] op = 68 -> Then(SetCvt(Drop(m, 2), Arg(m, 1), Arg(m, 0)))
    [] op = 69 -> Un(E, m, Cvt(m, Arg(m, 0)))
    [] op = 70 -> LET i == Arg(m, 0)
                  IN IF ~PtOk(m, 2, i) THEN Err(m)
                     ELSE LET a == Pt(m, 2, "c", i) IN Un(E, m, Dot(a[1], a[2], m.pv))
    [] op = 71 -> LET i == Arg(m, 0)
                  IN IF ~PtOk(m, 2, i) THEN Err(m)
                     ELSE LET a == Pt(m, 2, "u", i) IN Un(E, m, Dot(a[1], a[2], m.dv))
    [] op = 72 -> LET i == Arg(m, 1)                   \* SCFS
                      v == Arg(m, 0)
                  IN IF ~PtOk(m, 2, i) THEN Err(m)
                     ELSE LET a == Pt(m, 2, "c", i)
                              r == Move(Drop(m, 2), 2, i, v - Dot(a[1], a[2], m.pv), TRUE)
                          IN IF r.res # "run" THEN r
                             ELSE IF m.zp[3] # 0 THEN Nx(r)
                             ELSE Nx([r EXCEPT !.z[1].u[i + 1] = Pt(r, 2, "c", i)])
    [] op \in 73..74 ->                                \* MD
         LET i == Arg(m, 1)
             j == Arg(m, 0)
             two == m.zp[1] = 0 \/ m.zp[2] = 0
             w == IF op = 73 THEN "c" ELSE IF two THEN "u" ELSE "f"
             a == Pt(m, 0, w, i)
             b == Pt(m, 1, w, j)
             d == Dot(a[1] - b[1], a[2] - b[2], IF op = 73 THEN m.pv ELSE m.dv)
         IN IF ~PtOk(m, 0, i) \/ ~PtOk(m, 1, j) THEN Err(m)
            ELSE IF w # "f" \/ m.comp THEN Bin(E, m, d)
            ELSE IF d = BIG \/ ~SclOk(E.scale, d, E.upem) THEN Wild(m)
            ELSE Bin(E, m, DivT(d * E.scale, E.upem))
    [] op \in 75..76 -> Put(E, m, 0, <<E.scale \div 64>>)
    [] op \in 77..78 -> Nx([m EXCEPT !.af = op = 77])
    [] op = 79 -> Nx(m)
    [] op = 80 -> Bin(E, m, Bool(Arg(m, 1) < Arg(m, 0)))
    [] op = 81 -> Bin(E, m, Bool(Arg(m, 1) <= Arg(m, 0)))
    [] op = 82 -> Bin(E, m, Bool(Arg(m, 1) > Arg(m, 0)))
    [] op = 83 -> Bin(E, m, Bool(Arg(m, 1) >= Arg(m, 0)))
    [] op = 84 -> Bin(E, m, Bool(Arg(m, 1) = Arg(m, 0)))
    [] op = 85 -> Bin(E, m, Bool(Arg(m, 1) # Arg(m, 0)))
    [] op \in 86..87 -> Un(E, m, Bool(((RoundV(m, Arg(m, 0)) \div 64) % 2 = 1) = (op = 86)))
    [] op = 88 -> IF Arg(m, 0) # 0 THEN Nx(Drop(m, 1)) ELSE Skip(E, Drop(m, 1), TRUE)
    [] op = 89 -> Nx(m)
    [] op = 90 -> Bin(E, m, Bool(Arg(m, 1) # 0 /\ Arg(m, 0) # 0))
    [] op = 91 -> Bin(E, m, Bool(Arg(m, 1) # 0 \/ Arg(m, 0) # 0))
    [] op = 92 -> Un(E, m, Bool(Arg(m, 0) = 0))
    [] op = 93 -> Delta(E, m, 0, TRUE)
    [] op = 94 -> Nx([Drop(m, 1) EXCEPT !.db = Arg(m, 0)])
    [] op = 95 -> IF Arg(m, 0) \in 0..6 THEN Nx([Drop(m, 1) EXCEPT !.ds = Arg(m, 0)]) ELSE Err(m)
    [] op = 96 -> Bin(E, m, Arg(m, 1) + Arg(m, 0))
    [] op = 97 -> Bin(E, m, Arg(m, 1) - Arg(m, 0))
    [] op = 98 -> LET a == Arg(m, 1)
                      b == Arg(m, 0)
                  IN IF b = 0 THEN Err(m)
                     ELSE IF (Abs(a) \div Abs(b)) + 1 > Lim \div 64 THEN Wild(m)
                     ELSE Bin(E, m, Sign(a) * Sign(b) * MulDivMod(Abs(a), 64, Abs(b))[1])
    [] op = 99 -> LET a == Arg(m, 1)
                      b == Arg(m, 0)
                  IN IF a = 0 \/ b = 0 THEN Bin(E, m, 0)
                     ELSE IF (Abs(a) \div 64) + 1 > BIG \div Abs(b) THEN Wild(m)
                     ELSE LET q == MulDivMod(Abs(a), Abs(b), 64)
                          \* floor(a * b / 64 + 1/2)
                          IN Bin(E, m, IF Sign(a) = Sign(b) THEN q[1] + (IF q[2] >= 32 THEN 1 ELSE 0)
                                       ELSE -(q[1] + (IF q[2] > 32 THEN 1 ELSE 0)))
    [] op = 100 -> Un(E, m, Abs(Arg(m, 0)))
    [] op = 101 -> Un(E, m, -Arg(m, 0))
    [] op = 102 -> Un(E, m, Arg(m, 0) - (Arg(m, 0) % 64))
    [] op = 103 -> LET v == Arg(m, 0) + 63 IN Un(E, m, v - (v % 64))
    [] op \in 104..107 -> Un(E, m, RoundV(m, Arg(m, 0)))
    [] op \in 108..111 -> Nx(m)

(* 0x70 to 0x8f. *)
Exec3(E, m, op) ==
  CASE op = 112 -> LET v == Scaled(E, Arg(m, 0)) IN IF v = BIG THEN Wild(m) ELSE Then(SetCvt(Drop(m, 2), Arg(m, 1), v))
    [] op = 113 -> Delta(E, m, 16, TRUE)
    [] op = 114 -> Delta(E, m, 32, TRUE)
    [] op = 115 -> Delta(E, m, 0, FALSE)
    [] op = 116 -> Delta(E, m, 16, FALSE)
    [] op = 117 -> Delta(E, m, 32, FALSE)
    [] op \in 118..119 -> Super(m, op = 119)
    [] op = 120 -> IF Arg(m, 0) # 0 THEN [Drop(m, 2) EXCEPT !.pc = @ + Arg(m, 1)] ELSE Nx(Drop(m, 2))
    [] op = 121 -> IF Arg(m, 0) = 0 THEN [Drop(m, 2) EXCEPT !.pc = @ + Arg(m, 1)] ELSE Nx(Drop(m, 2))
    [] op = 122 -> SetRound(m, 0, 0, 0)
    [] op = 124 -> SetRound(m, 64, 0, 63)
    [] op = 125 -> SetRound(m, 64, 0, 0)
    [] op \in 126..127 -> Nx(Drop(m, 1))
    [] op = 128 ->                                     \* FLIPPT
         LET n == Len(m.st)
             s == SubSeq(m.st, n - m.loop + 1, n)
             flips(i) == Len(SelectSeq(s, LAMBDA v : v = i)) % 2
         IN IF n < m.loop THEN Err(m)
            ELSE IF \E k \in DOMAIN s : s[k] < 0 \/ s[k] >= Len(m.z[2].c) THEN Err(m)
            ELSE EndLoop([Drop(m, m.loop) EXCEPT !.z[2].c = [j \in DOMAIN @ |->
                    IF flips(j - 1) = 1 THEN [@[j] EXCEPT ![3] = 1 - @] ELSE @[j]]])
    [] op \in 129..130 ->                              \* FLIPRGON, FLIPRGOFF
         LET a == Arg(m, 1)
             b == Arg(m, 0)
         IN IF a < 0 \/ b < 0 \/ a >= Len(m.z[2].c) \/ b >= Len(m.z[2].c) THEN Err(m)
            ELSE Nx([Drop(m, 2) EXCEPT !.z[2].c = [j \in DOMAIN @ |->
                    IF a <= j - 1 /\ j - 1 <= b THEN [@[j] EXCEPT ![3] = 130 - op] ELSE @[j]]])
    [] op = 133 -> Nx(Drop(m, 1))
    [] op \in 134..135 ->                              \* SDPVTL
         LET i1 == Arg(m, 1)
             i2 == Arg(m, 0)
         IN IF ~PtOk(m, 1, i1) \/ ~PtOk(m, 2, i2) THEN Err(m)
            ELSE LET d == LineVec(m, "u", i1, i2, op = 135)
                     p == LineVec(m, "c", i1, i2, op = 135)
                 IN IF Tied(d) \/ Tied(p) THEN Wild(m) ELSE Nx([Drop(m, 2) EXCEPT !.dv = d, !.pv = p])
    [] op = 136 -> LET a == Arg(m, 0) IN Un(E, m, (IF a % 2 = 1 THEN 35 ELSE 0) + (IF (a \div 32) % 2 = 1 THEN 4096 ELSE 0))
    [] op = 138 -> Put(E, m, 3, <<Arg(m, 1), Arg(m, 0), Arg(m, 2)>>)
    [] op = 139 -> Bin(E, m, Max2(Arg(m, 1), Arg(m, 0)))
    [] op = 140 -> Bin(E, m, Min2(Arg(m, 1), Arg(m, 0)))
    [] op = 141 -> Nx(Drop(m, 1))
    [] op = 142 -> Nx(Drop(m, 2))
    [] OTHER -> Err(m)

Step(E, m) ==
  LET op == Byte(E, m, m.pc)
  IN IF Len(m.st) < Pops(op) THEN Err(m)
     ELSE IF op < 32 THEN Exec0(E, m, op)
     ELSE IF op < 64 THEN Exec1(E, m, op)
     ELSE IF op < 112 THEN Exec2(E, m, op)
     ELSE IF op < 144 THEN Exec3(E, m, op)
     ELSE IF op < 176 THEN Err(m)
     ELSE IF op < 184 THEN PushN(E, m, 1, op - 175, 1)
     ELSE IF op < 192 THEN PushN(E, m, 1, op - 183, 2)
     ELSE IF op < 224 THEN Mdrp(E, m, op)
     ELSE Mirp(E, m, op)

(* Whether the machine comes back to m within k more steps: then it never   *)
(* stops.                                                                   *)
RECURSIVE Cycles(_, _, _, _)
Cycles(E, m, x, k) ==
  IF k = 0 \/ x.res # "run" \/ x.pc < 0 \/ x.pc >= x.p.n THEN FALSE
  ELSE IF [x EXCEPT !.n = m.n] = m THEN TRUE
  ELSE Cycles(E, m, Step(E, x), k - 1)

(* The machine until it stops, a few steps at a time (so that TLC's         *)
(* evaluation does not nest too deep).                                      *)
Stopped(m) == m.res # "run"
StepOnce(E, m) ==
  IF Stopped(m) THEN m
  ELSE IF m.pc < 0 \/ m.pc >= m.p.n THEN [m EXCEPT !.res = "ok"]
  ELSE Step(E, [m EXCEPT !.n = @ + 1])
Few == [i \in 1..50 |-> i]
FewSteps(E, m) == FoldLeft(LAMBDA x, i : StepOnce(E, x), m, Few)
RECURSIVE Exec(_, _)
Exec(E, m) ==
  IF Stopped(m) THEN m
  ELSE IF m.n >= StepLimit THEN IF Cycles(E, m, Step(E, m), LoopLimit) THEN Err(m) ELSE Wild(m)
  ELSE Exec(E, FewSteps(E, m))

(* ------------------------------------------------------- sizes and runs *)
NoZone == [c |-> << >>, u |-> << >>, f |-> << >>]
Start ==
  [p |-> [o |-> 0, n |-> 0], pc |-> 0, st |-> << >>, cs |-> << >>, n |-> 0, res |-> "ok",
   pv |-> <<16384, 0>>, fv |-> <<16384, 0>>, dv |-> <<16384, 0>>, rp |-> <<0, 0, 0>>, zp |-> <<1, 1, 1>>,
   cvci |-> 68, swci |-> 0, sw |-> 0, db |-> 9, ds |-> 3, md |-> 64, loop |-> 1,
   per |-> 64, pha |-> 0, thr |-> 32, s45 |-> FALSE, af |-> TRUE,
   fn |-> [x \in {} |-> [o |-> 0, n |-> 0]], store |-> << >>, cvt |-> << >>,
   z |-> <<NoZone, NoZone>>, ends |-> << >>, comp |-> FALSE, glyph |-> FALSE]

(* Runs a program on the machine m, from the graphics state that m has. *)
Run(E, m, prog) ==
  IF prog.n = 0 \/ m.res # "ok" THEN m
  ELSE IF prog.n > 50000 THEN Err(m)
  ELSE Exec(E, [m EXCEPT !.p = prog, !.pc = 0, !.st = << >>, !.cs = << >>, !.n = 0, !.res = "run"])

EnvOf(f, t, scale) ==
  [f |-> f, t |-> t, scale |-> scale, upem |-> UnitsPerEm(f, t),
   maxStack |-> U16(f, t.maxp[1] + 24), maxStore |-> U16(f, t.maxp[1] + 18)]

TabProg(x) == [o |-> x[1], n |-> x[2]]

(* The machine after the font program and the control value program. *)
Ready(E) ==
  LET f == E.f
      t == E.t
      nt == U16(f, t.maxp[1] + 16) + 4
      tw == TLCEval([i \in 1..nt |-> <<0, 0, 0, 0, 0>>])
      cv == TLCEval([i \in 1..(t.cvt[2] \div 2) |-> Scaled(E, S16(f, t.cvt[1] + (2 * (i - 1))))])
      m0 == [Start EXCEPT !.z = <<[c |-> tw, u |-> tw, f |-> tw], NoZone>>,
                          !.store = [i \in 1..(((E.maxStore + 15) \div 16) * 16) |-> 0],
                          !.cvt = cv,
                          !.res = IF BIG \in Img(cv) THEN "wild" ELSE "ok"]
      m1 == Run(E, m0, TabProg(t.fpgm))
      keep == [m1 EXCEPT !.pv = Start.pv, !.fv = Start.fv, !.dv = Start.dv, !.rp = Start.rp, !.zp = Start.zp,
                         !.cvci = Start.cvci, !.swci = Start.swci, !.sw = Start.sw, !.db = Start.db, !.ds = Start.ds,
                         !.md = Start.md, !.loop = 1, !.per = 64, !.pha = 0, !.thr = 32, !.s45 = FALSE, !.af = TRUE]
      m2 == Run(E, keep, TabProg(t.prep))
  IN [m2 EXCEPT !.pv = Start.pv, !.fv = Start.fv, !.dv = Start.dv, !.rp = Start.rp, !.zp = Start.zp, !.loop = 1]

(* Runs a glyph's program: state s carries storage, control values and      *)
(* twilight points from what ran before; the graphics state is R's.         *)
RunGlyph(E, R, s, prog, cur, unh, raw, ends, compound) ==
  Run(E, [R EXCEPT !.store = s.store, !.cvt = s.cvt, !.z = <<s.z[1], [c |-> cur, u |-> unh, f |-> raw]>>,
                   !.ends = ends, !.comp = compound, !.glyph = TRUE, !.res = "ok"], prog)
=============================================================================
