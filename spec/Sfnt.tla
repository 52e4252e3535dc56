-------------------------------- MODULE Sfnt --------------------------------
(* TrueType font files, decoded from their bytes (a sequence of 0..255,     *)
(* offsets counted from 0): the table directory, which files are well       *)
(* formed, and what the character map, the metrics, the kerning and the     *)
(* names say.                                                               *)
EXTENDS Fixed, TLC

(* ------------------------------------------------------------- numbers *)
U8(f, o)  == f[o + 1]
U16(f, o) == 256 * f[o + 1] + f[o + 2]
S16(f, o) == LET u == U16(f, o) IN IF u >= 32768 THEN u - 65536 ELSE u
S8(f, o)  == LET u == U8(f, o) IN IF u >= 128 THEN u - 256 ELSE u
(* 32-bit numbers as <<high, low>> halves, or cut off at Huge. *)
P32(f, o) == <<U16(f, o), U16(f, o + 2)>>
Huge == 536870912
N32(p) == IF p[1] >= 8192 THEN Huge ELSE (p[1] * 65536) + p[2]
U32(f, o) == N32(P32(f, o))
LeP(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] <= q[2])
Tag(f, o) == SubSeq(f, o + 1, o + 4)

(* A table is <<offset, length>>; a missing one is <<0, 0>>. *)
Names == [head |-> <<104, 101, 97, 100>>, hhea |-> <<104, 104, 101, 97>>, hmtx |-> <<104, 109, 116, 120>>,
          maxp |-> <<109, 97, 120, 112>>, cmap |-> <<99, 109, 97, 112>>, kern |-> <<107, 101, 114, 110>>,
          loca |-> <<108, 111, 99, 97>>, glyf |-> <<103, 108, 121, 102>>, name |-> <<110, 97, 109, 101>>,
          os2 |-> <<79, 83, 47, 50>>, vmtx |-> <<118, 109, 116, 120>>, hdmx |-> <<104, 100, 109, 120>>,
          cvt |-> <<99, 118, 116, 32>>, fpgm |-> <<102, 112, 103, 109>>, prep |-> <<112, 114, 101, 112>>]

(* ----------------------------------------------------------- directory *)
TrueTypeMagic == <<1, 0>>
CollectionMagic == <<29812, 25446>>           \* "ttcf"

(* Where the font's own header is: an offset, or -1 if there is none. *)
FontOffset(f) ==
  IF Len(f) < 12 THEN -1
  ELSE IF P32(f, 0) = TrueTypeMagic THEN 0
  ELSE IF P32(f, 0) # CollectionMagic THEN -1
  ELSE IF P32(f, 4) \notin {<<1, 0>>, <<2, 0>>} THEN -1
  ELSE LET n == U32(f, 8)
           o == U32(f, 12)
       IN IF n = 0 \/ n > (Len(f) - 12) \div 4 THEN -1
          ELSE IF o = 0 \/ o > Len(f) - 12 THEN -1
          ELSE IF P32(f, o) # TrueTypeMagic THEN -1 ELSE o

NTables(f, b) == U16(f, b + 4)
DirOk(f) == LET b == FontOffset(f) IN b >= 0 /\ Len(f) >= b + 12 + (16 * NTables(f, b))
Entries(f) == LET b == FontOffset(f) IN [i \in 1..NTables(f, b) |-> b + 12 + (16 * (i - 1))]

KnownTags == {Names[n] : n \in DOMAIN Names}
EntryFits(f, e) == U32(f, e + 8) < Huge /\ U32(f, e + 12) < Huge /\ U32(f, e + 8) + U32(f, e + 12) <= Len(f)
EntriesOk(f) == \A i \in DOMAIN Entries(f) : Tag(f, Entries(f)[i]) \in KnownTags => EntryFits(f, Entries(f)[i])
AllFit(f) == \A i \in DOMAIN Entries(f) : EntryFits(f, Entries(f)[i])
Duplicates(f) == LET es == Entries(f)
                 IN \E i, j \in DOMAIN es : i < j /\ Tag(f, es[i]) = Tag(f, es[j])

(* All the tables, by name.  Only if DirOk and EntriesOk. *)
Tables(f) ==
  LET es == Entries(f)
      \* the last of several entries counts
      find(tag, i) == LET S == {k \in 1..i : Tag(f, es[k]) = tag}
                      IN IF S = {} THEN <<0, 0>>
                         ELSE LET k == CHOOSE k \in S : \A m \in S : m <= k
                              IN <<U32(f, es[k] + 8), U32(f, es[k] + 12)>>
  IN [n \in DOMAIN Names |-> find(Names[n], Len(es))]

(* ---------------------------------------------------- encoding records *)
UnicodePlatform(p, e) == p = 0 /\ e \in {3, 4}
MicrosoftPlatform(p, e) == p = 3 /\ e \in {0, 1, 10}
(* The best of the records at the given offsets: the first Unicode one, or  *)
(* else the last Microsoft one; -1 if there is neither.                     *)
Best(f, recs) ==
  LET P(i) == U16(f, recs[i])
      E(i) == U16(f, recs[i] + 2)
      us == {i \in DOMAIN recs : UnicodePlatform(P(i), E(i))}
      ms == {i \in DOMAIN recs : MicrosoftPlatform(P(i), E(i))}
  IN IF us # {} THEN recs[CHOOSE i \in us : \A j \in us : i <= j]
     ELSE IF ms # {} THEN recs[CHOOSE i \in ms : \A j \in ms : j <= i]
     ELSE -1

CmapRecs(f, t) == TLCEval([i \in 1..U16(f, t.cmap[1] + 2) |-> t.cmap[1] + 4 + (8 * (i - 1))])

(* ---------------------------------------------------------- well-formed *)
(* "reject": the file must be rejected.  "any": it uses a feature that an   *)
(* implementation may or may not support, or is ambiguous.  "accept".       *)
HeadV(f, t) ==
  LET o == t.head[1]
  IN IF t.head[2] # 54 THEN "reject"
     ELSE IF U16(f, o + 18) = 0 \/ U16(f, o + 50) > 1 THEN "reject"
     ELSE "accept"

MaxpV(f, t) == IF t.maxp[2] # 32 THEN "reject" ELSE "accept"

CmapV(f, t) ==
  LET o == t.cmap[1]
      n == t.cmap[2]
  IN IF n < 4 THEN "reject"
     ELSE IF n < 4 + (8 * U16(f, o + 2)) THEN "reject"
     ELSE LET r == Best(f, CmapRecs(f, t))
          IN IF r < 0 THEN "any"
             ELSE LET s == U32(f, r + 4)          \* the subtable's offset
                  IN IF s = 0 \/ s + 2 > n THEN "reject"
                     ELSE IF U16(f, o + s) = 4
                     THEN IF s + 14 > n THEN "reject"
                          ELSE LET c2 == U16(f, o + s + 6)
                               IN IF U16(f, o + s + 4) # 0 THEN "any"
                                  ELSE IF c2 % 2 = 1 \/ s + 16 + (4 * c2) > n THEN "reject"
                                  ELSE "accept"
                     ELSE IF U16(f, o + s) = 12
                     THEN IF s + 16 > n \/ U16(f, o + s + 2) # 0 THEN "reject"
                          ELSE LET g == U32(f, o + s + 12)
                               IN IF P32(f, o + s + 8) # <<0, 0>> THEN "any"
                                  ELSE IF g > n \/ U32(f, o + s + 4) # 16 + (12 * g) \/ s + 16 + (12 * g) > n THEN "reject"
                                  ELSE "accept"
                     ELSE "any"

KernV(f, t) ==
  LET o == t.kern[1]
      n == t.kern[2]
  IN IF n = 0 THEN "accept"
     ELSE IF n < 18 THEN "reject"
     ELSE IF U16(f, o) # 0 \/ U16(f, o + 2) = 0 \/ U16(f, o + 8) # 1 THEN "any"
     ELSE IF U16(f, o + 6) # 14 + (6 * U16(f, o + 10)) THEN "reject"
     ELSE IF 18 + (6 * U16(f, o + 10)) > n THEN "reject"
     ELSE "accept"

NGlyphs(f, t) == U16(f, t.maxp[1] + 4)
NHMetrics(f, t) == U16(f, t.hhea[1] + 34)
HheaV(f, t) ==
  IF t.hhea[2] # 36 THEN "reject"
  ELSE IF (2 * NGlyphs(f, t)) + (2 * NHMetrics(f, t)) # t.hmtx[2] THEN "reject"
  ELSE IF NHMetrics(f, t) = 0 /\ NGlyphs(f, t) # 0 THEN "reject"
  ELSE IF NHMetrics(f, t) > NGlyphs(f, t) THEN "any"
  ELSE "accept"

Verdict(f) ==
  IF ~DirOk(f) THEN "reject"
  ELSE IF ~EntriesOk(f) THEN "reject"
  ELSE LET t == Tables(f)
           hv == HeadV(f, t)
           mv == MaxpV(f, t)
           vs == {hv, mv, CmapV(f, t), KernV(f, t), IF mv = "accept" THEN HheaV(f, t) ELSE "any"}
       IN IF "reject" \in vs /\ ~Duplicates(f) THEN "reject"
          ELSE IF "any" \in vs \/ Duplicates(f) \/ ~AllFit(f) THEN "any"
          ELSE "accept"

(* -------------------------------------------------------- character map *)
(* Where the chosen subtable is. *)
CmapSub(f, t) == t.cmap[1] + U32(f, Best(f, CmapRecs(f, t)) + 4)

(* The glyph for the character p (a 32-bit number as <<high, low>>): what   *)
(* the one range that contains it says.                                     *)
Format4(f, t, p) ==
  LET s == CmapSub(f, t)
      n == U16(f, s + 6) \div 2
      End(i) == U16(f, s + 14 + (2 * i))
      Start(i) == U16(f, s + 16 + (2 * n) + (2 * i))
      Delta(i) == U16(f, s + 16 + (4 * n) + (2 * i))
      RangePos(i) == s + 16 + (6 * n) + (2 * i)
      c == p[2]
      S == IF p[1] # 0 THEN {} ELSE {i \in 0..(n - 1) : Start(i) <= c /\ c <= End(i)}
  IN IF S = {} THEN 0
     ELSE LET i == CHOOSE i \in S : TRUE
              ro == U16(f, RangePos(i))
              at == RangePos(i) + ro + (2 * (c - Start(i)))
          IN IF ro = 0 THEN (c + Delta(i)) % 65536
             ELSE IF at + 2 > t.cmap[1] + t.cmap[2] THEN 0
             ELSE IF U16(f, at) = 0 THEN 0
             ELSE (U16(f, at) + Delta(i)) % 65536

Format12(f, t, p) ==
  LET s == CmapSub(f, t)
      n == U32(f, s + 12)
      At(i) == s + 16 + (12 * i)
      S == {i \in 0..(n - 1) : LeP(P32(f, At(i)), p) /\ LeP(p, P32(f, At(i) + 4))}
  IN IF S = {} THEN 0
     ELSE LET i == CHOOSE i \in S : TRUE
          IN (P32(f, At(i) + 8)[2] + p[2] - P32(f, At(i))[2]) % 65536

GlyphIndex(f, t, p) ==
  IF U16(f, CmapSub(f, t)) = 4 THEN Format4(f, t, p) ELSE Format12(f, t, p)

(* Ranges in increasing order, disjoint. *)
CmapSorted(f, t) ==
  LET s == CmapSub(f, t)
  IN IF U16(f, s) = 4
     THEN LET n == U16(f, s + 6) \div 2
              End(i) == U16(f, s + 14 + (2 * i))
              Start(i) == U16(f, s + 16 + (2 * n) + (2 * i))
          IN /\ \A i \in 0..(n - 1) : Start(i) <= End(i)
             /\ \A i \in 1..(n - 1) : End(i - 1) < Start(i)
     ELSE LET n == U32(f, s + 12)
              At(i) == s + 16 + (12 * i)
          IN /\ \A i \in 0..(n - 1) : LeP(P32(f, At(i)), P32(f, At(i) + 4))
             /\ \A i \in 1..(n - 1) : ~LeP(P32(f, At(i)), P32(f, At(i - 1) + 4))

(* -------------------------------------------------------------- metrics *)
UnitsPerEm(f, t) == U16(f, t.head[1] + 18)

(* x / upem, rounded to the nearest integer, halves away from zero. *)
DivNear(x, u) == LET m == Abs(x)
                     q == m \div u
                     r == m % u
                 IN Sign(x) * (IF r >= u - r THEN q + 1 ELSE q)
(* Funits v at the given scale. *)
Scl(scale, v, upem) == DivNear(scale * v, upem)
(* Can be computed in 32 bits. *)
SclOk(scale, v, upem) == v = 0 \/ scale = 0 \/ Abs(scale) <= (2147483647 - (upem \div 2)) \div Abs(v)

UHMetric(f, t, i) ==
  LET n == NGlyphs(f, t)
      h == NHMetrics(f, t)
      o == t.hmtx[1]
  IN IF i >= n THEN <<0, 0>>
     ELSE IF i < h THEN <<U16(f, o + (4 * i)), S16(f, o + (4 * i) + 2)>>
     ELSE <<U16(f, o + (4 * (h - 1))), S16(f, o + (4 * h) + (2 * (i - h)))>>

UVMetric(f, t, i, yMax) ==
  IF i >= NGlyphs(f, t) THEN <<0, 0>>
  ELSE IF (4 * i) + 4 <= t.vmtx[2] THEN <<U16(f, t.vmtx[1] + (4 * i)), S16(f, t.vmtx[1] + (4 * i) + 2)>>
  ELSE IF t.os2[2] >= 72
  THEN LET a == S16(f, t.os2[1] + 68)
           d == S16(f, t.os2[1] + 70)
       IN <<a - d, a - yMax>>
  ELSE <<UnitsPerEm(f, t), 0>>

Ascent(f, t) == S16(f, t.hhea[1] + 4)
Descent(f, t) == S16(f, t.hhea[1] + 6)
Box(f, t) == TLCEval([k \in 1..4 |-> S16(f, t.head[1] + 34 + (2 * k))])

(* The unscaled kerning of a pair: the entries are sorted, so at most one matches. *)
UKern(f, t, i, j) ==
  IF t.kern[2] = 0 THEN 0
  ELSE LET o == t.kern[1]
           S == {k \in 0..(U16(f, o + 10) - 1) : U16(f, o + 18 + (6 * k)) = i /\ U16(f, o + 20 + (6 * k)) = j}
       IN IF S = {} THEN 0 ELSE S16(f, o + 22 + (6 * (CHOOSE k \in S : TRUE)))
KernSorted(f, t) ==
  t.kern[2] = 0 \/
  LET o == t.kern[1]
      at(k) == P32(f, o + 18 + (6 * k))
  IN \A k \in 1..(U16(f, o + 10) - 1) : ~LeP(at(k), at(k - 1))

(* ----------------------------------------------------------------- names *)
Printable(c) == IF c >= 32 /\ c < 127 THEN c ELSE 63
(* The name with the given id, as a sequence of characters; empty if there is none. *)
NameOf(f, t, id) ==
  LET o == t.name[1]
      n == t.name[2]
  IN IF n < 6 THEN << >>
     ELSE IF n < 6 + (12 * U16(f, o + 2)) THEN << >>
     ELSE LET all == TLCEval([i \in 1..U16(f, o + 2) |-> o + 6 + (12 * (i - 1))])
              recs == SelectSeq(all, LAMBDA r : U16(f, r + 6) = id)
              b == Best(f, recs)
          IN IF b < 0 THEN << >>
             ELSE LET len == U16(f, b + 8)
                      at == U16(f, o + 4) + U16(f, b + 10)
                  IN IF len % 2 = 1 \/ at + len > n THEN << >>
                     ELSE [k \in 1..(len \div 2) |-> Printable(U16(f, o + at + (2 * (k - 1))))]
=============================================================================
