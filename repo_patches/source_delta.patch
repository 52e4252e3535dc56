From faf4b35e4d54a09de5dad664cc2aa294e31014ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:25 +0000
Subject: [PATCH 01/40] fix: raster: use floor, not truncation, to find the
 cell of a negative co-ordinate

Points with a co-ordinate in (-1, 0) pixels were attributed to row or
column 0 with a negative fraction, so parts of a path just above or to
the left of the bounds changed pixels inside them.
---
 raster/raster.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/raster/raster.go b/raster/raster.go
index 7e6cd4e..f6244d2 100644
--- a/raster/raster.go
+++ b/raster/raster.go
@@ -120,9 +120,9 @@ func (r *Rasterizer) setCell(xi, yi int) {
 // and from y0f to y1f fractional vertical units within that scanline.
 func (r *Rasterizer) scan(yi int, x0, y0f, x1, y1f fixed.Int26_6) {
 	// Break the 26.6 fixed point X co-ordinates into integral and fractional parts.
-	x0i := int(x0) / 64
+	x0i := int(x0) >> 6
 	x0f := x0 - fixed.Int26_6(64*x0i)
-	x1i := int(x1) / 64
+	x1i := int(x1) >> 6
 	x1f := x1 - fixed.Int26_6(64*x1i)
 
 	// A perfectly horizontal scan.
@@ -192,7 +192,7 @@ func (r *Rasterizer) scan(yi int, x0, y0f, x1, y1f fixed.Int26_6) {
 
 // Start starts a new curve at the given point.
 func (r *Rasterizer) Start(a fixed.Point26_6) {
-	r.setCell(int(a.X/64), int(a.Y/64))
+	r.setCell(int(a.X>>6), int(a.Y>>6))
 	r.a = a
 }
 
@@ -203,9 +203,9 @@ func (r *Rasterizer) Add1(b fixed.Point26_6) {
 	dx, dy := x1-x0, y1-y0
 	// Break the 26.6 fixed point Y co-ordinates into integral and fractional
 	// parts.
-	y0i := int(y0) / 64
+	y0i := int(y0) >> 6
 	y0f := y0 - fixed.Int26_6(64*y0i)
-	y1i := int(y1) / 64
+	y1i := int(y1) >> 6
 	y1f := y1 - fixed.Int26_6(64*y1i)
 
 	if y0i == y1i {
@@ -224,7 +224,7 @@ func (r *Rasterizer) Add1(b fixed.Point26_6) {
 		} else {
 			edge0, edge1, yiDelta = 64, 0, -1
 		}
-		x0i, yi := int(x0)/64, y0i
+		x0i, yi := int(x0)>>6, y0i
 		x0fTimes2 := (int(x0) - (64 * x0i)) * 2
 		// Do the first pixel.
 		dcover := int(edge1 - y0f)
@@ -272,7 +272,7 @@ func (r *Rasterizer) Add1(b fixed.Point26_6) {
 		x, yi := x0, y0i
 		r.scan(yi, x, y0f, x+xDelta, edge1)
 		x, yi = x+xDelta, yi+yiDelta
-		r.setCell(int(x)/64, yi)
+		r.setCell(int(x)>>6, yi)
 		if yi != y1i {
 			// Do all the intermediate scanlines.
 			p = 64 * dx
@@ -291,7 +291,7 @@ func (r *Rasterizer) Add1(b fixed.Point26_6) {
 				}
 				r.scan(yi, x, edge0, x+xDelta, edge1)
 				x, yi = x+xDelta, yi+yiDelta
-				r.setCell(int(x)/64, yi)
+				r.setCell(int(x)>>6, yi)
 			}
 		}
 		// Do the last scanline.
-- 
2.43.0


From 92f16cfdd3dc1a76a54d58ae5fd7a1800f4c5700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:40 +0000
Subject: [PATCH 02/40] fix: raster: MonochromePainter must not pass on an
 empty Span

Before the first opaque Span of a rasterization there is no accumulated
Span yet, but an empty Span at (0, 0) was passed on nevertheless. That
Span is out of order when rows are negative, and makes painters drop the
rest of the batch when their image ends above row 0.
---
 raster/paint.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/raster/paint.go b/raster/paint.go
index 652256c..b1c83ae 100644
--- a/raster/paint.go
+++ b/raster/paint.go
@@ -197,8 +197,10 @@ func (m *MonochromePainter) Paint(ss []Span, done bool) {
 			if m.y == s.Y && m.x1 == s.X0 {
 				m.x1 = s.X1
 			} else {
-				ss[j] = Span{m.y, m.x0, m.x1, 1<<16 - 1}
-				j++
+				if m.x0 < m.x1 {
+					ss[j] = Span{m.y, m.x0, m.x1, 1<<16 - 1}
+					j++
+				}
 				m.y, m.x0, m.x1 = s.Y, s.X0, s.X1
 			}
 		}
@@ -206,7 +208,10 @@ func (m *MonochromePainter) Paint(ss []Span, done bool) {
 	if done {
 		// Flush the accumulated Span.
 		finalSpan := Span{m.y, m.x0, m.x1, 1<<16 - 1}
-		if j < len(ss) {
+		if m.x0 >= m.x1 {
+			// There is no accumulated Span.
+			m.Painter.Paint(ss[:j], true)
+		} else if j < len(ss) {
 			ss[j] = finalSpan
 			j++
 			m.Painter.Paint(ss[:j], true)
-- 
2.43.0


From 7ba090267d814ad316df2c2570a18caf567bfa29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:16 +0000
Subject: [PATCH 03/40] fix: raster: measure a cubic segment's deviation
 independently of its position

The number of subdivisions of a cubic segment was derived from
a-3*(b+c)+d and a-2*b+d, which are not differences: they depend on where
the segment is, ignore c in part, and can vanish for a strongly curved
segment, which was then drawn as two straight lines more than half a
pixel off.
---
 raster/raster.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/raster/raster.go b/raster/raster.go
index f6244d2..4c86831 100644
--- a/raster/raster.go
+++ b/raster/raster.go
@@ -364,12 +364,13 @@ func (r *Rasterizer) Add2(b, c fixed.Point26_6) {
 // Add3 adds a cubic segment to the current curve.
 func (r *Rasterizer) Add3(b, c, d fixed.Point26_6) {
 	// Calculate nSplit (the number of recursive decompositions) based on how
-	// 'curvy' it is.
-	dev2 := maxAbs(r.a.X-3*(b.X+c.X)+d.X, r.a.Y-3*(b.Y+c.Y)+d.Y) / fixed.Int26_6(r.splitScale2)
-	dev3 := maxAbs(r.a.X-2*b.X+d.X, r.a.Y-2*b.Y+d.Y) / fixed.Int26_6(r.splitScale3)
+	// 'curvy' it is. Specifically, how much the two middle points b and c
+	// deviate from (a+c)/2 and (b+d)/2.
+	dev2 := maxAbs(r.a.X-2*b.X+c.X, r.a.Y-2*b.Y+c.Y) / fixed.Int26_6(r.splitScale3)
+	dev3 := maxAbs(b.X-2*c.X+d.X, b.Y-2*c.Y+d.Y) / fixed.Int26_6(r.splitScale3)
 	nsplit := 0
 	for dev2 > 0 || dev3 > 0 {
-		dev2 /= 8
+		dev2 /= 4
 		dev3 /= 4
 		nsplit++
 	}
-- 
2.43.0


From ee3050a1eebcc104991e70d3ded64fdf6c5e4800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:28 +0000
Subject: [PATCH 04/40] fix: raster: start the arcs of a stroked quadratic
 segment at its own normal

---
 raster/stroke.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/raster/stroke.go b/raster/stroke.go
index bcc66b2..0e9f7ec 100644
--- a/raster/stroke.go
+++ b/raster/stroke.go
@@ -338,6 +338,7 @@ func (k *stroker) Add2(b, c fixed.Point26_6) {
 	} else {
 		k.jr.Join(k.p, &k.r, k.u, k.a, k.anorm, abnorm)
 	}
+	k.anorm = abnorm
 
 	// Approximate nearly-degenerate quadratics by linear segments.
 	abIsSmall := pDot(ab, ab) < epsilon
-- 
2.43.0


From 233341a0b8fb2a10f0840b4932c96c9b87447dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:34 +0000
Subject: [PATCH 05/40] fix: raster: do not round a vector's length when
 normalizing it

---
 raster/geom.go | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/raster/geom.go b/raster/geom.go
index f3696ea..9c1b02b 100644
--- a/raster/geom.go
+++ b/raster/geom.go
@@ -38,25 +38,17 @@ func pDot(p fixed.Point26_6, q fixed.Point26_6) fixed.Int52_12 {
 	return fixed.Int52_12(px*qx + py*qy)
 }
 
-// pLen returns the length of the vector p.
-func pLen(p fixed.Point26_6) fixed.Int26_6 {
-	// TODO(nigeltao): use fixed point math.
-	x := float64(p.X)
-	y := float64(p.Y)
-	return fixed.Int26_6(math.Sqrt(x*x + y*y))
-}
-
 // pNorm returns the vector p normalized to the given length, or zero if p is
 // degenerate.
 func pNorm(p fixed.Point26_6, length fixed.Int26_6) fixed.Point26_6 {
-	d := pLen(p)
+	// The length of p must not be rounded: p can be as short as one unit.
+	x, y := float64(p.X), float64(p.Y)
+	d := math.Sqrt(x*x + y*y)
 	if d == 0 {
 		return fixed.Point26_6{}
 	}
-	s, t := int64(length), int64(d)
-	x := int64(p.X) * s / t
-	y := int64(p.Y) * s / t
-	return fixed.Point26_6{fixed.Int26_6(x), fixed.Int26_6(y)}
+	s := float64(length)
+	return fixed.Point26_6{fixed.Int26_6(x * s / d), fixed.Int26_6(y * s / d)}
 }
 
 // pRot45CW returns the vector p rotated clockwise by 45 degrees.
-- 
2.43.0


From 0854a4919db9f7e56e2144b22533a791a9ec9335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:27 +0000
Subject: [PATCH 06/40] fix: raster: keep a stroke's normal where a quadratic
 piece has no direction

---
 raster/stroke.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/raster/stroke.go b/raster/stroke.go
index 0e9f7ec..12cedd5 100644
--- a/raster/stroke.go
+++ b/raster/stroke.go
@@ -276,11 +276,18 @@ func (k *stroker) addNonCurvy2(b, c fixed.Point26_6) {
 		c := ps[2*t+0]
 		ab := b.Sub(a)
 		bc := c.Sub(b)
+		if b == c {
+			// The last leg has no direction of its own.
+			bc = ab
+		}
 		abIsSmall := pDot(ab, ab) < fixed.Int52_12(1<<12)
 		bcIsSmall := pDot(bc, bc) < fixed.Int52_12(1<<12)
 		if abIsSmall && bcIsSmall {
 			// Approximate the segment by a circular arc.
 			cnorm = pRot90CCW(pNorm(bc, k.u))
+			if a == b && b == c {
+				cnorm = anorm
+			}
 			mac := midpoint(a, c)
 			addArc(k.p, mac, anorm, cnorm)
 			addArc(&k.r, mac, pNeg(anorm), pNeg(cnorm))
-- 
2.43.0


From 8fff886c7f25f7d9fe89afb44975fbf24bdfd7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:07 +0000
Subject: [PATCH 07/40] fix: truetype: reject a zero unitsPerEm and glyphs
 without horizontal metrics

---
 truetype/truetype.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/truetype/truetype.go b/truetype/truetype.go
index 7270bbf..06739ed 100644
--- a/truetype/truetype.go
+++ b/truetype/truetype.go
@@ -273,6 +273,9 @@ func (f *Font) parseHead() error {
 		return FormatError(fmt.Sprintf("bad head length: %d", len(f.head)))
 	}
 	f.fUnitsPerEm = int32(u16(f.head, 18))
+	if f.fUnitsPerEm == 0 {
+		return FormatError("bad unitsPerEm: 0")
+	}
 	f.bounds.Min.X = fixed.Int26_6(int16(u16(f.head, 36)))
 	f.bounds.Min.Y = fixed.Int26_6(int16(u16(f.head, 38)))
 	f.bounds.Max.X = fixed.Int26_6(int16(u16(f.head, 40)))
@@ -298,6 +301,9 @@ func (f *Font) parseHhea() error {
 	if 4*f.nHMetric+2*(f.nGlyph-f.nHMetric) != len(f.hmtx) {
 		return FormatError(fmt.Sprintf("bad hmtx length: %d", len(f.hmtx)))
 	}
+	if f.nHMetric == 0 && f.nGlyph != 0 {
+		return FormatError("bad number of horizontal metrics: 0")
+	}
 	return nil
 }
 
-- 
2.43.0


From 4b7b09b6be198d2643448c948265f962aa44ccb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:10 +0000
Subject: [PATCH 08/40] fix: truetype: check the bounds of the cmap table's
 parts

---
 truetype/truetype.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/truetype/truetype.go b/truetype/truetype.go
index 06739ed..fc6bd9e 100644
--- a/truetype/truetype.go
+++ b/truetype/truetype.go
@@ -208,9 +208,15 @@ func (f *Font) parseCmap() error {
 		return FormatError("bad cmap offset")
 	}
 
+	if offset+2 > len(f.cmap) {
+		return FormatError("cmap too short")
+	}
 	cmapFormat := u16(f.cmap, offset)
 	switch cmapFormat {
 	case cmapFormat4:
+		if offset+14 > len(f.cmap) {
+			return FormatError("cmap too short")
+		}
 		language := u16(f.cmap, offset+4)
 		if language != languageIndependent {
 			return UnsupportedError(fmt.Sprintf("language: %d", language))
@@ -220,6 +226,9 @@ func (f *Font) parseCmap() error {
 			return FormatError(fmt.Sprintf("bad segCountX2: %d", segCountX2))
 		}
 		segCount := segCountX2 / 2
+		if offset+16+8*segCount > len(f.cmap) {
+			return FormatError("cmap too short")
+		}
 		offset += 14
 		f.cm = make([]cm, segCount)
 		for i := 0; i < segCount; i++ {
@@ -243,6 +252,9 @@ func (f *Font) parseCmap() error {
 		return nil
 
 	case cmapFormat12:
+		if offset+16 > len(f.cmap) {
+			return FormatError("cmap too short")
+		}
 		if u16(f.cmap, offset+2) != 0 {
 			return FormatError(fmt.Sprintf("cmap format: % x", f.cmap[offset:offset+4]))
 		}
@@ -256,6 +268,9 @@ func (f *Font) parseCmap() error {
 			return FormatError("inconsistent cmap length")
 		}
 		offset += 16
+		if uint64(nGroups)*12 > uint64(len(f.cmap)-offset) {
+			return FormatError("cmap too short")
+		}
 		f.cm = make([]cm, nGroups)
 		for i := uint32(0); i < nGroups; i++ {
 			f.cm[i].start = u32(f.cmap, offset+0)
@@ -408,6 +423,9 @@ func (f *Font) Index(x rune) Index {
 			return Index(c + cm.delta)
 		} else {
 			offset := int(cm.offset) + 2*(h-len(f.cm)+int(c-cm.start))
+			if offset < 0 || offset+2 > len(f.cmapIndexes) {
+				return 0
+			}
 			return Index(u16(f.cmapIndexes, offset))
 		}
 	}
-- 
2.43.0


From 64a1f3fd0f81ba71b7d489e6c972e72178d16264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:12 +0000
Subject: [PATCH 09/40] fix: truetype: apply a cmap segment's idDelta to its
 glyph array too

---
 truetype/truetype.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/truetype/truetype.go b/truetype/truetype.go
index fc6bd9e..93a6a61 100644
--- a/truetype/truetype.go
+++ b/truetype/truetype.go
@@ -426,7 +426,11 @@ func (f *Font) Index(x rune) Index {
 			if offset < 0 || offset+2 > len(f.cmapIndexes) {
 				return 0
 			}
-			return Index(u16(f.cmapIndexes, offset))
+			i := u16(f.cmapIndexes, offset)
+			if i != 0 {
+				i += uint16(cm.delta)
+			}
+			return Index(i)
 		}
 	}
 	return 0
-- 
2.43.0


From 3ad78199b6ab858d3e71df0d194e482542fc945f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:15 +0000
Subject: [PATCH 10/40] fix: truetype: check that the kern table holds its
 pairs

---
 truetype/truetype.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/truetype/truetype.go b/truetype/truetype.go
index 93a6a61..ab87552 100644
--- a/truetype/truetype.go
+++ b/truetype/truetype.go
@@ -369,6 +369,9 @@ func (f *Font) parseKern() error {
 	if 6*f.nKern != length-14 {
 		return FormatError("bad kern table length")
 	}
+	if 18+6*f.nKern > len(f.kern) {
+		return FormatError("kern data too short")
+	}
 	return nil
 }
 
-- 
2.43.0


From 3cf55e7d0af0ebfc746a44b0e76482c91f47aaf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:17 +0000
Subject: [PATCH 11/40] fix: truetype: check the bounds of a name's string

---
 truetype/truetype.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/truetype/truetype.go b/truetype/truetype.go
index ab87552..a6c1981 100644
--- a/truetype/truetype.go
+++ b/truetype/truetype.go
@@ -448,7 +448,10 @@ func (f *Font) Name(id NameID) string {
 	if err != nil {
 		return ""
 	}
-	offset, length := u16(f.name, 4)+u16(f.name, x+10), u16(f.name, x+8)
+	offset, length := int(u16(f.name, 4))+int(u16(f.name, x+10)), int(u16(f.name, x+8))
+	if offset+length > len(f.name) {
+		return ""
+	}
 	// Return the ASCII value of the encoded string.
 	// The string is encoded as UTF-16 on non-Apple platformIDs; Apple is platformID 1.
 	src := f.name[offset : offset+length]
-- 
2.43.0


From 828bfed3521d1c0a90e6a4b7bffb36814d7d8efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:50 +0000
Subject: [PATCH 12/40] fix: truetype: check the bounds of a simple glyph's
 data

---
 truetype/glyph.go | 60 +++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 53 insertions(+), 7 deletions(-)

diff --git a/truetype/glyph.go b/truetype/glyph.go
index 6157ad8..3394cba 100644
--- a/truetype/glyph.go
+++ b/truetype/glyph.go
@@ -178,9 +178,15 @@ func (g *GlyphBuf) load(recursion uint32, i Index, useMyMetrics bool) (err error
 	// Find the relevant slice of g.font.glyf.
 	var g0, g1 uint32
 	if g.font.locaOffsetFormat == locaOffsetFormatShort {
+		if 2*int(i)+4 > len(g.font.loca) {
+			return FormatError("loca too short")
+		}
 		g0 = 2 * uint32(u16(g.font.loca, 2*int(i)))
 		g1 = 2 * uint32(u16(g.font.loca, 2*int(i)+2))
 	} else {
+		if 4*int(i)+8 > len(g.font.loca) {
+			return FormatError("loca too short")
+		}
 		g0 = u32(g.font.loca, 4*int(i))
 		g1 = u32(g.font.loca, 4*int(i)+4)
 	}
@@ -189,7 +195,10 @@ func (g *GlyphBuf) load(recursion uint32, i Index, useMyMetrics bool) (err error
 	// 10 bytes of the glyf data. boundsYMin and boundsXMax, at offsets 4
 	// and 6, are unused.
 	glyf, ne, boundsXMin, boundsYMax := []byte(nil), 0, fixed.Int26_6(0), fixed.Int26_6(0)
-	if g0+10 <= g1 {
+	if g0 <= g1 && g1-g0 >= 10 {
+		if uint64(g1) > uint64(len(g.font.glyf)) {
+			return FormatError("glyf too short")
+		}
 		glyf = g.font.glyf[g0:g1]
 		ne = int(int16(u16(glyf, 0)))
 		boundsXMin = fixed.Int26_6(int16(u16(glyf, 2)))
@@ -226,7 +235,10 @@ func (g *GlyphBuf) load(recursion uint32, i Index, useMyMetrics bool) (err error
 		}
 	} else {
 		np0, ne0 := len(g.Points), len(g.Ends)
-		program := g.loadSimple(glyf, ne)
+		program, err := g.loadSimple(glyf, ne)
+		if err != nil {
+			return err
+		}
 		g.addPhantomsAndScale(np0, np0, true, true)
 		pp1x = g.Points[len(g.Points)-4].X
 		if g.hinting != font.HintingNone {
@@ -270,21 +282,34 @@ func (g *GlyphBuf) load(recursion uint32, i Index, useMyMetrics bool) (err error
 // 10 bytes are the number of contours and the bounding box.
 const loadOffset = 10
 
-func (g *GlyphBuf) loadSimple(glyf []byte, ne int) (program []byte) {
+var errGlyphTooShort = FormatError("glyph data too short")
+
+func (g *GlyphBuf) loadSimple(glyf []byte, ne int) (program []byte, err error) {
 	offset := loadOffset
-	for i := 0; i < ne; i++ {
-		g.Ends = append(g.Ends, 1+int(u16(glyf, offset)))
+	if offset+2*ne+2 > len(glyf) {
+		return nil, errGlyphTooShort
+	}
+	for i, prev := 0, 0; i < ne; i++ {
+		end := 1 + int(u16(glyf, offset))
+		if end < prev {
+			return nil, FormatError("contour ends are not in order")
+		}
+		g.Ends = append(g.Ends, end)
+		prev = end
 		offset += 2
 	}
 
 	// Note the TrueType hinting instructions.
 	instrLen := int(u16(glyf, offset))
 	offset += 2
+	if offset+instrLen > len(glyf) {
+		return nil, errGlyphTooShort
+	}
 	program = glyf[offset : offset+instrLen]
 	offset += instrLen
 
 	if ne == 0 {
-		return program
+		return program, nil
 	}
 
 	np0 := len(g.Points)
@@ -292,13 +317,22 @@ func (g *GlyphBuf) loadSimple(glyf []byte, ne int) (program []byte) {
 
 	// Decode the flags.
 	for i := np0; i < np1; {
+		if offset >= len(glyf) {
+			return nil, errGlyphTooShort
+		}
 		c := uint32(glyf[offset])
 		offset++
 		g.Points = append(g.Points, Point{Flags: c})
 		i++
 		if c&flagRepeat != 0 {
+			if offset >= len(glyf) {
+				return nil, errGlyphTooShort
+			}
 			count := glyf[offset]
 			offset++
+			if int(count) > np1-i {
+				return nil, FormatError("too many flags")
+			}
 			for ; count > 0; count-- {
 				g.Points = append(g.Points, Point{Flags: c})
 				i++
@@ -311,6 +345,9 @@ func (g *GlyphBuf) loadSimple(glyf []byte, ne int) (program []byte) {
 	for i := np0; i < np1; i++ {
 		f := g.Points[i].Flags
 		if f&flagXShortVector != 0 {
+			if offset >= len(glyf) {
+				return nil, errGlyphTooShort
+			}
 			dx := int16(glyf[offset])
 			offset++
 			if f&flagPositiveXShortVector == 0 {
@@ -319,6 +356,9 @@ func (g *GlyphBuf) loadSimple(glyf []byte, ne int) (program []byte) {
 				x += dx
 			}
 		} else if f&flagThisXIsSame == 0 {
+			if offset+2 > len(glyf) {
+				return nil, errGlyphTooShort
+			}
 			x += int16(u16(glyf, offset))
 			offset += 2
 		}
@@ -328,6 +368,9 @@ func (g *GlyphBuf) loadSimple(glyf []byte, ne int) (program []byte) {
 	for i := np0; i < np1; i++ {
 		f := g.Points[i].Flags
 		if f&flagYShortVector != 0 {
+			if offset >= len(glyf) {
+				return nil, errGlyphTooShort
+			}
 			dy := int16(glyf[offset])
 			offset++
 			if f&flagPositiveYShortVector == 0 {
@@ -336,13 +379,16 @@ func (g *GlyphBuf) loadSimple(glyf []byte, ne int) (program []byte) {
 				y += dy
 			}
 		} else if f&flagThisYIsSame == 0 {
+			if offset+2 > len(glyf) {
+				return nil, errGlyphTooShort
+			}
 			y += int16(u16(glyf, offset))
 			offset += 2
 		}
 		g.Points[i].Y = fixed.Int26_6(y)
 	}
 
-	return program
+	return program, nil
 }
 
 func (g *GlyphBuf) loadCompound(recursion uint32, uhm HMetric, i Index,
-- 
2.43.0


From 6d8e6364a44c438db7959a822155f17de676176f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:52 +0000
Subject: [PATCH 13/40] fix: truetype: check the bounds of a compound glyph's
 data

---
 truetype/glyph.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/truetype/glyph.go b/truetype/glyph.go
index 3394cba..55e2407 100644
--- a/truetype/glyph.go
+++ b/truetype/glyph.go
@@ -412,9 +412,28 @@ func (g *GlyphBuf) loadCompound(recursion uint32, uhm HMetric, i Index,
 	np0, ne0 := len(g.Points), len(g.Ends)
 	offset := loadOffset
 	for {
+		if offset+4 > len(glyf) {
+			return errGlyphTooShort
+		}
 		flags := u16(glyf, offset)
 		component := Index(u16(glyf, offset+2))
 		dx, dy, transform, hasTransform := fixed.Int26_6(0), fixed.Int26_6(0), [4]int16{}, false
+		// n is the length of the component's record.
+		n := 6
+		if flags&flagArg1And2AreWords != 0 {
+			n += 2
+		}
+		switch {
+		case flags&flagWeHaveAScale != 0:
+			n += 2
+		case flags&flagWeHaveAnXAndYScale != 0:
+			n += 4
+		case flags&flagWeHaveATwoByTwo != 0:
+			n += 8
+		}
+		if offset+n > len(glyf) {
+			return errGlyphTooShort
+		}
 		if flags&flagArg1And2AreWords != 0 {
 			dx = fixed.Int26_6(int16(u16(glyf, offset+4)))
 			dy = fixed.Int26_6(int16(u16(glyf, offset+6)))
@@ -505,6 +524,9 @@ func (g *GlyphBuf) loadCompound(recursion uint32, uhm HMetric, i Index,
 	}
 
 	// Hint the compound glyph.
+	if offset+instrLen > len(glyf) {
+		return errGlyphTooShort
+	}
 	program := glyf[offset : offset+instrLen]
 	// Temporarily adjust the ends to be relative to this compound glyph.
 	if np0 != 0 {
-- 
2.43.0


From 2cb3aafc4ea800fbeadda00e7134b053dfc5ebd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:18 +0000
Subject: [PATCH 14/40] fix: truetype: limit the number of a compound glyph's
 components and points

---
 truetype/glyph.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/truetype/glyph.go b/truetype/glyph.go
index 55e2407..2b1d477 100644
--- a/truetype/glyph.go
+++ b/truetype/glyph.go
@@ -53,6 +53,8 @@ type GlyphBuf struct {
 	// metricsSet is whether the glyph's metrics have been set yet. For a
 	// compound glyph, a sub-glyph may override the outer glyph's metrics.
 	metricsSet bool
+	// nComponents is the number of compound glyphs' components loaded so far.
+	nComponents int
 	// tmp is a scratch buffer.
 	tmp []Point
 }
@@ -93,6 +95,7 @@ func (g *GlyphBuf) Load(f *Font, scale fixed.Int26_6, i Index, h font.Hinting) e
 	g.pp1x = 0
 	g.phantomPoints = [4]Point{}
 	g.metricsSet = false
+	g.nComponents = 0
 
 	if h != font.HintingNone {
 		if err := g.hinter.init(f, scale); err != nil {
@@ -175,6 +178,17 @@ func (g *GlyphBuf) load(recursion uint32, i Index, useMyMetrics bool) (err error
 	if recursion >= 32 {
 		return UnsupportedError("excessive compound glyph recursion")
 	}
+	// So are these limits: a few nested compound glyphs can otherwise ask for
+	// exponentially many components and points.
+	if recursion > 0 {
+		g.nComponents++
+		if g.nComponents > maxComponents {
+			return UnsupportedError("excessive number of compound glyph components")
+		}
+	}
+	if len(g.Points) > maxPoints {
+		return UnsupportedError("excessive number of compound glyph points")
+	}
 	// Find the relevant slice of g.font.glyf.
 	var g0, g1 uint32
 	if g.font.locaOffsetFormat == locaOffsetFormatShort {
@@ -278,6 +292,15 @@ func (g *GlyphBuf) load(recursion uint32, i Index, useMyMetrics bool) (err error
 	return nil
 }
 
+const (
+	// maxComponents is the maximum number of components, nested ones included,
+	// of a compound glyph.
+	maxComponents = 4096
+	// maxPoints is the maximum number of points of the components that precede
+	// another component. The maxp table cannot express a larger maximum either.
+	maxPoints = 1<<16 - 1
+)
+
 // loadOffset is the initial offset for loadSimple and loadCompound. The first
 // 10 bytes are the number of contours and the bounding box.
 const loadOffset = 10
-- 
2.43.0


From ac8ea76d8f912b2effe5c63988d5888889c60115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:20 +0000
Subject: [PATCH 15/40] fix: truetype: find the last glyph's width in an hdmx
 record

---
 truetype/glyph.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/truetype/glyph.go b/truetype/glyph.go
index 2b1d477..08cd9a2 100644
--- a/truetype/glyph.go
+++ b/truetype/glyph.go
@@ -121,10 +121,10 @@ func (g *GlyphBuf) Load(f *Font, scale fixed.Int26_6, i Index, h font.Hinting) e
 	advanceWidth := g.phantomPoints[1].X - g.phantomPoints[0].X
 	if h != font.HintingNone {
 		if len(f.hdmx) >= 8 {
-			if n := u32(f.hdmx, 4); n > 3+uint32(i) {
+			if n := u32(f.hdmx, 4); n > 2+uint32(i) {
 				for hdmx := f.hdmx[8:]; uint32(len(hdmx)) >= n; hdmx = hdmx[n:] {
 					if fixed.Int26_6(hdmx[0]) == scale>>6 {
-						advanceWidth = fixed.Int26_6(hdmx[2+i]) << 6
+						advanceWidth = fixed.Int26_6(hdmx[2+int(i)]) << 6
 						break
 					}
 				}
-- 
2.43.0


From 24e66c3d87f74e2c8f00a59679c83782c7fe9e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:22 +0000
Subject: [PATCH 16/40] fix: truetype: do not leave an empty component's
 phantom points in a glyph

---
 truetype/glyph.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/truetype/glyph.go b/truetype/glyph.go
index 08cd9a2..f9d8ece 100644
--- a/truetype/glyph.go
+++ b/truetype/glyph.go
@@ -230,9 +230,20 @@ func (g *GlyphBuf) load(recursion uint32, i Index, useMyMetrics bool) (err error
 	}
 	if len(glyf) == 0 {
 		g.addPhantomsAndScale(len(g.Points), len(g.Points), true, true)
-		copy(g.phantomPoints[:], g.Points[len(g.Points)-4:])
+		pp1x = g.Points[len(g.Points)-4].X
+		if useMyMetrics {
+			copy(g.phantomPoints[:], g.Points[len(g.Points)-4:])
+			if !g.metricsSet {
+				g.metricsSet = true
+				g.pp1x = pp1x
+			}
+		}
+		// Drop the four phantom points.
 		g.Points = g.Points[:len(g.Points)-4]
-		// TODO: also trim g.InFontUnits and g.Unhinted?
+		if g.hinting != font.HintingNone {
+			g.InFontUnits = g.InFontUnits[:len(g.InFontUnits)-4]
+			g.Unhinted = g.Unhinted[:len(g.Unhinted)-4]
+		}
 		return nil
 	}
 
-- 
2.43.0


From 798d850313b89d304f7cf6f35e8eb13fec6bb2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:25 +0000
Subject: [PATCH 17/40] fix: truetype: do not scale a component's metrics twice

---
 truetype/glyph.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/truetype/glyph.go b/truetype/glyph.go
index f9d8ece..af234ac 100644
--- a/truetype/glyph.go
+++ b/truetype/glyph.go
@@ -254,7 +254,14 @@ func (g *GlyphBuf) load(recursion uint32, i Index, useMyMetrics bool) (err error
 			// "the values -2, -3, and so forth, are reserved for future use."
 			return UnsupportedError("negative number of contours")
 		}
-		pp1x = g.font.scale(g.scale * (boundsXMin - uhm.LeftSideBearing))
+		// Scale the phantom points now: a component may replace them by its own,
+		// which are scaled.
+		for j := range g.phantomPoints {
+			p := &g.phantomPoints[j]
+			p.X = g.font.scale(g.scale * p.X)
+			p.Y = g.font.scale(g.scale * p.Y)
+		}
+		pp1x = g.phantomPoints[0].X
 		if err := g.loadCompound(recursion, uhm, i, glyf, useMyMetrics); err != nil {
 			return err
 		}
@@ -505,7 +512,7 @@ func (g *GlyphBuf) loadCompound(recursion uint32, uhm HMetric, i Index,
 		if err := g.load(recursion+1, component, componentUMM); err != nil {
 			return err
 		}
-		if flags&flagUseMyMetrics == 0 {
+		if !componentUMM {
 			g.phantomPoints = savedPP
 		}
 		if hasTransform {
@@ -592,10 +599,13 @@ func (g *GlyphBuf) addPhantomsAndScale(np0, np1 int, simple, adjust bool) {
 	if simple && g.hinting != font.HintingNone {
 		g.InFontUnits = append(g.InFontUnits, g.Points[np1:]...)
 	}
-	for i := np1; i < len(g.Points); i++ {
-		p := &g.Points[i]
-		p.X = g.font.scale(g.scale * p.X)
-		p.Y = g.font.scale(g.scale * p.Y)
+	// A compound glyph's are already scaled.
+	if simple {
+		for i := np1; i < len(g.Points); i++ {
+			p := &g.Points[i]
+			p.X = g.font.scale(g.scale * p.X)
+			p.Y = g.font.scale(g.scale * p.Y)
+		}
 	}
 	if g.hinting == font.HintingNone {
 		return
-- 
2.43.0


From b30abf4d448577576fc97a8f0081c5385f3a1fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:07 +0000
Subject: [PATCH 18/40] fix: truetype: check that the points a hinting
 instruction names exist

---
 truetype/hint.go | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/truetype/hint.go b/truetype/hint.go
index 13f785b..dc33836 100644
--- a/truetype/hint.go
+++ b/truetype/hint.go
@@ -642,17 +642,29 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 			}
 			p := h.point(1, pointType, h.gs.rp[2])
 			oldP := h.point(0, pointType, h.gs.rp[1])
+			if p == nil || oldP == nil {
+				return errors.New("truetype: hinting: point out of range")
+			}
 			oldRange := dotProduct(p.X-oldP.X, p.Y-oldP.Y, h.gs.dv)
 
 			p = h.point(1, current, h.gs.rp[2])
 			curP := h.point(0, current, h.gs.rp[1])
+			if p == nil || curP == nil {
+				return errors.New("truetype: hinting: point out of range")
+			}
 			curRange := dotProduct(p.X-curP.X, p.Y-curP.Y, h.gs.pv)
 			for ; h.gs.loop != 0; h.gs.loop-- {
 				top--
 				i := h.stack[top]
 				p = h.point(2, pointType, i)
+				if p == nil {
+					return errors.New("truetype: hinting: point out of range")
+				}
 				oldDist := dotProduct(p.X-oldP.X, p.Y-oldP.Y, h.gs.dv)
 				p = h.point(2, current, i)
+				if p == nil {
+					return errors.New("truetype: hinting: point out of range")
+				}
 				curDist := dotProduct(p.X-curP.X, p.Y-curP.Y, h.gs.pv)
 				newDist := fixed.Int26_6(0)
 				if oldDist != 0 {
@@ -720,11 +732,17 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 			if h.gs.zp[0] == 0 {
 				p := h.point(0, unhinted, i)
 				q := h.point(0, current, i)
+				if p == nil || q == nil {
+					return errors.New("truetype: hinting: point out of range")
+				}
 				p.X = fixed.Int26_6((int64(distance) * int64(h.gs.fv[0])) >> 14)
 				p.Y = fixed.Int26_6((int64(distance) * int64(h.gs.fv[1])) >> 14)
 				*q = *p
 			}
 			p := h.point(0, current, i)
+			if p == nil {
+				return errors.New("truetype: hinting: point out of range")
+			}
 			oldDist := dotProduct(p.X, p.Y, h.gs.pv)
 			if opcode == opMIAP1 {
 				if fabs(distance-oldDist) > h.gs.controlValueCutIn {
@@ -771,9 +789,15 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 			i := h.stack[top-1]
 			if opcode == opGC0 {
 				p := h.point(2, current, i)
+				if p == nil {
+					return errors.New("truetype: hinting: point out of range")
+				}
 				h.stack[top-1] = int32(dotProduct(p.X, p.Y, h.gs.pv))
 			} else {
 				p := h.point(2, unhinted, i)
+				if p == nil {
+					return errors.New("truetype: hinting: point out of range")
+				}
 				// Using dv as per C Freetype.
 				h.stack[top-1] = int32(dotProduct(p.X, p.Y, h.gs.dv))
 			}
@@ -1148,10 +1172,16 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 				if h.gs.zp[0] == 0 || h.gs.zp[1] == 0 {
 					p0 := h.point(1, unhinted, i)
 					p1 := h.point(0, unhinted, h.gs.rp[0])
+					if p0 == nil || p1 == nil {
+						return errors.New("truetype: hinting: point out of range")
+					}
 					oldDist = dotProduct(p0.X-p1.X, p0.Y-p1.Y, h.gs.dv)
 				} else {
 					p0 := h.point(1, inFontUnits, i)
 					p1 := h.point(0, inFontUnits, h.gs.rp[0])
+					if p0 == nil || p1 == nil {
+						return errors.New("truetype: hinting: point out of range")
+					}
 					oldDist = dotProduct(p0.X-p1.X, p0.Y-p1.Y, h.gs.dv)
 					oldDist = h.font.scale(h.scale * oldDist)
 				}
-- 
2.43.0


From 2b7ef4b1e5e687de7ad412058f80e292c925d1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:09 +0000
Subject: [PATCH 19/40] fix: truetype: reject zones that do not exist

---
 truetype/hint.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/truetype/hint.go b/truetype/hint.go
index dc33836..0e0bddb 100644
--- a/truetype/hint.go
+++ b/truetype/hint.go
@@ -331,10 +331,16 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 
 		case opSZP0, opSZP1, opSZP2:
 			top--
+			if h.stack[top] < 0 || numZone <= h.stack[top] {
+				return errors.New("truetype: hinting: invalid data")
+			}
 			h.gs.zp[opcode-opSZP0] = h.stack[top]
 
 		case opSZPS:
 			top--
+			if h.stack[top] < 0 || numZone <= h.stack[top] {
+				return errors.New("truetype: hinting: invalid data")
+			}
 			h.gs.zp[0] = h.stack[top]
 			h.gs.zp[1] = h.stack[top]
 			h.gs.zp[2] = h.stack[top]
-- 
2.43.0


From 7fc5507124a61d81573e4456242f3d9429e42eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:11 +0000
Subject: [PATCH 20/40] fix: truetype: check the delta shift and the number of
 delta exceptions

---
 truetype/hint.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/truetype/hint.go b/truetype/hint.go
index 0e0bddb..cf82a7f 100644
--- a/truetype/hint.go
+++ b/truetype/hint.go
@@ -924,6 +924,9 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 
 		case opSDS:
 			top--
+			if h.stack[top] < 0 || 6 < h.stack[top] {
+				return errors.New("truetype: hinting: invalid data")
+			}
 			h.gs.deltaShift = h.stack[top]
 
 		case opADD:
@@ -1389,7 +1392,7 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 			}
 			top--
 			n := h.stack[top]
-			if int32(top) < 2*n {
+			if n > int32(top)/2 {
 				return errors.New("truetype: hinting: stack underflow")
 			}
 			for ; n > 0; n-- {
-- 
2.43.0


From 6af3c7c2a9e8ade1602a305b726c5a9514dc7778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:13 +0000
Subject: [PATCH 21/40] fix: truetype: allow perpendicular projection and
 freedom vectors

---
 truetype/hint.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/truetype/hint.go b/truetype/hint.go
index cf82a7f..7557936 100644
--- a/truetype/hint.go
+++ b/truetype/hint.go
@@ -1503,6 +1503,11 @@ func (h *hinter) move(p *Point, distance fixed.Int26_6, touch bool) {
 	}
 
 	fvDotPv := (fvx*pvx + fvy*pvy) >> 14
+	if -0x400 < fvDotPv && fvDotPv < 0x400 {
+		// The vectors are (almost) perpendicular. Like the C Freetype code, avoid
+		// a division by zero and enormous distances.
+		fvDotPv = 0x4000
+	}
 
 	if fvx != 0 {
 		p.X += fixed.Int26_6(mulDiv(fvx, int64(distance), fvDotPv))
-- 
2.43.0


From 5435040898395550bb86eebb351a9bc01f243015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:15 +0000
Subject: [PATCH 22/40] fix: truetype: ignore an attempt to set a vector to
 zero

---
 truetype/hint.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/truetype/hint.go b/truetype/hint.go
index 7557936..49e95a7 100644
--- a/truetype/hint.go
+++ b/truetype/hint.go
@@ -250,12 +250,19 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 
 		case opSPVFS:
 			top -= 2
-			h.gs.pv = normalize(f2dot14(h.stack[top]), f2dot14(h.stack[top+1]))
-			h.gs.dv = h.gs.pv
+			x, y := f2dot14(h.stack[top]), f2dot14(h.stack[top+1])
+			// Like the C Freetype code, ignore a vector without a direction.
+			if x != 0 || y != 0 {
+				h.gs.pv = normalize(x, y)
+				h.gs.dv = h.gs.pv
+			}
 
 		case opSFVFS:
 			top -= 2
-			h.gs.fv = normalize(f2dot14(h.stack[top]), f2dot14(h.stack[top+1]))
+			x, y := f2dot14(h.stack[top]), f2dot14(h.stack[top+1])
+			if x != 0 || y != 0 {
+				h.gs.fv = normalize(x, y)
+			}
 
 		case opGPV:
 			if top+1 >= len(h.stack) {
-- 
2.43.0


From 9fe55e9de84c5794a71790c3ddcffd3d8a52710a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:17 +0000
Subject: [PATCH 23/40] fix: truetype: make LOOPCALL with a negative count call
 nothing

---
 truetype/hint.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/truetype/hint.go b/truetype/hint.go
index 49e95a7..355019e 100644
--- a/truetype/hint.go
+++ b/truetype/hint.go
@@ -468,7 +468,7 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 			callStack[callStackTop] = callStackEntry{program, pc, 1}
 			if opcode == opLOOPCALL {
 				top--
-				if h.stack[top] == 0 {
+				if h.stack[top] <= 0 {
 					break
 				}
 				callStack[callStackTop].loopCount = h.stack[top]
-- 
2.43.0


From b523cc79dd56134d028e146197cf75a1555fdf6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:19 +0000
Subject: [PATCH 24/40] fix: truetype: take the points of SPVTL and SFVTL from
 zp1 and zp2

---
 truetype/hint.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/truetype/hint.go b/truetype/hint.go
index 355019e..5c7062e 100644
--- a/truetype/hint.go
+++ b/truetype/hint.go
@@ -227,8 +227,8 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 
 		case opSPVTL0, opSPVTL1, opSFVTL0, opSFVTL1:
 			top -= 2
-			p1 := h.point(0, current, h.stack[top+0])
-			p2 := h.point(0, current, h.stack[top+1])
+			p1 := h.point(1, current, h.stack[top+0])
+			p2 := h.point(2, current, h.stack[top+1])
 			if p1 == nil || p2 == nil {
 				return errors.New("truetype: hinting: point out of range")
 			}
-- 
2.43.0


From cd30dbb682d740a39d8bd611872baa350846bd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:21 +0000
Subject: [PATCH 25/40] fix: truetype: keep all the bits of a line that a
 vector is set to

---
 truetype/hint.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/truetype/hint.go b/truetype/hint.go
index 5c7062e..9676aa8 100644
--- a/truetype/hint.go
+++ b/truetype/hint.go
@@ -232,15 +232,15 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 			if p1 == nil || p2 == nil {
 				return errors.New("truetype: hinting: point out of range")
 			}
-			dx := f2dot14(p1.X - p2.X)
-			dy := f2dot14(p1.Y - p2.Y)
+			dx := p1.X - p2.X
+			dy := p1.Y - p2.Y
 			if dx == 0 && dy == 0 {
 				dx = 0x4000
 			} else if opcode&1 != 0 {
 				// Counter-clockwise rotation.
 				dx, dy = -dy, dx
 			}
-			v := normalize(dx, dy)
+			v := normalizeLine(dx, dy)
 			if opcode < opSFVTL0 {
 				h.gs.pv = v
 				h.gs.dv = v
@@ -1094,8 +1094,8 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 				if p == nil || q == nil {
 					return errors.New("truetype: hinting: point out of range")
 				}
-				dx := f2dot14(p.X - q.X)
-				dy := f2dot14(p.Y - q.Y)
+				dx := p.X - q.X
+				dy := p.Y - q.Y
 				if dx == 0 && dy == 0 {
 					dx = 0x4000
 				} else if opcode&1 != 0 {
@@ -1103,9 +1103,9 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 					dx, dy = -dy, dx
 				}
 				if i == 0 {
-					h.gs.dv = normalize(dx, dy)
+					h.gs.dv = normalizeLine(dx, dy)
 				} else {
-					h.gs.pv = normalize(dx, dy)
+					h.gs.pv = normalizeLine(dx, dy)
 				}
 			}
 
@@ -1692,6 +1692,11 @@ func skipInstructionPayload(program []byte, pc int) (newPC int, ok bool) {
 type f2dot14 int16
 
 func normalize(x, y f2dot14) [2]f2dot14 {
+	return normalizeLine(fixed.Int26_6(x), fixed.Int26_6(y))
+}
+
+// normalizeLine is like normalize, for a vector between two points.
+func normalizeLine(x, y fixed.Int26_6) [2]f2dot14 {
 	fx, fy := float64(x), float64(y)
 	l := 0x4000 / math.Hypot(fx, fy)
 	fx *= l
-- 
2.43.0


From 25f004bab84c5ccadc2ebf856081b19c446a77df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:23 +0000
Subject: [PATCH 26/40] fix: truetype: untouch a point only in the freedom
 vector's directions

---
 truetype/hint.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/truetype/hint.go b/truetype/hint.go
index 9676aa8..49e3c27 100644
--- a/truetype/hint.go
+++ b/truetype/hint.go
@@ -454,7 +454,12 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 			if p == nil {
 				return errors.New("truetype: hinting: point out of range")
 			}
-			p.Flags &^= flagTouchedX | flagTouchedY
+			if h.gs.fv[0] != 0 {
+				p.Flags &^= flagTouchedX
+			}
+			if h.gs.fv[1] != 0 {
+				p.Flags &^= flagTouchedY
+			}
 
 		case opLOOPCALL, opCALL:
 			if callStackTop >= len(callStack) {
-- 
2.43.0


From e38ba50d6ea598b86fdec584fa2b1286452ccc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:25 +0000
Subject: [PATCH 27/40] fix: truetype: measure SHPIX's distance along the
 freedom vector

---
 truetype/hint.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/truetype/hint.go b/truetype/hint.go
index 49e3c27..f0607fb 100644
--- a/truetype/hint.go
+++ b/truetype/hint.go
@@ -645,7 +645,16 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 				if p == nil {
 					return errors.New("truetype: hinting: point out of range")
 				}
-				h.move(p, d, true)
+				// Unlike other instructions, SHPIX measures its distance along
+				// the freedom vector.
+				if fvx := int64(h.gs.fv[0]); fvx != 0 {
+					p.X += fixed.Int26_6(mulDiv(int64(d), fvx, 0x4000))
+					p.Flags |= flagTouchedX
+				}
+				if fvy := int64(h.gs.fv[1]); fvy != 0 {
+					p.Y += fixed.Int26_6(mulDiv(int64(d), fvy, 0x4000))
+					p.Flags |= flagTouchedY
+				}
 			}
 			h.gs.loop = 1
 
-- 
2.43.0


From 1754bd732485a76c59c1b2ccd69fe3dd01d9ca54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:27 +0000
Subject: [PATCH 28/40] fix: truetype: set rp1 to the old rp0 in MSIRP

---
 truetype/hint.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/truetype/hint.go b/truetype/hint.go
index f0607fb..7d6a6bc 100644
--- a/truetype/hint.go
+++ b/truetype/hint.go
@@ -719,11 +719,11 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 			curDist := dotProduct(p.X-ref.X, p.Y-ref.Y, h.gs.pv)
 
 			// Set-RP0 bit.
+			h.gs.rp[1] = h.gs.rp[0]
+			h.gs.rp[2] = i
 			if opcode == opMSIRP1 {
 				h.gs.rp[0] = i
 			}
-			h.gs.rp[1] = h.gs.rp[0]
-			h.gs.rp[2] = i
 
 			// Move the point.
 			h.move(p, distance-curDist, true)
-- 
2.43.0


From ae60a54d92a3cb94c1e0832e073da8c50733145c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:00 +0000
Subject: [PATCH 29/40] fix: truetype: do not scale a compound glyph's original
 distances twice when hinting

---
 truetype/glyph.go |  5 ++++-
 truetype/hint.go  | 10 ++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/truetype/glyph.go b/truetype/glyph.go
index af234ac..b734a8e 100644
--- a/truetype/glyph.go
+++ b/truetype/glyph.go
@@ -578,7 +578,10 @@ func (g *GlyphBuf) loadCompound(recursion uint32, uhm HMetric, i Index,
 	// Hinting instructions of a composite glyph completely refer to the
 	// (already) hinted subglyphs.
 	g.tmp = append(g.tmp[:0], points...)
-	if err := g.hinter.run(program, points, g.tmp, g.tmp, ends); err != nil {
+	g.hinter.compound = true
+	err := g.hinter.run(program, points, g.tmp, g.tmp, ends)
+	g.hinter.compound = false
+	if err != nil {
 		return err
 	}
 	if np0 != 0 {
diff --git a/truetype/hint.go b/truetype/hint.go
index 7d6a6bc..acdaa10 100644
--- a/truetype/hint.go
+++ b/truetype/hint.go
@@ -61,6 +61,10 @@ type hinter struct {
 	points [numZone][numPointType][]Point
 	ends   []int
 
+	// compound is whether the glyph's inFontUnits points are already scaled, as
+	// a compound glyph's are: they are those of its (already hinted) sub-glyphs.
+	compound bool
+
 	// scaledCVT is the lazily initialized scaled Control Value Table.
 	scaledCVTInitialized bool
 	scaledCVT            []fixed.Int26_6
@@ -868,7 +872,7 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 				return errors.New("truetype: hinting: point out of range")
 			}
 			d := int32(dotProduct(p.X-q.X, p.Y-q.Y, v))
-			if scale {
+			if scale && !h.compound {
 				d = int32(int64(d*int32(h.scale)) / int64(h.font.fUnitsPerEm))
 			}
 			h.stack[top-1] = d
@@ -1213,7 +1217,9 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 						return errors.New("truetype: hinting: point out of range")
 					}
 					oldDist = dotProduct(p0.X-p1.X, p0.Y-p1.Y, h.gs.dv)
-					oldDist = h.font.scale(h.scale * oldDist)
+					if !h.compound {
+						oldDist = h.font.scale(h.scale * oldDist)
+					}
 				}
 
 				// Single-width cut-in test.
-- 
2.43.0


From b0ae28cbd2ffc315d44e631a3a7f2ae5671498bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:02 +0000
Subject: [PATCH 30/40] fix: truetype: start each glyph's program from the
 state its font and size define

---
 truetype/hint.go | 123 +++++++++++++++++++++++++++++------------------
 1 file changed, 77 insertions(+), 46 deletions(-)

diff --git a/truetype/hint.go b/truetype/hint.go
index acdaa10..31c778e 100644
--- a/truetype/hint.go
+++ b/truetype/hint.go
@@ -68,6 +68,10 @@ type hinter struct {
 	// scaledCVT is the lazily initialized scaled Control Value Table.
 	scaledCVTInitialized bool
 	scaledCVT            []fixed.Int26_6
+
+	// size is the state after the font's fpgm and prep programs have been run.
+	// Every glyph's program starts from it.
+	size sizeState
 }
 
 // graphicsState is described at https://developer.apple.com/fonts/TTRefMan/RM04/Chap4.html
@@ -107,6 +111,14 @@ var globalDefaultGS = graphicsState{
 	autoFlip:          true,
 }
 
+// sizeState is what a hinter's font and size programs leave behind, other than
+// the default graphics state.
+type sizeState struct {
+	twilight  [numPointType][]Point
+	store     []int32
+	scaledCVT []fixed.Int26_6
+}
+
 func resetTwilightPoints(f *Font, p []Point) []Point {
 	if n := int(f.maxTwilightPoints) + 4; n <= cap(p) {
 		p = p[:n]
@@ -120,62 +132,77 @@ func resetTwilightPoints(f *Font, p []Point) []Point {
 }
 
 func (h *hinter) init(f *Font, scale fixed.Int26_6) error {
-	h.points[twilightZone][0] = resetTwilightPoints(f, h.points[twilightZone][0])
-	h.points[twilightZone][1] = resetTwilightPoints(f, h.points[twilightZone][1])
-	h.points[twilightZone][2] = resetTwilightPoints(f, h.points[twilightZone][2])
-
-	rescale := h.scale != scale
-	if h.font != f {
-		h.font, rescale = f, true
-		if h.functions == nil {
-			h.functions = make(map[int32][]byte)
-		} else {
-			for k := range h.functions {
-				delete(h.functions, k)
-			}
+	if h.font != f || h.scale != scale {
+		// Until the programs below have run, there is nothing to re-use.
+		h.font = nil
+		if err := h.initSize(f, scale); err != nil {
+			h.font = nil
+			return err
 		}
+		return nil
+	}
 
-		if x := int(f.maxStackElements); x > len(h.stack) {
-			x += 255
-			x &^= 255
-			h.stack = make([]int32, x)
-		}
-		if x := int(f.maxStorage); x > len(h.store) {
-			x += 15
-			x &^= 15
-			h.store = make([]int32, x)
+	// A previous glyph's program may have changed these.
+	for i := range h.size.twilight {
+		copy(h.points[twilightZone][i], h.size.twilight[i])
+	}
+	copy(h.store, h.size.store)
+	copy(h.scaledCVT, h.size.scaledCVT)
+	return nil
+}
+
+// initSize runs f's fpgm and prep programs.
+func (h *hinter) initSize(f *Font, scale fixed.Int26_6) error {
+	h.font, h.scale = f, scale
+	for i := range h.points[twilightZone] {
+		h.points[twilightZone][i] = resetTwilightPoints(f, h.points[twilightZone][i])
+	}
+	h.functions = make(map[int32][]byte)
+	h.stack = resetInt32s(h.stack, (int(f.maxStackElements)+255)&^255)
+	h.store = resetInt32s(h.store, (int(f.maxStorage)+15)&^15)
+	h.initializeScaledCVT()
+
+	h.defaultGS = globalDefaultGS
+	if len(f.fpgm) != 0 {
+		if err := h.run(f.fpgm, nil, nil, nil, nil); err != nil {
+			return err
 		}
-		if len(f.fpgm) != 0 {
-			if err := h.run(f.fpgm, nil, nil, nil, nil); err != nil {
-				return err
-			}
+	}
+	if len(f.prep) != 0 {
+		if err := h.run(f.prep, nil, nil, nil, nil); err != nil {
+			return err
 		}
+		h.defaultGS = h.gs
+		// The MS rasterizer doesn't allow the following graphics state
+		// variables to be modified by the CVT program.
+		h.defaultGS.pv = globalDefaultGS.pv
+		h.defaultGS.fv = globalDefaultGS.fv
+		h.defaultGS.dv = globalDefaultGS.dv
+		h.defaultGS.rp = globalDefaultGS.rp
+		h.defaultGS.zp = globalDefaultGS.zp
+		h.defaultGS.loop = globalDefaultGS.loop
 	}
 
-	if rescale {
-		h.scale = scale
-		h.scaledCVTInitialized = false
-
-		h.defaultGS = globalDefaultGS
-
-		if len(f.prep) != 0 {
-			if err := h.run(f.prep, nil, nil, nil, nil); err != nil {
-				return err
-			}
-			h.defaultGS = h.gs
-			// The MS rasterizer doesn't allow the following graphics state
-			// variables to be modified by the CVT program.
-			h.defaultGS.pv = globalDefaultGS.pv
-			h.defaultGS.fv = globalDefaultGS.fv
-			h.defaultGS.dv = globalDefaultGS.dv
-			h.defaultGS.rp = globalDefaultGS.rp
-			h.defaultGS.zp = globalDefaultGS.zp
-			h.defaultGS.loop = globalDefaultGS.loop
-		}
+	for i := range h.size.twilight {
+		h.size.twilight[i] = append(h.size.twilight[i][:0], h.points[twilightZone][i]...)
 	}
+	h.size.store = append(h.size.store[:0], h.store...)
+	h.size.scaledCVT = append(h.size.scaledCVT[:0], h.scaledCVT...)
 	return nil
 }
 
+// resetInt32s returns n zeroes, re-using s if possible.
+func resetInt32s(s []int32, n int) []int32 {
+	if n > cap(s) {
+		return make([]int32, n)
+	}
+	s = s[:n]
+	for i := range s {
+		s[i] = 0
+	}
+	return s
+}
+
 func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point, ends []int) error {
 	h.gs = h.defaultGS
 	h.points[glyphZone][current] = pCurrent
@@ -487,6 +514,10 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 			continue
 
 		case opFDEF:
+			if pCurrent != nil {
+				// The functions are the font's, not the glyph's.
+				return errors.New("truetype: hinting: FDEF in a glyph's program")
+			}
 			// Save all bytecode up until the next ENDF.
 			startPC := pc + 1
 		fdefloop:
-- 
2.43.0


From f60433a2391aa05e56ed1e5cf8c0a31a55c71561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:11 +0000
Subject: [PATCH 31/40] fix: freetype: draw the right part of a glyph that the
 clip rectangle cuts on its left

---
 freetype.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freetype.go b/freetype.go
index 9603586..c534d8e 100644
--- a/freetype.go
+++ b/freetype.go
@@ -249,7 +249,7 @@ func (c *Context) DrawString(s string, p fixed.Point26_6) (fixed.Point26_6, erro
 		glyphRect := mask.Bounds().Add(offset)
 		dr := c.clip.Intersect(glyphRect)
 		if !dr.Empty() {
-			mp := image.Point{0, dr.Min.Y - glyphRect.Min.Y}
+			mp := dr.Min.Sub(glyphRect.Min)
 			draw.DrawMask(c.dst, dr, c.src, image.ZP, mask, mp, draw.Over)
 		}
 		prev, hasPrev = index, true
-- 
2.43.0


From c1f6e2fe6494244efdefbecf09bf1cf7f3422b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:14 +0000
Subject: [PATCH 32/40] fix: truetype: make a face use its SubPixelsY option

---
 truetype/face.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/truetype/face.go b/truetype/face.go
index 099006f..ae9a9cb 100644
--- a/truetype/face.go
+++ b/truetype/face.go
@@ -117,9 +117,9 @@ func (o *Options) subPixelsX() (value uint32, halfQuantum, mask fixed.Int26_6) {
 
 func (o *Options) subPixelsY() (value uint32, halfQuantum, mask fixed.Int26_6) {
 	if o != nil {
-		switch o.SubPixelsX {
+		switch o.SubPixelsY {
 		case 1, 2, 4, 8, 16, 32, 64:
-			return subPixels(o.SubPixelsX)
+			return subPixels(o.SubPixelsY)
 		}
 	}
 	// This default value of 1 isn't based on anything scientific, merely that
-- 
2.43.0


From 69b4293090ce0be4ec6541dcc9187efe1e2ca554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:49 +0000
Subject: [PATCH 33/40] fix: freetype: do not cut off a glyph larger than the
 font's bounding box

---
 freetype.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/freetype.go b/freetype.go
index c534d8e..c787ae3 100644
--- a/freetype.go
+++ b/freetype.go
@@ -71,6 +71,9 @@ type Context struct {
 	fontSize, dpi float64
 	scale         fixed.Int26_6
 	hinting       font.Hinting
+	// maxw and maxh are the rasterizer's bounds, the size in pixels of the
+	// font's bounding box.
+	maxw, maxh int
 	// cache is the glyph cache.
 	cache [nGlyphs * nXFractions * nYFractions]cacheEntry
 }
@@ -172,6 +175,7 @@ func (c *Context) rasterize(glyph truetype.Index, fx, fy fixed.Int26_6) (
 	if xmin > xmax || ymin > ymax {
 		return 0, nil, image.Point{}, errors.New("freetype: negative sized glyph")
 	}
+	w, h := xmax-xmin, ymax-ymin
 	// A TrueType's glyph's nodes can have negative co-ordinates, but the
 	// rasterizer clips anything left of x=0 or above y=0. xmin and ymin are
 	// the pixel offsets, based on the font's FUnit metrics, that let a
@@ -179,14 +183,19 @@ func (c *Context) rasterize(glyph truetype.Index, fx, fy fixed.Int26_6) (
 	// space. xmin and ymin are typically <= 0.
 	fx -= fixed.Int26_6(xmin << 6)
 	fy -= fixed.Int26_6(ymin << 6)
-	// Rasterize the glyph's vectors.
+	// Rasterize the glyph's vectors. The sub-pixel offset, hinting or incorrect
+	// font metrics can make the glyph larger than the font's bounding box.
+	if w > c.maxw || h > c.maxh {
+		c.r.SetBounds(w, h)
+		defer c.r.SetBounds(c.maxw, c.maxh)
+	}
 	c.r.Clear()
 	e0 := 0
 	for _, e1 := range c.glyphBuf.Ends {
 		c.drawContour(c.glyphBuf.Points[e0:e1], fx, fy)
 		e0 = e1
 	}
-	a := image.NewAlpha(image.Rect(0, 0, xmax-xmin, ymax-ymin))
+	a := image.NewAlpha(image.Rect(0, 0, w, h))
 	c.r.Rasterize(raster.NewAlphaSrcPainter(a))
 	return c.glyphBuf.AdvanceWidth, a, image.Point{xmin, ymin}, nil
 }
@@ -262,7 +271,7 @@ func (c *Context) DrawString(s string, p fixed.Point26_6) (fixed.Point26_6, erro
 func (c *Context) recalc() {
 	c.scale = fixed.Int26_6(c.fontSize * c.dpi * (64.0 / 72.0))
 	if c.f == nil {
-		c.r.SetBounds(0, 0)
+		c.maxw, c.maxh = 0, 0
 	} else {
 		// Set the rasterizer's bounds to be big enough to handle the largest glyph.
 		b := c.f.Bounds(c.scale)
@@ -270,8 +279,9 @@ func (c *Context) recalc() {
 		ymin := -int(b.Max.Y) >> 6
 		xmax := +int(b.Max.X+63) >> 6
 		ymax := -int(b.Min.Y-63) >> 6
-		c.r.SetBounds(xmax-xmin, ymax-ymin)
+		c.maxw, c.maxh = xmax-xmin, ymax-ymin
 	}
+	c.r.SetBounds(c.maxw, c.maxh)
 	for i := range c.cache {
 		c.cache[i] = cacheEntry{}
 	}
-- 
2.43.0


From d8c76cc36d5169f5dc8480d5d1c14f461d5b9277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:51 +0000
Subject: [PATCH 34/40] fix: freetype: return an error for a glyph whose mask
 would be too large

---
 freetype.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/freetype.go b/freetype.go
index c787ae3..1644877 100644
--- a/freetype.go
+++ b/freetype.go
@@ -29,6 +29,9 @@ const (
 	nYFractions = 1
 )
 
+// maxGlyphDim is the largest width or height, in pixels, of a glyph's mask.
+const maxGlyphDim = 0x7fff
+
 // An entry in the glyph cache is keyed explicitly by the glyph index and
 // implicitly by the quantized x and y fractional offset. It maps to a mask
 // image and an offset.
@@ -176,6 +179,9 @@ func (c *Context) rasterize(glyph truetype.Index, fx, fy fixed.Int26_6) (
 		return 0, nil, image.Point{}, errors.New("freetype: negative sized glyph")
 	}
 	w, h := xmax-xmin, ymax-ymin
+	if w > maxGlyphDim || h > maxGlyphDim {
+		return 0, nil, image.Point{}, errors.New("freetype: glyph too large")
+	}
 	// A TrueType's glyph's nodes can have negative co-ordinates, but the
 	// rasterizer clips anything left of x=0 or above y=0. xmin and ymin are
 	// the pixel offsets, based on the font's FUnit metrics, that let a
-- 
2.43.0


From 10e2461776ee5726b76920bba8fca65d3a83e784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:53 +0000
Subject: [PATCH 35/40] fix: truetype: do not draw a face's glyph into its
 neighbor's part of the mask image

---
 truetype/face.go | 55 ++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 46 insertions(+), 9 deletions(-)

diff --git a/truetype/face.go b/truetype/face.go
index ae9a9cb..3daa821 100644
--- a/truetype/face.go
+++ b/truetype/face.go
@@ -152,6 +152,14 @@ func subPixels(q int) (value uint32, bias, mask fixed.Int26_6) {
 	return uint32(q), 32 / fixed.Int26_6(q), -64 / fixed.Int26_6(q)
 }
 
+const (
+	// maxMasksSize is the largest size, in bytes, of the mask image that all of
+	// a face's cache entries share.
+	maxMasksSize = 1 << 30
+	// maxGlyphDim is the largest width or height, in pixels, of a glyph's mask.
+	maxGlyphDim = 0x7fff
+)
+
 // glyphCacheEntry caches the arguments and return values of rasterize.
 type glyphCacheEntry struct {
 	key glyphCacheKey
@@ -164,6 +172,9 @@ type glyphCacheKey struct {
 }
 
 type glyphCacheVal struct {
+	// mask is the glyph's own mask image, or nil if the glyph is in its cache
+	// entry's part of face.masks.
+	mask         *image.Alpha
 	advanceWidth fixed.Int26_6
 	offset       image.Point
 	gw           int
@@ -201,8 +212,10 @@ func NewFace(f *Font, opts *Options) font.Face {
 	ymin := -int(b.Max.Y) >> 6
 	xmax := +int(b.Max.X+63) >> 6
 	ymax := -int(b.Min.Y-63) >> 6
-	a.maxw = xmax - xmin
-	a.maxh = ymax - ymin
+	if xmin < xmax && ymin < ymax && int64(xmax-xmin)*int64(ymax-ymin) <= maxMasksSize/int64(len(a.glyphCache)) {
+		a.maxw = xmax - xmin
+		a.maxh = ymax - ymin
+	}
 	a.masks = image.NewAlpha(image.Rect(0, 0, a.maxw, a.maxh*len(a.glyphCache)))
 	a.r.SetBounds(a.maxw, a.maxh)
 	a.p = facePainter{a}
@@ -302,7 +315,10 @@ func (a *face) Glyph(dot fixed.Point26_6, r rune) (
 		if !ok {
 			return image.Rectangle{}, nil, image.Point{}, 0, false
 		}
-		a.glyphCache[cIndex] = glyphCacheEntry{k, v}
+		// A glyph that has its own mask does not use the cache entry.
+		if v.mask == nil {
+			a.glyphCache[cIndex] = glyphCacheEntry{k, v}
+		}
 	} else {
 		v = a.glyphCache[cIndex].val
 	}
@@ -315,6 +331,9 @@ func (a *face) Glyph(dot fixed.Point26_6, r rune) (
 		X: dr.Min.X + v.gw,
 		Y: dr.Min.Y + v.gh,
 	}
+	if v.mask != nil {
+		return dr, v.mask, image.Point{}, v.advanceWidth, true
+	}
 	return dr, a.masks, image.Point{Y: a.paintOffset}, v.advanceWidth, true
 }
 
@@ -371,21 +390,39 @@ func (a *face) rasterize(index Index, fx, fy fixed.Int26_6) (v glyphCacheVal, ok
 	// space. xmin and ymin are typically <= 0.
 	fx -= fixed.Int26_6(xmin << 6)
 	fy -= fixed.Int26_6(ymin << 6)
-	// Rasterize the glyph's vectors.
+	// Rasterize the glyph's vectors. The sub-pixel offset, hinting or incorrect
+	// font metrics can make the glyph larger than the font's bounding box and
+	// hence too large for its part of a.masks.
+	var (
+		w, h = xmax - xmin, ymax - ymin
+		mask *image.Alpha
+		p    = a.p
+	)
+	if w > a.maxw || h > a.maxh {
+		if w > maxGlyphDim || h > maxGlyphDim {
+			return glyphCacheVal{}, false
+		}
+		mask = image.NewAlpha(image.Rect(0, 0, w, h))
+		p = raster.NewAlphaSrcPainter(mask)
+		a.r.SetBounds(w, h)
+		defer a.r.SetBounds(a.maxw, a.maxh)
+	} else {
+		pixOffset := a.paintOffset * a.maxw
+		clear(a.masks.Pix[pixOffset : pixOffset+a.maxw*a.maxh])
+	}
 	a.r.Clear()
-	pixOffset := a.paintOffset * a.maxw
-	clear(a.masks.Pix[pixOffset : pixOffset+a.maxw*a.maxh])
 	e0 := 0
 	for _, e1 := range a.glyphBuf.Ends {
 		a.drawContour(a.glyphBuf.Points[e0:e1], fx, fy)
 		e0 = e1
 	}
-	a.r.Rasterize(a.p)
+	a.r.Rasterize(p)
 	return glyphCacheVal{
+		mask,
 		a.glyphBuf.AdvanceWidth,
 		image.Point{xmin, ymin},
-		xmax - xmin,
-		ymax - ymin,
+		w,
+		h,
 	}, true
 }
 
-- 
2.43.0


From d502213f688c1314a08c5a68a533e646ca2ac9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:53 +0000
Subject: [PATCH 36/40] fix: raster: keep a stroke's normal accurate at the end
 of a short quadratic piece

---
 raster/stroke.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/raster/stroke.go b/raster/stroke.go
index 12cedd5..e1b0837 100644
--- a/raster/stroke.go
+++ b/raster/stroke.go
@@ -250,8 +250,10 @@ type stroker struct {
 }
 
 // addNonCurvy2 adds a quadratic segment to the stroker, where the segment
-// defined by (k.a, b, c) achieves maximum curvature at either k.a or c.
-func (k *stroker) addNonCurvy2(b, c fixed.Point26_6) {
+// defined by (k.a, b, c) achieves maximum curvature at either k.a or c. dir is
+// the segment's direction at c, which c-b is too short to tell accurately if
+// the segment is a small part of another one.
+func (k *stroker) addNonCurvy2(b, c, dir fixed.Point26_6) {
 	// We repeatedly divide the segment at its middle until it is straight
 	// enough to approximate the stroke by just translating the control points.
 	// ds and ps are stacks of depths and points. t is the top of the stack.
@@ -285,7 +287,9 @@ func (k *stroker) addNonCurvy2(b, c fixed.Point26_6) {
 		if abIsSmall && bcIsSmall {
 			// Approximate the segment by a circular arc.
 			cnorm = pRot90CCW(pNorm(bc, k.u))
-			if a == b && b == c {
+			if t == 0 {
+				cnorm = pRot90CCW(pNorm(dir, k.u))
+			} else if a == b && b == c {
 				cnorm = anorm
 			}
 			mac := midpoint(a, c)
@@ -307,6 +311,9 @@ func (k *stroker) addNonCurvy2(b, c fixed.Point26_6) {
 			// Translate the control points.
 			bnorm := pRot90CCW(pNorm(c.Sub(a), k.u))
 			cnorm = pRot90CCW(pNorm(bc, k.u))
+			if t == 0 {
+				cnorm = pRot90CCW(pNorm(dir, k.u))
+			}
 			k.p.Add2(b.Add(bnorm), c.Add(cnorm))
 			k.r.Add2(b.Sub(bnorm), c.Sub(cnorm))
 		}
@@ -362,7 +369,7 @@ func (k *stroker) Add2(b, c fixed.Point26_6) {
 	// If this occurs at an end point, we process the segment as a whole.
 	t := curviest2(k.a, b, c)
 	if t <= 0 || 4096 <= t {
-		k.addNonCurvy2(b, c)
+		k.addNonCurvy2(b, c, bc)
 		return
 	}
 
@@ -402,8 +409,8 @@ func (k *stroker) Add2(b, c fixed.Point26_6) {
 	}
 
 	// Process the decomposed parts.
-	k.addNonCurvy2(mab, mabc)
-	k.addNonCurvy2(mbc, c)
+	k.addNonCurvy2(mab, mabc, mbc.Sub(mab))
+	k.addNonCurvy2(mbc, c, bc)
 }
 
 // Add3 adds a cubic segment to the stroker.
-- 
2.43.0


From abe6be1bbc0aecc7cb3f597ffa4a6cc7fe331e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:55 +0000
Subject: [PATCH 37/40] fix: truetype: do not take a glyph's overlap flag for a
 touched point

---
 truetype/glyph.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/truetype/glyph.go b/truetype/glyph.go
index b734a8e..c545e1a 100644
--- a/truetype/glyph.go
+++ b/truetype/glyph.go
@@ -361,7 +361,8 @@ func (g *GlyphBuf) loadSimple(glyf []byte, ne int) (program []byte, err error) {
 		if offset >= len(glyf) {
 			return nil, errGlyphTooShort
 		}
-		c := uint32(glyf[offset])
+		// The high bits are not for internal use yet.
+		c := uint32(glyf[offset]) &^ (flagTouchedX | flagTouchedY)
 		offset++
 		g.Points = append(g.Points, Point{Flags: c})
 		i++
-- 
2.43.0


From 5ef535e87b5cc05b4e7b09c98d1381b30a87f12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:51 +0000
Subject: [PATCH 38/40] fix: truetype: run a compound glyph's program only if
 the glyph says it has one

---
 truetype/glyph.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/truetype/glyph.go b/truetype/glyph.go
index c545e1a..77046f2 100644
--- a/truetype/glyph.go
+++ b/truetype/glyph.go
@@ -453,6 +453,7 @@ func (g *GlyphBuf) loadCompound(recursion uint32, uhm HMetric, i Index,
 	)
 	np0, ne0 := len(g.Points), len(g.Ends)
 	offset := loadOffset
+	haveInstructions := false
 	for {
 		if offset+4 > len(glyf) {
 			return errGlyphTooShort
@@ -541,12 +542,13 @@ func (g *GlyphBuf) loadCompound(recursion uint32, uhm HMetric, i Index,
 		}
 		// TODO: also adjust g.InFontUnits and g.Unhinted?
 		if flags&flagMoreComponents == 0 {
+			haveInstructions = flags&flagWeHaveInstructions != 0
 			break
 		}
 	}
 
 	instrLen := 0
-	if g.hinting != font.HintingNone && offset+2 <= len(glyf) {
+	if g.hinting != font.HintingNone && haveInstructions && offset+2 <= len(glyf) {
 		instrLen = int(u16(glyf, offset))
 		offset += 2
 	}
-- 
2.43.0


From ec11f368bc789b84aa1968a4c63dfec107ab42af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:00 +0000
Subject: [PATCH 39/40] fix: truetype: use a nested component's metrics for the
 compound glyph that asks for them

---
 truetype/glyph.go | 35 +++++++++++++++--------------------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/truetype/glyph.go b/truetype/glyph.go
index 77046f2..5391669 100644
--- a/truetype/glyph.go
+++ b/truetype/glyph.go
@@ -102,7 +102,7 @@ func (g *GlyphBuf) Load(f *Font, scale fixed.Int26_6, i Index, h font.Hinting) e
 			return err
 		}
 	}
-	if err := g.load(0, i, true); err != nil {
+	if err := g.load(0, i); err != nil {
 		return err
 	}
 	// TODO: this selection of either g.pp1x or g.phantomPoints[0].X isn't ideal,
@@ -173,7 +173,7 @@ func (g *GlyphBuf) Load(f *Font, scale fixed.Int26_6, i Index, h font.Hinting) e
 	return nil
 }
 
-func (g *GlyphBuf) load(recursion uint32, i Index, useMyMetrics bool) (err error) {
+func (g *GlyphBuf) load(recursion uint32, i Index) (err error) {
 	// The recursion limit here is arbitrary, but defends against malformed glyphs.
 	if recursion >= 32 {
 		return UnsupportedError("excessive compound glyph recursion")
@@ -231,13 +231,9 @@ func (g *GlyphBuf) load(recursion uint32, i Index, useMyMetrics bool) (err error
 	if len(glyf) == 0 {
 		g.addPhantomsAndScale(len(g.Points), len(g.Points), true, true)
 		pp1x = g.Points[len(g.Points)-4].X
-		if useMyMetrics {
-			copy(g.phantomPoints[:], g.Points[len(g.Points)-4:])
-			if !g.metricsSet {
-				g.metricsSet = true
-				g.pp1x = pp1x
-			}
-		}
+		copy(g.phantomPoints[:], g.Points[len(g.Points)-4:])
+		g.metricsSet = true
+		g.pp1x = pp1x
 		// Drop the four phantom points.
 		g.Points = g.Points[:len(g.Points)-4]
 		if g.hinting != font.HintingNone {
@@ -262,7 +258,7 @@ func (g *GlyphBuf) load(recursion uint32, i Index, useMyMetrics bool) (err error
 			p.Y = g.font.scale(g.scale * p.Y)
 		}
 		pp1x = g.phantomPoints[0].X
-		if err := g.loadCompound(recursion, uhm, i, glyf, useMyMetrics); err != nil {
+		if err := g.loadCompound(recursion, uhm, i, glyf); err != nil {
 			return err
 		}
 	} else {
@@ -290,9 +286,7 @@ func (g *GlyphBuf) load(recursion uint32, i Index, useMyMetrics bool) (err error
 			g.InFontUnits = g.InFontUnits[:len(g.InFontUnits)-4]
 			g.Unhinted = g.Unhinted[:len(g.Unhinted)-4]
 		}
-		if useMyMetrics {
-			copy(g.phantomPoints[:], g.Points[len(g.Points)-4:])
-		}
+		copy(g.phantomPoints[:], g.Points[len(g.Points)-4:])
 		g.Points = g.Points[:len(g.Points)-4]
 		if np0 != 0 {
 			// The hinting program expects the []Ends values to be indexed
@@ -303,7 +297,7 @@ func (g *GlyphBuf) load(recursion uint32, i Index, useMyMetrics bool) (err error
 			}
 		}
 	}
-	if useMyMetrics && !g.metricsSet {
+	if !g.metricsSet {
 		g.metricsSet = true
 		g.pp1x = pp1x
 	}
@@ -434,7 +428,7 @@ func (g *GlyphBuf) loadSimple(glyf []byte, ne int) (program []byte, err error) {
 }
 
 func (g *GlyphBuf) loadCompound(recursion uint32, uhm HMetric, i Index,
-	glyf []byte, useMyMetrics bool) error {
+	glyf []byte) error {
 
 	// Flags for decoding a compound glyph. These flags are documented at
 	// http://developer.apple.com/fonts/TTRefMan/RM06/Chap6glyf.html.
@@ -508,14 +502,15 @@ func (g *GlyphBuf) loadCompound(recursion uint32, uhm HMetric, i Index,
 				offset += 8
 			}
 		}
-		savedPP := g.phantomPoints
+		savedPP, savedPP1x, savedMetricsSet := g.phantomPoints, g.pp1x, g.metricsSet
 		np0 := len(g.Points)
-		componentUMM := useMyMetrics && (flags&flagUseMyMetrics != 0)
-		if err := g.load(recursion+1, component, componentUMM); err != nil {
+		// The component is the same, whether or not its metrics are used.
+		g.metricsSet = false
+		if err := g.load(recursion+1, component); err != nil {
 			return err
 		}
-		if !componentUMM {
-			g.phantomPoints = savedPP
+		if flags&flagUseMyMetrics == 0 {
+			g.phantomPoints, g.pp1x, g.metricsSet = savedPP, savedPP1x, savedMetricsSet
 		}
 		if hasTransform {
 			for j := np0; j < len(g.Points); j++ {
-- 
2.43.0


From ea2c14c07ef9cd10cd4059e608da81c83a45b4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:40 +0000
Subject: [PATCH 40/40] fix: freetype: a clip rectangle that cut the left or
 top of a glyph shifted a non-uniform source under it

---
 freetype.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freetype.go b/freetype.go
index 1644877..555125e 100644
--- a/freetype.go
+++ b/freetype.go
@@ -265,7 +265,7 @@ func (c *Context) DrawString(s string, p fixed.Point26_6) (fixed.Point26_6, erro
 		dr := c.clip.Intersect(glyphRect)
 		if !dr.Empty() {
 			mp := dr.Min.Sub(glyphRect.Min)
-			draw.DrawMask(c.dst, dr, c.src, image.ZP, mask, mp, draw.Over)
+			draw.DrawMask(c.dst, dr, c.src, mp, mask, mp, draw.Over)
 		}
 		prev, hasPrev = index, true
 	}
-- 
2.43.0

