package main

import (
	"encoding/json"
	"fmt"
	"image"

	"github.com/golang/freetype/truetype"
	"golang.org/x/image/font"
	"golang.org/x/image/math/fixed"
)

// This file drives faces.

// textFont makes a font for drawing text: glyphs of all kinds, some of which
// cannot be loaded or are larger than the font's bounding box, and characters
// that share a place in the caches.  Characters 65, 66, ... are glyphs 0, 1,
// ..., characters 321, 322, ... are glyphs 1, 2, ..., 0.
func textFont(r *rng) *fontDesc {
	var d *fontDesc
	switch r.n(8) {
	case 0, 1, 2:
		d = randFont(r, "plain")
	case 3:
		d = envFont(r)
	case 4:
		d = subset(realFont(realNames[r.n(3)]), []int{r.n(200), r.n(200), r.n(200)})
	case 5:
		d = hintedFont(r, 0)
	default:
		d = boxFont(r)
	}
	if r.p(1, 3) { // A glyph that cannot be loaded.
		i := len(d.lsb)
		d.lsb = append(d.lsb, 0)
		g := compoundGlyph(r, [4]int{0, 0, 500, 500}, []component{{glyph: i}, {glyph: r.n(i)}}, nil)
		if r.p(1, 2) { // Too short.
			g = simpleGlyph(r, [][]gpt{{{0, 0, true}, {300, 0, true}, {0, 300, true}}}, nil)[:r.in(12, 16)]
		}
		d.glyphs = append(d.glyphs, g)
	}
	if r.p(1, 3) { // Smaller than the glyphs.
		for i := range d.bbox {
			d.bbox[i] /= r.pick(2, 3, 1000)
		}
	}
	d.cmap = textCmap(len(d.lsb))
	if r.p(2, 3) {
		d.kern = randKern(r, len(d.lsb), 20)
	}
	d.ttc, d.shuffle = 0, 0
	return d
}

func textCmap(n int) []byte {
	ids := make([]int, n)
	for i := range ids {
		ids[i] = (i + 1) % n
	}
	segs := []cseg{
		{start: 65, end: 64 + n, delta: -65},
		{start: 321, end: 320 + n, glyphs: ids},
		{start: 0xffff, end: 0xffff, delta: 1},
	}
	return cmapTable([][3]int{{3, 1, 0}}, [][]byte{cmapFormat4(segs)})
}

// boxFont makes a font of simple shapes, each of its own place and size.
func boxFont(r *rng) *fontDesc {
	d := &fontDesc{upem: r.pick(1000, 2048, 512), asc: r.in(500, 1200), desc: r.in(-400, 0), align: 2, maxStack: 64, maxStorage: 8, maxTwilight: 4, maxFuncs: 8}
	n := r.in(2, 6)
	for i := 0; i < n; i++ {
		x, y := r.in(-d.upem/3, d.upem/2), r.in(-d.upem/3, d.upem/2)
		w, h := r.in(1, d.upem/2), r.in(1, d.upem/2)
		on := !r.p(1, 4)
		cs := [][]gpt{{{x, y, on}, {x + w, y, r.p(3, 4)}, {x + w, y + h, true}, {x, y + h, on}}}
		if r.p(1, 3) {
			cs = append(cs, []gpt{{x + w/4, y + h/4, true}, {x + w/4, y + h/2, false}, {x + w/2, y + h/2, true}, {x + w/2, y + h/4, on}})
		}
		var prog []byte
		if r.p(1, 3) {
			prog = []byte{0xb0, byte(r.n(4)), 0x2f, 0x30, 0x31} // MDAP, IUP
		}
		d.glyphs = append(d.glyphs, simpleGlyph(r, cs, prog))
		d.lsb = append(d.lsb, r.pick(x, x, r.in(-60, 60)))
		d.adv = append(d.adv, r.in(0, d.upem))
		for j, v := range []int{x, y, x + w, y + h} {
			if j < 2 && v < d.bbox[j] || j >= 2 && v > d.bbox[j] {
				d.bbox[j] = v
			}
		}
	}
	return d
}

// faceOpts are a face's options, the size in quarters of a point; SF and DF
// are further 64ths of the units of the size and the resolution.
type faceOpts struct {
	Nil  bool `json:"nil"`
	Size int  `json:"size"`
	SF   int  `json:"sf"`
	DPI  int  `json:"dpi"`
	DF   int  `json:"df"`
	H    int  `json:"h"`
	E    int  `json:"e"`
	SX   int  `json:"sx"`
	SY   int  `json:"sy"`
}

func (o faceOpts) points() float64 { return float64(64*o.Size+o.SF) / 256 }
func (o faceOpts) dpi() float64    { return float64(64*o.DPI+o.DF) / 64 }

// in64ths adds fractions to a size and a resolution.
func (o faceOpts) in64ths(r *rng) faceOpts {
	if r.p(1, 2) {
		o.SF = r.pick(r.n(64), 1, 63, 32)
	}
	if r.p(1, 2) {
		o.DF = r.pick(r.n(64), 1, 63, 32)
	}
	return o
}

func (o faceOpts) face(f *truetype.Font) font.Face {
	if o.Nil {
		return truetype.NewFace(f, nil)
	}
	return truetype.NewFace(f, &truetype.Options{
		Size: o.points(), DPI: o.dpi(), Hinting: font.Hinting(o.H),
		GlyphCacheEntries: o.E, SubPixelsX: o.SX, SubPixelsY: o.SY,
	})
}

type faceCall struct {
	O  string `json:"o"`
	R  int    `json:"r"`
	R2 int    `json:"r2"`
	X  int    `json:"x"`
	Y  int    `json:"y"`
}

// faceRes is a call's result: M is the mask inside the rectangle, row by row.
type faceRes struct {
	Ok bool     `json:"ok"`
	V  []int    `json:"v"`
	M  []string `json:"m"`
}

func maskRows(mask image.Image, mp image.Point, w, h int) []string {
	rows := []string{}
	for y := 0; y < h; y++ {
		b := make([]byte, 0, 2*w)
		for x := 0; x < w; x++ {
			_, _, _, a := mask.At(mp.X+x, mp.Y+y).RGBA()
			b = append(b, fmt.Sprintf("%02x", a>>8)...)
		}
		rows = append(rows, string(b))
	}
	return rows
}

func callFace(f font.Face, c faceCall) faceRes {
	res := faceRes{V: []int{}, M: []string{}}
	switch c.O {
	case "glyph":
		dr, mask, mp, adv, ok := f.Glyph(pt(c.X, c.Y), rune(c.R))
		if !ok {
			return res
		}
		res.Ok = true
		res.V = []int{dr.Min.X, dr.Min.Y, dr.Max.X, dr.Max.Y, int(adv)}
		res.M = maskRows(mask, mp, dr.Dx(), dr.Dy())
	case "bounds":
		b, adv, ok := f.GlyphBounds(rune(c.R))
		if !ok {
			return res
		}
		res.Ok = true
		res.V = []int{int(b.Min.X), int(b.Min.Y), int(b.Max.X), int(b.Max.Y), int(adv)}
	case "adv":
		adv, ok := f.GlyphAdvance(rune(c.R))
		if !ok {
			return res
		}
		res.Ok = true
		res.V = []int{int(adv)}
	case "kern":
		res.Ok = true
		res.V = []int{int(f.Kern(rune(c.R), rune(c.R2)))}
	case "metrics":
		m := f.Metrics()
		res.Ok = true
		res.V = []int{int(m.Height), int(m.Ascent), int(m.Descent)}
	case "close":
		res.Ok = f.Close() == nil
	}
	return res
}

// tooBig tells whether character c's image is too big for testing.
func tooBig(f font.Face, c int) bool {
	b, _, ok := f.GlyphBounds(rune(c))
	w, h := int64(b.Max.X-b.Min.X)>>6, int64(b.Max.Y-b.Min.Y)>>6
	return ok && (w*h > 3000 || w > 1000 || h > 1000)
}

type f01In struct {
	Seed  int        `json:"seed"`
	O     faceOpts   `json:"o"`
	Calls []faceCall `json:"calls"`
}

type f01Out struct {
	Got   []faceRes `json:"got"`
	Fresh []faceRes `json:"fresh"`
}

func runF01(in json.RawMessage) interface{} {
	var x f01In
	decode(in, &x)
	d := textFont(newRNG(uint64(x.Seed)))
	if x.Seed%5 == 2 { // Glyphs whose numbers agree in their low bits.
		d = bigFont(newRNG(uint64(x.Seed)))
	}
	f := mustParse(d.bytes())
	out := f01Out{Got: []faceRes{}, Fresh: []faceRes{}}
	face := x.O.face(f)
	for _, c := range x.Calls {
		fresh := x.O.face(f)
		if c.O == "glyph" && tooBig(fresh, c.R) {
			c.O = "bounds"
		}
		out.Got = append(out.Got, callFace(face, c))
		out.Fresh = append(out.Fresh, callFace(x.O.face(f), c))
	}
	return out
}

func mustParse(b []byte) *truetype.Font {
	f, err := truetype.Parse(b)
	must(err)
	return f
}

var faceFracs = []int{0, 1, 7, 8, 9, 15, 16, 17, 23, 24, 31, 32, 33, 40, 47, 48, 55, 56, 62, 63}

func randDot(r *rng) int { return 64*r.in(-3, 3) + faceFracs[r.n(len(faceFracs))] }

func randRune(r *rng) int {
	return r.pick(65+r.n(6), 65+r.n(4), 321+r.n(6), 577, -1, 0, 0x10ffff, 65+r.n(8)+256*r.n(300), 65+r.n(4)+1<<uint(r.in(8, 20)))
}

func genF01(r *rng, k int) interface{} {
	x := f01In{Seed: int(r.next() % 1000000)}
	x.O = faceOpts{Size: r.in(20, 80), DPI: r.pick(72, 36, 96), H: r.n(3), E: r.pick(0, 1, 2, 4, 16, 600), SX: r.pick(0, 1, 2, 4, 64), SY: r.pick(0, 1, 2, 8)}
	var rs []int
	for i := 0; i < 4; i++ {
		rs = append(rs, randRune(r))
	}
	xs := []int{randDot(r), randDot(r), randDot(r)}
	for i, n := 0, r.in(5, 25); i < n; i++ {
		c := faceCall{O: []string{"glyph", "glyph", "glyph", "glyph", "bounds", "adv", "kern", "metrics", "close"}[r.n(9)]}
		c.R, c.R2, c.X, c.Y = rs[r.n(4)], rs[r.n(4)], xs[r.n(3)]+64*r.in(-1, 1), xs[r.n(3)]+64*r.in(-1, 1)
		x.Calls = append(x.Calls, c)
	}
	return x
}

// ---------------------------------------------------------------- F02

type f02Probe struct {
	R  int `json:"r"`
	X  int `json:"x"`
	Y  int `json:"y"`
	DX int `json:"dx"` // a move by whole pixels
	DY int `json:"dy"`
}

type f02In struct {
	Seed int        `json:"seed"`
	O    faceOpts   `json:"o"`
	P    []f02Probe `json:"p"`
}

type f02Res struct {
	P     f02Probe `json:"p"`
	Got   faceRes  `json:"got"`
	QX    int      `json:"qx"`
	QY    int      `json:"qy"`
	Ref   faceRes  `json:"ref"` // of a face that does not quantize, at (QX, QY)
	Moved faceRes  `json:"moved"`
	Adv   faceRes  `json:"adv"`
}

type f02Out struct {
	RefO faceOpts `json:"refo"`
	P    []f02Res `json:"p"`
}

func quantum(x, n int) int { // x rounded to a multiple of 1/n pixel
	q := 64 / n
	return floorDiv(x+q/2, q) * q
}

func floorDiv(a, b int) int {
	if a < 0 {
		return -((-a + b - 1) / b)
	}
	return a / b
}

func validSub(n, def int) int {
	for _, v := range []int{1, 2, 4, 8, 16, 32, 64} {
		if n == v {
			return n
		}
	}
	return def
}

func runF02(in json.RawMessage) interface{} {
	var x f02In
	decode(in, &x)
	f := mustParse(textFont(newRNG(uint64(x.Seed))).bytes())
	o := x.O
	if o.Nil {
		o = faceOpts{}
	}
	ref := faceOpts{Size: o.Size, SF: o.SF, DPI: o.DPI, DF: o.DF, E: 1, SX: 64, SY: 64}
	if o.points() <= 0 {
		ref.Size, ref.SF = 48, 0
	}
	if o.dpi() <= 0 {
		ref.DPI, ref.DF = 72, 0
	}
	if o.H == 1 || o.H == 2 {
		ref.H = 2
	}
	out := f02Out{RefO: ref, P: []f02Res{}}
	for _, p := range x.P {
		rf := ref.face(f)
		if tooBig(rf, p.R) {
			continue
		}
		s := f02Res{P: p}
		s.QX, s.QY = quantum(p.X, validSub(o.SX, 4)), quantum(p.Y, validSub(o.SY, 1))
		s.Ref = callFace(rf, faceCall{O: "glyph", R: p.R, X: s.QX, Y: s.QY})
		s.Adv = callFace(rf, faceCall{O: "adv", R: p.R})
		face := x.O.face(f)
		s.Got = callFace(face, faceCall{O: "glyph", R: p.R, X: p.X, Y: p.Y})
		s.Moved = callFace(face, faceCall{O: "glyph", R: p.R, X: p.X + 64*p.DX, Y: p.Y + 64*p.DY})
		out.P = append(out.P, s)
	}
	return out
}

func genF02(r *rng, k int) interface{} {
	x := f02In{Seed: int(r.next() % 1000000)}
	x.O = faceOpts{
		Size: r.pick(0, -4, r.in(12, 80), r.in(20, 60), r.in(20, 60)), DPI: r.pick(0, -10, 72, 96, r.in(30, 120)),
		H: r.pick(0, 1, 2, 2, 3, -1), E: r.pick(0, 1, 2, 3, 8, -4, 64),
		SX: r.pick(0, 1, 2, 4, 8, 16, 32, 64, 3, 5, 12, 63, 65, 128, 256, -1, -4), SY: r.pick(0, 1, 2, 4, 8, 16, 32, 64, 3, 6, 128, 256, -2),
	}
	if x.O.Size != 0 && x.O.DPI != 0 || r.p(1, 9) { // Not a tiny size.
		x.O = x.O.in64ths(r)
	}
	if x.O.Size == 0 {
		x.O.SF = 0
	}
	if x.O.DPI == 0 {
		x.O.DF = 0
	}
	x.O.Nil = r.p(1, 20)
	for i, n := 0, r.in(3, 8); i < n; i++ {
		p := f02Probe{randRune(r), randDot(r), randDot(r), r.in(-5, 5), r.in(-5, 5)}
		if r.p(1, 2) {
			p.X = 64*r.in(-100, 100) + r.n(64)
		}
		if r.p(1, 2) {
			p.Y = 64*r.in(-100, 100) + r.n(64)
		}
		x.P = append(x.P, p)
	}
	return x
}

// ---------------------------------------------------------------- F03

type f03In struct {
	File []int      `json:"file"`
	O    faceOpts   `json:"o"`
	C    []faceCall `json:"c"`
}

type f03Out struct {
	Ans []faceRes `json:"ans"`
}

// runF03 also records what the three kinds of queries say about one character.
func runF03(in json.RawMessage) interface{} {
	var x f03In
	decode(in, &x)
	f := mustParse(bytesOf(x.File))
	face := x.O.face(f)
	out := f03Out{Ans: []faceRes{}}
	for _, c := range x.C {
		a := callFace(face, faceCall{O: c.O, R: c.R, R2: c.R2})
		if c.O == "glyph" {
			if tooBig(face, c.R) {
				a = faceRes{V: []int{}, M: []string{"skipped"}}
			} else {
				a = callFace(face, c)
				a.M = []string{}
			}
		}
		out.Ans = append(out.Ans, a)
	}
	return out
}

func genF03(r *rng, k int) interface{} {
	d := textFont(r)
	if k%40 == 9 {
		d = bigFont(r)
	}
	if r.p(1, 2) {
		d.asc, d.desc = r.in(-3000, 3000), r.in(-3000, 3000)
	}
	o := faceOpts{Size: r.in(8, 120), DPI: r.pick(72, 96, r.in(20, 150)), H: r.n(3), E: r.pick(1, 2, 16), SX: r.pick(1, 2, 4, 8, 64), SY: r.pick(1, 2, 4, 16, 64)}
	o = o.in64ths(r)
	x := f03In{File: intsOf(d.bytes()), O: o}
	x.C = append(x.C, faceCall{O: "metrics"})
	for i, n := 0, r.in(2, 5); i < n; i++ {
		c := randRune(r)
		x.C = append(x.C, faceCall{O: "bounds", R: c}, faceCall{O: "adv", R: c}, faceCall{O: "glyph", R: c, X: randDot(r), Y: randDot(r)})
	}
	for i, n := 0, r.in(2, 8); i < n; i++ {
		a, b := 65+r.n(min(len(d.lsb), 200)), 65+r.n(min(len(d.lsb), 200))
		if r.p(1, 5) {
			a = randRune(r)
		}
		x.C = append(x.C, faceCall{O: "kern", R: a, R2: b})
	}
	return x
}

// ---------------------------------------------------------------- F04

type f04Img struct {
	Rect [4]int `json:"rect"`
	M    []int  `json:"m"` // 8-bit alpha, row by row
	OK   bool   `json:"ok"`
	Skip bool   `json:"skip"`
	// Scale is what PointToFixed makes of the size.
	Scale int `json:"scale"`
}

func runF04(in json.RawMessage) interface{} {
	var x f03In
	decode(in, &x)
	f := mustParse(bytesOf(x.File))
	out := struct {
		Img []f04Img `json:"img"`
	}{[]f04Img{}}
	face := x.O.face(f)
	for _, c := range x.C {
		if tooBig(face, c.R) {
			out.Img = append(out.Img, f04Img{Skip: true, M: []int{}})
			continue
		}
		m := f04Img{M: []int{}}
		if c.O == "face" {
			dr, mask, mp, _, ok := face.Glyph(pt(c.X, c.Y), rune(c.R))
			m.OK = ok
			if ok {
				m.Rect = [4]int{dr.Min.X, dr.Min.Y, dr.Max.X, dr.Max.Y}
				for y := 0; y < dr.Dy(); y++ {
					for x := 0; x < dr.Dx(); x++ {
						_, _, _, a := mask.At(mp.X+x, mp.Y+y).RGBA()
						m.M = append(m.M, int(a>>8))
					}
				}
			}
		} else {
			b, _, _ := face.GlyphBounds(rune(c.R))
			x0, y0 := floorDiv(c.X+int(b.Min.X), 64)-2, floorDiv(c.Y+int(b.Min.Y), 64)-2
			x1, y1 := floorDiv(c.X+int(b.Max.X), 64)+3, floorDiv(c.Y+int(b.Max.Y), 64)+3
			m = drawOne(f, x.O, c, image.Rect(x0, y0, x1, y1))
		}
		out.Img = append(out.Img, m)
	}
	return out
}

func genF04(r *rng, k int) interface{} {
	d := textFont(r)
	if k%40 == 9 {
		d = bigFont(r)
	}
	o := faceOpts{Size: r.in(16, 90), DPI: r.pick(72, 96, r.in(20, 110)), H: r.n(3), E: r.pick(1, 2, 16), SX: r.pick(1, 4, 8, 64), SY: r.pick(1, 4, 64)}
	if k%30 == 4 { // Narrow glyphs may be long.
		o.Size = r.in(90, 500)
	}
	o = o.in64ths(r)
	x := f03In{File: intsOf(d.bytes()), O: o}
	for i, n := 0, r.in(2, 4); i < n; i++ {
		c := faceCall{O: "face", R: 65 + r.n(min(len(d.lsb), 200)), X: randDot(r), Y: randDot(r)}
		if k%40 == 9 {
			c.R = r.pick(65, 321) + r.n(6)
		}
		if r.p(1, 2) {
			c.O = "context"
		}
		x.C = append(x.C, c)
	}
	return x
}

func init() {
	modes["f01"] = mode{gen: genF01, run: runF01}
	modes["f02"] = mode{gen: genF02, run: runF02}
	modes["f03"] = mode{gen: genF03, run: runF03}
	modes["f04"] = mode{gen: genF04, run: runF04}
}

func fix(x int) fixed.Int26_6 { return fixed.Int26_6(x) }
