package main

import (
	"encoding/json"
	"fmt"
	"image"
	"image/color"
	"image/draw"

	"github.com/golang/freetype"
	"github.com/golang/freetype/truetype"
	"golang.org/x/image/font"
)

// This file drives drawing contexts.

func newContext(f *truetype.Font, o faceOpts) *freetype.Context {
	c := freetype.NewContext()
	c.SetDPI(o.dpi())
	c.SetFontSize(o.points())
	c.SetFont(f)
	c.SetHinting(font.Hinting(o.H))
	return c
}

// drawText draws s in opaque white on a transparent image and returns the image's alpha.
func drawText(f *truetype.Font, o faceOpts, s string, x, y int, b image.Rectangle) ([]int, *freetype.Context, error) {
	dst := image.NewRGBA(b)
	ctx := newContext(f, o)
	ctx.SetDst(dst)
	ctx.SetClip(b)
	ctx.SetSrc(image.NewUniform(color.White))
	_, err := ctx.DrawString(s, pt(x, y))
	return alphaOf(dst), ctx, err
}

func alphaOf(m *image.RGBA) []int {
	a := []int{}
	for y := m.Rect.Min.Y; y < m.Rect.Max.Y; y++ {
		for x := m.Rect.Min.X; x < m.Rect.Max.X; x++ {
			a = append(a, int(m.RGBAAt(x, y).A))
		}
	}
	return a
}

func hexRows(m []int, w int) []string {
	rows := []string{}
	for i := 0; w > 0 && i+w <= len(m); i += w {
		var b []byte
		for _, v := range m[i : i+w] {
			b = append(b, fmt.Sprintf("%02x", v)...)
		}
		rows = append(rows, string(b))
	}
	return rows
}

// drawOne draws one character in opaque white on a transparent image.
func drawOne(f *truetype.Font, o faceOpts, c faceCall, b image.Rectangle) f04Img {
	a, ctx, err := drawText(f, o, string(rune(c.R)), c.X, c.Y, b)
	return f04Img{OK: err == nil, Rect: [4]int{b.Min.X, b.Min.Y, b.Max.X, b.Max.Y}, M: a, Scale: int(ctx.PointToFixed(o.points()))}
}

// textOf makes a string of characters; -1 is a byte that is not UTF-8.
func textOf(rs []int) string {
	s := ""
	for _, r := range rs {
		if r == -1 {
			s += "\xff"
		} else {
			s += string(rune(r))
		}
	}
	return s
}

// A request is where a glyph of a string is drawn.
type request struct {
	G int `json:"g"`
	X int `json:"x"`
	Y int `json:"y"`
}

// layout lists where the glyphs of s are drawn, up to the first one that cannot be.
func layout(f *truetype.Font, scale int, h font.Hinting, s string, x, y int) []request {
	rs := []request{}
	var buf truetype.GlyphBuf
	prev := -1
	for _, c := range s {
		i := f.Index(c)
		if prev >= 0 {
			k := int(f.Kern(fix(scale), truetype.Index(prev), i))
			if h != font.HintingNone {
				k = floorDiv(k+32, 64) * 64
			}
			x += k
		}
		if buf.Load(f, fix(scale), i, h) != nil {
			break
		}
		rs = append(rs, request{int(i), x, y})
		x += int(buf.AdvanceWidth)
		prev = int(i)
	}
	return rs
}

// runeFor finds a character whose glyph is i, among the ones that test fonts have.
func runeFor(f *truetype.Font, i int) (int, bool) {
	for _, b := range []int{65, 321, 577} {
		for c := b; c < b+12; c++ {
			if int(f.Index(rune(c))) == i {
				return c, true
			}
		}
	}
	return 0, false
}

// glyphRect is a rectangle that holds glyph i's image at (x, y); false if it is too big for testing.
func glyphRect(f *truetype.Font, scale int, h font.Hinting, i, x, y int) (image.Rectangle, bool) {
	var buf truetype.GlyphBuf
	if buf.Load(f, fix(scale), truetype.Index(i), h) != nil {
		return image.Rect(0, 0, 1, 1), true
	}
	b := buf.Bounds
	r := image.Rect(floorDiv(x+int(b.Min.X), 64)-2, floorDiv(y-int(b.Max.Y), 64)-2,
		floorDiv(x+int(b.Max.X), 64)+3, floorDiv(y-int(b.Min.Y), 64)+3)
	return r, r.Dx() <= 80 && r.Dy() <= 80
}

// bigFont makes a font in which glyphs 0, 1, ... and 256, 257, ... share
// places in a context's cache (or other numbers that are equal modulo 256):
// characters 65, 66, ... and 321, 322, ...
func bigFont(r *rng) *fontDesc {
	d := textFont(r)
	if r.p(1, 2) {
		d = boxFont(r)
	}
	n := len(d.lsb)
	d.hdmx = nil
	other := 256 * r.pick(1, 1, 1, 2, 3, 4, 8, 16)
	for len(d.lsb) < other {
		d.lsb = append(d.lsb, 0)
		d.glyphs = append(d.glyphs, nil)
	}
	for i := 0; i < n; i++ {
		e := boxFont(r)
		d.lsb = append(d.lsb, r.in(-20, 20))
		d.glyphs = append(d.glyphs, e.glyphs[0])
	}
	segs := []cseg{
		{start: 65, end: 64 + n, delta: -65},
		{start: 321, end: 320 + n, delta: other - 321},
		{start: 0xffff, end: 0xffff, delta: 1},
	}
	d.cmap = cmapTable([][3]int{{3, 1, 0}}, [][]byte{cmapFormat4(segs)})
	return d
}

// ---------------------------------------------------------------- C01

type ctxCall struct {
	O string `json:"o"` // font, size, dpi, hint, src, draw
	A int    `json:"a"`
	S []int  `json:"s"`
	X int    `json:"x"` // of sizes and resolutions: further 64ths of their units
	Y int    `json:"y"`
}

type c01In struct {
	Seed  int       `json:"seed"`
	Calls []ctxCall `json:"calls"`
}

type c01Ref struct {
	FX  int      `json:"fx"`
	FY  int      `json:"fy"`
	Err bool     `json:"err"`
	M   []string `json:"m"`
}

type c01Draw struct {
	Req  []request `json:"req"`
	Err  bool      `json:"err"`
	Skip bool      `json:"skip"`
	M    []string  `json:"m"`
	Refs []c01Ref  `json:"refs"`
}

func fontSeeds(seed, n int, mk func(*rng) *fontDesc) []*truetype.Font {
	r := newRNG(uint64(seed))
	fs := []*truetype.Font{nil}
	for i := 0; i < n; i++ {
		fs = append(fs, mustParse(mk(r).bytes()))
	}
	return fs
}

func runC01(in json.RawMessage) interface{} {
	var x c01In
	decode(in, &x)
	fs := fontSeeds(x.Seed, 2, bigFont)
	ctx := freetype.NewContext()
	o := faceOpts{Size: 48, DPI: 72}
	fi := 0
	type seenKey struct{ g, col int }
	seen := map[seenKey][][2]int{}
	out := struct {
		D []c01Draw `json:"d"`
	}{[]c01Draw{}}
	white := image.NewUniform(color.White)
	ctx.SetSrc(white)
	for _, c := range x.Calls {
		d := c01Draw{Req: []request{}, M: []string{}, Refs: []c01Ref{}}
		before, bf := o, fi
		switch c.O {
		case "font":
			fi = c.A % len(fs)
			ctx.SetFont(fs[fi])
		case "size":
			o.Size, o.SF = c.A, c.X
			ctx.SetFontSize(o.points())
		case "dpi":
			o.DPI, o.DF = c.A, c.X
			ctx.SetDPI(o.dpi())
		case "hint":
			o.H = c.A
			ctx.SetHinting(font.Hinting(c.A))
		case "src": // A look at another source, and a draw that shows nothing.
			ctx.SetSrc(image.NewUniform(color.RGBA{byte(c.A), 7, 0, 99}))
			ctx.SetClip(image.Rectangle{})
			ctx.SetSrc(white)
		case "draw":
			s := textOf(c.S)
			scale := int(ctx.PointToFixed(o.points()))
			if fs[fi] == nil {
				_, err := ctx.DrawString(s, pt(c.X, c.Y))
				d.Err = err != nil
				d.Skip = true
				break
			}
			d.Req = layout(fs[fi], scale, font.Hinting(o.H), s, c.X, c.Y)
			one := len([]rune(s)) == 1
			b := image.Rect(0, 0, 3, 3)
			fits := true
			for _, q := range d.Req {
				r, ok := glyphRect(fs[fi], scale, font.Hinting(o.H), q.G, q.X, q.Y)
				fits = fits && ok
				if one {
					b = r
				}
			}
			if !fits {
				d.Skip = true
				d.Req = []request{}
				break
			}
			dst := image.NewRGBA(b)
			ctx.SetDst(dst)
			ctx.SetClip(b)
			if !one && c.A == 1 {
				ctx.SetClip(image.Rectangle{})
			}
			_, err := ctx.DrawString(s, pt(c.X, c.Y))
			d.Err = err != nil
			for _, q := range d.Req {
				k := seenKey{q.G, (q.X & 63) / 16}
				fr := [2]int{q.X & 63, q.Y & 63}
				known := false
				for _, v := range seen[k] {
					known = known || v == fr
				}
				if !known {
					seen[k] = append(seen[k], fr)
				}
			}
			d.Skip = !one
			if one {
				fr := [][2]int{{c.X & 63, c.Y & 63}}
				if len(d.Req) == 1 {
					fr = seen[seenKey{d.Req[0].G, (c.X & 63) / 16}]
				}
				d.M = hexRows(alphaOf(dst), b.Dx())
				for _, v := range fr {
					m, _, err := drawText(fs[fi], o, s, c.X&^63+v[0], c.Y&^63+v[1], b)
					d.Refs = append(d.Refs, c01Ref{v[0], v[1], err != nil, hexRows(m, b.Dx())})
				}
			}
		}
		if before != o || bf != fi {
			seen = map[seenKey][][2]int{}
		}
		out.D = append(out.D, d)
	}
	return out
}

func genC01(r *rng, k int) interface{} {
	x := c01In{Seed: int(r.next() % 1000000)}
	x.Calls = append(x.Calls, ctxCall{O: "font", A: 1, S: []int{}})
	var rs, xs []int
	for i := 0; i < 3; i++ {
		c := 65 + r.n(5)
		rs = append(rs, c, r.pick(c+256, c+256, c+1<<uint(r.in(9, 20))))
		xs = append(xs, randDot(r))
	}
	sizes := []int{r.in(12, 70), r.in(12, 70)}
	for i, n := 0, r.in(5, 25); i < n; i++ {
		c := ctxCall{O: "draw", S: []int{rs[r.n(6)]}, X: xs[r.n(3)] + r.pick(0, 0, 64, 3), Y: xs[r.n(3)]}
		switch r.n(12) {
		case 0:
			c = ctxCall{O: "font", A: r.pick(1, 1, 2, 2, 0)}
		case 1:
			c = ctxCall{O: "size", A: sizes[r.n(2)], X: r.pick(0, 0, 1, 33)}
		case 2:
			c = ctxCall{O: "dpi", A: r.pick(72, 72, 90), X: r.pick(0, 0, 8, 50)}
		case 3:
			c = ctxCall{O: "hint", A: r.n(3)}
		case 4:
			c = ctxCall{O: "src", A: r.n(256)}
		case 5:
			c.A = r.n(2)
			for j := r.in(0, 4); j > 0; j-- {
				c.S = append(c.S, r.pick(rs[r.n(6)], randRune(r)))
			}
		}
		if c.S == nil {
			c.S = []int{}
		}
		x.Calls = append(x.Calls, c)
	}
	return x
}

// ---------------------------------------------------------------- C02

type c02Step struct {
	F int   `json:"f"` // font, 0 for none
	O int   `json:"o"` // size, in quarters of a point
	D int   `json:"d"`
	H int   `json:"h"`
	S []int `json:"s"`
	X int   `json:"x"`
	Y int   `json:"y"`
	V int   `json:"v"` // which destination, source and clip
}

type c02In struct {
	Seed  int       `json:"seed"` // makes the font, if there are no files
	Files [][]int   `json:"files"`
	Steps []c02Step `json:"steps"`
}

type c02Res struct {
	Scale int       `json:"scale"`
	PX    int       `json:"px"`
	PY    int       `json:"py"`
	Err   bool      `json:"err"`
	Req   []request `json:"req"`
	Rect  [4]int    `json:"rect"`  // empty: no image
	M     []int     `json:"m"`     // the image a new context draws
	Refs  [][]int   `json:"refs"`  // each glyph alone, at its place
	First [][]int   `json:"first"` // the same, at the place of its first use in the same quarter of a pixel
}

func runC02(in json.RawMessage) interface{} {
	var x c02In
	decode(in, &x)
	out := struct {
		Files [][]int  `json:"files"`
		R     []c02Res `json:"r"`
	}{x.Files, []c02Res{}}
	if len(x.Files) == 0 {
		r := newRNG(uint64(x.Seed))
		d := textFont(r)
		d.kern = randKern(r, len(d.lsb), 20)
		out.Files = [][]int{intsOf(d.bytes())}
	}
	fs := []*truetype.Font{nil}
	for _, b := range out.Files {
		fs = append(fs, mustParse(bytesOf(b)))
	}
	ctx := freetype.NewContext()
	for _, st := range x.Steps {
		res := c02Res{Req: []request{}, M: []int{}, Refs: [][]int{}, First: [][]int{}}
		ctx.SetFont(fs[st.F])
		ctx.SetFontSize(float64(st.O) / 4)
		ctx.SetDPI(float64(st.D))
		ctx.SetHinting(font.Hinting(st.H))
		clip := image.Rect(-20, -20, 60, 60)
		var dst draw.Image = image.NewRGBA(clip)
		switch st.V {
		case 1:
			dst = image.NewAlpha(image.Rect(3, 3, 9, 5))
		case 2:
			clip = image.Rectangle{}
		case 3:
			clip = image.Rect(5, 5, 6, 9)
			ctx.SetSrc(image.NewRGBA(image.Rect(0, 0, 2, 2)))
		case 4:
			clip = image.Rect(1000, 1000, 1010, 1010)
		}
		ctx.SetDst(dst)
		ctx.SetClip(clip)
		if st.V != 3 {
			ctx.SetSrc(image.Black)
		}
		s := textOf(st.S)
		res.Scale = int(ctx.PointToFixed(float64(st.O) / 4))
		h := font.Hinting(st.H)
		draws := true
		var all image.Rectangle
		if st.F != 0 {
			res.Req = layout(fs[st.F], res.Scale, h, s, st.X, st.Y)
			for _, q := range res.Req {
				b, ok := glyphRect(fs[st.F], res.Scale, h, q.G, q.X, q.Y)
				draws = draws && ok
				all = all.Union(b)
			}
		}
		if !draws { // Too big an image.
			out.R = append(out.R, c02Res{Scale: -1, Req: []request{}, M: []int{}, Refs: [][]int{}, First: [][]int{}})
			continue
		}
		start := pt(st.X, st.Y)
		if st.X&63 == 0 && st.Y&63 == 0 {
			start = freetype.Pt(st.X>>6, st.Y>>6)
		}
		p, err := ctx.DrawString(s, start)
		res.PX, res.PY, res.Err = int(p.X), int(p.Y), err != nil
		if st.V == 0 && st.F != 0 && all.Dx() <= 70 && all.Dy() <= 70 && len(res.Req) > 0 && len(res.Req) <= 6 {
			o := faceOpts{Size: st.O, DPI: st.D, H: st.H}
			res.Rect = [4]int{all.Min.X, all.Min.Y, all.Max.X, all.Max.Y}
			res.M, _, _ = drawText(fs[st.F], o, s, st.X, st.Y, all)
			known := true
			for j, q := range res.Req {
				c, ok := runeFor(fs[st.F], q.G)
				known = known && ok
				m, _, _ := drawText(fs[st.F], o, string(rune(c)), q.X, q.Y, all)
				res.Refs = append(res.Refs, m)
				for _, q0 := range res.Req[:j] {
					if q0.G == q.G && (q0.X&63)/16 == (q.X&63)/16 {
						m, _, _ = drawText(fs[st.F], o, string(rune(c)), q.X&^63+q0.X&63, q.Y, all)
						break
					}
				}
				res.First = append(res.First, m)
			}
			if !known {
				res.Rect = [4]int{}
			}
		}
		out.R = append(out.R, res)
	}
	return out
}

func genC02(r *rng, k int) interface{} {
	var x c02In
	n := 0
	for i := 0; i < 2; i++ {
		d := textFont(r)
		x.Files = append(x.Files, intsOf(d.bytes()))
		n = len(d.lsb)
	}
	st := c02Step{F: 1, O: r.in(12, 70), D: 72}
	for i, m := 0, r.in(2, 5); i < m; i++ {
		switch r.n(4) {
		case 0:
			st.F = r.pick(1, 2, 1, 2, 0)
		case 1:
			st.O = r.in(12, 70)
		case 2:
			st.D = r.pick(72, 72, 90, r.in(30, 110))
		}
		if r.p(1, 2) {
			st.H = r.n(3)
		}
		st.S = []int{}
		m := r.pick(0, 1, 2, 3, 4, 6, 12)
		if k%40 == 21 && i == 1 {
			m = r.pick(60, 130, 260)
		}
		for j := 0; j < m; j++ {
			st.S = append(st.S, r.pick(65+r.n(n), 65+r.n(n), 65+r.n(n), 321+r.n(n), randRune(r)))
			if r.p(1, 4) {
				st.S = append(st.S, st.S[len(st.S)-1])
			}
		}
		st.X, st.Y = randDot(r), randDot(r)
		if r.p(1, 5) {
			st.X, st.Y = r.in(-100000, 100000), r.in(-100000, 100000)
		}
		if k%6 == 2 {
			st.X, st.Y = st.X&^63, st.Y&^63
		}
		st.V = r.pick(0, 0, 0, 1, 2, 3, 4)
		x.Steps = append(x.Steps, st)
	}
	return x
}

// ---------------------------------------------------------------- C03

type c03In struct {
	Seed   int      `json:"seed"`
	O      faceOpts `json:"o"`
	S      []int    `json:"s"`
	X      int      `json:"x"`
	Y      int      `json:"y"`
	Parent [4]int   `json:"parent"`
	Dst    [4]int   `json:"dst"`
	Clip   [4]int   `json:"clip"`
	Wide   [4]int   `json:"wide"` // another clip rectangle, which contains the destination
	Kind   int      `json:"kind"`
	Color  [4]int   `json:"color"`
	Order  []int    `json:"order"` // of setting the destination, source, clip rectangle, font, size and hinting; -1: draw
	Old    [4]int   `json:"old"`   // what the destination is before
	Src    [4]int   `json:"src"`   // the source image's bounds; empty: it is uniform
}

type c03Out struct {
	Before [][]string `json:"before"` // the parent image's pixels
	With   [][]string `json:"with"`
	Free   [][]string `json:"free"`
	Skip   bool       `json:"skip"`
}

// parentImage makes an image of some kind with random pixels, and the part of it that is drawn on.
func parentImage(kind int, parent, dst image.Rectangle, r *rng) (draw.Image, draw.Image) {
	fill := func(p []byte) {
		for i := range p {
			p[i] = byte(r.next())
		}
	}
	switch kind {
	case 0, 1:
		m := image.NewRGBA(parent)
		fill(m.Pix)
		for i := 0; i < len(m.Pix); i += 4 { // Alpha-premultiplied.
			for j := 0; j < 3; j++ {
				m.Pix[i+j] = byte(int(m.Pix[i+j]) * int(m.Pix[i+3]) / 255)
			}
		}
		return m, m.SubImage(dst).(draw.Image)
	case 2:
		m := image.NewNRGBA(parent)
		fill(m.Pix)
		return m, m.SubImage(dst).(draw.Image)
	case 3:
		m := image.NewAlpha(parent)
		fill(m.Pix)
		return m, m.SubImage(dst).(draw.Image)
	case 4:
		m := image.NewGray(parent)
		fill(m.Pix)
		return m, m.SubImage(dst).(draw.Image)
	}
	m := image.NewRGBA64(parent)
	for y := parent.Min.Y; y < parent.Max.Y; y++ {
		for x := parent.Min.X; x < parent.Max.X; x++ {
			a := r.n(65536)
			m.SetRGBA64(x, y, color.RGBA64{uint16(r.n(a + 1)), uint16(r.n(a + 1)), uint16(r.n(a + 1)), uint16(a)})
		}
	}
	return m, m.SubImage(dst).(draw.Image)
}

func pixels(m image.Image) [][]string {
	b := m.Bounds()
	rows := [][]string{}
	for y := b.Min.Y; y < b.Max.Y; y++ {
		row := []string{}
		for x := b.Min.X; x < b.Max.X; x++ {
			var s string
			switch c := m.At(x, y).(type) {
			case color.RGBA:
				s = fmt.Sprintf("%02x%02x%02x%02x", c.R, c.G, c.B, c.A)
			case color.NRGBA:
				s = fmt.Sprintf("%02x%02x%02x%02x", c.R, c.G, c.B, c.A)
			case color.Alpha:
				s = fmt.Sprintf("%02x", c.A)
			case color.Gray:
				s = fmt.Sprintf("%02x", c.Y)
			case color.RGBA64:
				s = fmt.Sprintf("%04x%04x%04x%04x", c.R, c.G, c.B, c.A)
			}
			row = append(row, s)
		}
		rows = append(rows, row)
	}
	return rows
}

func runC03(in json.RawMessage) interface{} {
	var x c03In
	decode(in, &x)
	f := fontSeeds(x.Seed, 1, textFont)[1]
	out := c03Out{Before: [][]string{}, With: [][]string{}, Free: [][]string{}}
	s := textOf(x.S)
	probe := newContext(f, x.O)
	scale := int(probe.PointToFixed(float64(x.O.Size) / 4))
	for _, q := range layout(f, scale, font.Hinting(x.O.H), s, x.X, x.Y) {
		if _, ok := glyphRect(f, scale, font.Hinting(x.O.H), q.G, q.X, q.Y); !ok {
			out.Skip = true
			return out
		}
	}
	paint := func(clip [4]int, order []int) [][]string {
		parent, dst := parentImage(x.Kind, rect(x.Parent), rect(x.Dst), newRNG(uint64(x.Seed)))
		out.Before = pixels(parent)
		var src image.Image = image.NewUniform(color.NRGBA{byte(x.Color[0]), byte(x.Color[1]), byte(x.Color[2]), byte(x.Color[3])})
		if b := rect(x.Src); !b.Empty() {
			src, _ = parentImage(x.Color[0]%6, b, b, newRNG(uint64(x.Color[1])))
		}
		c := newContext(f, x.O)
		if len(order) > 3 {
			c.SetDst(image.NewAlpha(rect(x.Old)))
			c.SetSrc(image.Transparent)
			c.SetClip(rect(x.Old))
		}
		for _, o := range order {
			switch o {
			case -1:
				c.DrawString(s, pt(x.X+64*(x.Old[0]-x.Dst[0]), x.Y+64*(x.Old[1]-x.Dst[1])))
			case 0:
				c.SetDst(dst)
			case 1:
				c.SetSrc(src)
			case 2:
				c.SetClip(image.Rectangle{image.Pt(clip[0], clip[1]), image.Pt(clip[2], clip[3])})
			case 3:
				c.SetFont(f)
			case 4:
				c.SetFontSize(float64(x.O.Size) / 4)
			case 5:
				c.SetHinting(font.Hinting(x.O.H))
			}
		}
		c.DrawString(s, pt(x.X, x.Y))
		return pixels(parent)
	}
	out.With = paint(x.Clip, x.Order)
	out.Free = paint(x.Wide, []int{0, 1, 2})
	return out
}

func genC03(r *rng, k int) interface{} {
	x := c03In{Seed: int(r.next() % 1000000)}
	x.O = faceOpts{Size: r.in(16, 90), DPI: 72, H: r.n(3)}
	for j, m := 0, r.in(1, 4); j < m; j++ {
		x.S = append(x.S, r.pick(65+r.n(5), 65+r.n(5), 321+r.n(5)))
	}
	x.X, x.Y = 64*r.in(-12, 12)+r.n(64), 64*r.in(-12, 12)+r.n(64)
	ox, oy := r.pick(0, 0, r.in(-12, 0)), r.pick(0, 0, r.in(-12, 0))
	x.Parent = [4]int{ox, oy, ox + r.in(4, 22), oy + r.in(4, 22)}
	x.Dst = x.Parent
	if r.p(1, 2) {
		for i := 0; i < 2; i++ {
			x.Dst[i] += r.in(0, 3)
			x.Dst[i+2] -= r.in(0, 3)
			if x.Dst[i+2] <= x.Dst[i] {
				x.Dst[i+2] = x.Dst[i] + 1
			}
		}
	}
	c := x.Dst
	for i := 0; i < 2; i++ {
		switch n := c[i+2] - c[i]; r.n(5) {
		case 0: // wholly visible
		case 1, 2:
			c[i] += r.n(n + 1)
			c[i+2] -= r.n(c[i+2] - c[i] + 1)
		case 3:
			c[i] += r.pick(r.in(-3, n), r.in(-3, n), r.in(-3, n), -300, -1<<30)
		case 4:
			c[i+2] += r.pick(r.in(-n, 3), r.in(-n, 3), r.in(-n, 3), 300, 1<<30)
		}
	}
	if r.p(1, 25) {
		c[0], c[2] = c[2], c[0]
	}
	x.Clip = c
	far := func() int { return r.pick(0, 0, 3, 100, 70000, 1<<30) }
	x.Wide = [4]int{x.Dst[0] - far(), x.Dst[1] - far(), x.Dst[2] + far(), x.Dst[3] + far()}
	x.Order = []int{0, 1, 2}
	if r.p(1, 2) {
		x.Order = append(x.Order, 3+r.n(3))
	}
	for i := range x.Order {
		j := i + r.n(len(x.Order)-i)
		x.Order[i], x.Order[j] = x.Order[j], x.Order[i]
	}
	// Before the destination is set, what is drawn goes to the old one.
	if len(x.Order) > 3 && r.p(1, 2) {
		x.Order = append([]int{-1}, x.Order...)
	}
	ox, oy = x.Dst[0]+r.in(-5, 5), x.Dst[1]+r.in(-5, 5)
	x.Old = [4]int{ox, oy, ox + r.in(1, 20), oy + r.in(1, 20)}
	x.Kind = r.n(6)
	x.Color = [4]int{r.n(256), r.n(256), r.n(256), r.pick(255, 255, r.n(256))}
	if r.p(1, 2) {
		ox, oy = r.pick(0, 0, r.in(-20, 4)), r.pick(0, 0, r.in(-20, 4))
		x.Src = [4]int{ox, oy, ox + r.in(1, 40), oy + r.in(1, 40)}
	}
	return x
}

func init() {
	modes["c01"] = mode{gen: genC01, run: runC01}
	modes["c02"] = mode{gen: genC02, run: runC02}
	modes["c03"] = mode{gen: genC03, run: runC03}
}
