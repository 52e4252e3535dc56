package main

import (
	"encoding/json"
	"image"
	"image/color"
	"image/draw"

	"github.com/golang/freetype/raster"
)

func init() {
	modes["r05"] = mode{genR05, runR05}
	modes["r06"] = mode{genR06, runR06}
	modes["r06raster"] = mode{genR06Raster, runR06Raster}
	modes["r07"] = mode{genR07, runR07}
}

// A sp is a span [y, x0, x1, alpha].
type sp [4]int

func toSpans(ss []sp) []raster.Span {
	out := make([]raster.Span, len(ss))
	for i, s := range ss {
		out[i] = raster.Span{Y: s[0], X0: s[1], X1: s[2], Alpha: uint32(s[3])}
	}
	return out
}

// batch is one Paint call, preceded by a colour change (rgba only).
type batch struct {
	Color []int `json:"color"`
	Spans []sp  `json:"spans"`
	Done  bool  `json:"done"`
}

type r05In struct {
	Kind string `json:"kind"` // alphaover alphasrc rgbaover rgbasrc
	// Big is the rectangle of the backing image, Sub that of the image painted on.
	Big     [4]int  `json:"big"`
	Sub     [4]int  `json:"sub"`
	Pix     []int   `json:"pix"`
	Batches []batch `json:"batches"`
}

func genR05(r *rng, k int) interface{} {
	in := r05In{Kind: []string{"alphaover", "alphasrc", "rgbaover", "rgbasrc"}[k%4]}
	x, y := 0, 0
	if r.p(2, 3) {
		x, y = r.in(-20, 20), r.in(-20, 20)
	}
	w, h := r.in(1, 7), r.in(1, 5)
	wide := k%80 >= 76 // Images too wide or high for small counters.
	if wide {
		w, h = r.pick(60, 130, 256, 257, 300), r.in(1, 2)
		if r.p(1, 4) {
			w, h = h, w
		}
	}
	in.Big = [4]int{x, y, x + w, y + h}
	in.Sub = in.Big
	if r.p(1, 2) {
		x0, y0 := r.in(x, x+w), r.in(y, y+h)
		in.Sub = [4]int{x0, y0, r.in(x0, x+w), r.in(y0, y+h)}
	}
	rgba := in.Kind[0] == 'r'
	for i := 0; i < w*h; i++ {
		a := r.pick(0, 255, r.n(256), r.n(256))
		if rgba {
			in.Pix = append(in.Pix, r.pick(0, a, r.in(0, a)), r.in(0, a), r.in(0, a))
		}
		in.Pix = append(in.Pix, a)
	}
	for b := r.in(1, 3); b > 0; b-- {
		bt := batch{Color: []int{}, Spans: []sp{}, Done: r.p(1, 2)}
		if rgba {
			a := r.pick(65535, 65535, 0, r.n(65536), r.n(65536))
			bt.Color = []int{r.pick(0, a, r.in(0, a)), r.in(0, a), r.in(0, a), a}
		}
		yy := y - r.in(0, 3)
		if r.p(1, 10) {
			yy = -(1 << 30)
		}
		if h > 20 && yy > y-20 {
			yy += r.n(h)
		}
		for yy < y+h+4 && len(bt.Spans) < 40 {
			xx := x - r.in(-2, 6)
			if r.p(1, 10) {
				xx = -(1 << 30)
			}
			for n := r.in(0, 3); n > 0; n-- {
				x0 := xx + r.in(0, 3)
				if x0 < x-20 && r.p(1, 2) {
					x0 = x + r.in(-2, 3)
				}
				x1 := x0 + r.in(1, 4)
				if wide && r.p(1, 2) {
					x0 += r.in(0, w)
					x1 = x0 + r.pick(r.in(1, w), 255, 256, 257)
				}
				if r.p(1, 6) {
					x1 = max(x0+1, x+w+r.in(-1, 3))
				}
				if r.p(1, 20) {
					x1 = 1 << 30
				}
				al := r.pick(65535, 65535, 1, r.in(1, 65535), r.in(1, 65535), 256*r.in(0, 255)+r.pick(1, 255))
				bt.Spans = append(bt.Spans, sp{yy, x0, x1, al})
				xx = x1
				if xx >= 1<<29 {
					break
				}
			}
			yy += r.pick(1, 1, 1, 2)
			if yy < y-20 {
				yy = y - r.in(-1, 2)
			}
			if r.p(1, 40) {
				yy = 1 << 30
			}
		}
		in.Batches = append(in.Batches, bt)
	}
	return in
}

func rect(a [4]int) image.Rectangle { return image.Rect(a[0], a[1], a[2], a[3]) }

type r05Out struct {
	// After holds the backing image's bytes after each batch.
	After [][]int `json:"after"`
}

func ints(b []uint8) []int {
	out := make([]int, len(b))
	for i, v := range b {
		out[i] = int(v)
	}
	return out
}

func runR05(raw json.RawMessage) interface{} {
	var in r05In
	decode(raw, &in)
	var out r05Out
	var p raster.Painter
	var rp *raster.RGBAPainter
	var pix []uint8
	switch in.Kind {
	case "alphaover", "alphasrc":
		big := image.NewAlpha(rect(in.Big))
		pix = big.Pix
		sub := big.SubImage(rect(in.Sub)).(*image.Alpha)
		if in.Kind == "alphaover" {
			p = raster.NewAlphaOverPainter(sub)
		} else {
			p = raster.NewAlphaSrcPainter(sub)
		}
	default:
		big := image.NewRGBA(rect(in.Big))
		pix = big.Pix
		rp = raster.NewRGBAPainter(big.SubImage(rect(in.Sub)).(*image.RGBA))
		rp.Op = draw.Over
		if in.Kind == "rgbasrc" {
			rp.Op = draw.Src
		}
		p = rp
	}
	for i, v := range in.Pix {
		pix[i] = uint8(v)
	}
	for _, b := range in.Batches {
		if rp != nil {
			c := b.Color
			rp.SetColor(color.RGBA64{uint16(c[0]), uint16(c[1]), uint16(c[2]), uint16(c[3])})
		}
		p.Paint(toSpans(b.Spans), b.Done)
		out.After = append(out.After, ints(pix))
	}
	return out
}

// ---------------------------------------------------------------- monochrome

// r06In: rasterizations, each a list of batches, each a list of spans.
type r06In struct {
	Rasters [][][]sp `json:"rasters"`
}

type r06Out struct {
	Rasters []*rasterOut `json:"rasters"`
}

func alpha06(r *rng) int {
	return r.pick(32767, 32768, 65535, 65535, 1, r.in(1, 65535), r.in(32768, 65535))
}

// orderedSpans makes an ordered sequence of spans.
func orderedSpans(r *rng, n int) []sp {
	out := []sp{}
	y := r.pick(0, 0, -1, r.in(-5, 5))
	x := r.pick(0, 0, 1, -3)
	far := n > 20
	for len(out) < n {
		switch r.n(6) {
		case 0:
			y++
			x = r.pick(0, x, -2, r.in(-3, 4))
		case 1:
			y += r.in(1, 3)
			x = r.in(-3, 6)
		case 2:
			x += r.in(1, 3)
		}
		if far {
			if r.p(1, 10) {
				x += r.pick(100, 250, 1000, 40000)
			}
			if r.p(1, 30) {
				y, x = y+r.pick(100, 256, 1000, 70000), r.in(-70000, 4)
			}
		}
		x1 := x + r.in(1, 4)
		if far && r.p(1, 6) {
			x1 = x + r.pick(127, 128, 255, 256, 257, 65535, 65536)
		}
		out = append(out, sp{y, x, x1, alpha06(r)})
		x = x1
	}
	return out
}

func genR06(r *rng, k int) interface{} {
	in := r06In{Rasters: [][][]sp{}}
	for n := r.in(1, 3); n > 0; n-- {
		ss := orderedSpans(r, r.pick(0, 1, 2, r.in(0, 12)))
		if k%50 == 17 {
			ss = orderedSpans(r, r.in(50, 300))
		}
		if r.p(1, 8) {
			for i := range ss {
				ss[i][3] = r.in(1, 32767)
			}
		}
		if r.p(1, 5) {
			for i := range ss {
				ss[i][3] = 65535
			}
		}
		bs := [][]sp{}
		for len(ss) > 0 {
			c := r.in(0, len(ss))
			if r.p(1, 3) {
				c = min(1, len(ss))
			}
			bs = append(bs, append([]sp{}, ss[:c]...))
			ss = ss[c:]
		}
		if len(bs) == 0 || r.p(1, 3) {
			bs = append(bs, []sp{})
		}
		in.Rasters = append(in.Rasters, bs)
	}
	return in
}

// scribbler records what it gets and then, as the contract allows, uses the
// spans as scratch space.
type scribbler struct{ *rasterOut }

func (s scribbler) Paint(ss []raster.Span, done bool) {
	s.rasterOut.Paint(ss, done)
	for i := range ss {
		ss[i] = raster.Span{Y: 99, X0: 77, X1: 88, Alpha: 0xabcd}
	}
}

func runR06(raw json.RawMessage) interface{} {
	var in r06In
	decode(raw, &in)
	out := r06Out{Rasters: []*rasterOut{}}
	m := raster.NewMonochromePainter(nil)
	for _, bs := range in.Rasters {
		c := newOut()
		m.Painter = scribbler{c}
		for i, b := range bs {
			m.Paint(toSpans(b), i == len(bs)-1)
		}
		out.Rasters = append(out.Rasters, c)
	}
	return out
}

// r06raster: the monochrome painter behind a real rasterizer.
func genR06Raster(r *rng, k int) interface{} {
	in := genR02(r, k).(rasterIn)
	if r.p(1, 3) {
		in = genR01(r, k).(rasterIn)
	}
	return in
}

func runR06Raster(raw json.RawMessage) interface{} {
	var in rasterIn
	decode(raw, &in)
	rz := raster.NewRasterizer(in.W, in.H)
	rz.UseNonZeroWinding = in.NZ
	rz.Dx, rz.Dy = in.Dx, in.Dy
	for _, o := range in.Ops {
		apply(rz, o)
	}
	plain, mono, again := newOut(), newOut(), newOut()
	rz.Rasterize(plain)
	m := raster.NewMonochromePainter(mono)
	rz.Rasterize(m)
	m.Painter = scribbler{again}
	rz.Rasterize(m)
	return map[string]interface{}{"plain": plain, "mono": mono, "again": again}
}

// ---------------------------------------------------------------- gamma

// r07In: a sequence of gamma settings (a rational number p/q, with q > 0) and
// the batches painted with each.
type r07Step struct {
	P       int    `json:"p"`
	Q       int    `json:"q"`
	Batches [][]sp `json:"batches"`
	Dones   []int  `json:"dones"`
}

type r07In struct {
	Steps []r07Step `json:"steps"`
}

var gammas = [][2]int{{1, 4}, {1, 3}, {5, 11}, {1, 2}, {2, 3}, {3, 4}, {1, 1}, {5, 4}, {3, 2}, {2, 1}, {11, 5}, {5, 2}, {3, 1}, {7, 2}, {4, 1}, {9, 10}}

func genR07(r *rng, k int) interface{} {
	in := r07In{}
	n := r.in(1, 3)
	for i := 0; i < n; i++ {
		g := gammas[r.n(len(gammas))]
		if i == 0 {
			g = gammas[k%len(gammas)]
		}
		st := r07Step{P: g[0], Q: g[1]}
		for b := r.in(1, 3); b > 0; b-- {
			ss := orderedSpans(r, r.in(0, 24))
			for j := range ss {
				v := 257 * r.in(0, 255)
				if r.p(1, 2) {
					v = min(65535, v+r.in(0, 256))
				}
				ss[j][3] = r.pick(v, v, v, 0, 65535, 65534, 1)
			}
			st.Batches = append(st.Batches, ss)
			st.Dones = append(st.Dones, r.n(2))
		}
		in.Steps = append(in.Steps, st)
	}
	return in
}

// r07Out: per step what the wrapped painter received, and the alphas that a
// painter with that gamma maps all multiples of 257 to.
type r07Out struct {
	Steps  []*rasterOut `json:"steps"`
	Tables [][]int      `json:"tables"`
}

func runR07(raw json.RawMessage) interface{} {
	var in r07In
	decode(raw, &in)
	out := r07Out{}
	var g *raster.GammaCorrectionPainter
	for _, st := range in.Steps {
		gamma := float64(st.P) / float64(st.Q)
		c := newOut()
		if g == nil {
			g = raster.NewGammaCorrectionPainter(scribbler{c}, gamma)
		} else {
			g.Painter = scribbler{c}
			g.SetGamma(gamma)
		}
		for i, b := range st.Batches {
			g.Paint(toSpans(b), st.Dones[i] == 1)
		}
		out.Steps = append(out.Steps, c)
		t := newOut()
		g.Painter = t
		for i := 0; i < 256; i++ {
			g.Paint([]raster.Span{{Y: 0, X0: 0, X1: 1, Alpha: uint32(257 * i)}}, true)
		}
		tab := []int{}
		for _, s := range t.Spans {
			tab = append(tab, s[3])
		}
		out.Tables = append(out.Tables, tab)
	}
	return out
}
