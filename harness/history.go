package main

import (
	"encoding/json"

	"github.com/golang/freetype/truetype"
	"golang.org/x/image/font"
	"golang.org/x/image/math/fixed"
)

// This file replays histories of glyph loads, generated from the
// specification, through one glyph buffer.

type loadStep struct {
	F int `json:"f"` // font, from 1
	S int `json:"s"` // scale, from 1
	G int `json:"g"` // glyph
	H int `json:"h"` // hinting
}

type loadsIn struct {
	Seed int        `json:"seed"`
	Kind string     `json:"kind"`
	Hist []loadStep `json:"hist"`
}

type loadsOut struct {
	Files  [][]int   `json:"files"`
	Scales [][]int   `json:"scales"` // of each font
	Loads  []loadRes `json:"loads"`
}

type loadRes struct {
	F     int      `json:"f"`
	S     int      `json:"s"`
	I     int      `json:"i"`
	H     int      `json:"h"`
	G     glyphRes `json:"g"`
	Fresh glyphRes `json:"fresh"`
}

func runHist(in json.RawMessage) interface{} {
	var x loadsIn
	decode(in, &x)
	r := newRNG(uint64(x.Seed))
	const nf = 3
	out := loadsOut{Files: [][]int{}, Scales: [][]int{}, Loads: []loadRes{}}
	var fonts []*truetype.Font
	var num []int
	for i := 0; i < nf; i++ {
		var d *fontDesc
		switch {
		case x.Kind == "env":
			d = envFont(r)
		case r.p(1, 8):
			d = subset(realFont(realNames[r.n(3)]), []int{r.n(200), r.n(200)})
		case r.p(1, 4):
			d = randFont(r, "plain")
		case r.p(1, 4):
			d = envFont(r)
		default:
			d = hintedFontOf(r, r.pick(0, 0, 30), r.p(1, 20))
		}
		b := d.bytes()
		f, err := truetype.Parse(append([]byte(nil), b...))
		if err != nil {
			panic("harness: " + err.Error())
		}
		out.Files = append(out.Files, intsOf(b))
		fonts = append(fonts, f)
		num = append(num, len(d.lsb))
		s := 64 * r.in(6, 40)
		if x.Kind != "env" {
			out.Scales = append(out.Scales, []int{s, r.in(300, 3000), r.pick(d.upem, 64*r.in(8, 16))})
		} else {
			out.Scales = append(out.Scales, []int{64 * r.in(9, 30), 64 * r.in(9, 30), r.in(500, 2500)})
		}
	}
	buf := new(truetype.GlyphBuf)
	for _, st := range x.Hist {
		f := fonts[st.F-1]
		s := fixed.Int26_6(out.Scales[st.F-1][st.S-1])
		i := st.G % (num[st.F-1] + 1)
		h := font.Hinting(st.H)
		l := loadRes{F: st.F, S: st.S, I: i, H: st.H}
		l.G = glyphOf(buf, buf.Load(f, s, truetype.Index(i), h))
		fresh := new(truetype.GlyphBuf)
		l.Fresh = glyphOf(fresh, fresh.Load(f, s, truetype.Index(i), h))
		out.Loads = append(out.Loads, l)
	}
	return out
}

// envFont makes a font whose set-up programs change everything they can, and
// whose glyph programs show it and then destroy it.
func envFont(r *rng) *fontDesc {
	d := &fontDesc{
		upem: r.pick(1000, 2048, 512), asc: 800, desc: -200, bbox: [4]int{-100, -100, 900, 900},
		maxStorage: 6, maxTwilight: 5, maxStack: 64, maxFuncs: 8,
		longLoca: r.p(1, 2), align: r.pick(2, 4),
	}
	var cvt bb
	for i := 0; i < 6; i++ {
		cvt.u16(r.in(-300, 500))
	}
	d.cvt = cvt
	setup := func(e *progEnv) {
		for i, n := 0, r.in(0, 10); i < n; i++ {
			switch r.n(16) {
			case 0:
				e.push(r.pick(0, 32, 100, 200))
				e.op(0x1a)
			case 1:
				e.push(r.pick(0, 20, 200))
				e.op(0x1d)
			case 2:
				e.push(r.pick(100, 500))
				e.op(0x1e)
				e.push(r.in(0, 500))
				e.op(0x1f)
			case 3:
				e.push(r.in(0, 20))
				e.op(0x5e)
			case 4:
				e.push(r.n(7))
				e.op(0x5f)
			case 5:
				e.op(r.pick(0x4d, 0x4e, 0x4e))
			case 6:
				e.op(r.pick(0x18, 0x19, 0x3d, 0x7a, 0x7c, 0x7d))
			case 7:
				e.push(r.n(256))
				e.op(0x76 + r.n(2))
			case 8: // What must not last.
				e.op(0x00)
			case 9:
				e.push(r.in(0, 3))
				e.op(0x10 + r.n(3))
			case 10:
				e.push(r.in(2, 4))
				e.op(0x17)
			case 11, 12:
				e.push(r.n(6), r.in(-300, 300))
				e.op(0x42)
			case 13:
				e.push(r.n(6), r.in(-300, 300))
				e.op(r.pick(0x44, 0x70))
			case 14, 15: // Twilight points.
				e.push(0)
				e.op(0x16)
				e.op(r.n(2))
				e.push(r.n(6), r.n(6))
				e.op(0x3e + r.n(2))
				if r.p(1, 2) {
					e.op(0x01)
				}
				if r.p(1, 2) {
					e.push(1)
					e.op(0x16)
				}
			}
		}
	}
	def := func(e *progEnv, id int) {
		e.push(id)
		e.op(0x2c)
		switch r.n(5) {
		case 0:
			e.push(r.n(5), r.in(-200, 200))
			e.op(0x38)
		case 1:
			e.push(r.n(6))
			e.op(0x43)
			e.push(r.in(-100, 100))
			e.op(0x60)
			e.push(r.n(5))
			e.op(0x23, 0x38)
		case 2:
			e.push(r.n(6), r.in(-200, 200))
			e.op(0x44)
		case 3:
			e.op(0x0c, 0x60)
			e.push(r.n(5))
			e.op(0x23)
			e.push(64)
			e.op(0x62, 0x38)
		case 4:
			e.push(r.n(5))
			e.op(0x2f)
		}
		e.op(0x2d)
	}
	nf := r.in(1, 3)
	f := newProg(r, d, 0, 0)
	for i := 0; i < nf; i++ {
		def(f, i)
	}
	if r.p(1, 2) {
		setup(f)
	}
	d.fpgm = f.b
	p := newProg(r, d, 0, 0)
	if r.p(1, 3) {
		// Fails at some sizes.
		p.op(0x4b)
		p.push(r.in(12, 25))
		p.op(0x50+r.n(4), 0x58, r.pick(0x28, 0x91, 0x21), 0x59)
	}
	setup(p)
	if r.p(1, 3) {
		def(p, r.n(nf)) // Another definition of a function.
	}
	setup(p)
	if r.p(1, 6) {
		p.op(0x4b)
		p.push(r.in(12, 25))
		p.op(0x50+r.n(4), 0x58, 0x28, 0x59)
	}
	if r.p(5, 6) {
		d.prep = p.b
	}
	if r.p(1, 8) {
		d.fpgm = append(d.fpgm, 0xb0, 77, 0x2b) // An undefined function.
	}
	n := r.in(2, 4)
	for i := 0; i < n; i++ {
		d.lsb = append(d.lsb, r.in(-60, 60))
		d.adv = append(d.adv, r.in(200, 900))
		cs := randContours(r, 600, 8)
		np := 4
		for _, c := range cs {
			np += len(c)
		}
		e := newProg(r, d, np, len(cs))
		for j, m := 0, r.in(1, 8); j < m; j++ {
			pt := r.n(np)
			switch r.n(14) {
			case 0, 1:
				e.push(pt, r.n(6))
				e.op(0x43, 0x38)
			case 2, 3:
				e.push(pt, r.n(6))
				e.op(0x45, 0x38)
			case 4, 5: // Where a twilight point is, in both directions.
				e.push(pt)
				e.push(0)
				e.op(0x15)
				e.op(0x02 + r.n(2))
				e.push(r.n(6))
				e.op(0x46 + r.n(2))
				e.push(1)
				e.op(0x15, 0x38)
			case 6:
				e.push(r.n(nf))
				e.op(0x2b)
			case 7:
				e.push(pt)
				e.op(0x2f)
			case 8:
				e.push(pt, r.n(6))
				e.op(0xe0 + r.n(32))
			case 9:
				e.push(pt)
				e.op(0xc0 + r.n(32))
			case 10:
				e.push(r.n(256), pt, r.n(256), r.n(np), 2)
				e.op(r.pick(0x5d, 0x71, 0x72))
			case 11:
				e.push(r.n(np), pt)
				e.op(0x32 + r.n(2)) // SHP
				e.op(0x21)
			case 12:
				e.push(pt)
				e.op(r.pick(0x3c, 0x39)) // ALIGNRP, IP
			case 13:
				e.push(pt)
				e.op(0x0c+r.n(2), 0x23, 0x21)
				e.push(1024)
				e.op(0x62, 0x38)
			}
		}
		// Now destroy it.
		for j := r.n(6); j > 0; j-- {
			switch r.n(6) {
			case 0, 1:
				e.push(r.n(6), r.in(-300, 300))
				e.op(0x42)
			case 2, 3:
				e.push(r.n(6), r.in(-300, 300))
				e.op(r.pick(0x44, 0x70))
			case 4:
				e.push(0)
				e.op(0x16, r.n(2))
				e.push(r.n(6), r.n(6))
				e.op(0x3e + r.n(2))
				e.push(1)
				e.op(0x16)
			case 5:
				setup(e)
			}
		}
		if r.p(1, 8) {
			e.op(r.pick(0x28, 0x2c, 0x21)) // Fails now, or defines a function.
		}
		prog := []byte(e.b)
		if r.p(1, 6) {
			prog = nil
		}
		if i > 0 && r.p(1, 4) {
			comps := []component{{glyph: r.n(i), dx: r.in(-200, 200), dy: r.in(-200, 200)}}
			if r.p(1, 2) {
				comps = append(comps, component{glyph: r.n(i), dx: r.in(-200, 200), dy: r.in(-200, 200), flags: 4})
			}
			d.glyphs = append(d.glyphs, compoundGlyph(r, [4]int{0, 0, 600, 600}, comps, prog))
		} else {
			d.glyphs = append(d.glyphs, simpleGlyph(r, cs, prog))
		}
	}
	d.cmap = simpleCmap(n)
	if r.p(1, 4) {
		d.hdmx = randHdmx(r, n)
	}
	return d
}

func init() {
	modes["hist"] = mode{
		gen: func(r *rng, k int) interface{} {
			x := loadsIn{Seed: int(r.next() % 1000000), Kind: []string{"any", "env"}[k%2]}
			for i, n := 0, r.in(4, 14); i < n; i++ {
				x.Hist = append(x.Hist, loadStep{r.in(1, 3), r.in(1, 3), r.n(7), r.pick(0, 1, 2, 2, 2)})
			}
			return x
		},
		run: runHist,
	}
}
