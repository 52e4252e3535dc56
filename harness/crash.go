package main

import (
	"encoding/json"
	"image"
	"image/color"
	"image/draw"

	"github.com/golang/freetype"
	"github.com/golang/freetype/truetype"
	"golang.org/x/image/font"
	"golang.org/x/image/math/fixed"
)

// This file draws with fonts of any kind, at any size.

type f05Opts struct {
	Size [2]int `json:"size"` // in 2^-n points
	DPI  [2]int `json:"dpi"`
	H    int    `json:"h"`
	E    int    `json:"e"`
	SX   int    `json:"sx"`
	SY   int    `json:"sy"`
}

type f05Call struct {
	O string `json:"o"`
	R int    `json:"r"`
	S []int  `json:"s"`
	X int    `json:"x"`
	Y int    `json:"y"`
}

type f05In struct {
	File  []int     `json:"file"`
	O     f05Opts   `json:"o"`
	Calls []f05Call `json:"calls"`
}

type f05Res struct {
	O    string `json:"o"`
	OK   bool   `json:"ok"`
	Dr   [4]int `json:"dr"`
	Mask [4]int `json:"mask"` // the part of the mask that shows
	Has  bool   `json:"has"`  // whether the mask has that part
	Nil  bool   `json:"nil"`  // whether there is no mask
	Adv  int    `json:"adv"`
	Zero bool   `json:"zero"` // whether the other results are zero
	Y    int    `json:"y"`    // the point returned
	Out  int    `json:"out"`  // number of pixels changed outside the clip rectangle
}

type f05Out struct {
	OK  bool     `json:"ok"`
	Res []f05Res `json:"res"`
}

func scaled(v [2]int) float64 {
	f := float64(v[0])
	for ; v[1] > 0; v[1]-- {
		f /= 2
	}
	for ; v[1] < 0; v[1]++ {
		f *= 2
	}
	return f
}

const f05MaxPixels = 1 << 22

func runF05(in json.RawMessage) interface{} {
	var x f05In
	decode(in, &x)
	file := bytesOf(x.File)
	out := f05Out{Res: []f05Res{}}
	f, err := freetype.ParseFont(file)
	g, err2 := truetype.Parse(file)
	if (f == nil) != (err != nil) || (g == nil) != (err2 != nil) || (f == nil) != (g == nil) {
		panic("freetype.ParseFont and truetype.Parse differ")
	}
	out.OK = f != nil
	if f == nil {
		return out
	}
	opts := &truetype.Options{Size: scaled(x.O.Size), DPI: scaled(x.O.DPI), Hinting: font.Hinting(x.O.H), GlyphCacheEntries: x.O.E, SubPixelsX: x.O.SX, SubPixelsY: x.O.SY}
	face := truetype.NewFace(f, opts)
	dst := image.NewRGBA(image.Rect(0, 0, 24, 16))
	clip := image.Rect(4, 3, 20, 13)
	ctx := freetype.NewContext()
	ctx.SetDst(dst)
	ctx.SetClip(clip)
	ctx.SetSrc(image.NewUniform(color.White))
	ctx.SetFont(f)
	ctx.SetDPI(scaled(x.O.DPI))
	ctx.SetHinting(font.Hinting(x.O.H))
	ctx.SetFontSize(scaled(x.O.Size))
	huge := func(r rune) bool {
		b, _, ok := face.GlyphBounds(r)
		w, h := (int64(b.Max.X)-int64(b.Min.X))>>6, (int64(b.Max.Y)-int64(b.Min.Y))>>6
		return ok && w*h > f05MaxPixels
	}
	rect := func(r image.Rectangle) [4]int { return [4]int{r.Min.X, r.Min.Y, r.Max.X, r.Max.Y} }
	for _, c := range x.Calls {
		p := fixed.Point26_6{X: fixed.Int26_6(c.X), Y: fixed.Int26_6(c.Y)}
		r := f05Res{O: c.O}
		if c.O == "glyph" || c.O == "draw" {
			skip := huge(rune(c.R))
			for _, s := range c.S {
				skip = skip || c.O == "draw" && huge(rune(s))
			}
			if skip {
				c.O = "bounds"
				r.O = c.O
			}
		}
		switch c.O {
		case "glyph":
			dr, mask, mp, adv, ok := face.Glyph(p, rune(c.R))
			r.OK, r.Dr, r.Adv, r.Nil = ok, rect(dr), int(adv), mask == nil
			r.Zero = dr == image.Rectangle{} && mp == image.Point{} && adv == 0
			if mask != nil {
				m := image.Rectangle{Min: mp, Max: mp.Add(dr.Size())}
				r.Mask, r.Has = rect(m), m.In(mask.Bounds()) || m.Empty()
				for y := m.Min.Y; y < m.Max.Y; y++ {
					mask.At(m.Min.X, y)
					mask.At(m.Max.X-1, y)
				}
				draw.DrawMask(dst, dr, image.White, image.Point{}, mask, mp, draw.Over)
			}
		case "bounds":
			b, adv, ok := face.GlyphBounds(rune(c.R))
			r.OK, r.Adv = ok, int(adv)
			r.Dr = [4]int{int(b.Min.X), int(b.Min.Y), int(b.Max.X), int(b.Max.Y)}
			r.Zero = b == fixed.Rectangle26_6{} && adv == 0
		case "adv":
			adv, ok := face.GlyphAdvance(rune(c.R))
			r.OK, r.Adv, r.Zero = ok, int(adv), adv == 0
		case "kern":
			face.Kern(rune(c.R), rune(c.R+1))
			face.Metrics()
			r.OK = true
		case "draw":
			for i := range dst.Pix {
				dst.Pix[i] = 0
			}
			s := ""
			for _, v := range c.S {
				s += string(rune(v))
			}
			q, err := ctx.DrawString(s, p)
			r.OK, r.Zero, r.Y = err == nil, q == fixed.Point26_6{}, int(q.Y)
			for y := 0; y < 16; y++ {
				for i := 0; i < 24; i++ {
					if !(image.Point{i, y}).In(clip) && dst.RGBAAt(i, y) != (color.RGBA{}) {
						r.Out++
					}
				}
			}
		}
		out.Res = append(out.Res, r)
	}
	return out
}

func genF05(r *rng, k int) interface{} {
	var x f05In
	var file []byte
	switch k % 4 {
	case 0: // Any bytes in some tables.
		file = baseFont(k / 40)
		for i, m := 0, r.pick(1, 1, 2, 5); i < m; i++ {
			t := []string{"glyf", "glyf", "loca", "cmap", "kern", "head", "hhea", "hmtx", "maxp", "hdmx"}[r.n(10)]
			if off, n, _ := find(file, t); n > 0 {
				file[off+r.n(n)] = byte(r.pick(0, 1, 255, 128, 127, r.n(256)))
			}
		}
	case 1:
		d := textFont(r)
		if r.p(1, 2) {
			d.upem = r.pick(1, 2, 16, 65535, 1000)
		}
		if r.p(1, 2) {
			d.bbox = [4]int{r.in(-32768, 32767), r.in(-32768, 32767), r.in(-32768, 32767), r.in(-32768, 32767)}
		}
		file = d.bytes()
	case 2:
		d := hintedFont(r, 20)
		d.cmap = textCmap(len(d.lsb))
		file = d.bytes()
	case 3:
		d := textFont(r)
		file = d.bytes()
		if off, n, _ := find(file, "glyf"); n > 0 {
			for i, m := 0, r.pick(1, 3, 10); i < m; i++ {
				file[off+r.n(n)] = byte(r.pick(0, 1, 255, 128, 127, r.n(256)))
			}
		}
	}
	x.File = intsOf(file)
	num := func() [2]int {
		return [][2]int{{12, 0}, {r.in(1, 100), 0}, {r.in(1, 100), 0}, {r.in(1, 1000), 6}, {r.in(1, 1000), 1}, {r.in(1, 100), -6}, {1, 30}, {1, -22}, {1, -31}, {1, -40}, {1, -1000}, {0, 0}, {-5, 0}}[r.pick(r.n(7), r.n(5), r.n(13))]
	}
	x.O = f05Opts{num(), num(), r.pick(0, 1, 2, 2, 3, -1), r.pick(0, 1, 2, 16, 1024, -1, 3), r.pick(0, 1, 4, 64, 3, -1), r.pick(0, 1, 4, 64, 128)}
	if r.p(2, 3) {
		x.O.DPI = [2]int{72, 0}
	}
	for i, n := 0, r.in(2, 14); i < n; i++ {
		rn := func() int { return r.pick(65+r.n(6), 65+r.n(6), 321+r.n(6), randRune(r)) }
		c := f05Call{O: []string{"glyph", "glyph", "glyph", "draw", "draw", "bounds", "adv", "kern"}[r.n(8)], R: rn(), S: []int{}}
		c.X, c.Y = 64*r.in(0, 20)+r.n(64), 64*r.in(0, 14)+r.n(64)
		if r.p(1, 6) {
			c.X, c.Y = r.pick(2147483647, -2147483648, 2147483000, r.in(-100000, 100000)), r.pick(2147483647, -2147483648, -2147480000, r.in(-100000, 100000))
		}
		if c.O == "draw" {
			for j, m := 0, r.in(0, 4); j < m; j++ {
				c.S = append(c.S, rn())
			}
		}
		x.Calls = append(x.Calls, c)
	}
	return x
}

func init() { modes["f05"] = mode{gen: genF05, run: runF05} }
