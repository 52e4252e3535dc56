package main

import (
	"encoding/json"

	"github.com/golang/freetype/truetype"
	"golang.org/x/image/font"
	"golang.org/x/image/math/fixed"
)

// A query asks a parsed font one thing.
type query struct {
	O string `json:"o"`
	A []int  `json:"a"`
}

type answer struct {
	V []int       `json:"v"`
	G interface{} `json:"g,omitempty"`
}

type fontIn struct {
	File []int   `json:"file"`
	Q    []query `json:"q"`
}

type fontOut struct {
	Ok   bool     `json:"ok"`
	Both bool     `json:"both"` // a font and an error, or neither
	Ans  []answer `json:"ans"`
}

type glyphRes struct {
	Err    bool     `json:"err"`
	Pts    [][3]int `json:"pts"`
	Ends   []int    `json:"ends"`
	Bounds [4]int   `json:"b"`
	Adv    int      `json:"adv"`
	Msg    string   `json:"msg,omitempty"`
}

func glyphOf(g *truetype.GlyphBuf, err error) glyphRes {
	if err != nil {
		return glyphRes{Err: true, Pts: [][3]int{}, Ends: []int{}, Msg: err.Error()}
	}
	res := glyphRes{Pts: [][3]int{}, Ends: []int{}, Adv: int(g.AdvanceWidth)}
	for _, p := range g.Points {
		res.Pts = append(res.Pts, [3]int{int(p.X), int(p.Y), int(p.Flags & 1)})
	}
	res.Ends = append(res.Ends, g.Ends...)
	b := g.Bounds
	res.Bounds = [4]int{int(b.Min.X), int(b.Min.Y), int(b.Max.X), int(b.Max.Y)}
	return res
}

func ask(f *truetype.Font, q query) answer {
	a := func(i int) int { return q.A[i] }
	sc := func(i int) fixed.Int26_6 { return fixed.Int26_6(q.A[i]) }
	ix := func(i int) truetype.Index { return truetype.Index(q.A[i]) }
	switch q.O {
	case "index":
		return answer{V: []int{int(f.Index(rune(a(0))))}}
	case "hm":
		h := f.HMetric(sc(0), ix(1))
		return answer{V: []int{int(h.AdvanceWidth), int(h.LeftSideBearing)}}
	case "vm":
		v := f.VMetric(sc(0), ix(1))
		return answer{V: []int{int(v.AdvanceHeight), int(v.TopSideBearing)}}
	case "kern":
		return answer{V: []int{int(f.Kern(sc(0), ix(1), ix(2)))}}
	case "bounds":
		b := f.Bounds(sc(0))
		return answer{V: []int{int(b.Min.X), int(b.Min.Y), int(b.Max.X), int(b.Max.Y)}}
	case "name":
		return answer{V: intsOf([]byte(f.Name(truetype.NameID(a(0)))))}
	case "nameids":
		v := []int{}
		for _, id := range []truetype.NameID{
			truetype.NameIDCopyright, truetype.NameIDFontFamily, truetype.NameIDFontSubfamily, truetype.NameIDUniqueSubfamilyID,
			truetype.NameIDFontFullName, truetype.NameIDNameTableVersion, truetype.NameIDPostscriptName, truetype.NameIDTrademarkNotice,
			truetype.NameIDManufacturerName, truetype.NameIDDesignerName, truetype.NameIDFontDescription, truetype.NameIDFontVendorURL,
			truetype.NameIDFontDesignerURL, truetype.NameIDFontLicense, truetype.NameIDFontLicenseURL, truetype.NameIDPreferredFamily,
			truetype.NameIDPreferredSubfamily, truetype.NameIDCompatibleName, truetype.NameIDSampleText,
		} {
			v = append(v, int(id))
		}
		return answer{V: v}
	case "upem":
		return answer{V: []int{int(f.FUnitsPerEm())}}
	case "glyph", "any":
		g := new(truetype.GlyphBuf)
		err := g.Load(f, sc(0), ix(1), font.Hinting(a(2)))
		if q.O == "any" {
			return answer{V: []int{}}
		}
		return answer{V: []int{}, G: glyphOf(g, err)}
	}
	panic("harness: unknown query " + q.O)
}

// beforeRes is what a glyph buffer says of the points before hinting and scaling.
type beforeRes struct {
	Err bool     `json:"err"`
	Un  [][3]int `json:"un"`
	Raw [][3]int `json:"raw"`
}

func before(g *truetype.GlyphBuf, f *truetype.Font, q query) answer {
	res := beforeRes{Un: [][3]int{}, Raw: [][3]int{}}
	if err := g.Load(f, fixed.Int26_6(q.A[0]), truetype.Index(q.A[1]), font.Hinting(q.A[2])); err != nil {
		res.Err = true
		return answer{V: []int{}, G: res}
	}
	for _, p := range g.Unhinted {
		res.Un = append(res.Un, [3]int{int(p.X), int(p.Y), int(p.Flags & 1)})
	}
	for _, p := range g.InFontUnits {
		res.Raw = append(res.Raw, [3]int{int(p.X), int(p.Y), int(p.Flags & 1)})
	}
	return answer{V: []int{}, G: res}
}

func runFont(in json.RawMessage) interface{} {
	var x fontIn
	decode(in, &x)
	return askAll(bytesOf(x.File), x.Q)
}

func askAll(file []byte, qs []query) fontOut {
	f, err := truetype.Parse(file)
	out := fontOut{Ok: f != nil, Both: (f == nil) == (err == nil), Ans: []answer{}}
	if f == nil {
		return out
	}
	g := new(truetype.GlyphBuf) // one for all, for "before"
	for _, q := range qs {
		if q.O == "before" {
			out.Ans = append(out.Ans, before(g, f, q))
			continue
		}
		out.Ans = append(out.Ans, ask(f, q))
	}
	return out
}

// ---------------------------------------------------------------- P02, P03

func cmapQueries(r *rng, table []byte, n int) []query {
	var qs []query
	q := func(c int) { qs = append(qs, query{"index", []int{c}}) }
	for _, c := range []int{0, -1, -2147483648, 65, 0x7f, 0xfffe, 0xffff, 0x10000, 0x10ffff, 0x110000, 2147483647} {
		q(c)
	}
	for i := 0; i < n; i++ {
		q(r.pick(r.n(0x300), r.n(0x10000), r.n(0x110000)))
	}
	// The ends of all ranges of all subtables, and their neighbours.
	nsub := g16(table, 2)
	for i := 0; i < nsub; i++ {
		s := g16(table, 4+8*i+4)<<16 | g16(table, 4+8*i+6)
		ends := func(a, b int) {
			for _, c := range []int{a - 1, a, a + 1, (a + b) / 2, b - 1, b, b + 1, a + 65536, a - 65536,
				// What one character got must not be taken for another's.
				a, a + 1<<uint(r.in(1, 20)), a, b + 1<<uint(r.in(1, 20))} {
				q(c)
			}
		}
		if g16(table, s) == 4 {
			m := g16(table, s+6) / 2
			for j := 0; j < m; j++ {
				ends(g16(table, s+16+2*m+2*j), g16(table, s+14+2*j))
			}
		} else if g16(table, s) == 12 {
			m := g16(table, s+14)
			for j := 0; j < m; j++ {
				o := s + 16 + 12*j
				ends(g16(table, o)<<16|g16(table, o+2), g16(table, o+4)<<16|g16(table, o+6))
			}
		}
	}
	if max := 500; len(qs) > max {
		for i := range qs {
			j := i + r.n(len(qs)-i)
			qs[i], qs[j] = qs[j], qs[i]
		}
		qs = qs[:max]
	}
	return qs
}

var realNames = []string{"luxisr.ttf", "luximr.ttf", "luxirr.ttf"}

func realTables(r *rng) *fontDesc {
	f := realFont(realNames[r.n(3)])
	d := subset(f, []int{0, r.n(200), r.n(200)})
	d.cmap, d.kern, d.name, d.vmtx = rtab(f, "cmap"), rtab(f, "kern"), rtab(f, "name"), rtab(f, "vmtx")
	d.glyphs = d.glyphs[:1]
	d.lsb = d.lsb[:1]
	d.adv = d.adv[:1]
	d.fpgm, d.prep, d.cvt = nil, nil, nil
	return d
}

func metricQueries(r *rng, d *fontDesc) []query {
	var qs []query
	n := len(d.lsb)
	scales := []int{d.upem, 64 * r.in(5, 60), r.in(1, 8000), 0, 1, 63, 2 * d.upem, d.upem / 2}
	scale := func() int { return scales[r.n(len(scales))] }
	ok := func(s, v int) int { // a scale for which s*v fits 31 bits
		for v != 0 && s > 2000000000/absInt(v) {
			s /= 2
		}
		return s
	}
	for i := 0; i <= n+1; i++ {
		if n > 20 && !r.p(20, n) {
			continue
		}
		qs = append(qs, query{"hm", []int{ok(scale(), 65536), i}})
		qs = append(qs, query{"vm", []int{ok(scale(), 65536*2), i}})
	}
	for _, i := range []int{65535, 32768, 256 + r.n(n+1)} {
		qs = append(qs, query{"hm", []int{ok(scale(), 65536), i}}, query{"vm", []int{ok(scale(), 65536), i}})
	}
	nk := 0
	if len(d.kern) >= 18 {
		nk = g16(d.kern, 10)
	}
	for j := 0; j < nk; j++ {
		if nk > 20 && !r.p(20, nk) {
			continue
		}
		a, b := g16(d.kern, 18+6*j), g16(d.kern, 20+6*j)
		qs = append(qs, query{"kern", []int{ok(scale(), 32768), a, b}})
		qs = append(qs, query{"kern", []int{d.upem, a, r.pick(b-1, b+1) & 65535}})
		qs = append(qs, query{"kern", []int{d.upem, (a + 1) & 65535, b}})
		qs = append(qs, query{"kern", []int{d.upem, b, a}})
	}
	for i := 0; i < 6; i++ {
		qs = append(qs, query{"kern", []int{ok(scale(), 32768), r.n(n + 1), r.n(n + 1)}})
	}
	for i := 0; i < 4; i++ {
		qs = append(qs, query{"bounds", []int{ok(scale(), 32768)}})
	}
	for _, id := range []int{0, 1, 2, 4, 5, 6, 19, 256, r.n(65536)} {
		qs = append(qs, query{"name", []int{id}})
	}
	// The same again, in another order, at another scale, or for similar glyphs.
	for i, n := 0, len(qs)/3; i < n; i++ {
		p := qs[r.n(n)]
		p.A = append([]int{}, p.A...)
		switch p.O {
		case "hm", "vm", "kern", "bounds":
			switch j := len(p.A) - 1; r.n(3) {
			case 0:
				if p.A[0] < 2*d.upem {
					p.A[0] = p.A[0]/2 + r.n(2)
				}
			case 1:
				if j > 0 {
					p.A[j] = (p.A[j] + 1<<uint(r.n(16))) & 65535
				}
			}
		}
		qs = append(qs, p)
	}
	return append(qs, query{"upem", []int{}}, query{"nameids", []int{}})
}

func absInt(a int) int {
	if a < 0 {
		return -a
	}
	return a
}

func init() {
	modes["p02"] = mode{
		gen: func(r *rng, k int) interface{} {
			d := randFont(r, "plain")
			d.cmap = randCmap(r, r.pick(1, 3, 6, 15, 40))
			if k%40 == 3 {
				d.cmap = randCmap(r, r.pick(100, 150, 300))
			}
			if k%50 == 7 {
				d = realTables(r)
			}
			if r.p(1, 5) {
				d.ttc = 2
			}
			return fontIn{intsOf(d.bytes()), cmapQueries(r, d.cmap, 20)}
		},
		run: runFont,
	}
	modes["p03"] = mode{
		gen: func(r *rng, k int) interface{} {
			d := randFont(r, "plain")
			if r.p(1, 3) {
				d.kern = randKern(r, len(d.lsb)+1, r.pick(1, 2, 60))
			}
			if k%40 == 3 {
				d.kern = randKern(r, 60, r.pick(150, 300, 800))
			}
			if k%40 == 4 {
				enlarge(r, d)
			}
			if r.p(1, 3) {
				d.bbox = [4]int{r.in(-32768, 32767), r.in(-32768, 32767), r.in(-32768, 32767), r.in(-32768, 32767)}
			}
			if k%50 == 7 {
				d = realTables(r)
			}
			return fontIn{intsOf(d.bytes()), metricQueries(r, d)}
		},
		run: runFont,
	}
}
