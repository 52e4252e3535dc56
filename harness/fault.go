package main

import "encoding/json"

// A fault damages a font file. See spec/FontFaults.tla.
type fault struct {
	Kind string `json:"kind"` // field, fit, len, off, drop, cut
	T    string `json:"t"`    // table, or "sfnt" or "sub" (the character map's first subtable) or "glyph" (some glyph's data)
	O    int    `json:"o"`
	W    int    `json:"w"`
	V    string `json:"v"`
}

type p01In struct {
	Base   int     `json:"base"`
	Faults []fault `json:"faults,omitempty"`
	File   []int   `json:"file,omitempty"`
}

type p01Out struct {
	File []int   `json:"file"`
	Res  fontOut `json:"res"`
}

// baseFont makes the well-formed font that faults are applied to.
func baseFont(b int) []byte {
	r := newRNG(uint64(b)*77777 + 5)
	switch b % 8 {
	case 6:
		f := realFont(realNames[b/8%3])
		d := subset(f, []int{3 + r.n(150), 3 + r.n(150)})
		d.cvt, d.fpgm, d.prep = nil, nil, nil
		d.kern = randKern(r, 3, 5)
		d.name = randName(r)
		return d.bytes()
	}
	d := randFont(r, "plain")
	if b%8 == 5 { // One glyph.
		d.lsb, d.adv, d.glyphs, d.hdmx, d.vmtx = d.lsb[:1], d.adv[:1], d.glyphs[:1], nil, nil
	}
	segs := []cseg{{start: 0x41, end: 0x43, delta: 1 - 0x41}, {start: 0x50, end: 0x52, delta: 0, glyphs: []int{1, 2, 3}}, {start: 0x60, end: 0x63, delta: 2, glyphs: []int{1, 0, 3, 1}}}
	sub := cmapFormat4(append(segs, cseg{start: 0xffff, end: 0xffff, delta: 1}))
	if b%3 == 1 {
		sub = cmapFormat12([]cseg{{start: 0x41, end: 0x43, delta: 1}, {start: 0x10000, end: 0x10005, delta: 2}})
	}
	recs := [][3]int{{0, 3, 0}}
	if b%2 == 1 {
		recs = [][3]int{{1, 0, 0}, {3, 1, 0}, {3, 10, 0}}
	}
	d.cmap = cmapTable(recs, [][]byte{sub})
	d.kern = randKern(r, len(d.lsb), 5)
	d.name = randName(r)
	if b%4 < 3 {
		d.ttc = 0
	} else {
		d.ttc = 2
	}
	return d.bytes()
}

func fontBase(f []byte) int {
	if g16(f, 0) == 0x7474 {
		return g16(f, 12)<<16 | g16(f, 14)
	}
	return 0
}

// find returns where something is: its offset and length, and its directory entry.
func find(f []byte, tag string) (off, n, entry int) {
	b := fontBase(f)
	nt := g16(f, b+4)
	for i := 0; i < nt; i++ {
		e := b + 12 + 16*i
		if string(f[e:e+4]) == tag {
			return g16(f, e+8)<<16 | g16(f, e+10), g16(f, e+12)<<16 | g16(f, e+14), e
		}
	}
	return 0, 0, -1
}

func applyFaults(orig []byte, faults []fault) []byte {
	f := append([]byte(nil), orig...)
	cut := len(f)
	for _, x := range faults {
		var off, n, e int
		switch x.T {
		case "sfnt":
			off, n = 0, len(f)
			if b := fontBase(orig); b > 0 && x.O >= 40 {
				off = b - 40
			}
		case "sub":
			off, n, e = find(orig, "cmap")
			s := g16(orig, off+8)<<16 | g16(orig, off+10)
			off, n = off+s, n-s
		case "glyph":
			off, n, e = find(orig, "glyf")
			ng := 1
			loca, _, _ := find(orig, "loca")
			mp, _, _ := find(orig, "maxp")
			hd, _, _ := find(orig, "head")
			ng = g16(orig, mp+4)
			g := x.O / 16 % ng
			at := func(g int) int {
				if g16(orig, hd+50) == 0 {
					return 2 * g16(orig, loca+2*g)
				}
				return g16(orig, loca+4*g)<<16 | g16(orig, loca+4*g+2)
			}
			a, b := at(g), at(g+1)
			off, n = off+a, b-a
			x.O = x.O % 16 * 2
			if x.V == "+1" || x.V == "-1" || x.V == "ones" && n > 0 {
				x.O = (x.O*7 + x.O/16) % (n + 1)
			}
		default:
			off, n, e = find(orig, x.T)
		}
		kind := x.Kind
		if kind == "fit" {
			kind = "field"
		}
		switch kind {
		case "field":
			if x.O+x.W > n || x.W == 0 {
				continue
			}
			v := 0
			for i := 0; i < x.W; i++ {
				v = v<<8 | int(f[off+x.O+i])
			}
			bits := uint(8 * x.W)
			switch x.V {
			case "zero":
				v = 0
			case "one":
				v = 1
			case "ones":
				v = 1<<bits - 1
			case "half":
				v = 1 << (bits - 1)
			case "half1":
				v = 1<<(bits-1) - 1
			case "+1":
				v++
			case "-1":
				v--
			case "+2":
				v += 2
			case "-2":
				v -= 2
			case "x2":
				v *= 2
			}
			for i := 0; i < x.W; i++ {
				f[off+x.O+i] = byte(v >> (bits - 8 - 8*uint(i)))
			}
			if x.Kind == "fit" { // and the metrics' length agrees
				hh, _, _ := find(orig, "hhea")
				mp, _, _ := find(orig, "maxp")
				_, _, e := find(orig, "hmtx")
				v := 4*g16(f, hh+34) + 2*(g16(f, mp+4)-g16(f, hh+34))
				if v >= 0 {
					f[e+12], f[e+13], f[e+14], f[e+15] = byte(v>>24), byte(v>>16), byte(v>>8), byte(v)
				}
			}
		case "len", "off":
			if e <= 0 {
				continue
			}
			at, v := e+12, n
			if x.Kind == "off" {
				at, v = e+8, off
			}
			switch x.V {
			case "zero":
				v = 0
			case "one":
				v = 1
			case "ones":
				v = 0xffffffff
			case "half":
				v = 0x80000000
			case "half1":
				v = 0x7fffffff
			case "x2":
				v *= 2
			case "+1":
				v++
			case "-1":
				v--
			case "+2":
				v += 2
			case "-2":
				v -= 2
			case "toend": // the table ends exactly where the file ends
				v = len(f) - off
			case "pastend":
				v = len(f) - off + 1
			}
			if x.Kind == "off" && (x.V == "toend" || x.V == "pastend") {
				v += off - n
			}
			f[at], f[at+1], f[at+2], f[at+3] = byte(v>>24), byte(v>>16), byte(v>>8), byte(v)
		case "drop":
			if e > 0 {
				f[e] = '?'
			}
		case "cut":
			c := off + n
			switch x.V {
			case "-1":
				c--
			case "-2":
				c -= 2
			case "half":
				c = off + n/2
			case "zero":
				c = off
			case "one":
				c = off + 1
			}
			if c < cut {
				cut = c
			}
		}
	}
	if cut < 0 {
		cut = 0
	}
	return f[:cut]
}

func p01Queries(nGlyphs int) []query {
	var qs []query
	for _, c := range []int{0, 0x40, 0x41, 0x42, 0x43, 0x44, 0x50, 0x51, 0x52, 0x53, 0x60, 0x61, 0x62, 0x63, 0x64, 0xfffe, 0xffff, 0x10000, 0x10001, 0x10005, 0x10006, -1, -2147483648, 0x10ffff, 0x7fffffff, 0x8000, 0x7fff, 1, 255, 256} {
		qs = append(qs, query{"index", []int{c}})
	}
	for i := 0; i <= nGlyphs+2; i++ {
		qs = append(qs, query{"hm", []int{640, i}}, query{"vm", []int{640, i}}, query{"glyph", []int{640, i, 0}})
	}
	for _, i := range []int{100, 1000, 0x3fff, 0x4000, 0x7fff, 0x8000, 0xffff} {
		qs = append(qs, query{"hm", []int{640, i}}, query{"vm", []int{640, i}}, query{"glyph", []int{640, i, 0}})
		qs = append(qs, query{"kern", []int{640, i, 0}}, query{"kern", []int{640, 0, i}}, query{"kern", []int{640, i, i}})
	}
	for i := 0; i <= nGlyphs; i++ {
		for j := 0; j <= nGlyphs; j++ {
			qs = append(qs, query{"kern", []int{640, i, j}})
		}
	}
	for _, id := range []int{0, 1, 2, 4, 5, 6, 19, 256, 65535} {
		qs = append(qs, query{"name", []int{id}})
	}
	for _, s := range []int{0, 640, -640, 2147483647, -2147483648} {
		qs = append(qs, query{"bounds", []int{s}}, query{"hm", []int{s, 0}}, query{"vm", []int{s, 0}}, query{"glyph", []int{s, 1, 0}})
	}
	return append(qs, query{"upem", []int{}})
}

func init() {
	run := func(in json.RawMessage) interface{} {
		var x p01In
		decode(in, &x)
		var file []byte
		if x.File != nil {
			file = bytesOf(x.File)
		} else {
			file = applyFaults(baseFont(x.Base), x.Faults)
		}
		n := 9
		res := askAll(append([]byte(nil), file...), p01Queries(n))
		res.Ans = []answer{}
		return p01Out{intsOf(file), res}
	}
	modes["p01"] = mode{
		gen: func(r *rng, k int) interface{} {
			file := baseFont(k / 40)
			switch k % 4 {
			case 0: // A truncation.
				if r.p(1, 3) {
					return p01In{File: intsOf(file[:r.n(60)])}
				}
				return p01In{File: intsOf(file[:r.n(len(file))])}
			case 1: // Some random bytes.
				for i, n := 0, r.pick(1, 1, 2, 5, 30); i < n; i++ {
					file[r.n(len(file))] = byte(r.pick(0, 1, 255, 128, 127, r.n(256)))
				}
			case 2: // Random bytes in one table (mostly glyph data).
				t := []string{"glyf", "glyf", "glyf", "loca", "cmap", "kern", "name", "head", "hhea", "maxp", "hdmx", "vmtx"}[r.n(12)]
				off, n, _ := find(file, t)
				for i, m := 0, r.pick(1, 1, 2, 5); i < m && n > 0; i++ {
					file[off+r.n(n)] = byte(r.pick(0, 1, 255, 128, 127, r.n(256)))
				}
			case 3:
				if r.p(1, 3) { // Not much of a font.
					file = make([]byte, r.n(80))
					for i := range file {
						file[i] = byte(r.n(256))
					}
					copy(file, []([]byte){{0, 1, 0, 0, 0, 1}, {'t', 't', 'c', 'f', 0, 1, 0, 0, 0, 0, 0, 1, 0, 0, 0, 16}, {'t', 't', 'c', 'f', 0, 2, 0, 0, 255, 255, 255, 255}, {0, 1, 0, 0, 0, 0}}[r.n(4)])
				} else { // The last bytes of the file are lost, tables being in random order.
					d := randFont(r, "plain")
					d.shuffle = r.next() | 1
					file = d.bytes()
					file = file[:len(file)-r.in(1, 8)]
				}
			}
			return p01In{File: intsOf(file)}
		},
		run: run,
	}
}
