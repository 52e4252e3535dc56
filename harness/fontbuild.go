package main

import (
	"os"
	"path/filepath"
)

// This file makes font files. Everything random comes from an rng, so that a
// font is determined by a profile and a seed.

type bb []byte

func (b *bb) u8(x int)  { *b = append(*b, byte(x)) }
func (b *bb) u16(x int) { *b = append(*b, byte(x>>8), byte(x)) }
func (b *bb) u32(x int) { *b = append(*b, byte(x>>24), byte(x>>16), byte(x>>8), byte(x)) }
func (b *bb) pad(n int) {
	for len(*b)%n != 0 {
		b.u8(0)
	}
}

type gpt struct {
	x, y int
	on   bool
}

// A fontDesc is everything that makes up a font file.
type fontDesc struct {
	upem            int
	bbox            [4]int
	longLoca        bool
	asc, desc       int
	adv, lsb        []int // len(adv) long metrics, len(lsb) glyphs
	glyphs          [][]byte
	cmap            []byte
	kern            []byte
	name            []byte
	os2             []byte
	vmtx            []byte
	hdmx            []byte
	cvt, fpgm, prep []byte
	maxTwilight     int
	maxStorage      int
	maxFuncs        int
	maxStack        int
	ttc             int // 0: none; else the number of fonts in the collection
	extra           bool
	shuffle         uint64 // 0: alphabetical table order
	align           int
}

func (d *fontDesc) bytes() []byte {
	var glyf, loca bb
	al := d.align
	if al < 2 {
		al = 2
	}
	put := func() {
		if d.longLoca {
			loca.u32(len(glyf))
		} else {
			loca.u16(len(glyf) / 2)
		}
	}
	for _, g := range d.glyphs {
		put()
		glyf = append(glyf, g...)
		glyf.pad(al)
	}
	put()

	var head bb
	head.u32(0x00010000)
	head.u32(0x00010000)
	head.u32(0)
	head.u32(0x5f0f3cf5)
	head.u16(0)
	head.u16(d.upem)
	head = append(head, make([]byte, 16)...)
	for _, v := range d.bbox {
		head.u16(v)
	}
	head.u16(0)
	head.u16(8)
	head.u16(2)
	if d.longLoca {
		head.u16(1)
	} else {
		head.u16(0)
	}
	head.u16(0)

	var hhea bb
	hhea.u32(0x00010000)
	hhea.u16(d.asc)
	hhea.u16(d.desc)
	hhea = append(hhea, make([]byte, 26)...)
	hhea.u16(len(d.adv))

	var hmtx bb
	for i := range d.lsb {
		if i < len(d.adv) {
			hmtx.u16(d.adv[i])
		}
		hmtx.u16(d.lsb[i])
	}

	var maxp bb
	maxp.u32(0x00010000)
	maxp.u16(len(d.glyphs))
	maxp = append(maxp, make([]byte, 10)...)
	maxp.u16(d.maxTwilight)
	maxp.u16(d.maxStorage)
	maxp.u16(d.maxFuncs)
	maxp.u16(0)
	maxp.u16(d.maxStack)
	maxp = append(maxp, make([]byte, 6)...)

	type tab struct {
		tag  string
		data []byte
	}
	var tabs []tab
	add := func(tag string, data []byte) {
		if data != nil {
			tabs = append(tabs, tab{tag, data})
		}
	}
	add("OS/2", d.os2)
	add("cmap", d.cmap)
	add("cvt ", d.cvt)
	add("fpgm", d.fpgm)
	add("glyf", glyf)
	add("hdmx", d.hdmx)
	add("head", head)
	add("hhea", hhea)
	add("hmtx", hmtx)
	add("kern", d.kern)
	add("loca", loca)
	add("maxp", maxp)
	add("name", d.name)
	add("prep", d.prep)
	add("vmtx", d.vmtx)
	if d.extra {
		tabs = append(tabs, tab{"zzzz", []byte{1, 2, 3, 4, 5}})
	}
	order := make([]int, len(tabs)) // order of the data
	for i := range order {
		order[i] = i
	}
	if d.shuffle != 0 {
		r := newRNG(d.shuffle)
		for i := len(order) - 1; i > 0; i-- {
			j := r.n(i + 1)
			order[i], order[j] = order[j], order[i]
		}
		// And the directory.
		for i := len(tabs) - 1; i > 0; i-- {
			j := r.n(i + 1)
			tabs[i], tabs[j] = tabs[j], tabs[i]
		}
	}
	var f bb
	if d.ttc > 0 {
		f.u32(0x74746366)
		f.u32(0x00010000)
		f.u32(d.ttc)
		base := 12 + 4*d.ttc
		if d.shuffle%3 == 1 {
			base += 4
		}
		f.u32(base)
		for i := 1; i < d.ttc; i++ {
			f.u32(base + 16*i) // Not looked at.
		}
		for len(f) < base {
			f.u8(0xee)
		}
	}
	f.u32(0x00010000)
	f.u16(len(tabs))
	f.u16(0)
	f.u16(0)
	f.u16(0)
	dir := len(f)
	f = append(f, make([]byte, 16*len(tabs))...)
	for _, k := range order {
		t := tabs[k]
		f.pad(4)
		var e bb
		e = append(e, t.tag...)
		e.u32(0)
		e.u32(len(f))
		e.u32(len(t.data))
		copy(f[dir+16*k:], e)
		f = append(f, t.data...)
	}
	return f
}

// ---------------------------------------------------------------- tables

// A cseg is a range of characters mapped to glyphs.
type cseg struct {
	start, end int
	delta      int
	glyphs     []int // if non-nil: through the glyph index array, to which delta is added
}

func cmapFormat4(segs []cseg) []byte {
	var b bb
	n := len(segs)
	b.u16(4)
	b.u16(0) // length, below
	b.u16(0)
	b.u16(2 * n)
	b.u16(0)
	b.u16(0)
	b.u16(0)
	for _, s := range segs {
		b.u16(s.end)
	}
	b.u16(0)
	for _, s := range segs {
		b.u16(s.start)
	}
	for _, s := range segs {
		b.u16(s.delta)
	}
	var ids []int
	for i, s := range segs {
		if s.glyphs == nil {
			b.u16(0)
			continue
		}
		b.u16(2 * (n - i + len(ids)))
		ids = append(ids, s.glyphs...)
	}
	for _, g := range ids {
		b.u16(g)
	}
	b[2], b[3] = byte(len(b)>>8), byte(len(b))
	return b
}

func cmapFormat12(segs []cseg) []byte {
	var b bb
	b.u16(12)
	b.u16(0)
	b.u32(16 + 12*len(segs))
	b.u32(0)
	b.u32(len(segs))
	for _, s := range segs {
		b.u32(s.start)
		b.u32(s.end)
		b.u32(s.delta) // the first glyph
	}
	return b
}

// cmapTable makes a cmap table of the encoding records (platform, encoding, subtable number).
func cmapTable(recs [][3]int, subs [][]byte) []byte {
	var b bb
	b.u16(0)
	b.u16(len(recs))
	offs := make([]int, len(subs))
	o := 4 + 8*len(recs)
	for i, s := range subs {
		offs[i] = o
		o += len(s)
	}
	for _, r := range recs {
		b.u16(r[0])
		b.u16(r[1])
		b.u32(offs[r[2]])
	}
	for _, s := range subs {
		b = append(b, s...)
	}
	return b
}

func randSegs(r *rng, format, max int) []cseg {
	n := r.in(0, max)
	var segs []cseg
	c := r.pick(0, 1, 0x20, 0x30, 0xff0)
	top := 0xffff
	if format == 12 {
		top = 0x10ffff
	}
	if max >= 100 { // Many segments, so that they must be small.
		n = r.pick(100, 200, r.in(60, 70), r.in(100, max), r.in(100, max), r.in(250, 260))
	}
	for i := 0; i < n && c <= top; i++ {
		length := r.pick(1, 1, 2, 3, 5, 20, 300)
		if max >= 100 {
			length = r.pick(1, 1, 2, 5, 40)
		}
		if format == 12 && max < 100 && r.p(1, 4) {
			length = r.pick(1000, 70000)
		}
		end := c + length - 1
		if end > top || max < 100 && r.p(1, 20) {
			end = top
		}
		s := cseg{start: c, end: end, delta: r.in(-70, 70)}
		if r.p(1, 8) {
			s.delta = r.n(65536)
		}
		if format == 12 {
			s.delta = r.pick(0, 1, 5, 100, 65500, 65535, 70000)
		} else if r.p(1, 2) && end-c < 30 {
			s.glyphs = make([]int, end-c+1)
			for j := range s.glyphs {
				s.glyphs[j] = r.pick(0, 1, 2, 3, 9, r.n(65536))
			}
		}
		segs = append(segs, s)
		gap := r.pick(0, 0, 1, 1, 2, 17, 500, 8000)
		if max >= 100 {
			gap = r.pick(0, 1, 2, 17, 100)
		}
		if format == 12 && max < 100 && r.p(1, 5) {
			gap = r.pick(65536, 300000)
		}
		c = end + 1 + gap
	}
	if format == 4 && (len(segs) == 0 || segs[len(segs)-1].end < 0xffff) && !r.p(1, 10) {
		segs = append(segs, cseg{start: 0xffff, end: 0xffff, delta: 1})
	}
	return segs
}

func randCmap(r *rng, max int) []byte {
	nsub := r.in(1, 3)
	var subs [][]byte
	for i := 0; i < nsub; i++ {
		if r.p(1, 2) {
			subs = append(subs, cmapFormat4(randSegs(r, 4, max)))
		} else {
			subs = append(subs, cmapFormat12(randSegs(r, 12, max)))
		}
	}
	var recs [][3]int
	// Unsupported ones, Microsoft ones and Unicode ones.
	all := [][2]int{{0, 0}, {0, 1}, {0, 2}, {0, 3}, {0, 4}, {0, 5}, {1, 0}, {2, 1}, {3, 0}, {3, 1}, {3, 2}, {3, 10}, {3, 3}, {4, 0}}
	ok := false
	for i, n := 0, r.in(0, 4); i < n; i++ {
		a := all[r.n(len(all))]
		recs = append(recs, [3]int{a[0], a[1], r.n(nsub)})
		ok = ok || a == [2]int{0, 3} || a == [2]int{0, 4} || a == [2]int{3, 0} || a == [2]int{3, 1} || a == [2]int{3, 10}
	}
	if !ok {
		a := all[r.pick(3, 4, 8, 9, 11)]
		k := r.n(len(recs) + 1)
		recs = append(recs, [3]int{})
		copy(recs[k+1:], recs[k:])
		recs[k] = [3]int{a[0], a[1], r.n(nsub)}
	}
	return cmapTable(recs, subs)
}

// simpleCmap maps the characters from 'A' on (and a few others) to the glyphs from 1 on.
func simpleCmap(n int) []byte {
	segs := []cseg{}
	if n > 1 {
		e := 'A' + n - 2
		if e > 0xfff0 {
			e = 0xfff0
		}
		segs = append(segs, cseg{start: 'A', end: e, delta: 1 - 'A'})
	}
	segs = append(segs, cseg{start: 0xffff, end: 0xffff, delta: 1})
	return cmapTable([][3]int{{3, 1, 0}}, [][]byte{cmapFormat4(segs)})
}

func kernTable(pairs [][3]int) []byte {
	var b bb
	b.u16(0)
	b.u16(1)
	b.u16(0)
	b.u16(14 + 6*len(pairs))
	b.u16(1)
	b.u16(len(pairs))
	b.u16(0)
	b.u16(0)
	b.u16(0)
	for _, p := range pairs {
		b.u16(p[0])
		b.u16(p[1])
		b.u16(p[2])
	}
	return b
}

func randKern(r *rng, nGlyphs, max int) []byte {
	n := r.in(0, max)
	m := map[int]bool{}
	for i := 0; i < n; i++ {
		a, b := r.n(nGlyphs), r.n(nGlyphs)
		if r.p(1, 10) {
			a = r.pick(0, 255, 256, 65535)
		}
		if r.p(1, 10) {
			b = r.pick(0, 255, 256, 32768, 65535)
		}
		m[a<<16|b] = true
	}
	var keys []int
	for k := range m {
		keys = append(keys, k)
	}
	sortInts(keys)
	var pairs [][3]int
	for _, k := range keys {
		v := r.in(-300, 300)
		if r.p(1, 10) {
			v = r.pick(-32768, 32767, 0, 1, -1)
		}
		pairs = append(pairs, [3]int{k >> 16, k & 0xffff, v})
	}
	return kernTable(pairs)
}

func sortInts(a []int) {
	for i := 1; i < len(a); i++ {
		for j := i; j > 0 && a[j] < a[j-1]; j-- {
			a[j], a[j-1] = a[j-1], a[j]
		}
	}
}

func randName(r *rng) []byte {
	type rec struct {
		pid, psid, id int
		data          []byte
	}
	all := [][2]int{{0, 3}, {0, 4}, {0, 0}, {1, 0}, {3, 0}, {3, 1}, {3, 10}, {3, 2}}
	var recs []rec
	for i, n := 0, r.in(0, r.pick(8, 8, 8, 8, 8, 40)); i < n; i++ {
		a := all[r.n(len(all))]
		var data bb
		for j, m := 0, r.in(0, r.pick(9, 9, 9, 9, 9, 9, 300)); j < m; j++ {
			c := r.pick(r.in(0x20, 0x7e), r.in(0x20, 0x7e), r.n(256), r.n(65536), 0x1f, 0x20, 0x7e, 0x7f)
			if a[0] == 1 {
				data.u8(c)
			} else {
				data.u16(c)
			}
		}
		if r.p(1, 12) {
			data.u8('x')
		}
		id := r.pick(0, 1, 1, 2, 4, 5, 6, 19, 256)
		if n > 8 && r.p(2, 3) {
			id = r.n(40)
		}
		recs = append(recs, rec{a[0], a[1], id, data})
	}
	var b, s bb
	b.u16(0)
	b.u16(len(recs))
	gap := r.pick(0, 0, 0, 3)
	b.u16(6 + 12*len(recs) + gap)
	for _, x := range recs {
		b.u16(x.pid)
		b.u16(x.psid)
		b.u16(r.pick(0, 0x409))
		b.u16(x.id)
		b.u16(len(x.data))
		b.u16(len(s))
		s = append(s, x.data...)
	}
	b = append(b, make([]byte, gap)...)
	return append(b, s...)
}

// ---------------------------------------------------------------- glyphs

func bbox(cs [][]gpt) (x0, y0, x1, y1 int) {
	first := true
	for _, c := range cs {
		for _, p := range c {
			if first {
				x0, y0, x1, y1 = p.x, p.y, p.x, p.y
				first = false
			}
			if p.x < x0 {
				x0 = p.x
			}
			if p.x > x1 {
				x1 = p.x
			}
			if p.y < y0 {
				y0 = p.y
			}
			if p.y > y1 {
				y1 = p.y
			}
		}
	}
	return
}

// simpleGlyph encodes contours, choosing among the possible encodings.
func simpleGlyph(r *rng, cs [][]gpt, program []byte) []byte {
	var b bb
	b.u16(len(cs))
	x0, y0, x1, y1 := bbox(cs)
	if r.p(1, 6) {
		x0 += r.in(-9, 9) // The stated bounding box may differ from the real one.
		y1 += r.in(-9, 9)
	}
	b.u16(x0)
	b.u16(y0)
	b.u16(x1)
	b.u16(y1)
	n := 0
	var ps []gpt
	for _, c := range cs {
		n += len(c)
		b.u16(n - 1)
		ps = append(ps, c...)
	}
	b.u16(len(program))
	b = append(b, program...)
	flags := make([]int, len(ps))
	var xs, ys bb
	steady := r.p(1, 3) // The encoding most fonts have: always the shortest.
	coord := func(d int, short, same int, out *bb) int {
		switch {
		case d == 0 && (steady || !r.p(1, 5)):
			return same
		case -255 <= d && d <= 255 && (steady || !r.p(1, 8)):
			if d > 0 || d == 0 && r.p(1, 2) {
				out.u8(d)
				return short | same
			}
			out.u8(-d)
			return short
		}
		out.u16(d)
		return 0
	}
	px, py := 0, 0
	hi := r.pick(0, 0, 0, 0, 0x40, 0x80, 0xc0)
	for i, p := range ps {
		f := 0
		if p.on {
			f = 1
		}
		f |= coord(p.x-px, 0x02, 0x10, &xs)
		f |= coord(p.y-py, 0x04, 0x20, &ys)
		if i == 0 {
			f |= hi
		}
		px, py = p.x, p.y
		flags[i] = f
	}
	for i := 0; i < len(flags); {
		j := i + 1
		for j < len(flags) && flags[j] == flags[i] && j-i < 256 {
			j++
		}
		if j-i > 1 && (steady || !r.p(1, 6)) || r.p(1, 30) {
			if j-i > 2 && !steady && r.p(1, 6) {
				j = i + 2
			}
			b.u8(flags[i] | 8)
			b.u8(j - i - 1)
			i = j
		} else {
			b.u8(flags[i])
			i++
		}
	}
	b = append(b, xs...)
	b = append(b, ys...)
	return b
}

func randContours(r *rng, size, maxPts int) [][]gpt {
	var cs [][]gpt
	lo, hi := -size/4, size
	for i, n := 0, r.pick(1, 1, 1, 2, 2, 3); i < n; i++ {
		m := r.in(3, maxPts)
		if r.p(1, 15) {
			m = r.in(1, 2)
		}
		var c []gpt
		x, y := r.in(lo, hi), r.in(lo, hi)
		for j := 0; j < m; j++ {
			switch r.n(5) {
			case 0:
				x = r.in(lo, hi)
			case 1:
				y = r.in(lo, hi)
			case 2:
				x, y = r.in(lo, hi), r.in(lo, hi)
			case 3:
				x += r.in(-20, 20)
			case 4:
				y += r.in(-20, 20)
			}
			c = append(c, gpt{x, y, r.p(3, 5)})
		}
		cs = append(cs, c)
	}
	return cs
}

type component struct {
	glyph, dx, dy int
	flags         int // of ROUND 4, USE_MY_METRICS 0x200, words 1 (forced)
	transform     []int
}

func compoundGlyph(r *rng, box [4]int, comps []component, program []byte) []byte {
	var b bb
	b.u16(-1)
	for _, v := range box {
		b.u16(v)
	}
	for i, c := range comps {
		f := c.flags | 0x0002
		if c.dx < -128 || c.dx > 127 || c.dy < -128 || c.dy > 127 || r.p(1, 3) {
			f |= 0x0001
		}
		switch len(c.transform) {
		case 1:
			f |= 0x0008
		case 2:
			f |= 0x0040
		case 4:
			f |= 0x0080
		}
		if i < len(comps)-1 {
			f |= 0x0020
		} else if program != nil {
			f |= 0x0100
		}
		if r.p(1, 4) {
			f |= 0x0400
		}
		b.u16(f)
		b.u16(c.glyph)
		if f&1 != 0 {
			b.u16(c.dx)
			b.u16(c.dy)
		} else {
			b.u8(c.dx)
			b.u8(c.dy)
		}
		for _, t := range c.transform {
			b.u16(t)
		}
	}
	if program != nil {
		b.u16(len(program))
		b = append(b, program...)
	}
	return b
}

// ---------------------------------------------------------------- whole fonts

// randFont makes a well-formed font. hint says whether its programs may be run: then they are simple.
func randFont(r *rng, profile string) *fontDesc {
	d := &fontDesc{
		upem: r.pick(1000, 2048, 1024, 256, 64, 100, 777, 4096),
		asc:  r.in(-100, 3000), desc: r.in(-1000, 100),
		maxStorage: 8, maxTwilight: 4, maxFuncs: 8, maxStack: 64,
		longLoca: r.p(1, 2),
		align:    r.pick(2, 4),
	}
	if r.p(1, 4) {
		d.upem = r.in(1, 16384)
	}
	nGlyphs := r.in(1, 9)
	for i := 0; i < nGlyphs; i++ {
		d.lsb = append(d.lsb, r.in(-60, 60))
	}
	if r.p(1, 20) {
		d.lsb[r.n(nGlyphs)] = r.pick(-3000, 3000, -32768, 32767)
	}
	nh := nGlyphs
	if r.p(1, 2) {
		nh = r.in(1, nGlyphs)
	}
	for i := 0; i < nh; i++ {
		d.adv = append(d.adv, r.pick(0, 100, 500, 1024, 2000, r.n(3000)))
	}
	if r.p(1, 20) {
		d.adv[r.n(nh)] = r.pick(32767, 32768, 65535)
	}
	size := r.pick(100, 700, 2000)
	var box [4]int
	comp := make([]bool, nGlyphs)
	for i := 0; i < nGlyphs; i++ {
		switch {
		case r.p(1, 8):
			d.glyphs = append(d.glyphs, nil)
		case i > 0 && r.p(2, 5):
			comp[i] = true
			d.glyphs = append(d.glyphs, randCompound(r, i, nGlyphs))
		default:
			cs := randContours(r, size, r.pick(5, 8, 12))
			if r.p(1, 12) {
				cs = nil
			}
			x0, y0, x1, y1 := bbox(cs)
			if x0 < box[0] {
				box[0] = x0
			}
			if y0 < box[1] {
				box[1] = y0
			}
			if x1 > box[2] {
				box[2] = x1
			}
			if y1 > box[3] {
				box[3] = y1
			}
			var prog []byte
			for j, n := 0, r.pick(0, 0, 0, 3, 20); j < n && profile != "plain"; j++ {
				prog = append(prog, byte(r.n(256)))
			}
			d.glyphs = append(d.glyphs, simpleGlyph(r, cs, prog))
		}
	}
	d.bbox = box
	d.cmap = randCmap(r, 4)
	if r.p(1, 2) || profile == "plain" {
		d.cmap = simpleCmap(nGlyphs)
	}
	switch r.n(4) {
	case 0:
	case 1:
		d.kern = []byte{}
	default:
		d.kern = randKern(r, nGlyphs+1, 12)
	}
	if r.p(2, 3) {
		d.name = randName(r)
	}
	if r.p(1, 2) {
		var b bb
		n := r.pick(68, 78, 86, 96, 70, 72)
		for len(b) < n {
			b.u16(r.in(-2000, 2000))
		}
		d.os2 = b
	}
	if r.p(1, 2) {
		var b bb
		for i, n := 0, r.in(0, nGlyphs); i < n; i++ {
			b.u16(r.pick(r.n(3000), r.n(3000), r.n(3000), r.n(65536)))
			b.u16(r.pick(r.in(-300, 300), r.in(-300, 300), r.in(-32768, 32767)))
		}
		if r.p(1, 3) {
			b.u16(r.n(100))
		}
		d.vmtx = b
	}
	if r.p(1, 2) {
		d.hdmx = randHdmx(r, nGlyphs)
	}
	if r.p(1, 3) {
		d.shuffle = r.next() | 1
	}
	if r.p(1, 5) {
		d.ttc = r.in(1, 3)
	}
	d.extra = r.p(1, 4)
	return d
}

func randHdmx(r *rng, nGlyphs int) []byte {
	var b bb
	n := r.in(0, r.pick(3, 3, 40))
	size := (2 + nGlyphs + 3) &^ 3
	b.u16(0)
	b.u16(n)
	b.u32(size)
	for i := 0; i < n; i++ {
		b.u8(r.pick(8, 9, 10, 12, 16, 7+i))
		b.u8(30)
		most := r.pick(40, 40, 255)
		for j := 0; j < size-2; j++ {
			b.u8(r.in(0, most))
		}
	}
	return b
}

// randCompound makes a compound of glyphs below i (or rarely, of any glyph, itself included).
func randCompound(r *rng, i, nGlyphs int) []byte {
	var comps []component
	umm := false
	for j, n := 0, r.pick(1, 1, 2, 2, 3); j < n; j++ {
		c := component{glyph: r.n(i), dx: r.in(-150, 150), dy: r.in(-150, 150)}
		if r.p(1, 25) {
			c.glyph = r.n(nGlyphs)
		}
		if r.p(1, 6) {
			c.dx, c.dy = r.pick(-128, 127, 128, -129, 1500, 0), r.pick(-128, 127, 128, -129, 0, -1500)
		}
		if r.p(1, 3) {
			c.flags |= 0x0004
		}
		if (!umm || r.p(1, 3)) && r.p(1, 3) {
			c.flags |= 0x0200
			umm = true
		}
		t := func() int { return r.pick(0x4000, 0x2000, -0x4000, 0, 0x1000, 0x7fff, -0x8000, r.in(-32768, 32767)) }
		switch r.n(7) {
		case 0:
			c.transform = []int{t()}
		case 1:
			c.transform = []int{t(), t()}
		case 2:
			c.transform = []int{t(), t(), t(), t()}
		}
		comps = append(comps, c)
	}
	box := [4]int{r.in(-100, 100), r.in(-100, 100), r.in(0, 900), r.in(0, 900)}
	return compoundGlyph(r, box, comps, nil)
}

// ---------------------------------------------------------------- parts of real fonts

func realFont(name string) []byte {
	repo := os.Getenv("VERIF_REPO")
	if repo == "" {
		repo = "/repo"
	}
	b, err := os.ReadFile(filepath.Join(repo, "testdata", name))
	must(err)
	return b
}

func rtab(f []byte, tag string) []byte {
	n := int(f[4])<<8 | int(f[5])
	for i := 0; i < n; i++ {
		e := f[12+16*i:]
		if string(e[:4]) == tag {
			o := int(e[8])<<24 | int(e[9])<<16 | int(e[10])<<8 | int(e[11])
			l := int(e[12])<<24 | int(e[13])<<16 | int(e[14])<<8 | int(e[15])
			return f[o : o+l]
		}
	}
	return nil
}

func g16(b []byte, i int) int  { return int(b[i])<<8 | int(b[i+1]) }
func gs16(b []byte, i int) int { return int(int16(g16(b, i))) }

func realGlyph(f []byte, i int) []byte {
	loca, glyf := rtab(f, "loca"), rtab(f, "glyf")
	if g16(rtab(f, "head"), 50) == 0 {
		return glyf[2*g16(loca, 2*i) : 2*g16(loca, 2*i+2)]
	}
	u := func(j int) int { return g16(loca, j)<<16 | g16(loca, j+2) }
	return glyf[u(4*i):u(4*i+4)]
}

// subset makes a small font of the given glyphs of a real font (and their components).
func subset(f []byte, want []int) *fontDesc {
	num := map[int]int{}
	var list []int
	var add func(i int)
	add = func(i int) {
		if _, ok := num[i]; ok {
			return
		}
		num[i] = len(list)
		list = append(list, i)
		g := realGlyph(f, i)
		if len(g) >= 10 && gs16(g, 0) == -1 {
			o := 10
			for {
				fl := g16(g, o)
				add(g16(g, o+2))
				o += 6
				if fl&1 != 0 {
					o += 2
				}
				switch {
				case fl&8 != 0:
					o += 2
				case fl&0x40 != 0:
					o += 4
				case fl&0x80 != 0:
					o += 8
				}
				if fl&0x20 == 0 {
					break
				}
			}
		}
	}
	for _, i := range want {
		add(i)
	}
	head, hhea, maxp, hmtx := rtab(f, "head"), rtab(f, "hhea"), rtab(f, "maxp"), rtab(f, "hmtx")
	d := &fontDesc{
		upem: g16(head, 18), longLoca: true, align: 4,
		asc: gs16(hhea, 4), desc: gs16(hhea, 6),
		maxTwilight: g16(maxp, 16), maxStorage: g16(maxp, 18), maxFuncs: g16(maxp, 20), maxStack: g16(maxp, 24),
		cvt: rtab(f, "cvt "), fpgm: rtab(f, "fpgm"), prep: rtab(f, "prep"), os2: rtab(f, "OS/2"),
	}
	for k := 0; k < 4; k++ {
		d.bbox[k] = gs16(head, 36+2*k)
	}
	nh := g16(hhea, 34)
	for _, i := range list {
		g := append([]byte(nil), realGlyph(f, i)...)
		if len(g) >= 10 && gs16(g, 0) == -1 {
			o := 10
			for {
				fl := g16(g, o)
				c := num[g16(g, o+2)]
				g[o+2], g[o+3] = byte(c>>8), byte(c)
				o += 6
				if fl&1 != 0 {
					o += 2
				}
				switch {
				case fl&8 != 0:
					o += 2
				case fl&0x40 != 0:
					o += 4
				case fl&0x80 != 0:
					o += 8
				}
				if fl&0x20 == 0 {
					break
				}
			}
		}
		d.glyphs = append(d.glyphs, g)
		j := i
		if j >= nh {
			j = nh - 1
			d.lsb = append(d.lsb, gs16(hmtx, 4*nh+2*(i-nh)))
		} else {
			d.lsb = append(d.lsb, gs16(hmtx, 4*i+2))
		}
		d.adv = append(d.adv, g16(hmtx, 4*j))
	}
	d.cmap = simpleCmap(len(list))
	return d
}

func intsOf(b []byte) []int {
	out := make([]int, len(b))
	for i, c := range b {
		out[i] = int(c)
	}
	return out
}

func bytesOf(a []int) []byte {
	out := make([]byte, len(a))
	for i, c := range a {
		out[i] = byte(c)
	}
	return out
}
