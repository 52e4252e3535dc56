package main

import "encoding/json"

// This file makes compound glyphs of compound glyphs, from the
// specification's enumeration.

type compPart struct {
	T string `json:"t"`
	M int    `json:"m"`
}

type compGlyph struct {
	C []compPart `json:"c"`
	P int        `json:"p"`
}

type compIn struct {
	Low  compGlyph   `json:"low"`
	Mid  compGlyph   `json:"mid"`
	Tops []compGlyph `json:"tops"`
}

var compNames = map[string]int{"a": 0, "b": 1, "e": 2, "low": 3, "mid": 4}

func compFont(x *compIn, hint int) ([]byte, []query) {
	d := &fontDesc{
		upem: 1000, asc: 800, desc: -200, bbox: [4]int{0, 0, 1000, 1000},
		maxTwilight: 1, maxStorage: 1, maxStack: 100, maxFuncs: 1, longLoca: true, align: 2,
	}
	r := newRNG(7)
	var qs []query
	add := func(g []byte, lsb, adv int) int {
		d.glyphs = append(d.glyphs, g)
		d.lsb = append(d.lsb, lsb)
		d.adv = append(d.adv, adv)
		return len(d.glyphs) - 1
	}
	comp := func(g compGlyph, k int) []byte {
		var cs []component
		for i, c := range g.C {
			cs = append(cs, component{glyph: compNames[c.T], dx: []int{33, -47}[i], dy: []int{20, 71}[i] + k, flags: 0x200*c.M + 4*i})
		}
		var prog []byte
		if g.P == 1 { // Round a point, and shift the last but one: the third phantom point is the right one.
			prog = []byte{0xb0, 1, 0x2f, 0x30, 0x31}
		}
		return compoundGlyph(r, [4]int{10 * k, 0, 500, 700}, cs, prog)
	}
	add(simpleGlyph(r, [][]gpt{{{30, 0, true}, {500, 0, true}, {450, 300, false}}}, []byte{0xb0, 1, 0x2f}), 51, 611)
	// The second outline moves its own phantom points (3 and 4).
	add(simpleGlyph(r, [][]gpt{{{100, 100, true}, {300, 130, true}, {200, 400, true}}}, []byte{0xb1, 4, 90, 0x38, 0xb1, 3, 70, 0x38}), 77, 433)
	add(nil, -20, 850)
	add(comp(x.Low, 1), 13, 507)
	add(comp(x.Mid, 2), 91, 703)
	for _, g := range x.Tops {
		i := add(comp(g, 3), 64, 999)
		qs = append(qs, query{"glyph", []int{64*10 + 13, i, hint}})
	}
	d.cmap = simpleCmap(1)
	return d.bytes(), qs
}

func init() {
	m := func(hint int) mode {
		return mode{
			gen: func(r *rng, k int) interface{} { panic("comp needs inputs") },
			run: func(in json.RawMessage) interface{} {
				var x compIn
				decode(in, &x)
				file, qs := compFont(&x, hint)
				return hintFaultOut{intsOf(file), qs, askAll(append([]byte(nil), file...), qs)}
			},
		}
	}
	modes["g01comp"] = m(0)
	modes["g03comp"] = m(2)
}
