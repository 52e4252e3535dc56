package main

import "encoding/json"

// This file makes glyph programs that set part of the interpreter's state and
// then move points, from the specification's enumeration.

type stateIn struct {
	Set    []int   `json:"set"`
	Probes [][]int `json:"probes"`
}

func stateFont(x *stateIn) ([]byte, []query) {
	d := &fontDesc{
		upem: 1000, asc: 800, desc: -200, bbox: [4]int{0, 0, 1000, 1000},
		maxTwilight: faultTwilight, maxStorage: 5, maxStack: 50, maxFuncs: 4, longLoca: true, align: 4,
	}
	var cvt bb
	for _, v := range []int{0, 130, -300, 521} {
		cvt.u16(v)
	}
	d.cvt = cvt
	r := newRNG(1)
	var qs []query
	for i, p := range x.Probes {
		// All reference points are points that are not where they were.
		b := []byte{0xb1, 2, 25, 0x38, 0xb1, 1, 9, 0x38, 0xb0, 1, 0x10, 0xb0, 2, 0x11, 0xb0, 3, 0x12}
		b = append(append(b, bytesOf(x.Set)...), bytesOf(p)...)
		b = append(b, 0x30, 0x31)
		d.glyphs = append(d.glyphs, simpleGlyph(r, faultContours, b))
		d.lsb = append(d.lsb, 13)
		d.adv = append(d.adv, 611)
		qs = append(qs, query{"glyph", []int{64*12 + 20, i, 2}})
	}
	d.cmap = simpleCmap(1)
	return d.bytes(), qs
}

func init() {
	modes["h02state"] = mode{
		gen: func(r *rng, k int) interface{} { panic("h02state needs inputs") },
		run: func(in json.RawMessage) interface{} {
			var x stateIn
			decode(in, &x)
			file, qs := stateFont(&x)
			return hintFaultOut{intsOf(file), qs, askAll(append([]byte(nil), file...), qs)}
		},
	}
}
