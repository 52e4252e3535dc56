package main

import "encoding/json"

// This file makes programs of control flow instructions, from the
// specification's enumeration.

type ctrlIn struct {
	Pre   []string   `json:"pre"`
	Progs [][]string `json:"progs"`
	Where string     `json:"where"`
}

var ctrlOps = map[string][]byte{
	"0": {0xb0, 0}, "1": {0xb0, 1}, "2": {0xb0, 2}, "3": {0xb0, 3}, "back": {0xb8, 0xff, 0xfc},
	"IF": {0x58}, "ELSE": {0x1b}, "EIF": {0x59}, "JMPR": {0x1c}, "JROT": {0x78}, "JROF": {0x79},
	"CALL": {0x2b}, "LOOPCALL": {0x2a}, "FDEF": {0x2c}, "ENDF": {0x2d}, "POP": {0x21},
	// Shift point 1 by as many 64ths of a pixel as there are things on the stack.
	"M": {0xb0, 1, 0x24, 0x38},
}

func ctrlProg(tokens ...string) []byte {
	var b []byte
	for _, t := range tokens {
		b = append(b, ctrlOps[t]...)
	}
	return b
}

func ctrlFont(x *ctrlIn) ([]byte, []query) {
	d := &fontDesc{
		upem: 1000, asc: 800, desc: -200, bbox: [4]int{0, 0, 1000, 1000},
		maxTwilight: 1, maxStorage: 1, maxStack: 100, maxFuncs: 8, longLoca: true, align: 2,
	}
	start := []byte{0xb7, 2, 1, 0, 2, 2, 1, 1, 1}
	if x.Where == "fpgm" {
		d.fpgm = append(append(append([]byte(nil), start...), ctrlProg(x.Pre...)...), ctrlProg("ENDF", "M")...)
	} else {
		// Functions 0 to 2: nothing; two marks, but one if there is a 1 on
		// the stack; and function 1 called twice.
		d.fpgm = []byte{
			0xb0, 0, 0x2c, 0x2d,
			0xb0, 1, 0x2c, 0x20, 0x58, 0xb0, 1, 0x24, 0x38, 0x1b, 0xb0, 1, 0x24, 0x38, 0xb0, 1, 0x24, 0x38, 0x59, 0x2d,
			0xb0, 2, 0x2c, 0xb1, 2, 1, 0x2a, 0xb0, 0, 0x2b, 0x2d,
		}
	}
	r := newRNG(1)
	var qs []query
	for i, p := range x.Progs {
		b := start
		if x.Where != "fpgm" {
			b = append(append([]byte(nil), start...), ctrlProg(x.Pre...)...)
		}
		b = append(append([]byte(nil), b...), ctrlProg(append(p, "M")...)...)
		d.glyphs = append(d.glyphs, simpleGlyph(r, [][]gpt{{{0, 0, true}, {500, 0, true}, {400, 300, true}}}, b))
		d.lsb = append(d.lsb, 0)
		d.adv = append(d.adv, 600)
		qs = append(qs, query{"glyph", []int{64 * 10, i, 2}})
	}
	d.cmap = simpleCmap(1)
	return d.bytes(), qs
}

func init() {
	modes["h01ctrl"] = mode{
		gen: func(r *rng, k int) interface{} { panic("h01ctrl needs inputs") },
		run: func(in json.RawMessage) interface{} {
			var x ctrlIn
			decode(in, &x)
			file, qs := ctrlFont(&x)
			return hintFaultOut{intsOf(file), qs, askAll(append([]byte(nil), file...), qs)}
		},
	}
}
