package main

import "encoding/json"

// This file makes fonts of outlines from the specification's enumeration.

type shapeIn struct {
	Glyphs [][][][3]int `json:"glyphs"`
	O      faceOpts     `json:"o"`
	X      int          `json:"x"`
	Y      int          `json:"y"`
}

func shapeFont(x *shapeIn) f03In {
	d := &fontDesc{
		upem: 1000, asc: 800, desc: -200, bbox: [4]int{-200, -200, 1000, 1000},
		maxTwilight: 4, maxStorage: 8, maxStack: 64, maxFuncs: 8, longLoca: true, align: 2,
	}
	r := newRNG(1)
	y := f03In{O: x.O}
	for i, cs := range x.Glyphs {
		var g [][]gpt
		for _, c := range cs {
			var ps []gpt
			for _, p := range c {
				ps = append(ps, gpt{p[0], p[1], p[2] != 0})
			}
			g = append(g, ps)
		}
		d.glyphs = append(d.glyphs, simpleGlyph(r, g, nil))
		d.lsb = append(d.lsb, 0)
		d.adv = append(d.adv, 1000)
		y.C = append(y.C, faceCall{O: "face", R: 65 + i, X: x.X, Y: x.Y}, faceCall{O: "context", R: 65 + i, X: x.X, Y: x.Y})
	}
	d.cmap = textCmap(len(d.lsb))
	y.File = intsOf(d.bytes())
	return y
}

func init() {
	modes["f04shape"] = mode{
		gen: func(r *rng, k int) interface{} { panic("f04shape needs inputs") },
		run: func(in json.RawMessage) interface{} {
			var x shapeIn
			decode(in, &x)
			y := shapeFont(&x)
			raw, err := json.Marshal(y)
			if err != nil {
				panic(err)
			}
			return map[string]interface{}{"in": y, "out": runF04(raw)}
		},
	}
}
