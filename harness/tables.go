package main

import "encoding/json"

// This file makes fonts of small character maps, kerning tables and metrics
// from the specification's enumeration.

type tableIn struct {
	Segs []struct {
		S int   `json:"s"`
		E int   `json:"e"`
		D int   `json:"d"`
		G []int `json:"g"`
	} `json:"segs"`
	Fmt   int      `json:"fmt"`
	Pairs [][3]int `json:"pairs"`
	NH    int      `json:"nh"`
	Q     []query  `json:"q"`
}

func tableFont(x *tableIn) []byte {
	d := &fontDesc{upem: 1000, asc: 800, desc: -200, bbox: [4]int{0, 0, 1000, 1000}, align: 2, maxStack: 9, maxFuncs: 1, maxStorage: 1, maxTwilight: 1}
	for i := 0; i < 5; i++ {
		d.glyphs = append(d.glyphs, nil)
		d.lsb = append(d.lsb, 7*i-9)
		if i < x.NH {
			d.adv = append(d.adv, 500+31*i)
		}
	}
	var segs []cseg
	for _, s := range x.Segs {
		c := cseg{start: s.S, end: s.E, delta: s.D & 0xffff}
		if len(s.G) > 0 {
			c.glyphs = s.G
		}
		segs = append(segs, c)
	}
	if x.Fmt == 12 {
		d.cmap = cmapTable([][3]int{{3, 10, 0}}, [][]byte{cmapFormat12(segs)})
	} else {
		segs = append(segs, cseg{start: 0xffff, end: 0xffff, delta: 1})
		d.cmap = cmapTable([][3]int{{3, 1, 0}}, [][]byte{cmapFormat4(segs)})
	}
	if len(x.Pairs) > 0 {
		d.kern = kernTable(x.Pairs)
	}
	return d.bytes()
}

func init() {
	modes["p02table"] = mode{
		gen: func(r *rng, k int) interface{} { panic("p02table needs inputs") },
		run: func(in json.RawMessage) interface{} {
			var x tableIn
			decode(in, &x)
			file := tableFont(&x)
			return map[string]interface{}{"file": intsOf(file), "res": askAll(append([]byte(nil), file...), x.Q)}
		},
	}
}
