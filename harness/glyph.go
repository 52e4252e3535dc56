package main

// glyphQueries asks for glyphs of a font, at scales for which the arithmetic stays small.
func glyphQueries(r *rng, d *fontDesc, n int, hintings ...int) []query {
	var qs []query
	scales := []int{d.upem, 64 * r.in(5, 60), r.in(1, 4000), 64 * r.pick(8, 9, 10, 12, 16), d.upem / 2, 2 * d.upem}
	if len(hintings) > 1 || hintings[0] == 0 {
		scales = append(scales, 0, 1)
	}
	k := len(d.lsb)
	for i := 0; i < n; i++ {
		g := i % (k + 1)
		if g == k && !r.p(1, 3) {
			g = r.n(k)
		}
		qs = append(qs, query{"glyph", []int{scales[r.n(len(scales))], g, hintings[r.n(len(hintings))]}})
	}
	return qs
}

// bigQueries asks for glyphs of the font, and now and then enlarges it first.
func bigQueries(r *rng, k int, d *fontDesc, hintings ...int) []query {
	qs := glyphQueries(r, d, r.in(len(d.lsb), 2*len(d.lsb)), hintings...)
	if k%20 == 3 {
		look := enlarge(r, d)
		if len(qs) > 4 {
			qs = qs[:4]
		}
		for _, g := range look {
			q := qs[r.n(len(qs))]
			qs = append(qs, query{"glyph", []int{q.A[0], g, hintings[r.n(len(hintings))]}})
		}
	}
	return qs
}

func init() {
	modes["g01"] = mode{
		gen: func(r *rng, k int) interface{} {
			d := randFont(r, "plain")
			if k%40 == 7 {
				f := realFont(realNames[r.n(3)])
				d = subset(f, []int{r.n(250), r.n(250), r.n(250)})
				d.fpgm, d.prep, d.cvt = nil, nil, nil
			}
			q := bigQueries(r, k, d, 0)
			return fontIn{intsOf(d.bytes()), q}
		},
		run: runFont,
	}
	modes["g03"] = mode{
		gen: func(r *rng, k int) interface{} {
			d := randFont(r, "plain")
			q := bigQueries(r, k, d, 0, 1, 2)
			return fontIn{intsOf(d.bytes()), q}
		},
		run: runFont,
	}
}
