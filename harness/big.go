package main

// This file makes large versions of things, since what goes wrong with counts
// beyond some power of two does not show in small ones.

// longContours makes contours of many points, or many contours.
func longContours(r *rng) [][]gpt {
	var cs [][]gpt
	switch r.n(3) {
	case 0: // Long runs of equal flags.
		var c []gpt
		x, y := r.in(-300, 300), r.in(-300, 300)
		for run := r.in(1, 4); run > 0; run-- {
			dx, dy, on := r.pick(0, 0, 1, -1, 2), r.pick(0, 0, 1, -2, 3), r.p(1, 2)
			for n := r.pick(r.in(2, 60), r.in(120, 135), r.in(240, 280)); n > 0; n-- {
				x, y = x+dx, y+dy
				c = append(c, gpt{x, y, on})
			}
		}
		cs = append(cs, c)
	case 1: // Many contours.
		for n := r.pick(r.in(20, 40), r.in(60, 70), r.in(126, 135), 257); n > 0; n-- {
			var c []gpt
			x, y := r.in(-500, 500), r.in(-500, 500)
			for m := r.in(1, 4); m > 0; m-- {
				x, y = x+r.in(-50, 50), y+r.in(-50, 50)
				c = append(c, gpt{x, y, r.p(2, 3)})
			}
			cs = append(cs, c)
		}
	case 2:
		for n := r.in(1, 3); n > 0; n-- {
			var c []gpt
			for m := r.pick(r.in(20, 70), r.in(100, 300)); m > 0; m-- {
				c = append(c, gpt{r.in(-500, 500), r.in(-500, 500), r.p(2, 3)})
			}
			cs = append(cs, c)
		}
	}
	return cs
}

// enlarge makes some of the font's counts large; it returns glyphs worth a look.
func enlarge(r *rng, d *fontDesc) []int {
	var look []int
	n := len(d.lsb)
	switch r.n(4) {
	case 0: // A large glyph, and perhaps compounds of it.
		d.glyphs[0] = simpleGlyph(r, longContours(r), nil)
		look = append(look, 0, 0)
		if n > 1 && r.p(1, 2) {
			g := simpleGlyph(r, longContours(r), nil)
			for i := range d.glyphs {
				if i > 0 && len(d.glyphs[i]) > 1 && gs16(d.glyphs[i], 0) >= 0 {
					d.glyphs[i] = g
					look = append(look, i)
					break
				}
			}
		}
	case 1: // Many glyphs.
		m := r.pick(127, 128, 130, 255, 256, 257, 258, 300, 513)
		for len(d.lsb) < m {
			k := len(d.lsb)
			if r.p(1, 2) && len(d.adv) == k {
				d.adv = append(d.adv, r.n(2000))
			}
			d.lsb = append(d.lsb, r.in(-60, 60))
			switch {
			case k%16 < 14 && k < m-6:
				d.glyphs = append(d.glyphs, nil)
			case r.p(1, 3):
				d.glyphs = append(d.glyphs, randCompound(r, k, k))
			default:
				d.glyphs = append(d.glyphs, simpleGlyph(r, randContours(r, 500, 5), nil))
			}
			if r.p(8, m) {
				look = append(look, k)
			}
		}
		look = append(look, m-1, m-2, m-3, m-4, m, n)
		d.hdmx = randHdmx(r, m)
	case 2: // A chain of compounds.
		m := r.pick(5, 10, 20, 29, 30, 31, 32)
		for i := 0; i < m; i++ {
			k := len(d.lsb)
			d.lsb = append(d.lsb, r.in(-60, 60))
			g := k - 1
			if i == 0 {
				g = 0
			}
			d.glyphs = append(d.glyphs, compoundGlyph(r, [4]int{0, 0, 500, 500}, []component{{glyph: g, dx: r.in(-9, 9), dy: r.in(-9, 9), flags: r.pick(0, 4, 0x200)}}, nil))
		}
		look = append(look, len(d.lsb)-1, len(d.lsb)-2, len(d.lsb)-1-r.n(m))
	case 3: // A compound of many parts.
		k := len(d.lsb)
		var comps []component
		for m := r.pick(10, 40, 130, 257); m > 0; m-- {
			comps = append(comps, component{glyph: r.n(r.in(1, k)), dx: r.in(-200, 200), dy: r.in(-9, 9)})
		}
		d.lsb = append(d.lsb, r.in(-60, 60))
		d.glyphs = append(d.glyphs, compoundGlyph(r, [4]int{0, 0, 500, 500}, comps, nil))
		look = append(look, k)
	}
	if len(d.cmap) > 0 && r.p(1, 2) {
		d.cmap = simpleCmap(len(d.lsb))
	}
	return look
}
