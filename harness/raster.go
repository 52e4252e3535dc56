package main

import (
	"encoding/json"

	"github.com/golang/freetype/raster"
	"golang.org/x/image/math/fixed"
)

// op is one path operation: "S" x y, "L" x y, "Q" x y x y, "C" x y x y x y.
type op struct {
	O string `json:"o"`
	P []int  `json:"p"`
}

func pt(x, y int) fixed.Point26_6 {
	return fixed.Point26_6{X: fixed.Int26_6(x), Y: fixed.Int26_6(y)}
}

func apply(a raster.Adder, o op) {
	p := o.P
	switch o.O {
	case "S":
		a.Start(pt(p[0], p[1]))
	case "L":
		a.Add1(pt(p[0], p[1]))
	case "Q":
		a.Add2(pt(p[0], p[1]), pt(p[2], p[3]))
	case "C":
		a.Add3(pt(p[0], p[1]), pt(p[2], p[3]), pt(p[4], p[5]))
	}
}

// rasterOut is what a Painter receives: spans [y, x0, x1, alpha], the number
// of spans in each batch and the batches' done flags (0 or 1).
type rasterOut struct {
	Spans   [][4]int `json:"spans"`
	Batches []int    `json:"batches"`
	Dones   []int    `json:"dones"`
}

func newOut() *rasterOut {
	return &rasterOut{Spans: [][4]int{}, Batches: []int{}, Dones: []int{}}
}

func (c *rasterOut) Paint(ss []raster.Span, done bool) {
	for _, s := range ss {
		a := int(s.Alpha)
		c.Spans = append(c.Spans, [4]int{clampInt(s.Y), clampInt(s.X0), clampInt(s.X1), clampInt(a)})
	}
	c.Batches = append(c.Batches, len(ss))
	d := 0
	if done {
		d = 1
	}
	c.Dones = append(c.Dones, d)
}

type rasterIn struct {
	W   int  `json:"w"`
	H   int  `json:"h"`
	Dx  int  `json:"dx"`
	Dy  int  `json:"dy"`
	NZ  bool `json:"nz"`
	Ops []op `json:"ops"`
}

func (in *rasterIn) rasterize() *rasterOut {
	r := raster.NewRasterizer(in.W, in.H)
	r.UseNonZeroWinding = in.NZ
	r.Dx, r.Dy = in.Dx, in.Dy
	for _, o := range in.Ops {
		apply(r, o)
	}
	c := newOut()
	r.Rasterize(c)
	return c
}

func runRaster(raw json.RawMessage) interface{} {
	var in rasterIn
	decode(raw, &in)
	return in.rasterize()
}

func init() {
	modes["r01"] = mode{genR01, runRaster}
	modes["r02"] = mode{genR02, runRaster}
	modes["r04"] = mode{genR04, runR04}
}

// genR01 makes arbitrary, mostly open and wild, operation sequences.
func genR01(r *rng, k int) interface{} {
	in := rasterIn{W: r.in(0, 12), H: r.in(0, 12), NZ: r.p(1, 2)}
	if r.p(1, 3) {
		in.Dx, in.Dy = r.in(-50, 50), r.in(-50, 50)
	}
	if r.p(1, 8) { // many spans: several batches
		in.W, in.H = r.in(100, 200), r.in(1, 6)
	}
	if r.p(1, 20) {
		in.W, in.H = r.in(-3, 2), r.in(-3, 90)
	}
	if r.p(1, 60) { // thousands of cells
		in.W, in.H = r.in(30, 200), r.in(60, 140)
	}
	span := r.pick(64, 64, 200, 2000, 100000, 5000000)
	coord := func(w int) int {
		switch r.n(8) {
		case 0:
			return 64 * r.in(-1, w+1)
		case 1:
			return 64*r.in(-1, w+1) + r.in(-1, 1)
		case 2, 3:
			return r.in(-span, 64*w+span)
		}
		return r.in(-64, 64*w+64)
	}
	n := r.in(1, 14)
	if in.W >= 100 || in.W*in.H > 1500 {
		n = r.in(10, 80)
	}
	for i := 0; i < n; i++ {
		x := func() int { return coord(in.W) }
		y := func() int { return coord(in.H) }
		switch q := r.n(12); {
		case i == 0 && !r.p(1, 6) || q == 0:
			in.Ops = append(in.Ops, op{"S", []int{x(), y()}})
		case q <= 6:
			in.Ops = append(in.Ops, op{"L", []int{x(), y()}})
		case q <= 9:
			in.Ops = append(in.Ops, op{"Q", []int{x(), y(), x(), y()}})
		default:
			in.Ops = append(in.Ops, op{"C", []int{x(), y(), x(), y(), x(), y()}})
		}
	}
	return in
}

// genR02 makes closed polygons, on a lattice where edges cut pixel boundaries
// exactly, or anywhere.
func genR02(r *rng, k int) interface{} {
	in := rasterIn{W: r.in(1, 8), H: r.in(1, 8), NZ: r.p(1, 2)}
	if r.p(1, 12) || thorough && r.p(1, 3) {
		in.W, in.H = r.in(1, 20), r.in(1, 20)
	}
	if r.p(1, 40) {
		if in.W, in.H = r.in(100, 300), r.in(1, 3); r.p(1, 2) {
			in.W, in.H = in.H, in.W
		}
	}
	kind := r.n(6)
	polys := r.in(1, 3)
	if k%400 == 17 { // Thousands of cells.
		in.W, in.H = r.in(30, 60), r.in(66, 90)
		kind, polys = 5, r.in(8, 12)
	}
	var lo, hix, hiy int
	switch r.n(4) {
	case 3:
		b := r.pick(1000, 5000, 40000)
		lo, hix, hiy = -b, 64*in.W+b, 64*in.H+b
		if k%400 == 17 {
			lo, hix, hiy = 0, 64*in.W, 64*in.H
		}
	case 0:
		lo, hix, hiy = 0, 64*in.W, 64*in.H
	case 1:
		lo, hix, hiy = -130, 64*in.W+130, 64*in.H+130
	case 2:
		lo, hix, hiy = -400, 64*in.W+400, 64*in.H+400
	}
	rndx := func() int { return r.in(lo, hix) }
	rndy := func() int { return r.in(lo, hiy) }
	for p := 0; p < polys; p++ {
		var pts [][2]int
		switch kind {
		case 0: // rectangle
			x0, y0, x1, y1 := rndx(), rndy(), rndx(), rndy()
			if r.p(1, 4) {
				x0 &^= 63
			}
			if r.p(1, 4) {
				y1 &^= 63
			}
			pts = [][2]int{{x0, y0}, {x1, y0}, {x1, y1}, {x0, y1}}
		case 1: // lattice-exact slopes: 0, 1, 1/2, 2, ...
			x, y := rndx()&^3, rndy()&^3
			x0 := x
			pts = append(pts, [2]int{x, y})
			for i := r.in(1, 4); i > 0; i-- {
				d := r.in(-40, 40) * 4
				switch r.n(5) {
				case 0:
					x += d
				case 1:
					y += d
				case 2:
					x, y = x+d, y+d
				case 3:
					x, y = x+d, y-d
				case 4:
					x, y = x+2*d, y+d/2*2
				}
				pts = append(pts, [2]int{x, y})
			}
			pts = append(pts, [2]int{x0, y})
		case 2: // pixel-corner polygons
			for i := r.in(2, 6); i >= 0; i-- {
				pts = append(pts, [2]int{rndx() &^ 63, rndy() &^ 63})
			}
		default:
			for i := r.in(2, 6); i >= 0; i-- {
				x, y := rndx(), rndy()
				if r.p(1, 5) {
					x &^= 63
				}
				if r.p(1, 5) {
					y &^= 63
				}
				if len(pts) > 0 && r.p(1, 6) {
					x = pts[len(pts)-1][0]
				} else if len(pts) > 0 && r.p(1, 8) {
					y = pts[len(pts)-1][1]
				}
				pts = append(pts, [2]int{x, y})
			}
		}
		if r.p(1, 2) {
			for i, j := 0, len(pts)-1; i < j; i, j = i+1, j-1 {
				pts[i], pts[j] = pts[j], pts[i]
			}
		}
		in.Ops = append(in.Ops, op{"S", []int{pts[0][0], pts[0][1]}})
		for _, q := range pts[1:] {
			in.Ops = append(in.Ops, op{"L", []int{q[0], q[1]}})
		}
		in.Ops = append(in.Ops, op{"L", []int{pts[0][0], pts[0][1]}})
	}
	return in
}

// r04In marks what kind of curves the case has: "any", "even" (only evenly
// spaced control points) or a single curve that is the graph of a function of
// x or y with slope at most 1.
type r04In struct {
	rasterIn
	Kind string `json:"kind"`
}

func runR04(raw json.RawMessage) interface{} {
	var in r04In
	decode(raw, &in)
	return in.rasterize()
}

// genR04 makes closed paths with curved segments.
func genR04(r *rng, k int) interface{} {
	switch r.n(8) {
	case 0, 1, 2, 3:
		return genR04Graph(r)
	case 4:
		return genR04Even(r)
	}
	return r04In{genR04Any(r), "any"}
}

// r04Size picks bounds in one of the rasterizer's size classes.
func r04Size(r *rng) (w, h int) {
	w, h = r.in(4, 14), r.in(4, 14)
	switch r.n(6) {
	case 0: // middle size class
		if r.p(1, 2) {
			w = r.in(25, 60)
		} else {
			h = r.in(25, 60)
		}
	case 1: // large size class
		if r.p(1, 2) {
			w, h = r.in(121, 140), r.in(4, 8)
		} else {
			h, w = r.in(121, 140), r.in(4, 8)
		}
	case 2: // at the edges of the classes
		if r.p(1, 2) {
			w, h = r.pick(24, 25, 120, 121), r.in(4, 8)
		} else {
			h, w = r.pick(24, 25, 120, 121), r.in(4, 8)
		}
	}
	return
}

func genR04Graph(r *rng) r04In {
	in := r04In{Kind: "graphx"}
	in.NZ = r.p(1, 2)
	n := r.pick(10, 20, 24, 25, 60, 119, 120, 121, 130, 140)
	W := 64 * n
	h := n/10 + r.in(3, 8)
	H := 64 * h
	lim := W / 3
	y := func() int { return Hclamp(H/2+r.in(-lim, lim)*3/4, H) }
	xs := []int{0, W / 3, 2 * W / 3, W}
	if r.p(1, 2) {
		xs[1], xs[2] = r.in(0, W/2), r.in(W/2, W)
	}
	var curve []op
	y0, y3 := y(), y()
	if r.p(1, 2) {
		xs[1] = W / 2
		curve = []op{{"S", []int{0, y0}}, {"Q", []int{xs[1], (y0+y3)/2 + r.in(-W/4, W/4), W, y3}}}
	} else {
		xs[1], xs[2] = W/3, 2*W/3
		b := (2*y0+y3)/3 + r.in(-W/6, W/6)
		c := (y0+2*y3)/3 + r.in(-W/6, W/6)
		if r.p(1, 2) {
			b, c = r.in(-H, 2*H), r.in(-H, 2*H)
		}
		curve = []op{{"S", []int{0, y0}}, {"C", []int{xs[1], b, xs[2], c, W, y3}}}
	}
	in.Ops = append(curve, op{"L", []int{W, H}}, op{"L", []int{0, H}}, op{"L", []int{0, y0}})
	in.W, in.H = n, h
	if r.p(1, 2) {
		in.Kind = "graphy"
		in.W, in.H = h, n
		for _, o := range in.Ops {
			for i := 0; i < len(o.P); i += 2 {
				o.P[i], o.P[i+1] = o.P[i+1], o.P[i]
			}
		}
	}
	return in
}

// Hclamp keeps y well inside [0, H].
func Hclamp(y, H int) int {
	if y < 128 {
		return 128
	}
	if y > H-128 {
		return H - 128
	}
	return y
}

func genR04Even(r *rng) r04In {
	in := r04In{Kind: "even"}
	in.W, in.H = r04Size(r)
	in.NZ = r.p(1, 2)
	x0, y0 := 4*r.in(0, 16*in.W), 4*r.in(0, 16*in.H)
	x, y := x0, y0
	in.Ops = append(in.Ops, op{"S", []int{x0, y0}})
	for n := r.in(2, 5); n > 0; n-- {
		// The end point differs by a multiple of 24 so that halves, thirds and
		// quarters are exact.
		ex := x + 24*((r.in(0, 64*in.W)-x)/24)
		ey := y + 24*((r.in(0, 64*in.H)-y)/24)
		dx, dy := ex-x, ey-y
		switch r.n(3) {
		case 0:
			in.Ops = append(in.Ops, op{"L", []int{ex, ey}})
		case 1:
			in.Ops = append(in.Ops, op{"Q", []int{x + dx/2, y + dy/2, ex, ey}})
		case 2:
			in.Ops = append(in.Ops, op{"C", []int{x + dx/3, y + dy/3, x + 2*dx/3, y + 2*dy/3, ex, ey}})
		}
		x, y = ex, ey
	}
	in.Ops = append(in.Ops, op{"L", []int{x0, y0}})
	return in
}

func genR04Any(r *rng) rasterIn {
	in := rasterIn{NZ: r.p(1, 2)}
	in.W, in.H = r04Size(r)
	big := 0
	if r.p(1, 4) {
		big = r.pick(100, 600)
	}
	lo := -r.pick(0, 0, 64, 200) - big
	rndx := func() int { return r.in(lo, 64*in.W-lo) }
	rndy := func() int { return r.in(lo, 64*in.H-lo) }
	for c := r.in(1, 2); c > 0; c-- {
		x0, y0 := rndx(), rndy()
		in.Ops = append(in.Ops, op{"S", []int{x0, y0}})
		n := r.in(1, 4)
		for i := 0; i < n; i++ {
			ex, ey := rndx(), rndy()
			if i == n-1 {
				ex, ey = x0, y0
			}
			switch r.n(5) {
			case 0:
				in.Ops = append(in.Ops, op{"L", []int{ex, ey}})
			case 1, 2:
				in.Ops = append(in.Ops, op{"Q", []int{rndx(), rndy(), ex, ey}})
			default:
				in.Ops = append(in.Ops, op{"C", []int{rndx(), rndy(), rndx(), rndy(), ex, ey}})
			}
		}
	}
	return in
}

// histCall is one call on a long-lived rasterizer.
type histCall struct {
	O   string `json:"o"`
	P   []int  `json:"p"`
	Ops []op   `json:"ops,omitempty"`
}

type histIn struct {
	Calls []histCall `json:"calls"`
}

type histOut struct {
	Rasters []map[string]*rasterOut `json:"rasters"`
}

func runR03(raw json.RawMessage) interface{} {
	var in histIn
	decode(raw, &in)
	r := raster.NewRasterizer(4, 3)
	cur := rasterIn{W: 4, H: 3}
	out := histOut{Rasters: []map[string]*rasterOut{}}
	for _, c := range in.Calls {
		switch c.O {
		case "P":
			var p raster.Path
			for _, o := range c.Ops {
				apply(&p, o)
			}
			r.AddPath(p)
			cur.Ops = append(cur.Ops, c.Ops...)
		case "clear":
			r.Clear()
			cur.Ops = nil
		case "bounds":
			r.SetBounds(c.P[0], c.P[1])
			cur.W, cur.H, cur.Ops = c.P[0], c.P[1], nil
		case "nz":
			r.UseNonZeroWinding = c.P[0] == 1
			cur.NZ = c.P[0] == 1
		case "off":
			r.Dx, r.Dy = c.P[0], c.P[1]
			cur.Dx, cur.Dy = c.P[0], c.P[1]
		case "raster":
			got := newOut()
			r.Rasterize(got)
			out.Rasters = append(out.Rasters, map[string]*rasterOut{"got": got, "fresh": cur.rasterize()})
		default:
			o := op{c.O, c.P}
			apply(r, o)
			cur.Ops = append(cur.Ops, o)
		}
	}
	return out
}

type moveIn struct {
	rasterIn
	Mx int `json:"mx"`
	My int `json:"my"`
}

func runR03Move(raw json.RawMessage) interface{} {
	var in moveIn
	decode(raw, &in)
	base := in.rasterize()
	m := in.rasterIn
	m.W += in.Mx
	m.H += in.My
	m.Ops = nil
	for _, o := range in.Ops {
		p := append([]int(nil), o.P...)
		for i := range p {
			if i&1 == 0 {
				p[i] += 64 * in.Mx
			} else {
				p[i] += 64 * in.My
			}
		}
		m.Ops = append(m.Ops, op{o.O, p})
	}
	return map[string]*rasterOut{"base": base, "moved": m.rasterize()}
}

// genR03Long makes long histories with random shapes (many cells per row, so
// that the cell buffer grows).
func genR03Long(r *rng, k int) interface{} {
	var in histIn
	w, h := 4, 3
	big := k%120 == 7 // thousands of cells
	n := r.in(3, 8)
	if big {
		n = 3
	}
	for ; n > 0; n-- {
		if r.p(1, 2) {
			w, h = r.in(0, 60), r.in(0, 12)
			if r.p(1, 5) {
				h = r.in(60, 70)
				w = 6
			}
			if big && r.p(1, 2) {
				w, h = r.in(30, 50), r.in(50, 80)
			}
			in.Calls = append(in.Calls, histCall{O: "bounds", P: []int{w, h}})
		} else if r.p(1, 2) {
			in.Calls = append(in.Calls, histCall{O: "clear", P: []int{}})
		}
		if r.p(1, 3) {
			in.Calls = append(in.Calls, histCall{O: "nz", P: []int{r.n(2)}})
		}
		if r.p(1, 3) {
			in.Calls = append(in.Calls, histCall{O: "off", P: []int{r.in(-9, 9), r.in(-9, 9)}})
		}
		for m := r.in(0, 3); m > 0; m-- {
			var ops []op
			q := r.in(1, r.pick(4, 12))
			if big {
				q = 30
			}
			for ; q > 0; q-- {
				x, y := r.in(-64, 64*w+64), r.in(-64, 64*h+64)
				if len(ops) == 0 && r.p(3, 4) {
					ops = append(ops, op{"S", []int{x, y}})
				} else if r.p(1, 5) {
					ops = append(ops, op{"Q", []int{x, y, r.in(-64, 64*w+64), r.in(-64, 64*h+64)}})
				} else {
					ops = append(ops, op{"L", []int{x, y}})
				}
			}
			if r.p(1, 2) {
				in.Calls = append(in.Calls, histCall{O: "P", P: []int{}, Ops: ops})
			} else {
				for _, o := range ops {
					in.Calls = append(in.Calls, histCall{O: o.O, P: o.P})
				}
			}
		}
		in.Calls = append(in.Calls, histCall{O: "raster", P: []int{1}})
		if r.p(1, 3) {
			in.Calls = append(in.Calls, histCall{O: "raster", P: []int{1}})
		}
	}
	return in
}

func genR03Move(r *rng, k int) interface{} {
	var in moveIn
	curved := r.p(1, 3)
	if curved {
		in.rasterIn = genR04Any(r)
		in.W, in.H = r.in(3, 8), r.in(3, 8)
		for _, o := range in.Ops {
			for i := range o.P {
				if o.P[i] < 0 {
					o.P[i] = -o.P[i]
				}
			}
		}
	} else {
		in.rasterIn = genR02(r, k).(rasterIn)
	}
	in.Mx, in.My = r.in(0, 6), r.in(0, 6)
	return in
}

func init() {
	modes["r03"] = mode{genR03Long, runR03}
	modes["r03move"] = mode{genR03Move, runR03Move}
}
