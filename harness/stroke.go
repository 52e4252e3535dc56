package main

import (
	"encoding/json"
	"math"

	"github.com/golang/freetype/raster"
	"golang.org/x/image/math/fixed"
)

func init() {
	modes["s01"] = mode{genS01, runS01}
	modes["s02"] = mode{genS02, runS02}
	modes["s02path"] = mode{genS02Path, runS02Path}
}

func capper(i int) raster.Capper {
	return []raster.Capper{nil, raster.RoundCapper, raster.ButtCapper, raster.SquareCapper}[i]
}

func joiner(i int) raster.Joiner {
	return []raster.Joiner{nil, raster.RoundJoiner, raster.BevelJoiner}[i]
}

type s01In struct {
	W     int  `json:"w"`
	H     int  `json:"h"`
	Width int  `json:"width"`
	Cap   int  `json:"cap"`
	Join  int  `json:"join"`
	Ops   []op `json:"ops"`
}

func makePath(ops []op) raster.Path {
	p := raster.Path{}
	for _, o := range ops {
		apply(&p, o)
	}
	return p
}

func dist(a, b [2]int) float64 { return math.Hypot(float64(a[0]-b[0]), float64(a[1]-b[1])) }

func genS01(r *rng, k int) interface{} {
	in := s01In{W: r.in(16, 26), H: r.in(16, 26), Cap: r.n(4), Join: r.n(3)}
	in.Width = r.in(128, 900)
	long := k%25 == 11
	if long {
		in.W, in.H = r.in(40, 60), r.in(40, 60)
		in.Width = r.pick(r.in(128, 900), r.in(900, 1800))
	}
	hw := float64(in.Width) / 2
	margin := 0
	if r.p(1, 2) {
		margin = min(in.Width/2, 400)
	}
	node := func() [2]int {
		p := [2]int{r.in(margin, 64*in.W-margin), r.in(margin, 64*in.H-margin)}
		if r.p(1, 6) {
			p[0] &^= 63
		}
		if r.p(1, 6) {
			p[1] &^= 63
		}
		return p
	}
	minLen := math.Max(hw, 64)
	a := node()
	in.Ops = append(in.Ops, op{"S", []int{a[0], a[1]}})
	if k%3 == 2 { // with curves
		sharp := r.p(1, 3)
		n := r.pick(1, 1, 2, 3)
		if long {
			n = r.in(3, 8)
		}
		for i := 0; i < 400 && n > 0; i++ {
			b, c := node(), node()
			if n > 1 && r.p(1, 2) || len(in.Ops) > 1 && r.p(1, 4) {
				if dist(a, b) >= minLen+2 {
					in.Ops = append(in.Ops, op{"L", []int{b[0], b[1]}})
					a = b
					n--
				}
				continue
			}
			if sharp && r.p(1, 3) { // back along itself
				c = [2]int{a[0] + r.in(-40, 40), a[1] + r.in(-40, 40)}
			}
			ab, bc := dist(a, b), dist(b, c)
			dot := float64((b[0]-a[0])*(c[0]-b[0]) + (b[1]-a[1])*(c[1]-b[1]))
			if ab < 1.5*minLen || bc < 1.5*minLen || dot < -0.2*ab*bc && !sharp {
				continue
			}
			in.Ops = append(in.Ops, op{"Q", []int{b[0], b[1], c[0], c[1]}})
			a = c
			n--
		}
		if len(in.Ops) == 1 {
			in.Ops = append(in.Ops, op{"L", []int{a[0] + in.Width, a[1]}})
		}
		return in
	}
	n := r.in(1, 4)
	if long {
		n = r.in(5, 20)
	}
	for i := 0; i < 300 && n > 0; i++ {
		b := node()
		if r.p(1, 8) {
			b[0] = a[0]
		} else if r.p(1, 8) {
			b[1] = a[1]
		}
		if dist(a, b) < minLen+2 {
			continue
		}
		in.Ops = append(in.Ops, op{"L", []int{b[0], b[1]}})
		a = b
		n--
	}
	if len(in.Ops) == 1 {
		in.Ops = append(in.Ops, op{"L", []int{a[0] + in.Width, a[1] - in.Width}})
	}
	return in
}

func runS01(raw json.RawMessage) interface{} {
	var in s01In
	decode(raw, &in)
	z := raster.NewRasterizer(in.W, in.H)
	z.UseNonZeroWinding = true
	z.AddStroke(makePath(in.Ops), fixed.Int26_6(in.Width), capper(in.Cap), joiner(in.Join))
	out := newOut()
	z.Rasterize(out)
	return out
}

// ------------------------------------------------------------------ S02

// recorder is an Adder that records the operations it gets.
type recorder struct{ ops []op }

func (c *recorder) Start(a fixed.Point26_6) {
	c.ops = append(c.ops, op{"S", []int{int(a.X), int(a.Y)}})
}
func (c *recorder) Add1(a fixed.Point26_6) { c.ops = append(c.ops, op{"L", []int{int(a.X), int(a.Y)}}) }
func (c *recorder) Add2(a, b fixed.Point26_6) {
	c.ops = append(c.ops, op{"Q", []int{int(a.X), int(a.Y), int(b.X), int(b.Y)}})
}
func (c *recorder) Add3(a, b, d fixed.Point26_6) {
	c.ops = append(c.ops, op{"C", []int{int(a.X), int(a.Y), int(b.X), int(b.Y), int(d.X), int(d.Y)}})
}

type s02In struct {
	Width int  `json:"width"`
	Style int  `json:"style"` // what the custom joiner adds on the right: a line, quadratic or cubic
	Cap   int  `json:"cap"`
	Join  int  `json:"join"`
	Ops   []op `json:"ops"`
}

func genS02(r *rng, k int) interface{} {
	in := s02In{Width: r.in(64, 800), Style: r.in(1, 3), Cap: r.n(4), Join: r.n(3), Ops: []op{}}
	pos := func(a [2]int) [2]int {
		for {
			b := [2]int{a[0] + r.in(-700, 700), a[1] + r.in(-700, 700)}
			if dist(a, b) >= 70 {
				return b
			}
		}
	}
	for n := r.in(1, 4); n > 0; n-- {
		a := [2]int{r.in(-200, 2000), r.in(-200, 2000)}
		in.Ops = append(in.Ops, op{"S", []int{a[0], a[1]}})
		m := r.pick(0, 1, 2, 3, 4)
		if k%60 == 31 {
			m = r.in(10, 60)
		}
		for ; m > 0; m-- {
			b := pos(a)
			if r.p(1, 3) {
				c := pos(b)
				in.Ops = append(in.Ops, op{"Q", []int{b[0], b[1], c[0], c[1]}})
				b = c
			} else {
				in.Ops = append(in.Ops, op{"L", []int{b[0], b[1]}})
			}
			a = b
		}
	}
	if r.p(1, 20) {
		in.Ops = []op{}
	}
	return in
}

// capCall and joinCall record the arguments of a custom Capper and Joiner.
type capCall struct {
	HW    int    `json:"hw"`
	Pivot [2]int `json:"pivot"`
	N1    [2]int `json:"n1"`
}
type joinCall struct {
	HW    int    `json:"hw"`
	Pivot [2]int `json:"pivot"`
	N0    [2]int `json:"n0"`
	N1    [2]int `json:"n1"`
}

type s02Out struct {
	All     []op       `json:"all"`     // the operations of the stroke of the whole path
	Each    [][]op     `json:"each"`    // those of the strokes of its curves
	ViaPath []int      `json:"viapath"` // what AddStroke adds to a Path
	Pixels  *rasterOut `json:"pixels"`  // what AddStroke adds to a Rasterizer
	Replay  *rasterOut `json:"replay"`  // all, issued to a Rasterizer
	Round   []op       `json:"round"`   // with the round cap and join given explicitly
	Nil     []op       `json:"nil"`     // with none given
	Custom  []op       `json:"custom"`  // with the custom cap and join
	Caps    []capCall  `json:"caps"`
	Joins   []joinCall `json:"joins"`
}

func xy(p fixed.Point26_6) [2]int { return [2]int{int(p.X), int(p.Y)} }

func runS02(raw json.RawMessage) interface{} {
	var in s02In
	decode(raw, &in)
	w := fixed.Int26_6(in.Width)
	rec := func(ops []op, cr raster.Capper, jr raster.Joiner) []op {
		c := &recorder{ops: []op{}}
		raster.Stroke(c, makePath(ops), w, cr, jr)
		return c.ops
	}
	out := s02Out{Each: [][]op{}, Caps: []capCall{}, Joins: []joinCall{}, ViaPath: []int{}}
	cr, jr := capper(in.Cap), joiner(in.Join)
	out.All = rec(in.Ops, cr, jr)
	var cur []op
	for i, o := range in.Ops {
		if o.O == "S" && i > 0 {
			out.Each = append(out.Each, rec(cur, cr, jr))
			cur = nil
		}
		cur = append(cur, o)
	}
	if cur != nil {
		out.Each = append(out.Each, rec(cur, cr, jr))
	}
	vp := raster.Path{}
	vp.AddStroke(makePath(in.Ops), w, cr, jr)
	for _, v := range vp {
		out.ViaPath = append(out.ViaPath, int(v))
	}
	out.Pixels, out.Replay = newOut(), newOut()
	for i, o := range []*rasterOut{out.Pixels, out.Replay} {
		z := raster.NewRasterizer(30, 30)
		z.UseNonZeroWinding = true
		if i == 0 {
			z.AddStroke(makePath(in.Ops), w, cr, jr)
		} else {
			for _, q := range out.All {
				apply(z, q)
			}
		}
		z.Rasterize(o)
	}
	out.Round = rec(in.Ops, raster.RoundCapper, raster.RoundJoiner)
	out.Nil = rec(in.Ops, nil, nil)
	out.Custom = rec(in.Ops,
		raster.CapperFunc(func(p raster.Adder, hw fixed.Int26_6, pivot, n1 fixed.Point26_6) {
			out.Caps = append(out.Caps, capCall{int(hw), xy(pivot), xy(n1)})
			p.Add1(pivot.Add(n1))
		}),
		raster.JoinerFunc(func(lhs, rhs raster.Adder, hw fixed.Int26_6, pivot, n0, n1 fixed.Point26_6) {
			out.Joins = append(out.Joins, joinCall{int(hw), xy(pivot), xy(n0), xy(n1)})
			lhs.Add1(pivot.Add(n1))
			k := len(out.Joins)
			x, y := pivot.Add(pt(k, 7)), pivot.Add(pt(9, k))
			switch in.Style {
			case 1:
				rhs.Add1(pivot.Sub(n1))
			case 2:
				rhs.Add2(x, pivot.Sub(n1))
			case 3:
				rhs.Add3(x, y, pivot.Sub(n1))
			}
		}))
	return out
}

// s02Path: a history of operations on two paths. Calls: "S", "L", "Q", "C" on
// the first, "clear", "swap" (the other becomes the first), "P" (the other is
// added to the first).
func genS02Path(r *rng, k int) interface{} {
	ops := []op{}
	c := func(n int) []int {
		p := []int{}
		for i := 0; i < n; i++ {
			p = append(p, r.pick(r.in(-100, 100), r.in(0, 4), r.in(-1<<30, 1<<30)))
		}
		return p
	}
	n, kinds := r.in(0, 25), 10
	if k%50 == 23 {
		n, kinds = r.in(60, 300), 25
	}
	sums := 0
	for ; n > 0; n-- {
		switch r.n(kinds) {
		case 0:
			ops = append(ops, op{"clear", []int{}})
		case 1, 2:
			ops = append(ops, op{"swap", []int{}})
		case 3, 4:
			if sums++; sums < 12 { // They may double the path.
				ops = append(ops, op{"P", []int{}})
			}
		case 5, 6:
			ops = append(ops, op{"L", c(2)})
		case 7:
			ops = append(ops, op{"Q", c(4)})
		case 8:
			ops = append(ops, op{"C", c(6)})
		default:
			ops = append(ops, op{"S", c(2)})
		}
	}
	return map[string]interface{}{"calls": ops}
}

func runS02Path(raw json.RawMessage) interface{} {
	var in struct {
		Calls []op `json:"calls"`
	}
	decode(raw, &in)
	a, b := &raster.Path{}, &raster.Path{}
	for _, o := range in.Calls {
		switch o.O {
		case "clear":
			a.Clear()
		case "swap":
			a, b = b, a
		case "P":
			a.AddPath(*b)
		default:
			apply(a, o)
		}
	}
	list := func(p raster.Path) []int {
		out := []int{}
		for _, v := range p {
			out = append(out, int(v))
		}
		return out
	}
	return map[string]interface{}{"a": list(*a), "b": list(*b), "text": a.String()}
}
