package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"image"
	"image/color"
	"runtime"
	"sync"

	"github.com/golang/freetype"
	"github.com/golang/freetype/truetype"
	"golang.org/x/image/font"
)

// This file drives users that share one parsed font, each with a glyph
// buffer, a face and a drawing context of its own.

// A sharedOp is one user's operation; A and B choose its arguments.
type sharedOp struct {
	P int    `json:"p"` // user, from 1
	O string `json:"o"`
	A int    `json:"a"`
	B int    `json:"b"`
	H int    `json:"h"`
}

type sharedIn struct {
	Seed int        `json:"seed"`
	N    int        `json:"n"` // users
	Hist []sharedOp `json:"hist"`
}

type sharedAns struct {
	P   int    `json:"p"`
	Q   query  `json:"q"`
	Ans answer `json:"ans"`
}

type sharedOut struct {
	File   []int        `json:"file"`
	Before string       `json:"before"` // digests of the font's bytes
	After  string       `json:"after"`
	Alone  [][]string   `json:"alone"` // per user, the results when nobody else uses the font
	Turns  [][]string   `json:"turns"` // when the users take turns as the history says
	Conc   [][][]string `json:"conc"`  // when they run at the same time, each more than once
	Later  [][]string   `json:"later"` // alone again, on the font that all have used
	Ans    []sharedAns  `json:"ans"`   // what the specification can judge
}

type sharedWorld struct {
	bytes  []byte
	font   *truetype.Font
	n      int
	scales [3]int
	opts   []faceOpts
}

type sharedUser struct {
	w    *sharedWorld
	f    *truetype.Font
	buf  *truetype.GlyphBuf
	face font.Face
	ctx  *freetype.Context
	dst  *image.RGBA
}

func (w *sharedWorld) user(p int) *sharedUser {
	u := &sharedUser{w: w, f: w.font, buf: new(truetype.GlyphBuf)}
	o := w.opts[p]
	u.face = o.face(w.font)
	u.ctx = newContext(w.font, o)
	u.dst = image.NewRGBA(image.Rect(0, 0, 40, 30))
	u.ctx.SetDst(u.dst)
	u.ctx.SetClip(u.dst.Rect)
	u.ctx.SetSrc(image.NewUniform(color.RGBA{200, 100, 50, 255}))
	return u
}

func (w *sharedWorld) query(op sharedOp) (query, bool) {
	s, g := w.scales[op.A%3], op.B%(w.n+1)
	switch op.O {
	case "glyph":
		return query{op.O, []int{s, g, op.H}}, true
	case "index":
		return query{op.O, []int{[]int{65, 66, 321, 322, 67, 0x10ffff, 0, 68}[op.B%8]}}, true
	case "hm", "vm":
		return query{op.O, []int{s, g}}, true
	case "kern":
		return query{op.O, []int{s, g, (op.A + op.B) % (w.n + 1)}}, true
	case "bounds":
		return query{op.O, []int{s}}, true
	case "name":
		return query{op.O, []int{op.B}}, true
	case "upem":
		return query{op.O, []int{}}, true
	}
	return query{}, false
}

func digest(v interface{}) string {
	b, err := json.Marshal(v)
	must(err)
	if len(b) > 120 {
		return fmt.Sprintf("%x", sha256.Sum256(b))[:24]
	}
	return string(b)
}

// do runs op and returns its result.
func (u *sharedUser) do(op sharedOp) interface{} {
	if q, ok := u.w.query(op); ok {
		if op.O == "glyph" {
			err := u.buf.Load(u.f, fix(q.A[0]), truetype.Index(q.A[1]), font.Hinting(q.A[2]))
			return answer{V: []int{}, G: glyphOf(u.buf, err)}
		}
		return ask(u.f, q)
	}
	r := 65 + op.B%(u.w.n+1)
	if op.H == 1 {
		r += 256
	}
	switch op.O {
	case "face":
		if tooBig(u.face, r) {
			return callFace(u.face, faceCall{O: "adv", R: r})
		}
		return callFace(u.face, faceCall{O: "glyph", R: r, X: 64*op.H + faceFracs[2*op.A], Y: 640})
	case "fbounds":
		return callFace(u.face, faceCall{O: "bounds", R: r})
	case "fkern":
		return callFace(u.face, faceCall{O: "kern", R: r, R2: 65 + op.A%(u.w.n+1)})
	case "draw":
		if tooBig(u.face, r) {
			return 0
		}
		p, err := u.ctx.DrawString(string(rune(r))+string(rune(65+op.A%(u.w.n+1))), pt(64*5+16*op.H, 64*15))
		return []interface{}{int(p.X), int(p.Y), err == nil, fmt.Sprintf("%x", sha256.Sum256(u.dst.Pix))}
	case "parse": // the same bytes again
		f, err := truetype.Parse(u.w.bytes)
		must(err)
		u.f = f
		return ask(f, query{"hm", []int{u.w.scales[op.A%3], op.B % (u.w.n + 1)}})
	}
	panic("harness: unknown operation " + op.O)
}

func runShared(in json.RawMessage) interface{} {
	var x sharedIn
	decode(in, &x)
	r := newRNG(uint64(x.Seed))
	var d *fontDesc
	switch r.n(4) {
	case 0:
		d = envFont(r)
	case 1:
		d = hintedFont(r, 0)
	case 2:
		d = subset(realFont(realNames[r.n(3)]), []int{r.n(200), r.n(200)})
	default:
		d = textFont(r)
	}
	d.ttc, d.shuffle = 0, 0
	d.cmap = textCmap(len(d.lsb))
	d.kern = randKern(r, len(d.lsb), 20)
	b := d.bytes()
	var opts []faceOpts
	for i := 0; i < x.N; i++ {
		opts = append(opts, faceOpts{Size: r.in(30, 60), DPI: 72, H: r.pick(0, 1, 2, 2), E: r.pick(0, 1, 2), SX: r.pick(0, 1, 4)})
	}
	if r.p(1, 2) {
		for i := range opts {
			opts[i].Size, opts[i].H = opts[0].Size, opts[0].H
		}
	}
	scales := [3]int{64 * r.in(8, 30), r.in(300, 3000), d.upem}
	world := func() *sharedWorld {
		c := append([]byte(nil), b...)
		return &sharedWorld{bytes: c, font: mustParse(c), n: len(d.lsb), scales: scales, opts: opts}
	}
	out := sharedOut{File: intsOf(b), Before: fmt.Sprintf("%x", sha256.Sum256(b)), Ans: []sharedAns{}}
	prog := make([][]sharedOp, x.N)
	for _, op := range x.Hist {
		prog[op.P-1] = append(prog[op.P-1], op)
	}
	alone := func(w *sharedWorld, p int) []string {
		u := w.user(p)
		rs := []string{}
		for _, op := range prog[p] {
			rs = append(rs, digest(u.do(op)))
		}
		return rs
	}
	for p := range prog {
		out.Alone = append(out.Alone, alone(world(), p))
	}

	w := world()
	users := make([]*sharedUser, x.N)
	for p := range users {
		users[p] = w.user(p)
		out.Turns = append(out.Turns, []string{})
	}
	for _, op := range x.Hist {
		res := users[op.P-1].do(op)
		out.Turns[op.P-1] = append(out.Turns[op.P-1], digest(res))
		if q, ok := w.query(op); ok {
			out.Ans = append(out.Ans, sharedAns{op.P, q, res.(answer)})
		}
	}

	// On another font, so that nothing has been set up for the goroutines.
	cw := world()
	const times = 4
	var wg sync.WaitGroup
	begin := make(chan bool)
	out.Conc = make([][][]string, x.N)
	raw := make([][][]interface{}, x.N)
	panics := make([]interface{}, x.N)
	for p := range prog {
		wg.Add(1)
		go func(p int) {
			defer wg.Done()
			defer func() { panics[p] = recover() }()
			<-begin
			for t := 0; t < times; t++ {
				u := cw.user(p)
				rs := []interface{}{}
				for i, op := range prog[p] {
					rs = append(rs, u.do(op))
					if (i+p+t)%3 == 0 {
						runtime.Gosched()
					}
				}
				raw[p] = append(raw[p], rs)
			}
		}(p)
	}
	close(begin)
	wg.Wait()
	for p := range prog {
		if panics[p] != nil {
			panic(fmt.Sprint("user ", p+1, ": ", panics[p]))
		}
		for t := range raw[p] {
			rs := []string{}
			for _, v := range raw[p][t] {
				rs = append(rs, digest(v))
			}
			out.Conc[p] = append(out.Conc[p], rs)
		}
	}
	for p := range prog {
		out.Later = append(out.Later, alone(cw, p))
	}
	if !bytes.Equal(cw.bytes, w.bytes) {
		out.After = "the fonts' bytes differ"
	} else {
		out.After = fmt.Sprintf("%x", sha256.Sum256(cw.bytes))
	}
	return out
}

func init() {
	modes["i01"] = mode{run: runShared, gen: func(r *rng, k int) interface{} {
		x := sharedIn{Seed: int(r.next() % 1000000), N: r.in(2, 5)}
		ops := []string{"glyph", "glyph", "glyph", "index", "hm", "vm", "kern", "bounds", "name", "upem", "face", "face", "fbounds", "fkern", "draw", "parse"}
		for i, n := 0, r.in(8, 30); i < n; i++ {
			x.Hist = append(x.Hist, sharedOp{1 + r.n(x.N), ops[r.n(len(ops))], r.n(8), r.n(8), r.pick(0, 1, 2, 2)})
		}
		return x
	}}
}
