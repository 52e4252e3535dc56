package main

import "encoding/json"

// This file makes programs that are not valid: every instruction with any
// stack (from the specification's enumeration), random bytes, and damaged
// programs of fonts that are otherwise fine.

type hintFaultIn struct {
	Op   int             `json:"op"`
	Ctx  string          `json:"ctx"`
	Args [][]interface{} `json:"args"`
}

type hintFaultOut struct {
	File []int   `json:"file"`
	Q    []query `json:"q"`
	Res  fontOut `json:"res"`
}

// The glyphs of these fonts have 7 points and 4 phantom points.
var faultContours = [][]gpt{
	{{0, 0, true}, {500, 0, true}, {450, 300, false}, {500, 700, true}},
	{{100, 100, true}, {300, 130, true}, {200, 400, false}},
}

const faultTwilight = 3

func faultValue(e *progEnv, v string, n int) {
	word := func(x int) { e.op(0xb8); e.b.u16(x) }
	switch v {
	case "n":
		word(n)
	case "n-1":
		word(n - 1)
	case "max":
		word(32767)
	case "min":
		word(-32768)
	case "big", "-big": // 2^26 - 64, almost: (2^15 - 1) * 2^15 / 64 ...
		word(32767)
		word(32767)
		e.op(0x63) // 16776192 or so
		word(4 * 64)
		e.op(0x63)
		if v[0] == '-' {
			e.op(0x65)
		}
	default:
		x := 0
		for i := range v {
			if v[i] != '-' {
				x = 10*x + int(v[i]-'0')
			}
		}
		if v[0] == '-' {
			x = -x
		}
		word(x)
	}
}

// fullProg executes an instruction when the stack has room for only that many
// elements more.
func fullProg(op, room int) []byte {
	p := []byte{0x40, byte(255)}
	push := func(n int) {
		for i := 0; i < n; i++ {
			p = append(p, 1)
		}
	}
	push(255)
	if n := 1 - room; n > 0 {
		p = append(p, 0xb0, 1)
	} else if n < 0 {
		for ; n < 0; n++ {
			p = append(p, 0x21)
		}
	}
	p = append(p, byte(op))
	switch {
	case op == 0x40:
		p = append(p, 3)
		push(3)
	case op == 0x41:
		p = append(p, 2, 0, 1, 0, 1)
	case op >= 0xb8 && op <= 0xbf:
		push(2 * (op - 0xb8 + 1))
	case op >= 0xb0 && op <= 0xb7:
		push(op - 0xb0 + 1)
	}
	// Without needing any room, show that all is well.
	return append(p, 0x21, 0x21, 0x2f, 0x3e, 0x30)
}

func faultProg(op int, ctx string, args []string) []byte {
	if ctx == "full" {
		return fullProg(op, int(args[0][0]-'0'))
	}
	r := newRNG(uint64(op)*31 + uint64(len(args)))
	e := &progEnv{r: r}
	n := 11
	switch ctx {
	case "twilight":
		e.op(0xb0, 0, 0x16)
		n = faultTwilight + 4
		// Twilight points somewhere.
		for i := 0; i < 4; i++ {
			e.op(0xb1, i, i, 0x3e)
		}
	case "zp0", "zp1", "zp2":
		e.op(0xb0, 0, 0x13+int(ctx[2]-'0'))
	case "diag":
		e.op(0xb1, 1, 2, 0x06, 0xb1, 3, 0, 0x08)
	case "perp":
		e.op(0x02, 0x05)
	case "loop":
		e.op(0xb0, 2, 0x17)
	case "refs":
		e.op(0xb8)
		e.b.u16(-1)
		e.op(0x10)
		e.op(0xb0, 11, 0x11, 0xb0, 200, 0x12)
	case "super":
		e.op(0xb0, 0x5a, 0x76)
	case "fpgm", "prep":
		e.op(0xb0, 0, 0x16)
		n = faultTwilight + 4
	}
	if ctx != "refs" && ctx != "empty" {
		e.op(0xb0, 1, 0x10, 0xb0, 2, 0x11, 0xb0, 3, 0x12)
	}
	for _, a := range args {
		faultValue(e, a, n)
	}
	e.op(op)
	// Show what is on the stack, and go on.
	e.op(0x24, 0x58, 0xb0, 0, 0x23, 0x38, 0x59)
	if ctx == "glyph" || ctx == "diag" {
		e.op(0xb0, 5, 0x2f, 0x30, 0x31)
	}
	return e.b
}

func faultFont(op int, ctx string, argss [][]string) ([]byte, []query) {
	d := &fontDesc{
		upem: 1000, asc: 800, desc: -200, bbox: [4]int{0, 0, 1000, 1000},
		maxTwilight: faultTwilight, maxStorage: 5, maxStack: 20, maxFuncs: 4,
		longLoca: true, align: 4,
	}
	if ctx == "full" {
		d.maxStack = 256
	}
	var cvt bb
	for _, v := range []int{0, 100, -300, 521} {
		cvt.u16(v)
	}
	d.cvt = cvt
	// Function 0 does nothing, 1 calls itself.
	d.fpgm = []byte{0xb0, 0, 0x2c, 0x2d, 0xb0, 1, 0x2c, 0xb0, 1, 0x2b, 0x2d}
	r := newRNG(uint64(op))
	add := func(glyph []byte) {
		d.glyphs = append(d.glyphs, glyph)
		d.lsb = append(d.lsb, 0)
		d.adv = append(d.adv, 600)
	}
	switch ctx {
	case "fpgm":
		d.fpgm = append(d.fpgm, faultProg(op, ctx, argss[0])...)
		add(simpleGlyph(r, faultContours, []byte{0xb0, 1, 0x2f}))
	case "prep":
		d.prep = faultProg(op, ctx, argss[0])
		add(simpleGlyph(r, faultContours, []byte{0xb0, 1, 0x2f}))
	case "compound":
		add(simpleGlyph(r, faultContours, []byte{0xb0, 1, 0x2f, 0x30}))
		for _, a := range argss {
			add(compoundGlyph(r, [4]int{0, 0, 500, 700}, []component{{glyph: 0, dx: 30, dy: 20}}, faultProg(op, ctx, a)))
		}
	default:
		for _, a := range argss {
			add(simpleGlyph(r, faultContours, faultProg(op, ctx, a)))
		}
	}
	d.cmap = simpleCmap(1)
	var qs []query
	for i := range d.glyphs {
		qs = append(qs, query{"glyph", []int{64*12 + 20, i, 2}})
	}
	return d.bytes(), qs
}

// junkProg is a program of random bytes.
func junkProg(r *rng, n int) []byte {
	p := make([]byte, n)
	for i := range p {
		p[i] = byte(r.n(256))
	}
	return p
}

// roughProg is a program of random instructions, with more or less suitable
// things on the stack.
func roughProg(r *rng, e *progEnv, n int) []byte {
	for i := 0; i < n; i++ {
		switch r.n(12) {
		case 0, 1, 2, 3:
			for j, m := 0, r.in(1, 4); j < m; j++ {
				e.push(r.pick(0, 1, 2, 3, -1, r.n(20), r.n(256), r.in(-32768, 32767)))
			}
		case 4:
			e.stmt()
		case 5:
			e.expr(2)
		case 6:
			e.op(r.pick(0x58, 0x1b, 0x59, 0x2c, 0x2d, 0x1c, 0x78, 0x79, 0x2a, 0x2b, 0x17))
		case 7:
			e.op(r.pick(0x40, 0x41, 0xb7, 0xbf), r.n(256))
		default:
			e.op(r.n(256))
		}
	}
	return e.b
}

// endless is a program that runs for long, or for ever.
func endless(r *rng, d *fontDesc, pts int) []byte {
	e := newProg(r, d, pts, 1)
	word := func(x int) { e.op(0xb8); e.b.u16(x) }
	switch r.n(8) {
	case 0: // JMPR to itself.
		word(-3)
		e.op(0x1c)
	case 1: // JMPR by zero.
		e.op(0xb0, 0, 0x1c)
	case 2: // A longer endless loop.
		e.op(0xb0, 1, 0x21, 0x4f, 0x18)
		word(-8)
		e.op(0x1c)
	case 3: // Conditional jumps.
		word(-3 - 2)
		e.op(0xb0, 1, 0x78)
	case 4: // Counting.
		e.op(0xb0, 0)
		e.op(0xb0, 1, 0x60)
		word(-6)
		e.op(0x1c)
	case 5: // The stack grows.
		e.op(0xb0, 1)
		word(-5)
		e.op(0x1c)
	case 6: // Recursion.
		e.op(0xb0, 201, 0x2b)
	case 7: // Nested repetition.
		word(32767)
		e.op(0xb0, 202, 0x2a)
	}
	return e.b
}

// The functions that endless uses.
var endlessFuncs = []byte{
	0xb0, 201, 0x2c, 0xb0, 201, 0x2b, 0x2d,
	0xb0, 203, 0x2c, 0x4f, 0x2d,
	0xb0, 202, 0x2c, 0xb8, 0x7f, 0xff, 0xb0, 203, 0x2a, 0x2d,
}

func init() {
	modes["h01op"] = mode{
		gen: func(r *rng, k int) interface{} { panic("h01op needs inputs") },
		run: func(in json.RawMessage) interface{} {
			var x hintFaultIn
			decode(in, &x)
			argss := [][]string{}
			for _, a := range x.Args {
				s := []string{}
				for _, v := range a {
					s = append(s, v.(string))
				}
				argss = append(argss, s)
			}
			file, qs := faultFont(x.Op, x.Ctx, argss)
			return hintFaultOut{intsOf(file), qs, askAll(append([]byte(nil), file...), qs)}
		},
	}
	modes["h01"] = mode{
		gen: func(r *rng, k int) interface{} {
			var d *fontDesc
			kind := k % 6
			big := r.p(1, 25)
			if kind == 5 && r.p(1, 3) {
				d = subset(realFont(realNames[r.n(3)]), []int{r.n(200), r.n(200)})
				for i := range d.glyphs {
					if len(d.glyphs[i]) > 20 {
						d.glyphs[i] = append([]byte(nil), d.glyphs[i]...)
						d.glyphs[i][10+r.n(len(d.glyphs[i])-10)] = byte(r.n(256))
					}
				}
				d.fpgm = mutate(r, append([]byte(nil), d.fpgm...), 1, 3)
				d.prep = mutate(r, append([]byte(nil), d.prep...), 1, 3)
			} else {
				d = hintedFontOf(r, 0, big)
			}
			if r.p(1, 10) {
				d.maxTwilight = r.pick(0, 65535, 1000)
			}
			if r.p(1, 10) {
				d.maxStack = r.pick(0, 1, 5, 65535)
			}
			prog := func(slot int) []byte {
				pts := 0
				if slot == 2 {
					pts = 11
				}
				switch kind {
				case 0:
					return junkProg(r, r.pick(1, 5, 30, 200))
				case 1, 2:
					return roughProg(r, newProg(r, d, pts, 2), r.pick(3, 10, 30))
				case 3:
					return endless(r, d, pts)
				default:
					e := newProg(r, d, pts, 2)
					e.big = big
					e.stmts(r.in(1, 12))
					return mutate(r, append([]byte(nil), e.b...), 2, 3)
				}
			}
			if kind != 5 {
				if kind == 3 {
					d.fpgm = append(append([]byte(nil), endlessFuncs...), d.fpgm...)
				}
				switch r.n(5) {
				case 0:
					d.fpgm = append(d.fpgm, prog(0)...)
				case 1:
					d.prep = append(d.prep, prog(1)...)
				default:
					for i := range d.glyphs {
						if d.glyphs[i] != nil && r.p(1, 2) {
							d.glyphs[i] = simpleGlyph(r, faultContours, prog(2))
						}
					}
				}
			} else if r.p(1, 2) {
				for i := range d.glyphs {
					if len(d.glyphs[i]) > 12 {
						d.glyphs[i] = append([]byte(nil), d.glyphs[i]...)
						for j, m := 0, r.in(1, 4); j < m; j++ {
							d.glyphs[i][10+r.n(len(d.glyphs[i])-10)] = byte(r.n(256))
						}
					}
				}
			}
			scales := []int{64 * r.in(6, 40), r.in(300, 3000)}
			var qs []query
			for i := range d.lsb {
				qs = append(qs, query{"glyph", []int{scales[r.n(2)], i, r.pick(1, 2, 2)}})
			}
			if r.p(1, 8) { // Extreme sizes: no more than an answer is wanted.
				for i := range d.lsb {
					qs = append(qs, query{"any", []int{r.pick(0, 1, -64, -640, 2147483647, -2147483648, 1<<24, 64*4096), i, 2}})
				}
			}
			if d.maxTwilight > 300 { // Too slow to judge.
				for i := range qs {
					qs[i].O = "any"
				}
			}
			return fontIn{intsOf(d.bytes()), qs}
		},
		run: runFont,
	}
}
