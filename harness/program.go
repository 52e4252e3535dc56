package main

// This file makes TrueType programs that are mostly valid: instructions find
// their arguments on the stack, and points, storage and functions exist.

type progEnv struct {
	r         *rng
	pts       int // points of the glyph zone, phantom points included; 0 in the font's programs
	contours  int
	twilight  int
	cvt       int
	store     int
	funcs     []int // functions that can be called from here
	glyphFns  []int // functions that use the glyph's points
	zp        [3]int
	rp        [3]int // -1: unknown
	depth     int
	b         bb
	noZones   bool // do not change the zone pointers
	faultless bool
	big       bool // now and then do things many times over
}

func newProg(r *rng, d *fontDesc, pts, contours int) *progEnv {
	e := &progEnv{r: r, pts: pts, contours: contours, twilight: d.maxTwilight, cvt: len(d.cvt) / 2, store: d.maxStorage}
	e.zp = [3]int{1, 1, 1}
	return e
}

func (e *progEnv) op(ops ...int) {
	for _, o := range ops {
		e.b.u8(o)
	}
}

// push pushes the values, the last one on top.
func (e *progEnv) push(vs ...int) {
	for len(vs) > 0 {
		n := len(vs)
		if n > 1 && e.r.p(1, 4) {
			n = e.r.in(1, n)
		}
		if n > 255 {
			n = 255
		}
		part := vs[:n]
		vs = vs[n:]
		bytes := true
		for _, v := range part {
			if v < 0 || v > 255 {
				bytes = false
			}
		}
		if bytes && e.r.p(1, 10) {
			bytes = false
		}
		switch {
		case bytes && n <= 8 && !e.r.p(1, 6):
			e.b.u8(0xb0 + n - 1)
		case bytes:
			e.b.u8(0x40)
			e.b.u8(n)
		case n <= 8 && !e.r.p(1, 6):
			e.b.u8(0xb8 + n - 1)
		default:
			e.b.u8(0x41)
			e.b.u8(n)
		}
		for _, v := range part {
			if bytes {
				e.b.u8(v)
			} else {
				e.b.u16(v)
			}
		}
	}
}

func (e *progEnv) zoneSize(k int) int {
	if e.zp[k] == 0 {
		return e.twilight
	}
	return e.pts
}

func (e *progEnv) ptIn(k int) int {
	n := e.zoneSize(k)
	if e.r.p(1, 400) && !e.faultless {
		return e.r.pick(-1, n, n+5, 32767)
	}
	return e.r.n(n)
}

// needRP makes sure that reference point i is a point of the zone of pointer k.
func (e *progEnv) needRP(i, k int) {
	if e.rp[i] >= 0 && e.rp[i] < e.zoneSize(k) && !e.r.p(1, 3) {
		return
	}
	p := e.ptIn(k)
	e.push(p)
	e.op(0x10 + i)
	e.rp[i] = p
}

func (e *progEnv) dist() int {
	return e.r.pick(0, 1, -1, 31, 32, 33, 63, 64, -64, 65, 96, -96, e.r.in(-200, 200), e.r.in(-3000, 3000), e.r.in(-200, 200))
}

// usable tells whether instructions that use points are possible, and makes zones so.
func (e *progEnv) usable() bool {
	if e.pts > 0 {
		return true
	}
	if e.noZones || e.twilight == 0 {
		return false
	}
	if e.zp != [3]int{} {
		e.push(0)
		e.op(0x16)
		e.zp = [3]int{}
		e.rp = [3]int{-1, -1, -1}
	}
	return true
}

// expr leaves one number on the stack.
func (e *progEnv) expr(depth int) {
	r := e.r
	if depth <= 0 || r.p(1, 4) {
		switch r.n(8) {
		case 0:
			if e.cvt > 0 {
				e.push(r.n(e.cvt))
				if r.p(1, 60) {
					e.push(r.pick(-1, e.cvt, 1000))
					e.op(0x23, 0x21)
				}
				e.op(0x45)
				return
			}
		case 1:
			if e.store > 0 {
				e.push(r.n(e.store))
				e.op(0x43)
				return
			}
		case 2:
			e.op(0x4b + r.n(2)) // MPPEM, MPS
			return
		case 3:
			e.push(r.pick(0, 1, 32, 33, 64, 255, r.n(256)))
			e.op(0x88) // GETINFO
			return
		case 4:
			if e.usable() && r.p(1, 2) {
				p := e.ptIn(2)
				e.push(p)
				e.op(0x46 + r.n(2)) // GC
				return
			}
		case 5:
			if e.usable() && r.p(1, 2) {
				e.push(e.ptIn(0), e.ptIn(1))
				e.op(0x49 + r.n(2)) // MD
				return
			}
		case 6:
			e.op(0x24) // DEPTH
			return
		}
		e.push(r.pick(e.dist(), r.in(-32768, 32767), r.n(256)))
		return
	}
	switch r.n(7) {
	case 0, 1:
		e.expr(depth - 1)
		// ABS NEG FLOOR CEILING ROUND NROUND NOT ODD EVEN
		e.op(r.pick(0x64, 0x65, 0x66, 0x67, 0x68, 0x69, 0x6a, 0x6b, 0x6c, 0x6f, 0x5c, 0x56, 0x57, 0x68, 0x68))
	case 2, 3, 4:
		e.expr(depth - 1)
		e.expr(depth - 1)
		// ADD SUB MUL MAX MIN LT.. AND OR, DIV
		o := r.pick(0x60, 0x60, 0x61, 0x61, 0x63, 0x8b, 0x8c, 0x50, 0x51, 0x52, 0x53, 0x54, 0x55, 0x5a, 0x5b, 0x62, 0x62)
		if o == 0x62 && !r.p(1, 40) {
			// Make the divisor nonzero.
			e.op(0x20)
			e.op(0x5c)
			e.op(0x60)
		}
		e.op(o)
	case 5:
		// Stack shuffles.
		switch r.n(6) {
		case 0:
			e.expr(depth - 1)
			e.op(0x20, r.pick(0x60, 0x61, 0x63)) // DUP
		case 1:
			e.expr(depth - 1)
			e.expr(depth - 1)
			e.op(0x23, 0x61) // SWAP SUB
		case 2:
			e.expr(depth - 1)
			e.expr(depth - 1)
			e.expr(depth - 1)
			e.op(0x8a, 0x61, 0x61) // ROLL
		case 3:
			n := r.in(2, 4)
			for i := 0; i < n; i++ {
				e.push(e.dist())
			}
			e.push(r.in(1, n))
			e.op(0x26) // MINDEX
			for i := 1; i < n; i++ {
				e.op(0x61)
			}
		case 4:
			n := r.in(2, 4)
			for i := 0; i < n; i++ {
				e.push(e.dist())
			}
			e.push(r.in(1, n))
			e.op(0x25) // CINDEX
			for i := 0; i < n; i++ {
				e.op(0x61)
			}
		case 5:
			e.expr(depth - 1)
			e.expr(depth - 1)
			e.op(0x21) // POP
		}
	case 6:
		e.expr(depth - 1)
		e.op(0x58) // IF
		e.branch(func() { e.expr(depth - 2) })
		e.op(0x1b)
		e.branch(func() { e.expr(depth - 2) })
		e.op(0x59)
	}
}

// branch emits something that may or may not be executed.
func (e *progEnv) branch(f func()) {
	saveNZ, zp := e.noZones, e.zp
	e.noZones = true
	f()
	e.noZones = saveNZ
	e.zp = zp
	e.rp = [3]int{-1, -1, -1}
}

func (e *progEnv) fork() *progEnv {
	n := *e
	n.b = nil
	n.noZones = true
	n.rp = [3]int{-1, -1, -1}
	return &n
}

func (e *progEnv) stmts(n int) {
	for i := 0; i < n; i++ {
		e.stmt()
	}
}

func (e *progEnv) loopPts(k, most int) int {
	r := e.r
	n := r.pick(1, 1, 2, 3, most)
	if e.big && r.p(1, 4) {
		n = r.pick(127, 128, 129, 130, 200, 255, 256, 257)
	}
	if n != 1 || r.p(1, 6) {
		if r.p(1, 40) {
			n = 0
		}
	}
	for i := 0; i < n; i++ {
		e.push(e.ptIn(k))
	}
	return n
}

func (e *progEnv) setLoop(n int) {
	if n != 1 || e.r.p(1, 6) {
		e.push(n)
		e.op(0x17)
	}
}

// bigStmt does something with many operands, or far away, or deeply nested.
func (e *progEnv) bigStmt() {
	r := e.r
	many := func() int { return r.pick(r.in(20, 60), 127, 128, 129, 200, 255, 256, 257) }
	switch r.n(8) {
	case 0: // Reach far down in the stack, and add all up.
		n := many()
		for i := 0; i < n; i++ {
			e.push(r.in(-300, 300))
		}
		e.push(r.pick(n, n-1, r.in(1, n), min(n, 128), min(n, 127)))
		e.op(r.pick(0x25, 0x26))
		for i := 1; i < n; i++ {
			e.op(0x60)
		}
		e.op(0x65)
		if e.store > 0 {
			e.push(r.pick(e.store-1, r.n(e.store)))
			e.op(0x23, 0x42)
		}
	case 1: // One instruction that pushes much, whose bytes look like others.
		n := r.pick(100, 127, 128, 129, 255, 256/2+r.in(0, 127))
		words := r.p(1, 2)
		f := func() {
			e.op(0x40 + b2i(words))
			e.op(n)
			for i := 0; i < n; i++ {
				v := r.pick(0x59, 0x1b, 0x58, 0x2d, 0x2c, 0x40, 0xb7, r.n(256))
				if words {
					e.op(r.n(256))
				}
				e.op(v)
			}
		}
		if r.p(1, 2) {
			f()
			e.op(0x24, 0x22) // DEPTH, CLEAR
			return
		}
		c := r.n(2)
		e.push(c)
		e.op(0x58)
		if c == 0 {
			f()
		}
		e.branch(func() { e.stmts(r.n(3)) })
		e.op(0x1b)
		e.branch(func() { e.stmts(r.n(3)) })
		if c == 1 {
			f()
		}
		e.op(0x59)
	case 2: // Nested branches.
		n := many()
		for i := 0; i < n; i++ {
			e.push(b2i(!r.p(1, n)))
			e.op(0x58)
		}
		save := e.big
		e.big = false
		e.branch(func() { e.stmts(2) })
		for i := 0; i < n; i++ {
			if r.p(1, 8) {
				e.op(0x1b)
				e.branch(func() { e.stmts(1) })
			}
			e.op(0x59)
		}
		e.big = save
	case 3: // Many exceptions.
		isP := r.p(1, 2) && e.usable()
		if !isP && e.cvt == 0 {
			return
		}
		n := r.pick(r.in(10, 40), 100, 110)
		for i := 0; i < n; i++ {
			if isP {
				e.push(r.n(256), e.ptIn(0))
			} else {
				e.push(r.n(256), r.n(e.cvt))
			}
		}
		e.push(n)
		if isP {
			e.op(r.pick(0x5d, 0x71, 0x72))
		} else {
			e.op(r.pick(0x73, 0x74, 0x75))
		}
	case 4: // A long jump.
		n := r.pick(r.in(100, 140), 255, 256, 257, r.in(300, 700))
		if r.p(1, 2) {
			e.push(n + 1)
			e.op(0x1c)
		} else {
			e.push(n+1, r.n(2))
			e.op(0x78 + r.n(2))
		}
		for i := 0; i < n; i++ {
			e.op(r.pick(0x4f, 0x18, 0x19, 0, 1))
		}
	case 5: // A function called many times.
		if len(e.funcs) == 0 {
			return
		}
		e.push(r.pick(r.in(5, 20), 127, 128, 255, 256, 300), e.funcs[r.n(len(e.funcs))])
		e.op(0x2a)
	case 6: // The far ends.
		if e.store > 0 {
			e.push(e.store-1, r.in(-32768, 32767))
			e.op(0x42)
		}
		if e.cvt > 0 {
			e.push(e.cvt-1, r.in(-2000, 2000))
			e.op(r.pick(0x44, 0x70))
		}
		if e.usable() {
			e.push(e.zoneSize(2) - 1)
			e.push(e.dist())
			e.op(0x38)
		}
	case 7:
		e.stmts(r.in(10, 30))
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (e *progEnv) stmt() {
	r := e.r
	if e.big && r.p(1, 4) {
		e.big = false
		e.bigStmt()
		e.big = true
		return
	}
	switch r.n(24) {
	case 0: // vectors along an axis
		e.op(r.n(6))
	case 1: // other vectors
		switch r.n(6) {
		case 0, 1:
			if e.usable() {
				e.push(e.ptIn(1), e.ptIn(2))
				e.op(0x06 + r.n(4))
			}
		case 2:
			e.push(r.pick(r.in(-16384, 16384), 0, 16384, r.in(-50, 50)), r.pick(r.in(-16384, 16384), 0, r.in(-50, 50), -16384))
			e.op(0x0a + r.n(2))
		case 3:
			e.op(0x0c + r.n(2)) // GPV, GFV
			if r.p(1, 2) {
				e.op(0x0a + r.n(2))
			} else {
				e.op(0x21, 0x21)
			}
		case 4:
			e.op(0x0e)
		case 5:
			if e.usable() {
				e.push(e.ptIn(1), e.ptIn(2))
				e.op(0x86 + r.n(2))
			}
		}
	case 2: // zones
		if e.noZones {
			return
		}
		z := 1
		if e.twilight > 0 && r.p(1, 3) || e.pts == 0 {
			z = 0
		}
		if r.p(1, 2) {
			e.push(z)
			e.op(0x16)
			e.zp = [3]int{z, z, z}
		} else if e.pts > 0 {
			k := r.n(3)
			e.push(z)
			e.op(0x13 + k)
			e.zp[k] = z
		}
		if r.p(1, 300) {
			e.push(2)
			e.op(0x16)
		}
	case 3: // rounding state
		switch r.n(3) {
		case 0:
			e.push(r.n(256))
			e.op(0x76 + r.n(2))
		default:
			e.op(r.pick(0x18, 0x19, 0x3d, 0x7a, 0x7c, 0x7d))
		}
	case 4: // other state
		switch r.n(9) {
		case 0:
			e.push(r.pick(64, 0, 32, 128, -64, 40))
			e.op(0x1a) // SMD
		case 1:
			e.push(r.pick(68, 0, 32, 1000, 5))
			e.op(0x1d) // SCVTCI
		case 2:
			e.push(r.pick(0, 20, 100, 64))
			e.op(0x1e)
		case 3:
			e.push(r.pick(0, 50, 100, 300))
			e.op(0x1f)
		case 4:
			e.push(r.pick(9, 8, 0, 12, 20))
			e.op(0x5e)
		case 5:
			e.push(r.n(7))
			e.op(0x5f)
		case 6:
			e.op(0x4d + r.n(3))
		case 7:
			e.push(r.n(600), r.n(3))
			e.op(0x8e) // INSTCTRL
		case 8:
			e.push(r.n(600))
			e.op(r.pick(0x85, 0x8d, 0x7e, 0x7f))
		}
	case 5: // store
		if e.store > 0 {
			e.push(r.n(e.store))
			e.expr(3)
			e.op(0x42)
		}
	case 6: // control values
		if e.cvt > 0 {
			e.push(r.n(e.cvt))
			if r.p(1, 40) {
				e.push(r.pick(-1, e.cvt, 1000))
				e.op(0x23, 0x21)
			}
			if r.p(1, 3) {
				e.push(r.in(-2000, 2000))
				e.op(0x70)
			} else {
				e.expr(2)
				e.op(0x44)
			}
		}
	case 7: // deltas
		n := r.pick(1, 1, 2, 3)
		isP := r.p(1, 2) && e.usable()
		if !isP && e.cvt == 0 {
			return
		}
		for i := 0; i < n; i++ {
			a := 0
			if isP {
				a = e.ptIn(0)
			} else {
				a = r.n(e.cvt)
			}
			e.push(r.n(256), a)
		}
		e.push(n)
		if isP {
			e.op(r.pick(0x5d, 0x71, 0x72))
		} else {
			e.op(r.pick(0x73, 0x74, 0x75))
		}
	case 8: // branches
		e.expr(2)
		e.op(0x58)
		e.branch(func() { e.stmts(r.n(4)) })
		if r.p(1, 2) {
			e.op(0x1b)
			e.branch(func() { e.stmts(r.n(4)) })
		}
		e.op(0x59)
	case 9: // jumps
		if e.depth > 2 {
			return
		}
		e.depth++
		switch r.n(5) {
		case 4: // out of the program, or the function
			if !r.p(1, 4) {
				break
			}
			e.push(r.pick(30000, r.in(2000, 20000), -30000, -r.in(2000, 20000)))
			if r.p(1, 8) {
				e.op(0x1c)
			} else {
				e.expr(1)
				e.op(0x78 + r.n(2))
			}
		case 0: // over junk
			var junk bb
			for i, n := 0, r.n(6); i < n; i++ {
				junk.u8(r.n(256))
			}
			e.push(len(junk) + 1)
			e.op(0x1c)
			e.b = append(e.b, junk...)
		case 1, 2: // conditional, over statements
			f := e.fork()
			f.stmts(r.n(4))
			if len(f.b) > 30000 {
				break
			}
			e.push(len(f.b) + 1)
			e.expr(1)
			e.op(0x78 + r.n(2))
			e.b = append(e.b, f.b...)
			e.rp = [3]int{-1, -1, -1}
		case 3: // a loop
			f := e.fork()
			f.stmts(r.in(1, 3))
			if len(f.b) > 400 {
				break
			}
			e.push(r.in(1, 4))
			body := append(bb(nil), f.b...)
			body.u8(0xb0)
			body.u8(1)
			body.u8(0x61) // SUB
			body.u8(0x20) // DUP
			body.u8(0xb8)
			body.u16(-(len(body) + 3))
			body.u8(0x23) // SWAP
			body.u8(0x78) // JROT
			e.b = append(e.b, body...)
			e.op(0x21)
			e.rp = [3]int{-1, -1, -1}
		}
		e.depth--
	case 10: // calls
		fs := e.funcs
		if e.pts > 0 && e.zp == [3]int{1, 1, 1} {
			fs = append(append([]int(nil), fs...), e.glyphFns...)
		}
		if len(fs) == 0 {
			return
		}
		f := fs[r.n(len(fs))]
		if r.p(1, 3) {
			e.push(r.pick(0, 1, 2, 3, -1), f)
			e.op(0x2a)
		} else {
			e.push(f)
			e.op(0x2b)
		}
		e.rp = [3]int{-1, -1, -1}
	default:
		e.pointStmt()
	}
}

func (e *progEnv) pointStmt() {
	if !e.usable() {
		return
	}
	r := e.r
	switch r.n(21) {
	case 20:
		e.acrossZones()
	case 0:
		p := e.ptIn(0)
		e.push(p)
		e.op(0x2e + r.n(2)) // MDAP
		e.rp[0], e.rp[1] = p, p
	case 1, 2:
		if e.cvt == 0 {
			return
		}
		p := e.ptIn(0)
		e.push(p, r.n(e.cvt))
		e.op(0x3e + r.n(2)) // MIAP
		e.rp[0], e.rp[1] = p, p
	case 3, 4, 5:
		e.needRP(0, 0)
		p := e.ptIn(1)
		e.push(p)
		k := r.n(32)
		e.op(0xc0 + k) // MDRP
		e.rp[1], e.rp[2] = e.rp[0], p
		if k&16 != 0 {
			e.rp[0] = p
		}
	case 6, 7, 8:
		if e.cvt == 0 || e.zp[1] == 0 && !r.p(1, 200) {
			return
		}
		e.needRP(0, 0)
		p := e.ptIn(1)
		e.push(p, r.n(e.cvt))
		k := r.n(32)
		e.op(0xe0 + k) // MIRP
		e.rp[1], e.rp[2] = e.rp[0], p
		if k&16 != 0 {
			e.rp[0] = p
		}
	case 9: // MSIRP
		if e.zp[1] == 0 {
			return
		}
		e.needRP(0, 0)
		p := e.ptIn(1)
		e.push(p, e.dist())
		k := r.n(2)
		e.op(0x3a + k)
		e.rp[1], e.rp[2] = e.rp[0], p
		if k == 1 {
			e.rp[0] = p
		}
	case 10: // ALIGNRP
		e.needRP(0, 0)
		n := e.loopPts(1, 4)
		e.setLoop(n)
		e.op(0x3c)
	case 11: // IP
		e.needRP(1, 0)
		e.needRP(2, 1)
		n := e.loopPts(2, 5)
		e.setLoop(n)
		e.op(0x39)
	case 12: // SHP
		k := r.n(2)
		e.shiftRef(k)
		n := e.loopPts(2, 4)
		e.setLoop(n)
		e.op(0x32 + k)
	case 13: // SHC, SHZ
		k := r.n(2)
		e.shiftRef(k)
		if e.contours > 0 && e.zp[2] == 1 && r.p(1, 2) {
			c := r.n(e.contours)
			if r.p(1, 60) {
				c = e.contours
			}
			e.push(c)
			e.op(0x34 + k)
		} else {
			e.push(r.n(2))
			e.op(0x36 + k)
		}
	case 14: // SHPIX
		n := e.loopPts(2, 4)
		e.setLoop(n)
		e.push(e.dist())
		e.op(0x38)
	case 15: // SCFS
		e.push(e.ptIn(2))
		if r.p(1, 2) {
			e.push(e.dist())
		} else {
			e.expr(2)
			e.push(2000)
			e.op(0x8c)
			e.push(-2000)
			e.op(0x8b)
		}
		e.op(0x48)
	case 16: // ISECT
		e.push(e.ptIn(2), e.ptIn(1), e.ptIn(1), e.ptIn(0), e.ptIn(0))
		e.op(0x0f)
	case 17:
		e.push(e.ptIn(1), e.ptIn(0))
		e.op(0x27) // ALIGNPTS
	case 18:
		switch r.n(4) {
		case 0:
			e.push(e.ptIn(0))
			e.op(0x29) // UTP
		case 1, 2:
			e.op(0x30 + r.n(2)) // IUP
		case 3:
			if e.pts > 0 {
				a, b := r.n(e.pts), r.n(e.pts)
				if r.p(1, 2) {
					e.push(a, b)
					e.op(0x81 + r.n(2))
				} else {
					e.push(a, b)
					e.push(2)
					e.op(0x17)
					e.op(0x80)
				}
			}
		}
	case 19:
		e.op(0x30 + r.n(2))
	}
}

// acrossZones moves a twilight point, and uses it to move points of the glyph, or the other way round.
func (e *progEnv) acrossZones() {
	r := e.r
	if e.noZones || e.twilight == 0 || e.pts == 0 {
		return
	}
	from := r.n(2) // the reference's zone
	p := r.n(e.twilight)
	if from == 1 {
		p = r.n(e.pts)
	}
	e.push(from)
	e.op(0x16)
	if from == 0 && e.cvt > 0 && r.p(1, 2) {
		e.push(p, r.n(e.cvt))
		e.op(0x3e + r.n(2)) // MIAP
	}
	if r.p(3, 4) {
		e.push(p, r.pick(e.dist(), 64, -100))
		e.op(0x38) // SHPIX
	}
	for k := 0; k < 3; k++ {
		e.push(p)
		e.op(0x10 + k)
	}
	e.rp = [3]int{p, p, p}
	e.zp = [3]int{from, from, from}
	k := r.n(2)
	for j := 0; j < 3; j++ { // The reference is in the zone of zp0 if k is 1, and of zp1 otherwise.
		if j != 1-k && (j == 2 || r.p(1, 2)) {
			e.push(1 - from)
			e.op(0x13 + j)
			e.zp[j] = 1 - from
		}
	}
	switch r.n(5) {
	case 0, 1:
		c := 0
		if from == 0 {
			c = r.n(max(e.contours, 1))
		}
		e.push(c)
		e.op(0x34 + k) // SHC
	case 2:
		e.push(r.n(2))
		e.op(0x36 + k) // SHZ
	case 3:
		n := e.loopPts(2, 4)
		e.setLoop(n)
		e.op(0x32 + k) // SHP
	case 4:
		e.pointStmt()
	}
	if r.p(2, 3) {
		e.push(1)
		e.op(0x16)
		e.zp = [3]int{1, 1, 1}
	}
}

func (e *progEnv) shiftRef(k int) {
	if k == 1 {
		e.needRP(1, 0)
	} else {
		e.needRP(2, 1)
	}
}

// mutate damages a program now and then.
func mutate(r *rng, p []byte, num, den int) []byte {
	for len(p) > 0 && r.p(num, den) {
		switch r.n(4) {
		case 0:
			p[r.n(len(p))] = byte(r.n(256))
		case 1:
			p = p[:r.n(len(p)+1)]
		case 2:
			k := r.n(len(p))
			p = append(p[:k:k], p[k+1:]...)
		case 3:
			k := r.n(len(p) + 1)
			p = append(p[:k:k], append([]byte{byte(r.n(256))}, p[k:]...)...)
		}
	}
	return p
}

// hintedFont makes a font with programs.
func hintedFont(r *rng, mut int) *fontDesc { return hintedFontOf(r, mut, false) }

// hintedFontOf makes a large one if big is set.
func hintedFontOf(r *rng, mut int, big bool) *fontDesc {
	d := &fontDesc{
		upem: r.pick(1000, 2048, 1024, 256, 64, 777),
		asc:  800, desc: -200,
		maxStorage: r.pick(16, 16, 5, 0), maxTwilight: r.pick(4, 0, 7), maxStack: 256, maxFuncs: 8,
		longLoca: r.p(1, 2), align: r.pick(2, 4),
	}
	size := r.pick(d.upem, d.upem, 100, 700)
	if big {
		d.maxStorage, d.maxTwilight, d.maxStack = r.pick(16, 127, 128, 255, 300), r.pick(4, 128, 255, 256, 300), r.pick(1000, 700, 520)
	}
	if n := r.pick(8, 8, 20, 0); n > 0 {
		if big {
			n = r.pick(20, 128, 129, 255, 256, 257, 300)
		}
		var b bb
		for i := 0; i < n; i++ {
			b.u16(r.pick(r.in(-size, size), r.in(0, size/4), 0))
		}
		d.cvt = b
	}
	// Functions.
	var fpgm bb
	var plain, glyphy []int
	nf := r.pick(0, 2, 4)
	if big && r.p(1, 2) {
		nf = r.pick(8, 30, 33, 40)
	}
	for i, n := 0, nf; i < n; i++ {
		e := newProg(r, d, 0, 0)
		e.noZones = true
		id := r.pick(i, i+10, 255-i)
		if big {
			id = r.pick(i, i+100, i+256, i+1000, 32767-i)
		}
		isGlyph := r.p(1, 2) && nf < 30
		if isGlyph {
			e.pts = 4
		} else {
			e.twilight = 0
		}
		e.rp = [3]int{-1, -1, -1}
		e.funcs = append([]int(nil), plain...)
		if isGlyph {
			e.glyphFns = append([]int(nil), glyphy...)
		}
		if nf >= 8 && len(plain) > 0 && !isGlyph { // A chain of calls.
			e.push(plain[len(plain)-1])
			e.op(0x2b)
		} else {
			e.stmts(r.in(1, 4))
		}
		if len(e.b) > 300 {
			continue
		}
		if r.p(1, 12) { // A function that ends the program: it jumps over its end.
			e.push(r.pick(2, 2, 3))
			if r.p(1, 3) {
				e.op(0x1c)
			} else {
				e.expr(1)
				e.op(0x78 + r.n(2))
			}
		}
		o := newProg(r, d, 0, 0)
		o.push(id)
		o.op(0x2c)
		fpgm = append(fpgm, o.b...)
		fpgm = append(fpgm, e.b...)
		fpgm.u8(0x2d)
		if isGlyph {
			glyphy = append(glyphy, id)
		} else {
			plain = append(plain, id)
		}
	}
	if r.p(1, 4) {
		e := newProg(r, d, 0, 0)
		e.funcs = plain
		e.stmts(r.in(1, 4))
		fpgm = append(fpgm, e.b...)
	}
	if len(fpgm) > 0 || r.p(1, 3) {
		d.fpgm = mutate(r, append([]byte{}, fpgm...), mut, 200)
	}
	if r.p(3, 4) {
		e := newProg(r, d, 0, 0)
		e.funcs = plain
		e.stmts(r.in(0, 10))
		d.prep = mutate(r, append([]byte{}, e.b...), mut, 200)
	}
	n := r.in(1, 6)
	for i := 0; i < n; i++ {
		d.lsb = append(d.lsb, r.in(-60, 60))
		d.adv = append(d.adv, r.pick(0, size/2, r.n(3000)))
		prog := func(np, nc int) []byte {
			if r.p(1, 8) {
				return nil
			}
			e := newProg(r, d, np+4, nc)
			e.funcs, e.glyphFns = plain, glyphy
			e.big = big
			if n := len(plain); nf >= 8 && n > 0 {
				e.push(plain[min(r.pick(r.in(n/2, n-1), n-1, 30, 31, 31, 32), n-1)])
				e.op(0x2b)
			}
			e.stmts(r.pick(1, 4, 10, 20))
			if r.p(1, 2) {
				e.op(0x30, 0x31)
			}
			p := []byte(e.b)
			if len(p) > 1500 && !big {
				p = p[:r.n(1500)]
			}
			return mutate(r, p, mut, 60)
		}
		if i > 0 && r.p(1, 4) {
			comps := []component{}
			np := 0
			for j, m := 0, r.pick(1, 2, 2, 3); j < m; j++ {
				c := component{glyph: r.n(i), dx: r.in(-200, 200), dy: r.in(-200, 200)}
				if r.p(1, 3) {
					c.flags |= 4
				}
				if r.p(1, 3) {
					c.flags |= 0x200
				}
				if r.p(1, 5) {
					c.transform = []int{r.pick(0x2000, -0x4000, 0x3000)}
				}
				comps = append(comps, c)
				np += 3
			}
			var p []byte
			if r.p(2, 3) {
				p = prog(np, len(comps))
			}
			g := compoundGlyph(r, [4]int{r.in(-50, 50), 0, size, size}, comps, p)
			if p == nil && r.p(1, 3) {
				g = append(g, 0, byte(r.n(4)), byte(r.n(256)), 0) // Not a program.
			}
			d.glyphs = append(d.glyphs, g)
			continue
		}
		cs := randContours(r, size, r.pick(5, 8, 12))
		if big && r.p(1, 2) {
			cs = longContours(r)
		}
		np := 0
		for _, c := range cs {
			np += len(c)
		}
		if r.p(1, 15) {
			d.glyphs = append(d.glyphs, nil)
			continue
		}
		d.glyphs = append(d.glyphs, simpleGlyph(r, cs, prog(np, len(cs))))
	}
	d.bbox = [4]int{-size, -size, size, size}
	d.cmap = simpleCmap(n)
	if r.p(1, 5) {
		d.hdmx = randHdmx(r, n)
	}
	if r.p(1, 5) {
		var b bb
		for i := 0; i < n; i++ {
			b.u16(r.n(3000))
			b.u16(r.in(-300, 300))
		}
		d.vmtx = b
	}
	return d
}

func init() {
	modes["h02"] = mode{
		gen: func(r *rng, k int) interface{} {
			d := hintedFontOf(r, r.pick(0, 0, 0, 20), k%25 == 12)
			scales := []int{64 * r.in(6, 40), r.in(300, 3000)}
			var qs []query
			for i := range d.lsb {
				qs = append(qs, query{"glyph", []int{scales[r.n(2)], i, r.pick(1, 2, 2)}})
			}
			return fontIn{intsOf(d.bytes()), qs}
		},
		run: runFont,
	}
	modes["g04"] = mode{
		gen: func(r *rng, k int) interface{} {
			var d *fontDesc
			var in fontIn
			if k%2 == 0 {
				d = randFont(r, "plain")
				in.Q = bigQueries(r, k, d, 0, 1, 2)
			} else {
				d = hintedFontOf(r, r.pick(0, 0, 0, 20), k%25 == 13)
				scales := []int{64 * r.in(6, 40), r.in(300, 3000)}
				for i := 0; i < 8; i++ {
					in.Q = append(in.Q, query{"glyph", []int{scales[r.n(2)], r.n(len(d.lsb)), r.pick(0, 1, 2, 2, 2)}})
				}
			}
			for i := range in.Q {
				if in.Q[i].O == "glyph" {
					in.Q[i].O = "before"
				}
			}
			in.File = intsOf(d.bytes())
			return in
		},
		run: runFont,
	}
	modes["h02real"] = mode{
		gen: func(r *rng, k int) interface{} {
			f := realFont(realNames[k%3])
			d := subset(f, []int{r.n(200), r.n(200), r.n(200)})
			var qs []query
			s := r.pick(64*r.in(6, 60), r.in(400, 4000))
			for i := range d.lsb {
				qs = append(qs, query{"glyph", []int{s, i, 2}})
			}
			return fontIn{intsOf(d.bytes()), qs}
		},
		run: runFont,
	}
}
