// Command vh drives the real golang/freetype packages through their exported
// API. It generates seeded random cases (or reads cases, e.g. behaviours that
// TLC generated from the specification), runs each on the code under test and
// records one JSON event per case. It never judges: TLC does, against the
// specification in /verif/spec.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"time"
)

// A mode is one family of cases.
type mode struct {
	// gen makes the k'th input.
	gen func(r *rng, k int) interface{}
	// run executes an input (in its JSON form) on the code under test.
	run func(in json.RawMessage) interface{}
}

var modes = map[string]mode{}

type event struct {
	K   int             `json:"k"`
	In  json.RawMessage `json:"in"`
	Out interface{}     `json:"out"`
}

type failure struct {
	Fail string `json:"fail"` // "panic" or "hang"
	Msg  string `json:"msg"`
}

// thorough tells the generators to make larger cases.
var thorough bool

func runGuarded(m mode, in json.RawMessage, limit time.Duration) interface{} {
	ch := make(chan interface{}, 1)
	go func() {
		defer func() {
			if e := recover(); e != nil {
				ch <- failure{"panic", fmt.Sprint(e) + "\n" + string(debug.Stack())}
			}
		}()
		ch <- m.run(in)
	}()
	select {
	case out := <-ch:
		return out
	case <-time.After(limit):
		return failure{"hang", "no result after " + limit.String()}
	}
}

func main() {
	modeName := flag.String("mode", "", "mode")
	seed := flag.Uint64("seed", 1, "seed")
	n := flag.Int("n", 100, "number of cases")
	out := flag.String("out", "", "output file")
	inFile := flag.String("in", "", "read the cases' inputs from this file, one JSON value per line")
	only := flag.Int("only", -1, "run only this case")
	progress := flag.String("progress", "", "file that holds the number of the case being run")
	limit := flag.Duration("limit", 20*time.Second, "time limit per case")
	dump := flag.Bool("dump", false, "write the inputs only, one per line, and run nothing")
	tier := flag.String("tier", "quick", "quick or thorough")
	flag.Parse()
	thorough = *tier == "thorough"
	m, ok := modes[*modeName]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown mode", *modeName)
		os.Exit(3)
	}
	var inputs []json.RawMessage
	if *inFile != "" {
		f, err := os.Open(*inFile)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		sc := bufio.NewScanner(f)
		sc.Buffer(make([]byte, 1<<20), 1<<28)
		for sc.Scan() {
			if len(sc.Bytes()) > 0 {
				inputs = append(inputs, append(json.RawMessage(nil), sc.Bytes()...))
			}
		}
		*n = len(inputs)
	}
	f, err := os.Create(*out)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	w := bufio.NewWriterSize(f, 1<<20)
	var pf *os.File
	if *progress != "" {
		pf, err = os.Create(*progress)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
	}
	enc := json.NewEncoder(w)
	enc.SetEscapeHTML(false)
	for k := 0; k < *n; k++ {
		if *only >= 0 && k != *only {
			continue
		}
		if *dump {
			b, err := json.Marshal(m.gen(newRNG(*seed*1000003+uint64(k)*7919), k))
			must(err)
			w.Write(b)
			w.WriteByte('\n')
			continue
		}
		if pf != nil {
			pf.WriteAt([]byte(fmt.Sprintf("%12d\n", k)), 0)
		}
		var in json.RawMessage
		if inputs != nil {
			in = inputs[k]
		} else {
			r := newRNG(*seed*1000003 + uint64(k)*7919)
			b, err := json.Marshal(m.gen(r, k))
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(3)
			}
			in = b
		}
		o := runGuarded(m, in, *limit)
		if err := enc.Encode(event{k, in, o}); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		if fl, ok := o.(failure); ok && fl.Fail == "hang" {
			// The goroutine is still running: stop here.
			break
		}
		if k%64 == 0 {
			w.Flush()
		}
	}
	if err := w.Flush(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	f.Close()
	if pf != nil {
		pf.WriteAt([]byte("          -1\n"), 0)
	}
}

// rng is a small deterministic generator (splitmix64), so that cases do not
// depend on the Go version's math/rand.
type rng struct{ s uint64 }

func newRNG(seed uint64) *rng {
	r := &rng{seed}
	r.next()
	r.next()
	return r
}

func (r *rng) next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// n returns a number in [0, n).
func (r *rng) n(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.next() % uint64(n))
}

// in returns a number in [lo, hi].
func (r *rng) in(lo, hi int) int { return lo + r.n(hi-lo+1) }

// p returns true with probability num/den.
func (r *rng) p(num, den int) bool { return r.n(den) < num }

func (r *rng) pick(xs ...int) int { return xs[r.n(len(xs))] }

// clampInt keeps recorded values inside TLC's 32-bit integers.
func clampInt(x int) int {
	if x > 2000000000 {
		return 2000000000
	}
	if x < -2000000000 {
		return -2000000000
	}
	return x
}

func must(err error) {
	if err != nil {
		panic("harness: " + err.Error())
	}
}

func decode(in json.RawMessage, v interface{}) {
	if err := json.Unmarshal(in, v); err != nil {
		fmt.Fprintln(os.Stderr, "bad input:", err)
		os.Exit(3)
	}
}

var _ = strconv.Itoa
var _ = runtime.NumCPU
