package main

// C23: any calls in any order under any conditions; every one must return.

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"math"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	xw "github.com/shabbyrobe/xmlwriter"
)

func init() { commands["returns"] = cmdReturns }

func setIndenter(w *xw.Writer, k string) {
	switch k {
	case "none":
		w.Indenter = nil
	case "std":
		w.Indenter = xw.NewStandardIndenter()
	case "zero":
		w.Indenter = &xw.StandardIndenter{}
	case "rec":
		w.Indenter = &recIndenter{std: xw.NewStandardIndenter(), wrap: "box", fail: 4}
	default:
		panic("unknown indenter " + k)
	}
}

type retCfg struct {
	Cfg
	Limit int    `json:"limit"`
	Mode  string `json:"mode"`
	Once  bool   `json:"once"`
}

var errRunaway = errors.New("runaway output")

// capped stops runaway output.
type capped struct {
	sink
	n int
}

func (c *capped) Write(p []byte) (int, error) {
	if c.n += len(p); c.n > 1<<28 {
		panic(errRunaway)
	}
	return c.sink.Write(p)
}

type retCall struct {
	how int // 0: returned, 1: panicked, 2: did not return
	err bool
	dep int
}

// retRuns is a history under several configurations, filled in as it runs.
type retRuns struct {
	mu   sync.Mutex
	runs [][]retCall
	dead bool
}

func levelOf(op Op) Op {
	// the specification's extreme levels stand for the machine's
	if op.O == "endto" && op.D >= 2147483640 {
		op.D = math.MaxInt
	} else if op.O == "endto" && op.D <= -2147483640 {
		op.D = math.MinInt + 1
	}
	return op
}

func (rr *retRuns) run(c retCfg, ops []Op) {
	call := func(f func() (error, int)) (out retCall) {
		defer func() {
			if p := recover(); p != nil {
				out = retCall{1, true, 0}
				if e, ok := p.(error); ok && errors.Is(e, errRunaway) {
					out.how = 2
				}
			}
		}()
		err, dep := f()
		return retCall{0, err != nil, dep}
	}
	var r *Run
	opts := options(c.Cfg)
	if c.Ind == "zero" {
		opts = append(opts, func(w *xw.Writer) { w.Indenter = &xw.StandardIndenter{IndentString: string(c.Istr)} })
	}
	r = newRunOpts(c.Cfg, &capped{sink: &faultSink{limit: c.Limit, mode: c.Mode, once: c.Once, err: sinkErrors[(c.Limit+17)%len(sinkErrors)]}}, opts)
	rr.mu.Lock()
	rr.runs = append(rr.runs, nil)
	at := len(rr.runs) - 1
	rr.mu.Unlock()
	for i, op := range ops {
		b := build(levelOf(op), i%2 == 1, i%3 == 1)
		rr.mu.Lock()
		rr.runs[at] = append(rr.runs[at], retCall{2, true, 0})
		rr.mu.Unlock()
		res := call(func() (error, int) { e := b.call(r.w, r.dep0); return e, r.w.Depth() - r.dep0 })
		rr.mu.Lock()
		if rr.dead {
			rr.mu.Unlock()
			return
		}
		rr.runs[at][len(rr.runs[at])-1] = res
		rr.mu.Unlock()
		if res.how != 0 {
			break
		}
	}
}

func (rr *retRuns) append(b []byte) []byte {
	rr.mu.Lock()
	defer rr.mu.Unlock()
	b = append(b, '[')
	for i, run := range rr.runs {
		if i > 0 {
			b = append(b, ',')
		}
		b = append(b, '[')
		for j, c := range run {
			if j > 0 {
				b = append(b, ',')
			}
			b = append(b, '[')
			b = strconv.AppendInt(b, int64(c.how), 10)
			b = append(b, ',')
			b = strconv.AppendBool(b, c.err)
			b = append(b, ',')
			b = strconv.AppendInt(b, int64(c.dep), 10)
			b = append(b, ']')
		}
		b = append(b, ']')
	}
	return append(b, ']')
}

// shapes of what was called: all the specification needs to know
func shapeNodes(ns []Node) []Node {
	out := make([]Node, len(ns))
	for i, n := range ns {
		out[i] = Node{K: n.K}
		x := 0 // elements inside one another are counted: JSON readers do not like them nested
		for n.K == "elem" && len(n.C) == 1 && n.C[0].K == "elem" {
			x++
			n = n.C[0]
		}
		if x > 0 {
			out[i].K, out[i].Df = "chain", x
		}
		if n.K == "elem" {
			out[i].C = shapeNodes(n.C)
		}
	}
	return out
}

func shapeOp(op Op) Op {
	op.Ns = shapeNodes(op.Ns)
	if op.N != nil {
		n := shapeNodes([]Node{*op.N})[0]
		op.N = &n
	}
	for i := range op.Names {
		op.Names[i] = ""
	}
	return op
}

type retJob struct {
	id   int
	h    []int
	ops  []Op
	cfgs []retCfg
}

// wildOps draws a history by making it.
func wildOps(g *gen) (retCfg, []Op) {
	c := retCfg{Cfg: g.config(), Limit: -1, Mode: g.pick("part", "whole", "short"), Once: g.chance(0.3)}
	if g.chance(0.3) {
		c.Limit = g.r.Intn(60)
	}
	if g.chance(0.15) {
		c.Coder = g.pick("iso-8859-1", "windows-1252", "utf-16be", "utf-16le")
		c.Enc = S(c.Coder)
	}
	if c.Ind == "std" && !c.Rec && g.chance(0.3) {
		c.Ind = "zero"
	}
	return c, nil
}

func (g *gen) wildOp() Op {
	switch x := g.r.Float64(); {
	case x < 0.03:
		return Op{O: "setind", K: g.pick("none", "std", "zero", "rec")}
	case x < 0.06:
		return Op{O: "endto", D: []int{-1, -2, -9, 0, 1, 5, 100, 2147483640, -2147483647}[g.r.Intn(9)], K: g.pick(endKinds...)}
	case x < 0.08:
		return Op{O: "end", K: g.pick("big", "neg", "past", "none", "text"), Names: []S{"", "", ""}[:g.r.Intn(4)]}
	case x < 0.10:
		op := Op{O: g.pick("start", "write", "attrs")}
		return op // of nothing
	case x < 0.12:
		n := Node{K: "elem", N: "d"}
		for i := []int{1, 2, 7, 9, 30, 300, 1000}[g.r.Intn(7)]; i > 0; i-- {
			n = Node{K: "elem", N: S(g.pick("d", "e")), C: []Node{n}}
		}
		if g.chance(0.5) {
			return Op{O: "start", Ns: []Node{n}}
		}
		return Op{O: "write", Ns: []Node{n}}
	case x < 0.15:
		return Op{O: "endall"}
	}
	return g.op()
}

func cmdReturns(args []string) {
	fs := flag.NewFlagSet("returns", flag.ExitOnError)
	mc := fs.String("mc", "", "TLC's output")
	seed := fs.Int64("seed", 1, "")
	count := fs.Int("n", 0, "random histories")
	only := fs.Int("only", 0, "just this one")
	prog := fs.String("progress", "", "where to note what is being run")
	path := fs.String("o", "", "")
	fs.Parse(args)
	debug.SetMaxStack(256 << 20)

	pf, err := os.Create(*prog)
	must(err)
	defer pf.Close()
	o := create(*path)
	var mu sync.Mutex
	calls, runs, refused, hung := 0, 0, 0, 0

	var big atomic.Bool
	go func() {
		var ms runtime.MemStats
		for {
			time.Sleep(300 * time.Millisecond)
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 6<<30 {
				big.Store(true)
			}
		}
	}()

	do := func(worker int, j retJob, draw func(*retRuns) ([]Op, bool)) {
		if *only != 0 && j.id != *only {
			return
		}
		var slot [8]byte
		binary.LittleEndian.PutUint64(slot[:], uint64(j.id))
		pf.WriteAt(slot[:], int64(8*worker))
		rr := &retRuns{}
		done := make(chan struct{})
		go func() {
			if draw != nil {
				j.ops, _ = draw(rr)
			}
			for _, c := range j.cfgs {
				rr.run(c, j.ops)
			}
			close(done)
		}()
		limit := time.After(20 * time.Second)
		tick := time.NewTicker(300 * time.Millisecond)
		defer tick.Stop()
	wait:
		for {
			select {
			case <-done:
				break wait
			case <-limit:
			case <-tick.C:
				if !big.Load() {
					continue
				}
			}
			rr.mu.Lock()
			rr.dead = true
			rr.mu.Unlock()
			mu.Lock()
			hung++
			mu.Unlock()
			break
		}
		b := append([]byte(nil), fmt.Sprintf(`{"id":%d,"h":`, j.id)...)
		hs, _ := json.Marshal(j.h)
		if j.h == nil {
			hs = []byte("[]")
		}
		b = append(b, hs...)
		b = append(b, `,"ops":[`...)
		if j.h == nil {
			for i, op := range j.ops {
				if i > 0 {
					b = append(b, ',')
				}
				b = shapeOp(op).appendJSON(b)
			}
		}
		b = append(b, `],"runs":`...)
		b = rr.append(b)
		b = append(b, '}')
		mu.Lock()
		defer mu.Unlock()
		o.line(b)
		rr.mu.Lock()
		for _, r := range rr.runs {
			runs++
			calls += len(r)
			for _, c := range r {
				if c.err {
					refused++
				}
			}
		}
		rr.mu.Unlock()
	}

	stop := func() bool { mu.Lock(); defer mu.Unlock(); return hung > 2 }
	var wg sync.WaitGroup
	jobs := make(chan retJob, 64)
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for j := range jobs {
				if stop() {
					continue
				}
				if j.ops != nil {
					do(w, j, nil)
					continue
				}
				g := newGen(profiles["wild"], *seed*1000003+int64(j.id))
				c, _ := wildOps(g)
				d := c
				d.Limit, d.Buf, d.Once = g.r.Intn(40), []int{1, 16, 64}[g.r.Intn(3)], g.chance(0.5)
				e := c
				e.Enf, e.Ind, e.Rec = !c.Enf, "zero", false
				huge := 0
				if j.id%250 == 7 {
					// very many nodes inside each other, or one after the other; not indented, that would be quadratic
					huge = []int{1100, 5000, 5000, 40000, 66000}[g.r.Intn(5)]
					c.Ind, d.Ind, e.Ind = "none", "none", "none"
				}
				j.cfgs = []retCfg{d, e}
				do(w, j, func(rr *retRuns) ([]Op, bool) { return drawRun(g, c, huge, rr) })
			}
		}(w)
	}
	total := 0
	if *mc != "" {
		ops, cfgs, hs := retTables(*mc)
		for i, h := range hs {
			j := retJob{id: i + 1, h: h, cfgs: cfgs}
			for _, x := range h {
				j.ops = append(j.ops, ops[x-1])
			}
			jobs <- j
		}
		total += len(hs)
	}
	for i := 0; i < *count; i++ {
		total++
		jobs <- retJob{id: total}
	}
	close(jobs)
	wg.Wait()
	o.close()
	fmt.Println(string(jsonLine(map[string]interface{}{"histories": total, "runs": runs, "calls": calls, "refused": refused, "hung": hung})))
}

// drawRun draws a history call by call, steered by what the writer does.
func drawRun(g *gen, c retCfg, huge int, rr *retRuns) ([]Op, bool) {
	var ops []Op
	g.cfg = c.Cfg
	for i := g.between(1, 2); i > 0 && huge > 0; i-- {
		nd := Node{K: "elem", N: "d"}
		op := Op{O: g.pick("start", "start", "write"), Ns: make([]Node, huge)}
		if g.chance(0.2) {
			nd = Node{K: g.pick("text", "comment", "raw", "attr"), N: "x"}
			op.O = "write"
		}
		for k := range op.Ns {
			op.Ns[k] = nd
		}
		ops = append(ops, op)
		if op.O == "start" {
			for k := 0; k < 20; k++ { // enough to go on with
				g.stk = append(g.stk, gframe{k: "elem", n: "d", open: true, attrs: map[string]bool{}, ns: map[string]string{}})
			}
		}
	}
	n := g.between(g.p.Ops[0], g.p.Ops[1])
	if g.chance(g.p.Deep) {
		for i := g.between(5, 80); i > 0; i-- {
			ops = append(ops, Op{O: "start", Ns: []Node{{K: "elem", N: "d"}}})
			g.stk = append(g.stk, gframe{k: "elem", n: "d", open: true, attrs: map[string]bool{}, ns: map[string]string{}})
		}
	}
	for ; n > 0; n-- {
		op := g.wildOp()
		ops = append(ops, op)
		if g.chance(0.6) {
			func() {
				defer func() { recover() }() // only a picture of what may be open
				g.applied(op)
			}()
		}
	}
	rr.run(c, ops)
	return ops, true
}

func retTables(path string) (ops []Op, cfgs []retCfg, hs [][]int) {
	fh, err := os.Open(path)
	must(err)
	defer fh.Close()
	sc := bufio.NewScanner(fh)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		b := sc.Text()
		if !strings.HasPrefix(b, `"@`) {
			continue
		}
		s, err := strconv.Unquote(b)
		must(err)
		switch {
		case strings.HasPrefix(s, "@OPS "):
			must(json.Unmarshal([]byte(s[5:]), &ops))
		case strings.HasPrefix(s, "@CFGS "):
			must(json.Unmarshal([]byte(s[6:]), &cfgs))
		case strings.HasPrefix(s, "@H "):
			var h []int
			must(json.Unmarshal([]byte(s[3:]), &h))
			hs = append(hs, h)
		}
	}
	must(sc.Err())
	return
}
