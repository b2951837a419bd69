package main

// Replaying the transitions TLC enumerated (MCWriter) on the real writer.

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
)

func init() { commands["replay"] = cmdReplay }

type transition struct {
	id     int
	cfg    int
	hist   []int
	op     int
	res    string
	open   int
	out    S
	evs    [][6]json.RawMessage
	closes bool
	cres   string
	cout   S
}

func (t *transition) UnmarshalJSON(b []byte) error {
	var raw []json.RawMessage
	if err := json.Unmarshal(b, &raw); err != nil {
		return err
	}
	for i, dst := range []interface{}{&t.cfg, &t.hist, &t.op, &t.res, &t.open, &t.out, &t.evs} {
		if err := json.Unmarshal(raw[i], dst); err != nil {
			return err
		}
	}
	var c []json.RawMessage
	if err := json.Unmarshal(raw[7], &c); err != nil {
		return err
	}
	if len(c) == 2 {
		t.closes = true
		if err := json.Unmarshal(c[0], &t.cres); err != nil {
			return err
		}
		return json.Unmarshal(c[1], &t.cout)
	}
	return nil
}

func (t *transition) wantEvs() [][2]Ev {
	var out [][2]Ev
	for _, e := range t.evs {
		var v [2]Ev
		for i := 0; i < 2; i++ {
			must(json.Unmarshal(e[3*i], &v[i].St))
			must(json.Unmarshal(e[3*i+1], &v[i].K))
			must(json.Unmarshal(e[3*i+2], &v[i].Ch))
		}
		out = append(out, v)
	}
	return out
}

// differs compares what happened with what TLC says.
func (t *transition) differs(rec Rec, dep0 int) string {
	switch {
	case rec.Pan:
		return "panic"
	case rec.Err != (t.res != "ok"):
		return "error"
	case t.res == "fail":
		return ""
	case rec.Dep != dep0+t.open:
		return "depth"
	case rec.Out != t.out:
		return "output"
	}
	return ""
}

// mcFile reads TLC's output.
func mcFile(path string, f func(line int, t *transition)) {
	fh, err := os.Open(path)
	must(err)
	defer fh.Close()
	sc := bufio.NewScanner(fh)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	var pending []string
	for sc.Scan() {
		if b := sc.Text(); strings.HasPrefix(b, `"@T `) {
			pending = append(pending, b)
		}
	}
	must(sc.Err())
	var wg sync.WaitGroup
	workers := runtime.NumCPU()
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for i := w; i < len(pending); i += workers {
				s, err := strconv.Unquote(pending[i])
				must(err)
				t := &transition{id: i + 1}
				if err := json.Unmarshal([]byte(s[3:]), t); err != nil {
					panic(fmt.Sprintf("%v: %s", err, pending[i]))
				}
				f(i, t)
			}
		}(w)
	}
	wg.Wait()
}

func cmdReplay(args []string) {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	mc := fs.String("mc", "", "TLC's output")
	evs := fs.Bool("evs", false, "compare indenter events")
	judge := fs.String("judge", "step", "what the specification is to look at in runs that differ")
	path := fs.String("o", "", "runs that differ")
	many := fs.Bool("many", false, "several writers")
	limit := fs.Int("limit", 40, "")
	fs.Parse(args)

	// the tables come first in TLC's output; read them before the transitions
	var mu sync.Mutex
	kinds := map[string]int{}
	bad := map[int]Trace{}
	total, steps, accepted := 0, 0, 0
	distinct := map[string]bool{}
	pre := loadTables(*mc)
	cfgs, ops := pre.cfgs, pre.ops
	mcFile(*mc, func(i int, t *transition) {
		cfg := cfgs[t.cfg-1]
		// hist and op name the writer, too, when there are several: 100 * writer + op
		opts := options(cfg)
		runs := map[int]*Run{}
		trs := map[int]*Trace{}
		made := map[int]*built{}
		at := func(h int) (*Run, *Trace, *built) {
			w, i := 0, h-1
			if *many {
				w, i = h/100, h%100-1
			}
			if runs[w] == nil {
				runs[w] = newRunOpts(cfg, &memSink{}, opts)
				trs[w] = &Trace{ID: t.id, Cfg: cfg, Dep0: runs[w].dep0, J: judgeOf(*judge, *evs)}
			}
			if made[i] == nil {
				made[i] = build(ops[i], i%2 == 1, i%3 == 1)
			}
			return runs[w], trs[w], made[i]
		}
		if *many && t.id%2 == 0 {
			at(100*2 + 1) // all writers exist from the start; else from their first call
			at(100*1 + 1)
		}
		why := ""
		for _, h := range t.hist {
			r, tr, op := at(h)
			rec, _ := r.stepBuilt(op)
			tr.Ev = append(tr.Ev, rec)
			if rec.Pan {
				why = "panic"
				break
			}
		}
		r, tr, op := at(t.op)
		if why == "" {
			rec, _ := r.stepBuilt(op)
			tr.Ev = append(tr.Ev, rec)
			why = t.differs(rec, r.dep0)
			if why == "" && *evs && t.res != "fail" && !sameEvs(rec.Evs, t.wantEvs()) {
				why = "events"
			}
			if t.closes && !rec.Pan {
				c, _ := r.step(Op{O: "endallflush"})
				tr.Ev = append(tr.Ev, c)
				if why == "" {
					switch {
					case c.Pan:
						why = "panic"
					case c.Err != (t.cres != "ok"):
						why = "close-error"
					case t.cres == "ok" && (c.Out != t.cout || c.Dep != r.dep0):
						why = "close-output"
					}
				}
			}
		}
		mu.Lock()
		defer mu.Unlock()
		total++
		steps += len(tr.Ev)
		if t.res == "ok" {
			accepted++
		}
		distinct[t.res+"/"+strconv.Itoa(t.op)+"/"+string(t.out)] = true
		if why != "" {
			kinds[why]++
			bad[i] = *tr
		}
	})
	o := create(*path)
	n := 0
	for i := 0; n < *limit && len(bad) > 0; i++ {
		if tr, ok := bad[i]; ok {
			o.line(tr.appendJSON(nil))
			delete(bad, i)
			n++
		}
	}
	o.close()
	fmt.Println(string(jsonLine(map[string]interface{}{
		"transitions": total, "steps": steps, "accepted": accepted, "distinct": len(distinct), "differ": kinds, "written": n})))
}

func sameEvs(a, b [][2]Ev) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func judgeOf(s string, evs bool) Judge {
	j := Judge{Evs: evs}
	for _, f := range strings.Split(s, ",") {
		switch f {
		case "step":
			j.Step = true
		case "wf":
			j.Wf = true
		case "tree":
			j.Wf, j.Tree = true, true
		case "":
		default:
			panic("unknown judge " + f)
		}
	}
	return j
}

type tabs struct {
	ops  []Op
	cfgs []Cfg
}

func loadTables(path string) (t tabs) {
	fh, err := os.Open(path)
	must(err)
	defer fh.Close()
	sc := bufio.NewScanner(fh)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		b := sc.Text()
		if strings.HasPrefix(b, `"@OPS `) {
			s, err := strconv.Unquote(b)
			must(err)
			must(json.Unmarshal([]byte(s[5:]), &t.ops))
		}
		if strings.HasPrefix(b, `"@CFGS `) {
			s, err := strconv.Unquote(b)
			must(err)
			must(json.Unmarshal([]byte(s[6:]), &t.cfgs))
		}
		if t.ops != nil && t.cfgs != nil {
			return t
		}
	}
	panic("no tables in " + path)
}
