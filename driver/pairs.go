package main

// Runs that are compared with each other: C14 (validation on and off) and
// C20 (several writers, shared options and node values).

import (
	"flag"
	"fmt"
	"math/rand"
	"reflect"
	"sync"

	xw "github.com/shabbyrobe/xmlwriter"
)

func init() {
	commands["lax"] = cmdLax
	commands["many"] = cmdMany
}

func appendRecs(b []byte, rs []Rec) []byte {
	b = append(b, '[')
	for i, r := range rs {
		if i > 0 {
			b = append(b, ',')
		}
		b = r.appendJSON(b)
	}
	return append(b, ']')
}

// cmdLax runs histories with validation on, and the calls that were accepted
// again with validation off.
func cmdLax(args []string) {
	fs := flag.NewFlagSet("lax", flag.ExitOnError)
	prof := fs.String("profile", "twin", "")
	seed := fs.Int64("seed", 1, "")
	count := fs.Int("n", 100, "")
	path := fs.String("o", "", "")
	fs.Parse(args)
	o := create(*path)
	steps := 0
	for i := 0; i < *count; i++ {
		g := newGen(profiles[*prof], *seed*1000003+int64(i))
		t := g.trace()
		c := t.Cfg
		c.Enf = false
		r := newRun(c, &memSink{})
		var a, b []Rec
		dep := t.Dep0
		for _, e := range t.Ev {
			a = append(a, e)
			if e.Err && e.Out == "" && e.Dep == dep && !e.Pan { // refused: not repeated
				b = append(b, Rec{Op: Op{O: "flush"}, Dep: e.Dep, Err: true})
				continue
			}
			dep = e.Dep
			rec, _ := r.step(e.Op)
			b = append(b, rec)
			steps++
			if e.Err || rec.Pan {
				break
			}
		}
		line := []byte(fmt.Sprintf(`{"id":%d,"mode":"lax","cfg":%s,"a":`, i+1, jsonLine(t.Cfg)))
		line = appendRecs(line, a)
		line = append(line, `,"b":`...)
		line = appendRecs(line, b)
		o.line(append(line, '}'))
	}
	o.close()
	fmt.Printf("{\"traces\":%d,\"steps\":%d}\n", *count, steps)
}

// -- node values back to Node, to see whether a writer changed them ----------

func nodeOf(x interface{}) Node {
	if v := reflect.ValueOf(x); v.Kind() == reflect.Ptr {
		x = v.Elem().Interface()
	}
	switch n := x.(type) {
	case xw.Elem:
		out := Node{K: "elem", P: S(n.Prefix), U: S(n.URI), N: S(n.Name), F: n.Full}
		for _, a := range n.Attrs[:cap(n.Attrs)] {
			out.At = append(out.At, nodeOf(a))
		}
		for _, c := range n.Content[:cap(n.Content)] {
			if c != nil {
				out.C = append(out.C, nodeOf(c))
			}
		}
		return out
	case xw.Attr:
		return Node{K: "attr", P: S(n.Prefix), U: S(n.URI), N: S(n.Name), V: S(n.Value)}
	case xw.Text:
		return Node{K: "text", S: S(n)}
	case xw.Raw:
		return Node{K: "raw", S: S(n)}
	case xw.Comment:
		return Node{K: "comment", S: S(n.Content)}
	case xw.CommentContent:
		return Node{K: "ccontent", S: S(n)}
	case xw.CData:
		return Node{K: "cdata", S: S(n.Content)}
	case xw.CDataContent:
		return Node{K: "cdcontent", S: S(n)}
	case xw.PI:
		return Node{K: "pi", N: S(n.Target), S: S(n.Content)}
	case xw.Doc:
		out := Node{K: "doc", Se: n.SuppressEncoding, Sv: n.SuppressVersion, Sa: -1}
		if n.ForcedEncoding != nil {
			out.Fe = []S{S(*n.ForcedEncoding)}
		}
		if n.ForcedVersion != nil {
			out.Fv = []S{S(*n.ForcedVersion)}
		}
		if n.Standalone != nil {
			out.Sa = 0
			if *n.Standalone {
				out.Sa = 1
			}
		}
		return out
	case xw.DTD:
		return Node{K: "dtd", N: S(n.Name), Pub: S(n.PublicID), Sys: S(n.SystemID)}
	case xw.DTDElem:
		return Node{K: "dtdelem", N: S(n.Name), S: S(n.Decl)}
	case xw.DTDEntity:
		return Node{K: "dtdent", N: S(n.Name), S: S(n.Content), F: n.IsPE, Pub: S(n.PublicID), Sys: S(n.SystemID), Nd: S(n.NDataID)}
	case xw.DTDAttList:
		out := Node{K: "attlist", N: S(n.Name)}
		for _, a := range n.Attrs[:cap(n.Attrs)] {
			out.At = append(out.At, nodeOf(a))
		}
		return out
	case xw.DTDAttr:
		return Node{K: "dtdattr", N: S(n.Name), Ty: S(n.Type), Df: int(n.Default), S: S(n.Value)}
	case xw.Notation:
		return Node{K: "notation", N: S(n.Name), Sys: S(n.SystemID), Pub: S(n.PublicID)}
	}
	panic(fmt.Sprintf("unknown node %T", x))
}

func (b *built) snapshot() (out []Node) {
	for _, s := range b.ss {
		out = append(out, nodeOf(s))
	}
	for _, w := range b.ws {
		out = append(out, nodeOf(w))
	}
	for _, a := range b.as[:cap(b.as)] {
		out = append(out, nodeOf(a))
	}
	return
}

// cmdMany runs groups of writers made from the same option values and fed
// with the same node values, interleaved call by call or concurrently.
func cmdMany(args []string) {
	fs := flag.NewFlagSet("many", flag.ExitOnError)
	prof := fs.String("profile", "share", "")
	seed := fs.Int64("seed", 1, "")
	count := fs.Int("n", 100, "groups")
	conc := fs.Bool("conc", false, "concurrently")
	path := fs.String("o", "", "runs")
	npath := fs.String("nodes", "", "node values before and after")
	fs.Parse(args)
	o, no := create(*path), create(*npath)
	id, steps := 0, 0
	for i := 0; i < *count; i++ {
		rnd := rand.New(rand.NewSource(*seed*7919 + int64(i)))
		g := newGen(profiles[*prof], *seed*1000003+int64(i))
		c := g.config()
		pool := map[string]*built{}
		var order []*built
		share := func(op Op) *built {
			k := string(op.appendJSON(nil))
			if pool[k] == nil {
				pool[k] = build(op, len(pool)%2 == 1, len(pool)%5 == 1)
				order = append(order, pool[k])
			}
			return pool[k]
		}
		// two histories; the first is run by several writers
		var hists [][]*built
		for h := 0; h < 2; h++ {
			hg := newGen(profiles[*prof], *seed*1000003+int64(i)*31+int64(h)+5)
			var ops []*built
			for _, e := range hg.traceWith(c).Ev {
				ops = append(ops, share(e.Op))
				if rnd.Intn(8) == 0 {
					ops = append(ops, ops[rnd.Intn(len(ops))])
				}
			}
			if rnd.Intn(2) == 0 {
				ops = append(ops, share(Op{O: "endallflush"}))
				ops = append(ops, ops...)
			}
			hists = append(hists, ops)
		}
		runs := [][]*built{hists[0], hists[1], hists[0]}
		if *conc {
			runs = append(runs, hists[0], hists[1], hists[0])
		}
		var before [][]Node
		for _, b := range order {
			before = append(before, b.snapshot())
		}
		opts := options(c)
		ts := make([]Trace, len(runs))
		rs := make([]*Run, len(runs))
		open := func(k int) {
			rs[k] = newRunOpts(c, &memSink{}, opts)
			ts[k] = Trace{Cfg: c, Dep0: rs[k].dep0, J: Judge{Step: true, Evs: c.Rec}}
		}
		// writers exist from the start or from their first call
		for lazy, k := rnd.Intn(2) == 0, 0; k < len(runs) && !lazy; k++ {
			open(k)
		}
		own := rnd.Intn(4) == 0 // node values made for each call
		step := func(k, at int) {
			if rs[k] == nil {
				open(k)
			}
			b := runs[k][at]
			if own {
				b = rs[k].build(b.Op)
			}
			rec, _ := rs[k].stepBuilt(b)
			ts[k].Ev = append(ts[k].Ev, rec)
		}
		if *conc {
			var wg sync.WaitGroup
			start := make(chan struct{})
			for k := range runs {
				wg.Add(1)
				go func(k int) {
					defer wg.Done()
					<-start
					for at := range runs[k] {
						if rs[k] == nil || !rs[k].dead {
							step(k, at)
						}
					}
				}(k)
			}
			close(start)
			wg.Wait()
		} else {
			at := make([]int, len(runs))
			for live := true; live; {
				live = false
				for _, k := range rnd.Perm(len(runs)) {
					for n := rnd.Intn(3); n > 0 && at[k] < len(runs[k]) && (rs[k] == nil || !rs[k].dead); n-- {
						step(k, at[k])
						at[k]++
					}
					live = live || (at[k] < len(runs[k]) && (rs[k] == nil || !rs[k].dead))
				}
			}
		}
		for k := range ts {
			id++
			ts[k].ID = id
			steps += len(ts[k].Ev)
			o.line(ts[k].appendJSON(nil))
		}
		line := []byte(fmt.Sprintf(`{"id":%d,"mode":"nodes","cfg":%s,"a":[`, i+1, jsonLine(c)))
		for j, b := range before {
			if j > 0 {
				line = append(line, ',')
			}
			line = appendNodes(line, b)
		}
		line = append(line, `],"b":[`...)
		for j, b := range order {
			if j > 0 {
				line = append(line, ',')
			}
			line = appendNodes(line, b.snapshot())
		}
		no.line(append(line, "]}"...))
	}
	o.close()
	no.close()
	fmt.Printf("{\"groups\":%d,\"traces\":%d,\"steps\":%d}\n", *count, id, steps)
}
