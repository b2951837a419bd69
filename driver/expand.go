package main

// C08: the same history as structured calls and as single calls.

import (
	"flag"
	"fmt"
)

func init() { commands["expand"] = cmdExpand }

func one(o string, n Node, via int) Op { return Op{O: o, Ns: []Node{n}, Via: via} }

func closeOp(k string, via int) Op { return Op{O: "end", K: k, Via: via} }

func (g *gen) startParts(n Node) []Op {
	if n.K != "elem" {
		return []Op{one("start", n, g.r.Intn(2))}
	}
	at := n.At
	n.At = nil
	ops := []Op{one("start", n, g.r.Intn(2))}
	for _, a := range at {
		ops = append(ops, one("write", a, g.r.Intn(2)))
	}
	return ops
}

func (g *gen) contentParts(n Node) (ops []Op) {
	switch n.K {
	case "elem":
		for _, c := range n.C {
			ops = append(ops, g.writeParts(c)...)
		}
	case "comment":
		if n.S != "" {
			ops = append(ops, one("write", Node{K: "ccontent", S: n.S}, g.r.Intn(2)))
		}
	case "cdata":
		if n.S != "" {
			ops = append(ops, one("write", Node{K: "cdcontent", S: n.S}, g.r.Intn(2)))
		}
	case "attlist":
		for _, c := range n.At {
			ops = append(ops, g.writeParts(c)...)
		}
	}
	return
}

func bare(n Node) Node {
	switch n.K {
	case "elem":
		n.C = nil
	case "comment", "cdata":
		n.S = ""
	case "attlist":
		n.At = nil
	}
	return n
}

func (g *gen) writeParts(n Node) []Op {
	if !isStart[n.K] {
		return []Op{one("write", n, g.r.Intn(2))}
	}
	ops := g.startParts(bare(n))
	ops = append(ops, g.contentParts(n)...)
	return append(ops, closeOp(n.K, g.r.Intn(2)))
}

func (g *gen) parts(op Op) (ops []Op) {
	switch op.O {
	case "start":
		for _, n := range op.Ns {
			ops = append(ops, g.startParts(n)...)
		}
	case "write":
		for _, n := range op.Ns {
			ops = append(ops, g.writeParts(n)...)
		}
	case "attrs":
		for _, n := range op.Ns {
			ops = append(ops, one("write", n, g.r.Intn(2)))
		}
	case "block":
		ops = g.startParts(bare(*op.N))
		i := 0
		for ; i < len(op.Ns) && op.Ns[i].K == "attr"; i++ {
			ops = append(ops, one("write", op.Ns[i], g.r.Intn(2)))
		}
		ops = append(ops, g.contentParts(*op.N)...)
		for ; i < len(op.Ns); i++ {
			ops = append(ops, g.writeParts(op.Ns[i])...)
		}
		ops = append(ops, closeOp(op.N.K, g.r.Intn(2)))
	default:
		ops = []Op{op}
	}
	return
}

func cmdExpand(args []string) {
	fs := flag.NewFlagSet("expand", flag.ExitOnError)
	prof := fs.String("profile", "inline", "")
	seed := fs.Int64("seed", 1, "")
	count := fs.Int("n", 100, "")
	path := fs.String("o", "", "")
	fs.Parse(args)
	o := create(*path)
	steps := 0
	for i := 0; i < *count; i++ {
		g := newGen(profiles[*prof], *seed*1000003+int64(i))
		t := g.trace()
		r := newRun(t.Cfg, &memSink{})
		b := []byte(fmt.Sprintf(`{"id":%d,"cfg":`, i+1))
		b = append(b, jsonLine(t.Cfg)...)
		b = append(b, `,"a":[`...)
		for j, e := range t.Ev {
			if j > 0 {
				b = append(b, ',')
			}
			b = e.appendJSON(b)
		}
		b = append(b, `],"b":[`...)
		dead := false
		for j, e := range t.Ev {
			if j > 0 {
				b = append(b, ',')
			}
			b = append(b, '[')
			if !dead {
				parts := g.parts(e.Op)
				for k, op := range parts {
					rec, _ := r.step(op)
					if k > 0 {
						b = append(b, ',')
					}
					b = rec.appendJSON(b)
					steps++
					if rec.Pan || (rec.Err && len(parts) > 1) {
						dead = true
						break
					}
				}
				dead = dead || (e.Err && len(parts) != 1)
			}
			b = append(b, ']')
		}
		b = append(b, "]}"...)
		o.line(b)
	}
	o.close()
	fmt.Printf("{\"traces\":%d,\"steps\":%d}\n", *count, steps)
}
