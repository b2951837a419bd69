package main

// C17: the same history in UTF-8 and in another encoding.

import (
	"flag"
	"fmt"
	"math/rand"
	"strings"

	xw "github.com/shabbyrobe/xmlwriter"
	"golang.org/x/text/encoding"
	"golang.org/x/text/encoding/charmap"
	"golang.org/x/text/encoding/japanese"
	"golang.org/x/text/encoding/simplifiedchinese"
	"golang.org/x/text/encoding/traditionalchinese"
	"golang.org/x/text/encoding/unicode"
)

func init() { commands["encoding"] = cmdEncoding }

// encPool describes an encoding: characters it has and lacks that the
// specification's tables know to be so.
type encPool struct {
	name       string
	new        func() *encoding.Encoder
	has, lacks []string
	all        bool // single bytes and UTF-16: the specification knows everything
}

const jp = "\u65e5\u672c\u8a9e\u6f22\u5b57\u30c6\u30b9\u30c8\u3042\u30a2\u3001\u3002\u30fc\u4e9c\u7199"

var encPools = []encPool{
	{"iso-8859-1", charmap.ISO8859_1.NewEncoder, strings.Split("\u00e9\u00ff\u00a0\u0080\u009f\u0085\u00b7\u00c0", ""), []string{"\u20ac", "\u4e2d", "\U0001f600", "\u0131", "\u0100", "\ufffd"}, true},
	{"windows-1252", charmap.Windows1252.NewEncoder, strings.Split("\u00e9\u20ac\u2019\u00ff\u0178\u00a0", ""), []string{"\u0080", "\u009f", "\u4e2d", "\U0010ffff", "\ufffd", "\u2028"}, true},
	{"iso-8859-15", charmap.ISO8859_15.NewEncoder, strings.Split("\u20ac\u0152\u00e9\u0160", ""), []string{"\u00a4", "\u00bd", "\u4e2d", "\U0001f600"}, true},
	{"koi8-r", charmap.KOI8R.NewEncoder, strings.Split("\u0416\u044f\u2500\u00a9\u0451", ""), []string{"\u00e9", "\u20ac", "\U0001f600"}, true},
	{"utf-16be", unicode.UTF16(unicode.BigEndian, unicode.IgnoreBOM).NewEncoder, []string{"\u00e9", "\u4e2d", "\U0001f600", "\U0010ffff", "\ufffd", "\u2028", "\ue000", "\U00010000"}, nil, true},
	{"utf-16le", unicode.UTF16(unicode.LittleEndian, unicode.IgnoreBOM).NewEncoder, []string{"\u00e9", "\u4e2d", "\U0001f600", "\U0010ffff", "\ufffd", "\u2028", "\ue000", "\U00010000"}, nil, true},
	{"utf-16be-bom", unicode.UTF16(unicode.BigEndian, unicode.UseBOM).NewEncoder, []string{"\u00e9", "\U0001f600"}, nil, true},
	{"utf-16le-bom", unicode.UTF16(unicode.LittleEndian, unicode.UseBOM).NewEncoder, []string{"\u00e9", "\U0001f600"}, nil, true},
	{"shift_jis", japanese.ShiftJIS.NewEncoder, strings.Split(jp+"\uff71\uff80", ""), []string{"\u0e01", "\U0001f600", "\u00ff"}, false},
	{"euc-jp", japanese.EUCJP.NewEncoder, strings.Split(jp+"\uff71\uff80", ""), []string{"\u0e01", "\U0001f600"}, false},
	{"iso-2022-jp", japanese.ISO2022JP.NewEncoder, strings.Split(jp, ""), nil, false},
	{"gbk", simplifiedchinese.GBK.NewEncoder, strings.Split("\u4e2d\u6587\u6f22\u5b57\u65e5\u672c\u8a9e\u4e9c\u7199\u3002\u3001\u00e9", ""), []string{"\u0e01", "\U0001f600"}, false},
	{"big5", traditionalchinese.Big5.NewEncoder, strings.Split("\u4e2d\u6587\u6f22\u5b57\u65e5\u672c\u8a9e\u3002\u3001", ""), []string{"\u0e01", "\U0001f600"}, false},
}

// fit replaces what the encoding lacks (missing: keep the characters it is
// known to lack), and drops what is not UTF-8.
func (p *encPool) fit(s string, missing bool) string {
	s = strings.ToValidUTF8(s, "")
	var b strings.Builder
	for _, r := range s {
		c := string(r)
		switch {
		case r < 0x80 && p.name == "iso-2022-jp" && (r == 0x1b || r == 0x0e || r == 0x0f):
			b.WriteByte('.')
		case r < 0x80 || contains(p.has, c) || (missing && contains(p.lacks, c)):
			b.WriteString(c)
		case !p.all:
			b.WriteByte('.')
		case missing:
			b.WriteString(c)
		default:
			if _, err := p.new().String(c); err == nil {
				b.WriteString(c)
			} else {
				b.WriteByte('.')
			}
		}
	}
	return b.String()
}

func contains(ss []string, s string) bool {
	for _, x := range ss {
		if x == s {
			return true
		}
	}
	return false
}

// node makes a node suitable for the encoding, with characters of its own.
func (p *encPool) node(r *rand.Rand, n Node, kf bool) Node {
	spice := func(s S, missing bool) S {
		if r.Intn(3) > 0 {
			return S(p.fit(string(s), missing))
		}
		pool := p.has
		if missing && len(p.lacks) > 0 && r.Intn(2) == 0 {
			pool = p.lacks
		}
		at := r.Intn(len(s) + 1)
		t := strings.ToValidUTF8(string(s[:at])+pool[r.Intn(len(pool))]+string(s[at:]), "")
		if r.Intn(6) == 0 { // long enough to meet the ends of buffers
			t += strings.Repeat(pool[r.Intn(len(pool))], 1+r.Intn(700))
		}
		return S(p.fit(t, missing))
	}
	content := n.K == "text" || n.K == "dtdattr"
	switch n.K {
	case "text", "comment", "cdata", "ccontent", "cdcontent", "pi", "raw", "dtdattr":
		n.S = spice(n.S, content || kf)
	default:
		n.S = S(p.fit(string(n.S), kf))
	}
	n.V, n.U = spice(n.V, true), S(p.fit(string(n.U), true))
	n.N, n.P = S(p.fit(string(n.N), kf)), S(p.fit(string(n.P), kf))
	n.Pub, n.Sys, n.Nd, n.Ty = S(p.fit(string(n.Pub), kf)), S(p.fit(string(n.Sys), kf)), S(p.fit(string(n.Nd), kf)), S(p.fit(string(n.Ty), kf))
	n.At, n.C = p.nodes(r, n.At, kf), p.nodes(r, n.C, kf)
	for i := range n.Fe {
		n.Fe = append([]S(nil), n.Fe...)
		n.Fe[i] = S(p.fit(string(n.Fe[i]), kf))
	}
	for i := range n.Fv {
		n.Fv = append([]S(nil), n.Fv...)
		n.Fv[i] = S(p.fit(string(n.Fv[i]), kf))
	}
	return n
}

func (p *encPool) nodes(r *rand.Rand, ns []Node, kf bool) []Node {
	var out []Node
	for _, n := range ns {
		out = append(out, p.node(r, n, kf))
	}
	return out
}

// declared makes documents name the encoding the way the other writer would.
func declared(ns []Node, enc string) []Node {
	out := append([]Node(nil), ns...)
	for i := range out {
		if out[i].K == "doc" && !out[i].Se && len(out[i].Fe) == 0 {
			out[i].Fe = []S{S(enc)}
		}
	}
	return out
}

type byteSink struct {
	b      []byte
	writes int
}

func (m *byteSink) Write(p []byte) (int, error) {
	m.b = append(m.b, p...)
	m.writes++
	return len(p), nil
}

func cmdEncoding(args []string) {
	fs := flag.NewFlagSet("encoding", flag.ExitOnError)
	seed := fs.Int64("seed", 1, "")
	count := fs.Int("n", 100, "")
	vars := fs.Int("variants", 10, "")
	path := fs.String("o", "", "")
	fs.Parse(args)
	o := create(*path)
	runs, chars := 0, 0
	for i := 0; i < *count; i++ {
		r := rand.New(rand.NewSource(*seed*104729 + int64(i)))
		t := newGen(profiles["enc"], *seed*1000003+int64(i)).trace()
		p := &encPools[i%len(encPools)]
		kf := r.Intn(12) == 0 && len(p.lacks) > 0
		c := t.Cfg
		c.Rec, c.Fail = false, 0
		c.Nl, c.Istr, c.Ver = S(p.fit(string(c.Nl), false)), S(p.fit(string(c.Istr), false)), S(p.fit(string(c.Ver), false))
		c.Enc, c.Coder = "UTF-8", ""
		enc := []string{p.name, p.name, strings.ToUpper(p.name), "x-any"}[r.Intn(4)]
		if r.Intn(4) == 0 { // what a writer is opened for is up to the encoder, not to the name
			enc = []string{"utf-8", "UTF-8", "utf8", "UTF-16", "utf-16le", "US-ASCII", "ascii", "ISO-8859-1", "latin1", "windows-1252", "x", "", encPools[r.Intn(len(encPools))].name}[r.Intn(13)]
		}
		var ops, refOps []Op
		for _, e := range t.Ev {
			op := e.Op
			if op.O == "flush" {
				continue
			}
			op.Ns = p.nodes(r, op.Ns, kf)
			if op.N != nil {
				m := p.node(r, *op.N, kf)
				op.N = &m
			}
			for k := range op.Names {
				op.Names = append([]S(nil), op.Names...)
				op.Names[k] = S(p.fit(string(op.Names[k]), kf))
			}
			ops = append(ops, op)
			op.Ns = declared(op.Ns, enc)
			if op.N != nil {
				op.N = &declared([]Node{*op.N}, enc)[0]
			}
			refOps = append(refOps, op)
		}
		ops = append(ops, Op{O: "flush"})
		refOps = append(refOps, Op{O: "flush"})

		var errs []byte
		note := func(rec Rec) {
			if rec.Err {
				errs = append(errs, '1')
			} else {
				errs = append(errs, '0')
			}
		}
		ms := &memSink{}
		run := newRun(c, ms)
		for _, op := range refOps {
			rec, _ := run.do(op)
			note(rec)
			if run.dead {
				panic("the history panics")
			}
		}
		chars += len(ms.b)
		b := []byte(fmt.Sprintf(`{"id":%d,"enc":"%s","kf":%v,"errs":"%s","ops":[`, i+1, p.name, kf, errs))
		for j, op := range ops {
			if j > 0 {
				b = append(b, ',')
			}
			b = op.appendJSON(b)
		}
		b = append(b, `],"ref":`...)
		b = S(ms.b).appendJSON(b)
		b = append(b, `,"outs":[`...)
		seen := map[string]bool{}
		n := 0
		for v := 0; v < *vars; v++ {
			size := []int{0, 0, 1, 2, 3, 5, 16, 17, 31, 64, 100, 1000, 4095}[r.Intn(13)]
			flush := []float64{0, 0, 0.1, 0.5, 1}[r.Intn(5)]
			bs := &byteSink{}
			opts := append(options(c), func(w *xw.Writer) { w.InitialBufSize = size })
			q := &Run{sink: bs, w: xw.OpenEncoding(bs, enc, p.new(), opts...)}
			q.w.Enforce, q.w.StrictChars = c.Enf, c.Strict
			q.dep0 = q.w.Depth()
			errs = nil
			pan := false
			for _, op := range ops {
				rec, err := q.do(op)
				if !q.dead && err == nil && r.Float64() < flush {
					if f, _ := q.do(Op{O: "flush"}); f.Err {
						rec.Err = true
					}
				}
				note(rec)
				if pan = q.dead; pan {
					break
				}
			}
			runs++
			key := fmt.Sprint(string(errs), pan, "|", string(bs.b))
			if seen[key] {
				continue
			}
			seen[key] = true
			if n == 4 { // enough to tell, and each of them costs
				break
			}
			if n > 0 {
				b = append(b, ',')
			}
			n++
			b = append(b, fmt.Sprintf(`{"buf":%d,"flush":%d,"pan":%v,"errs":"%s","b":`, size, int(flush*100), pan, errs)...)
			b = appendBytes(b, bs.b)
			b = append(b, '}')
		}
		o.line(append(b, "]}"...))
	}
	o.close()
	fmt.Printf("{\"histories\":%d,\"runs\":%d,\"bytes\":%d}\n", *count, runs, chars)
}
