package main

// C22: gotester scripts, run by its own process, next to the writer calls
// they stand for, made directly.

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"sync"
	"time"

	xw "github.com/shabbyrobe/xmlwriter"
)

func init() { commands["script"] = cmdScript }

type scriptParam struct {
	P string `json:"p"`
	V S      `json:"v"`
}

type scriptCmd struct {
	A       string        `json:"a"`
	K       string        `json:"k"`
	Name    S             `json:"name"`
	WS      string        `json:"ws"`
	Content S             `json:"content"`
	Ps      []scriptParam `json:"ps"`
}

type scriptLine struct {
	ID   int         `json:"id"`
	Ind  bool        `json:"ind"`
	Cmds []scriptCmd `json:"cmds"`
	OK   bool        `json:"ok"`
	Enc  string      `json:"enc"`
	Ops  []Op        `json:"ops"`
	Errs []bool      `json:"errs"`
	Ref  []int       `json:"ref"`
	RC   int         `json:"rc"`
	Hang bool        `json:"hang"`
	Out  []int       `json:"out"`
	text string
}

// -- what a script stands for ----------------------------------------------

var scriptParams = map[string]string{
	"write attr": "prefix uri", "write cdata": "", "write cdata-content": "", "write comment": "",
	"write dtd-attr": "decl type required", "write dtd-elem": "",
	"write dtd-entity": "is-pe ndata-id system-id public-id", "write notation": "system-id public-id",
	"write pi": "target", "write raw": "next", "write text": "",
	"start cdata": "", "start comment": "", "start doc": "version encoding standalone",
	"start dtd": "system-id public-id", "start dtd-att-list": "", "start elem": "prefix uri",
	"end all": "", "end cdata": "", "end comment": "", "end doc": "", "end dtd": "", "end dtd-att-list": "",
	"end elem": "full",
}

func (c scriptCmd) calls() (ops []Op, ok bool) {
	known, ok := scriptParams[c.A+" "+c.K]
	if !ok {
		return nil, false
	}
	vals := map[string]S{}
	bools := map[string]bool{}
	for _, p := range c.Ps {
		if p.P == "line" || p.P == "pos" || p.P == "fn" {
			continue
		}
		if !contains(strings.Fields(known), p.P) {
			return nil, false
		}
		vals[p.P] = p.V
		switch p.P {
		case "required", "is-pe", "next", "standalone", "full":
			switch strings.ToLower(string(p.V)) {
			case "yes", "true":
				bools[p.P] = true
			case "no", "false":
			default:
				return nil, false
			}
		}
	}
	has := func(p string) bool { _, ok := vals[p]; return ok }
	content := c.Content
	if c.WS == "strip" {
		content = S(strings.Join(strings.FieldsFunc(string(content), func(r rune) bool {
			return r == ' ' || r == '\t' || r == '\r' || r == '\n'
		}), " "))
	}
	one := func(o string, n Node) []Op { return []Op{{O: o, Ns: []Node{n}}} }
	if c.A == "end" {
		switch c.K {
		case "all":
			return []Op{{O: "endall"}}, true
		case "doc":
			return []Op{{O: "enddoc"}}, true
		case "elem":
			if bools["full"] {
				return []Op{{O: "endfull"}}, true
			}
		}
		return []Op{{O: "end", K: map[string]string{"dtd-att-list": "attlist"}[c.K] + map[bool]string{true: c.K}[c.K != "dtd-att-list"]}}, true
	}
	n := Node{N: c.Name, Pub: vals["public-id"], Sys: vals["system-id"], P: vals["prefix"], U: vals["uri"]}
	o := c.A
	switch c.K {
	case "attr":
		o, n.K, n.V = "attrs", "attr", content
	case "cdata", "comment":
		n.K = c.K
		if c.A == "write" {
			n.S = content
		}
	case "cdata-content":
		n.K, n.S = "cdcontent", content
	case "dtd-attr":
		n.K, n.Ty, n.S = "dtdattr", vals["type"], vals["decl"]
		n.Df = map[[2]bool]int{{true, true}: 4, {true, false}: 1, {false, true}: 2, {false, false}: 3}[[2]bool{has("decl"), bools["required"]}]
	case "dtd-elem":
		n.K, n.S = "dtdelem", content
	case "dtd-entity":
		n.K, n.S, n.F, n.Nd = "dtdent", content, bools["is-pe"], vals["ndata-id"]
	case "notation", "dtd":
		n.K = c.K
	case "pi":
		n.K, n.N, n.S = "pi", vals["target"], content
	case "raw":
		n.K, n.S = "raw", content
		if !has("next") || bools["next"] {
			return append([]Op{{O: "next"}}, one(o, n)...), true
		}
	case "text":
		n.K, n.S = "text", content
	case "doc":
		n.K, n.Se, n.Sa = "doc", !has("encoding"), -1
		if has("version") {
			n.Fv = []S{vals["version"]}
		}
		if has("encoding") {
			n.Fe = []S{vals["encoding"]}
		}
		if has("standalone") {
			n.Sa = map[bool]int{true: 1}[bools["standalone"]]
		}
	case "dtd-att-list":
		n.K = "attlist"
	case "elem":
		n.K = "elem"
	}
	return one(o, n), true
}

func (l *scriptLine) direct() {
	l.OK, l.Ops, l.Errs = true, []Op{}, []bool{}
	for _, c := range l.Cmds {
		enc := l.Enc
		if enc == "" {
			enc = "utf-8"
			for _, p := range c.Ps {
				if c.A == "start" && c.K == "doc" && p.P == "encoding" {
					enc = strings.ToLower(string(p.V))
				}
			}
		}
		ops, ok := c.calls()
		if !ok || (l.Enc == "" && c.A == "end") || (enc != "utf-8" && enc != "iso-8859-1" && enc != "windows-1252") {
			l.OK = false
			break
		}
		l.Enc = enc
		l.Ops = append(l.Ops, ops...)
	}
	var buf bytes.Buffer
	var opts []xw.Option
	if l.Ind {
		opts = append(opts, xw.WithIndent())
	}
	var w *xw.Writer
	if l.Enc == "utf-8" || l.Enc == "" {
		w = xw.Open(&buf, opts...)
	} else {
		w = xw.OpenEncoding(&buf, strings.ToUpper(l.Enc), encoderOf(l.Enc), opts...)
	}
	for _, op := range l.Ops {
		err := func() (err error) {
			defer func() {
				if x := recover(); x != nil {
					err = fmt.Errorf("panic: %v", x)
				}
			}()
			return call(w, op, w.Depth())
		}()
		l.Errs = append(l.Errs, err != nil)
		if err != nil {
			break
		}
	}
	if err := w.Flush(); err == nil {
		l.Ref = bytesOf(buf.Bytes())
	}
}

func bytesOf(b []byte) []int {
	r := make([]int, len(b))
	for i, c := range b {
		r[i] = int(c)
	}
	return r
}

// -- its text ---------------------------------------------------------------

func scriptText(r *rand.Rand, cmds []scriptCmd) string {
	var b strings.Builder
	attr := func(name, v string) {
		q := `"`
		if r.Intn(2) == 0 {
			q = "'"
		}
		b.WriteString(" " + name + "=" + q)
		for _, c := range v {
			if strings.ContainsRune("<&\"'\r\n\t", c) || r.Intn(20) == 0 {
				fmt.Fprintf(&b, "&#%d;", c)
			} else {
				b.WriteRune(c)
			}
		}
		b.WriteString(q)
	}
	b.WriteString(`<?xml version="1.0"?>` + "\n<script name=\"t\">\n")
	for _, c := range cmds {
		b.WriteString("  <command")
		type kv struct{ k, v string }
		as := []kv{{"action", c.A}, {"kind", c.K}}
		if c.Name != "" || r.Intn(8) == 0 {
			as = append(as, kv{"name", string(c.Name)})
		}
		if c.WS != "" {
			as = append(as, kv{"ws", c.WS})
		}
		for _, p := range c.Ps {
			as = append(as, kv{p.P, string(p.V)})
		}
		if r.Intn(4) == 0 {
			r.Shuffle(len(as), func(i, j int) { as[i], as[j] = as[j], as[i] })
		}
		for _, a := range as {
			attr(a.k, a.v)
		}
		if c.Content == "" && r.Intn(4) > 0 {
			b.WriteString("/>\n")
			continue
		}
		b.WriteString(">")
		cdata := false
		for _, ch := range string(c.Content) {
			if cdata && (ch == ']' || ch == '\r' || r.Intn(6) == 0) {
				b.WriteString("]]>")
				cdata = false
			}
			if !cdata && r.Intn(12) == 0 && ch != ']' && ch != '\r' {
				b.WriteString("<![CDATA[")
				cdata = true
			}
			switch {
			case cdata:
				b.WriteRune(ch)
			case strings.ContainsRune("<&>\r", ch) || r.Intn(20) == 0:
				fmt.Fprintf(&b, "&#x%X;", ch)
			default:
				b.WriteRune(ch)
			}
			if !cdata && r.Intn(60) == 0 {
				b.WriteString("<!-- c -->")
			}
		}
		if cdata {
			b.WriteString("]]>")
		}
		b.WriteString("</command>\n")
	}
	b.WriteString("</script>\n")
	return b.String()
}

// -- random scripts ------------------------------------------------------------

func drawScript(r *rand.Rand, g *gen) []scriptCmd {
	var cmds []scriptCmd
	var open []string
	top := func() string {
		if len(open) == 0 {
			return ""
		}
		return open[len(open)-1]
	}
	clean := func(s string) S {
		return S(strings.Map(func(c rune) rune {
			if c == 9 || c == 10 || c == 13 || (c >= 32 && c <= 0xd7ff) || (c >= 0xe000 && c <= 0xfffc) || (c >= 0x10000 && c <= 0x10ffff) {
				return c
			}
			return -1
		}, s))
	}
	add := func(a, k string, ps ...scriptParam) *scriptCmd {
		c := scriptCmd{A: a, K: k, Name: clean(g.name()), Ps: ps}
		if r.Intn(100) == 0 { // no name any more
			c.Name = S([]string{" ", "\n", ""}[r.Intn(3)]) + c.Name + S([]string{" ", "\t", "  "}[r.Intn(3)])
		}
		if r.Intn(5) == 0 {
			c.WS = []string{"strip", "strip", "keep", "Strip"}[r.Intn(4)]
		}
		if r.Intn(8) == 0 {
			c.Ps = append(c.Ps, scriptParam{[]string{"line", "pos", "fn"}[r.Intn(3)], clean(g.text())})
		}
		if r.Intn(150) == 0 {
			extras := []string{"uri", "full", "foo", "Name", "URI", "Prefix", "Full", "Next", "System-ID", "systemid", "system_id", "Content", "encodings", "value", "type", "next", "target"}
			extra := extras[r.Intn(len(extras))]
			for _, p := range c.Ps {
				if p.P == extra {
					extra = "bar"
				}
			}
			c.Ps = append(c.Ps, scriptParam{extra, S([]string{"x", "", "yes"}[r.Intn(3)])})
		}
		r.Shuffle(len(c.Ps), func(i, j int) { c.Ps[i], c.Ps[j] = c.Ps[j], c.Ps[i] })
		cmds = append(cmds, c)
		return &cmds[len(cmds)-1]
	}
	boolean := func() S {
		if r.Intn(60) == 0 {
			return S([]string{"", "1", "nope", "t"}[r.Intn(4)])
		}
		return S([]string{"yes", "no", "true", "false", "True", "NO"}[r.Intn(6)])
	}
	maybe := func(ps []scriptParam, p string, v S) []scriptParam {
		if r.Intn(2) == 0 {
			return append(ps, scriptParam{p, v})
		}
		return ps
	}
	ext := func() []scriptParam {
		var ps []scriptParam
		if r.Intn(3) > 0 {
			ps = append(ps, scriptParam{"system-id", clean(g.literal())})
			ps = maybe(ps, "public-id", clean(g.pubid()))
		}
		return ps
	}
	names := func() []scriptParam {
		ps := maybe(nil, "prefix", clean(g.prefix()))
		return maybe(ps, "uri", clean(g.uri()))
	}
	if r.Intn(2) == 0 {
		ps := maybe(nil, "version", S([]string{"1.0", "1.1", "1.0"}[r.Intn(3)]))
		if r.Intn(2) == 0 {
			ps = append(ps, scriptParam{"encoding", S([]string{"UTF-8", "utf-8", "ISO-8859-1", "iso-8859-1", "Windows-1252", "windows-1252"}[r.Intn(6)])})
		}
		if r.Intn(60) == 0 {
			ps = append(ps, scriptParam{"encoding2", "x"})
		}
		add("start", "doc", maybe(ps, "standalone", boolean())...)
		open = append(open, "doc")
	}
	started := false
	big := r.Intn(500) == 0
	for i := 2 + r.Intn(18); i > 0; i-- {
		if len(open) == 0 && len(cmds) > 1 && r.Intn(6) == 0 { // another document in the same output
			ps := maybe(nil, "encoding", S([]string{"UTF-8", "ISO-8859-1", "windows-1252", "KOI8-R", "us-ascii"}[r.Intn(5)]))
			add("start", "doc", maybe(ps, "standalone", boolean())...)
			open, started = append(open, "doc"), false
			continue
		}
		if big && top() == "elem" {
			big, started = false, false
			c := add("write", "text")
			c.Content = S("a " + strings.Repeat("word", 16390+r.Intn(3)) + " \n z")
			c.WS = []string{"strip", "strip", ""}[r.Intn(3)]
			continue
		}
		if r.Intn(100) == 0 {
			as := []string{"write", "start", "end", "write", "start", "end", "stop", "Write", "START", "End", "writes", ""}
			ks := []string{"elem", "doc", "all", "text", "pi", "foo", "Elem", "TEXT", "elems", "cdata_content", "Doc", "dtdelem", "dtd-entity", "notation", "attr", ""}
			add(as[r.Intn(len(as))], ks[r.Intn(len(ks))])
			continue
		}
		end := r.Intn(4) == 0 && len(open) > 0
		if end && !(top() == "doc") {
			switch t := top(); {
			case r.Intn(10) == 0:
				add("end", "all")
				open = nil
			case t == "elem":
				if r.Intn(3) == 0 {
					add("end", "elem", scriptParam{"full", boolean()})
				} else {
					add("end", "elem")
				}
				open = open[:len(open)-1]
			default:
				add("end", t)
				open = open[:len(open)-1]
			}
			continue
		}
		var ks []string
		switch top() {
		case "elem":
			ks = []string{"elem", "elem", "text", "text", "comment", "cdata", "pi", "raw", "scomment", "scdata"}
			if started {
				ks = append(ks, "attr", "attr", "attr", "attr", "attr", "attr")
			}
		case "dtd":
			ks = []string{"dtd-elem", "dtd-entity", "notation", "dtd-att-list", "comment"}
		case "dtd-att-list":
			ks = []string{"dtd-attr"}
		case "cdata":
			ks = []string{"cdata-content", "cdata-content", "cdata-content", "raw"}
			if r.Intn(20) == 0 {
				ks = []string{"text"}
			}
		case "comment":
			ks = []string{"raw"}
			if r.Intn(20) == 0 {
				ks = []string{"cdata-content"}
			}
		default:
			ks = []string{"elem", "elem", "comment", "pi", "dtd"}
		}
		k := ks[r.Intn(len(ks))]
		was := started
		started = false
		switch k {
		case "elem":
			add("start", "elem", names()...)
			open = append(open, k)
			started = true
		case "dtd":
			add("start", "dtd", ext()...)
			open = append(open, k)
		case "dtd-att-list":
			add("start", k)
			open = append(open, k)
		case "scomment", "scdata":
			add("start", k[1:])
			open = append(open, k[1:])
		case "attr":
			add("write", k, names()...).Content = clean(g.text())
			started = was
		case "text":
			add("write", k).Content = clean(g.text())
		case "comment", "cdata", "cdata-content":
			add("write", k).Content = clean(g.content())
		case "dtd-elem":
			add("write", k).Content = S([]string{"EMPTY", "(a|b)*", "ANY", " ( #PCDATA ) "}[r.Intn(4)])
		case "pi":
			t := clean(g.name())
			if strings.Contains(string(t), ":") {
				t = "t"
			}
			add("write", k, scriptParam{"target", t}).Content = clean(g.content())
		case "raw":
			var ps []scriptParam
			if r.Intn(2) == 0 {
				ps = append(ps, scriptParam{"next", boolean()})
			}
			add("write", k, ps...).Content = S([]string{"<r/>", " x ", "&amp;", "\n  y\n"}[r.Intn(4)])
		case "dtd-attr":
			ps := []scriptParam{{"type", S([]string{"CDATA", "ID", "(a|b)"}[r.Intn(3)])}}
			ps = maybe(ps, "decl", clean(g.text()))
			add("write", k, maybe(ps, "required", boolean())...)
		case "dtd-entity":
			ps := maybe(ext(), "is-pe", boolean())
			if r.Intn(6) == 0 {
				ps = append(ps, scriptParam{"ndata-id", "nd"})
			}
			c := add("write", k, ps...)
			if len(ps) == 0 || ps[0].P != "system-id" || r.Intn(10) == 0 {
				c.Content = clean(g.literal())
			}
		case "notation":
			ps := ext()
			if len(ps) == 0 && r.Intn(8) > 0 {
				ps = append(ps, scriptParam{"public-id", "p"})
			}
			add("write", k, ps...)
		}
	}
	if r.Intn(2) == 0 {
		add("end", "all")
	}
	return cmds
}

func cmdScript(args []string) {
	fs := flag.NewFlagSet("script", flag.ExitOnError)
	seed := fs.Int64("seed", 1, "")
	n := fs.Int("n", 1000, "")
	in := fs.String("scripts", "", "")
	bin := fs.String("gotester", "", "")
	path := fs.String("o", "", "")
	fs.Parse(args)
	var lines []*scriptLine
	if *in != "" {
		f, err := os.Open(*in)
		must(err)
		sc := bufio.NewScanner(f)
		sc.Buffer(nil, 1<<20)
		r := rand.New(rand.NewSource(*seed))
		for sc.Scan() {
			l := &scriptLine{Ind: r.Intn(2) == 0}
			must(json.Unmarshal(sc.Bytes(), &l.Cmds))
			l.text = scriptText(r, l.Cmds)
			lines = append(lines, l)
		}
		must(sc.Err())
	}
	for i := 0; i < *n; i++ {
		g := newGen(profiles["script"], *seed*1000003+int64(i))
		l := &scriptLine{Ind: g.r.Intn(2) == 0, Cmds: drawScript(g.r, g)}
		if len(l.Cmds) == 0 {
			continue
		}
		l.text = scriptText(g.r, l.Cmds)
		lines = append(lines, l)
	}
	jobs := make(chan *scriptLine)
	var wg sync.WaitGroup
	for k := runtime.NumCPU(); k > 0; k-- {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for l := range jobs {
				l.direct()
				l.run(*bin)
			}
		}()
	}
	for i, l := range lines {
		l.ID = i + 1
		for k := range l.Cmds {
			if l.Cmds[k].Ps == nil {
				l.Cmds[k].Ps = []scriptParam{}
			}
		}
		jobs <- l
	}
	close(jobs)
	wg.Wait()
	o := create(*path)
	fine := 0
	for _, l := range lines {
		if l.RC == 0 {
			fine++
		}
		b, err := json.Marshal(l)
		must(err)
		o.line(b)
	}
	o.close()
	fmt.Printf("{\"scripts\":%d,\"succeeded\":%d}\n", len(lines), fine)
}

func (l *scriptLine) run(bin string) {
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	var argv []string
	if l.Ind {
		argv = append(argv, "-indent")
	}
	cmd := exec.CommandContext(ctx, bin, argv...)
	cmd.Stdin = strings.NewReader(l.text)
	var out bytes.Buffer
	cmd.Stdout = &out
	err := cmd.Run()
	if ctx.Err() != nil {
		l.Hang = true
	}
	if err != nil && cmd.ProcessState == nil {
		must(err)
	}
	l.RC = cmd.ProcessState.ExitCode()
	l.Out = []int{}
	if l.RC == 0 {
		l.Out = bytesOf(out.Bytes())
	}
	if l.Ref == nil {
		l.Ref = []int{}
	}
}
