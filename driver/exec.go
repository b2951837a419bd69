package main

// Running calls against the real writer and recording what they do.

import (
	"errors"
	"fmt"
	"math"
	"strconv"
	"strings"

	xw "github.com/shabbyrobe/xmlwriter"
	"golang.org/x/text/encoding"
	"golang.org/x/text/encoding/charmap"
	"golang.org/x/text/encoding/unicode"
)

var kindOf = map[string]xw.NodeKind{
	"none": xw.NoNode, "attr": xw.AttrNode, "cdata": xw.CDataNode, "cdcontent": xw.CDataContentNode,
	"comment": xw.CommentNode, "ccontent": xw.CommentContentNode, "dtd": xw.DTDNode,
	"attlist": xw.DTDAttListNode, "dtdattr": xw.DTDAttrNode, "dtdelem": xw.DTDElemNode,
	"dtdent": xw.DTDEntityNode, "doc": xw.DocNode, "elem": xw.ElemNode, "notation": xw.NotationNode,
	"pi": xw.PINode, "raw": xw.RawNode, "text": xw.TextNode,
	"big": xw.NodeKind(1000), "neg": xw.NodeKind(-1), "past": xw.TextNode + 1,
}

var kindName = func() map[xw.NodeKind]string {
	m := map[xw.NodeKind]string{}
	for k, v := range kindOf {
		m[v] = k
	}
	return m
}()

func kname(k xw.NodeKind) string {
	if s, ok := kindName[k]; ok {
		return s
	}
	return fmt.Sprintf("?%d", int(k))
}

var startable = map[string]bool{"doc": true, "elem": true, "dtd": true, "attlist": true, "comment": true, "cdata": true}

// A value that a typed method writes (a number, true, false) comes from one.
func attrOf(n Node) xw.Attr {
	v := string(n.V)
	a := xw.Attr{Prefix: string(n.P), URI: string(n.U), Name: string(n.N), Value: v}
	var as []xw.Attr
	if b, err := strconv.ParseBool(v); err == nil && strconv.FormatBool(b) == v {
		as = append(as, a.Bool(b))
	}
	if i, err := strconv.ParseInt(v, 10, 64); err == nil && strconv.FormatInt(i, 10) == v {
		as = append(as, a.Int64(i), a.Int(int(i)))
		if i == int64(int32(i)) {
			as = append(as, a.Int32(int32(i)))
		}
		if i == int64(int16(i)) {
			as = append(as, a.Int16(int16(i)))
		}
		if i == int64(int8(i)) {
			as = append(as, a.Int8(int8(i)))
		}
		if i >= 0 {
			as = append(as, a.Uint(int(i)))
		}
	}
	if u, err := strconv.ParseUint(v, 10, 64); err == nil && strconv.FormatUint(u, 10) == v {
		as = append(as, a.Uint64(u))
		if u == uint64(uint32(u)) {
			as = append(as, a.Uint32(uint32(u)))
		}
		if u == uint64(uint16(u)) {
			as = append(as, a.Uint16(uint16(u)))
		}
		if u == uint64(uint8(u)) {
			as = append(as, a.Uint8(uint8(u)))
		}
	}
	if f, err := strconv.ParseFloat(v, 64); err == nil && strconv.FormatFloat(f, 'g', -1, 64) == v {
		as = append(as, a.Float64(f))
	}
	if len(as) > 0 {
		return as[(len(v)+len(n.N)+len(n.P))%len(as)]
	}
	return a
}

// Where there is nothing, the slices are nil, or empty but not nil (some).
func attrsOf(ns []Node, some bool) []xw.Attr {
	if len(ns) == 0 && !some {
		return nil
	}
	// spare capacity, which belongs to the caller just as much
	out := make([]xw.Attr, len(ns), len(ns)+2)
	for i, n := range ns {
		out[i] = attrOf(n)
	}
	return out
}

func dtdAttrOf(n Node) xw.DTDAttr {
	return xw.DTDAttr{Name: string(n.N), Type: xw.DTDAttrType(n.Ty), Default: xw.DTDAttrDefaultType(n.Df), Value: string(n.S)}
}

func strPtr(s []S) *string {
	if len(s) == 0 {
		return nil
	}
	v := string(s[0])
	return &v
}

func docOf(n Node) xw.Doc {
	d := xw.Doc{SuppressEncoding: n.Se, SuppressVersion: n.Sv}
	if way := len(n.Fe) + len(n.Fv) + n.Sa; way%2 == 0 {
		d.ForcedEncoding, d.ForcedVersion = strPtr(n.Fe), strPtr(n.Fv)
	} else {
		if len(n.Fe) > 0 {
			d = d.ForceEncoding(string(n.Fe[0]))
		}
		if len(n.Fv) > 0 {
			d = d.ForceVersion(string(n.Fv[0]))
		}
	}
	if n.Sa >= 0 {
		d = d.WithStandalone(n.Sa == 1)
	}
	return d
}

func elemOf(n Node, some bool) xw.Elem {
	e := xw.Elem{Prefix: string(n.P), URI: string(n.U), Name: string(n.N), Full: n.F, Attrs: attrsOf(n.At, some)}
	if some {
		e.Content = make([]xw.Writable, 0, len(n.C)+2)
	}
	for _, c := range n.C {
		e.Content = append(e.Content, writableOf(c, some))
	}
	return e
}

func attListOf(n Node, some bool) xw.DTDAttList {
	al := xw.DTDAttList{Name: string(n.N)}
	if some {
		al.Attrs = make([]xw.DTDAttr, 0, len(n.At)+2)
	}
	for _, a := range n.At {
		al.Attrs = append(al.Attrs, dtdAttrOf(a))
	}
	return al
}

func writableOf(n Node, some bool) xw.Writable {
	switch n.K {
	case "elem":
		return elemOf(n, some)
	case "attr":
		return attrOf(n)
	case "text":
		return xw.Text(n.S)
	case "raw":
		return xw.Raw(n.S)
	case "comment":
		return xw.Comment{Content: string(n.S)}
	case "ccontent":
		return xw.CommentContent(n.S)
	case "cdata":
		return xw.CData{Content: string(n.S)}
	case "cdcontent":
		return xw.CDataContent(n.S)
	case "pi":
		return xw.PI{Target: string(n.N), Content: string(n.S)}
	case "dtdelem":
		return xw.DTDElem{Name: string(n.N), Decl: string(n.S)}
	case "dtdent":
		return xw.DTDEntity{Name: string(n.N), Content: string(n.S), IsPE: n.F, PublicID: string(n.Pub), SystemID: string(n.Sys), NDataID: string(n.Nd)}
	case "attlist":
		return attListOf(n, some)
	case "dtdattr":
		return dtdAttrOf(n)
	case "notation":
		return xw.Notation{Name: string(n.N), SystemID: string(n.Sys), PublicID: string(n.Pub)}
	}
	panic("not writable: " + n.K)
}

func startableOf(n Node, some bool) xw.Startable {
	switch n.K {
	case "elem":
		return elemOf(n, some)
	case "comment":
		return xw.Comment{Content: string(n.S)}
	case "cdata":
		return xw.CData{Content: string(n.S)}
	case "doc":
		return docOf(n)
	case "dtd":
		return xw.DTD{Name: string(n.N), PublicID: string(n.Pub), SystemID: string(n.Sys)}
	case "attlist":
		return attListOf(n, some)
	}
	panic("not startable: " + n.K)
}

// pointed is x by its address, which the interfaces are satisfied by as well.
func pointed(x interface{}) interface{} {
	switch t := x.(type) {
	case xw.Elem:
		return &t
	case xw.Attr:
		return &t
	case xw.Text:
		return &t
	case xw.Raw:
		return &t
	case xw.Comment:
		return &t
	case xw.CommentContent:
		return &t
	case xw.CData:
		return &t
	case xw.CDataContent:
		return &t
	case xw.PI:
		return &t
	case xw.DTD:
		return &t
	case xw.DTDElem:
		return &t
	case xw.DTDEntity:
		return &t
	case xw.DTDAttList:
		return &t
	case xw.DTDAttr:
		return &t
	case xw.Notation:
		return &t
	case xw.Doc:
		return &t
	}
	panic(fmt.Sprintf("no pointer to %T", x))
}

func start1(w *xw.Writer, s xw.Startable) error {
	switch n := s.(type) {
	case xw.Elem:
		return w.StartElem(n)
	case xw.Comment:
		return w.StartComment(n)
	case xw.CData:
		return w.StartCData(n)
	case xw.Doc:
		return w.StartDoc(n)
	case xw.DTD:
		return w.StartDTD(n)
	case xw.DTDAttList:
		return w.StartDTDAttList(n)
	}
	panic("not startable")
}

func write1(w *xw.Writer, x xw.Writable) error {
	switch n := x.(type) {
	case xw.Elem:
		return w.WriteElem(n)
	case xw.Attr:
		return w.WriteAttr(n)
	case xw.Text:
		return w.WriteText(string(n))
	case xw.Raw:
		return w.WriteRaw(string(n))
	case xw.Comment:
		return w.WriteComment(n)
	case xw.CommentContent:
		return w.WriteCommentContent(string(n))
	case xw.CData:
		return w.WriteCData(n)
	case xw.CDataContent:
		return w.WriteCDataContent(string(n))
	case xw.PI:
		return w.WritePI(n)
	case xw.DTDElem:
		return w.WriteDTDElem(n)
	case xw.DTDEntity:
		return w.WriteDTDEntity(n)
	case xw.DTDAttList:
		return w.WriteDTDAttList(n)
	case xw.DTDAttr:
		return w.WriteDTDAttr(n)
	case xw.Notation:
		return w.WriteNotation(n)
	}
	panic("not writable")
}

func strs(ss []S) []string {
	var out []string
	for _, s := range ss {
		out = append(out, string(s))
	}
	return out
}

// built is a call with its arguments made; it may be performed many times.
type built struct {
	Op
	ss    []xw.Startable
	ws    []xw.Writable
	as    []xw.Attr
	names []string
}

// build makes the values op needs.  some: see attrsOf; ptr: see pointed.
func build(op Op, some, ptr bool) *built {
	b := &built{Op: op, names: strs(op.Names)}
	switch op.O {
	case "start":
		for _, n := range op.Ns {
			b.ss = append(b.ss, startableOf(n, some))
		}
	case "write":
		for _, n := range op.Ns {
			b.ws = append(b.ws, writableOf(n, some))
		}
	case "attrs":
		b.as = attrsOf(op.Ns, some)
		for _, a := range b.as {
			b.ws = append(b.ws, a)
		}
	case "block":
		b.ss = append(b.ss, startableOf(*op.N, some))
		for _, n := range op.Ns {
			b.ws = append(b.ws, writableOf(n, some))
		}
	}
	if ptr && op.Via != 1 {
		for i, x := range b.ss {
			b.ss[i] = pointed(x).(xw.Startable)
		}
		for i, x := range b.ws {
			b.ws[i] = pointed(x).(xw.Writable)
		}
	}
	return b
}

func call(w *xw.Writer, op Op, dep0 int) error {
	return build(op, len(op.O)%2 == 1, false).call(w, dep0)
}

// call performs op on w.  dep0 is what Depth() says when nothing is open.
func (op *built) call(w *xw.Writer, dep0 int) error {
	switch op.O {
	case "start":
		if op.Via == 1 && len(op.ss) == 1 {
			return start1(w, op.ss[0])
		}
		return w.Start(op.ss...)
	case "write":
		if op.Via == 1 && len(op.ws) == 1 {
			return write1(w, op.ws[0])
		}
		return w.Write(op.ws...)
	case "attrs":
		if op.Via == 1 {
			return w.Write(op.ws...)
		}
		return w.WriteAttr(op.as...)
	case "block":
		return w.Block(op.ss[0], op.ws...)
	case "next":
		return w.Next()
	case "end":
		if op.Via == 1 {
			switch {
			case op.K == "elem":
				return w.EndElem(op.names...)
			case len(op.Names) > 0:
			case op.K == "comment":
				return w.EndComment()
			case op.K == "cdata":
				return w.EndCData()
			case op.K == "dtd":
				return w.EndDTD()
			case op.K == "attlist":
				return w.EndDTDAttList()
			}
		}
		return w.End(kindOf[op.K], op.names...)
	case "endfull":
		return w.EndElemFull(op.names...)
	case "endany":
		return w.EndAny()
	case "endall":
		return w.EndAll()
	case "endallflush":
		return w.EndAllFlush()
	case "enddoc":
		return w.EndDoc()
	case "endto":
		level := op.D + dep0
		if op.D == math.MaxInt {
			level = op.D
		}
		return w.EndToDepth(level, kindOf[op.K], op.names...)
	case "flush":
		return w.Flush()
	case "setenf":
		w.Enforce = op.V
		return nil
	case "setstrict":
		w.StrictChars = op.V
		return nil
	case "setver":
		w.Version = string(op.S)
		return nil
	case "setnl":
		w.NewlineString = string(op.S)
		return nil
	case "setind":
		setIndenter(w, op.K)
		return nil
	}
	panic("unknown op " + op.O)
}

// recIndenter records what a custom indenter is told.
type recIndenter struct {
	std  *xw.StandardIndenter
	wrap string
	mark bool
	fail int
	n    int
	busy bool // writing a mark
	evs  [][2]Ev
}

var errIndent = errors.New("indent failed")

func evOf(e xw.Event) Ev { return Ev{int(e.State), kname(e.Node), e.Children} }

func (r *recIndenter) Indent(w *xw.Writer, last, next xw.Event) error {
	if r.busy {
		return nil
	}
	r.n++
	r.evs = append(r.evs, [2]Ev{evOf(last), evOf(next)})
	if r.fail != 0 && r.n == r.fail {
		return errIndent
	}
	if r.mark {
		r.busy = true
		err := w.WriteRaw(fmt.Sprintf("{%d%s}", int(next.State), kname(next.Node)))
		r.busy = false
		if err != nil {
			return err
		}
	}
	if r.std != nil {
		return r.std.Indent(w, last, next)
	}
	return nil
}

func (r *recIndenter) Wrap(s string) string {
	switch r.wrap {
	case "box":
		return "[" + s + "]"
	case "dash":
		return "-" + s + "-"
	case "trim":
		return strings.Trim(s, "-")
	case "twice":
		return s + " " + s
	case "none":
		return ""
	}
	return s
}

func encoderOf(name string) *encoding.Encoder {
	switch name {
	case "iso-8859-1":
		return charmap.ISO8859_1.NewEncoder()
	case "windows-1252":
		return charmap.Windows1252.NewEncoder()
	case "utf-16be":
		return unicode.UTF16(unicode.BigEndian, unicode.IgnoreBOM).NewEncoder()
	case "utf-16le":
		return unicode.UTF16(unicode.LittleEndian, unicode.IgnoreBOM).NewEncoder()
	}
	panic("unknown encoder " + name)
}

// Run is a writer being driven.
type Run struct {
	w     *xw.Writer
	sink  sink
	ind   *recIndenter
	dep0  int
	dead  bool
	calls int
	std   *xw.StandardIndenter // the standard indenter last installed
}

type sink interface {
	Write(p []byte) (int, error)
}

type memSink struct{ b []byte }

func (m *memSink) Write(p []byte) (int, error) { m.b = append(m.b, p...); return len(p), nil }

func newRun(c Cfg, to sink) *Run { return newRunOpts(c, to, options(c)) }

// options are the option values for a configuration (without a recorder).
func options(c Cfg) []xw.Option {
	opts := []xw.Option{func(w *xw.Writer) {
		w.InitialBufSize = c.Buf
		if c.Nl != "\n" { // what is as by default is not set
			w.NewlineString = string(c.Nl)
		}
		if c.Ver != "" {
			w.Version = string(c.Ver)
		}
	}}
	if c.Ind == "std" && !c.Rec {
		if c.Istr == " " {
			opts = append(opts, xw.WithIndent())
		} else {
			opts = append(opts, xw.WithIndentString(string(c.Istr)))
		}
	}
	return opts
}

func newRunOpts(c Cfg, to sink, opts []xw.Option) *Run {
	r := &Run{sink: to}
	opts = opts[:len(opts):len(opts)]
	r.ind = &recIndenter{wrap: c.Wrap, mark: c.Mark, fail: c.Fail}
	if c.Rec {
		if c.Ind == "std" {
			r.ind.std = xw.NewStandardIndenter()
			r.ind.std.IndentString = string(c.Istr)
		}
		opts = append(opts, func(w *xw.Writer) { w.Indenter = r.ind })
	}
	if c.Coder == "" && c.Enc != "UTF-8" {
		r.w = xw.OpenEncoding(to, string(c.Enc), encoding.Nop.NewEncoder(), opts...)
	} else if c.Coder == "" {
		r.w = xw.Open(to, opts...)
	} else {
		r.w = xw.OpenEncoding(to, string(c.Enc), encoderOf(c.Coder), opts...)
	}
	if !c.Enf {
		r.w.Enforce = false
	}
	if !c.Strict {
		r.w.StrictChars = false
	}
	r.std, _ = r.w.Indenter.(*xw.StandardIndenter)
	if r.std == nil {
		r.std = r.ind.std
	}
	if r.std == nil {
		r.std = xw.NewStandardIndenter()
		r.std.IndentString = string(c.Istr)
	}
	r.dep0 = r.w.Depth()
	return r
}

// build makes the values of every other call with empty slices instead of nil,
// and passes those of every third by their addresses.
func (r *Run) build(op Op) *built {
	r.calls++
	return build(op, r.calls%2 == 0, r.calls%3 == 0)
}

// do performs one call, catching a panic.
func (r *Run) do(op Op) (rec Rec, err error) { return r.doBuilt(r.build(op)) }

func (r *Run) doBuilt(op *built) (rec Rec, err error) {
	rec.Op = op.Op
	slot := hold(&rec.Op)
	defer func() {
		free(slot)
		if p := recover(); p != nil {
			rec.Pan = true
			r.dead = true
			err = fmt.Errorf("panic: %v", p)
			rec.Err = true
		}
	}()
	if r.ind == nil {
		r.ind = &recIndenter{}
	}
	r.ind.evs = nil
	switch {
	case op.O == "setistr":
		r.std.IndentString = string(op.S)
	case op.O == "setind" && op.K == "back":
		r.w.Indenter = r.std
	case op.O == "setind" && op.K == "rec":
		r.ind.std = nil
		r.w.Indenter = r.ind
	case op.O == "setind" && op.K == "recstd":
		r.ind.std = r.std
		r.w.Indenter = r.ind
	default:
		err = op.call(r.w, r.dep0)
		if s, ok := r.w.Indenter.(*xw.StandardIndenter); ok {
			r.std = s
		}
	}
	rec.Err = err != nil
	rec.Dep = r.w.Depth()
	rec.Evs = r.ind.evs
	return rec, err
}

// step performs one call and flushes, so that what it wrote is known.
func (r *Run) step(op Op) (Rec, error) { return r.stepBuilt(r.build(op)) }

func (r *Run) stepBuilt(op *built) (Rec, error) {
	ms := r.sink.(*memSink)
	from := len(ms.b)
	rec, err := r.doBuilt(op)
	if !rec.Pan {
		func() {
			defer func() {
				if p := recover(); p != nil {
					rec.Pan = true
					r.dead = true
				}
			}()
			if ferr := r.w.Flush(); ferr != nil && err == nil {
				rec.Err = true
			}
		}()
	}
	rec.Out = S(ms.b[from:])
	return rec, err
}

// repeat makes the calls of a repetition, pass after pass.
func (r *Run) repeat(op Op) Rec {
	rec := Rec{Op: op, Same: true}
	for i := 0; i < op.D; i++ {
		var out S
		for _, o := range op.Ops {
			one, _ := r.step(o)
			out += one.Out
			rec.Dep, rec.Err, rec.Pan = one.Dep, one.Err, one.Pan
			if rec.Err || rec.Pan {
				rec.Out += out
				return rec
			}
		}
		switch {
		case i == 0:
			rec.Out = out
		case i == 1:
			rec.More = out
		case out != rec.More:
			rec.Same = false
		}
	}
	return rec
}

func runOps(c Cfg, ops []Op) Trace {
	r := newRun(c, &memSink{})
	t := Trace{Cfg: c, Dep0: r.dep0}
	for _, op := range ops {
		var rec Rec
		if op.O == "rep" {
			rec = r.repeat(op)
		} else {
			rec, _ = r.step(op)
		}
		t.Ev = append(t.Ev, rec)
		if rec.Pan {
			break
		}
	}
	return t
}
