package main

// The vocabulary shared with the TLA+ specification: nodes, calls and
// configurations, and their JSON form.  Strings travel as sequences of
// integers: code points, and negated bytes where the UTF-8 is invalid.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strconv"
	"unicode/utf8"
)

type S string

func (s S) appendJSON(b []byte) []byte {
	b = append(b, '[')
	first := true
	for i := 0; i < len(s); {
		r, w := utf8.DecodeRuneInString(string(s[i:]))
		v := int64(r)
		if r == utf8.RuneError && w == 1 {
			v = -int64(s[i])
		}
		if !first {
			b = append(b, ',')
		}
		first = false
		b = strconv.AppendInt(b, v, 10)
		i += w
	}
	return append(b, ']')
}

func (s S) MarshalJSON() ([]byte, error) { return s.appendJSON(nil), nil }

func (s *S) UnmarshalJSON(in []byte) error {
	var vs []int32
	if err := json.Unmarshal(in, &vs); err != nil {
		return err
	}
	var b []byte
	for _, v := range vs {
		if v < 0 {
			b = append(b, byte(-v))
		} else {
			b = utf8.AppendRune(b, v)
		}
	}
	*s = S(b)
	return nil
}

// Node is a node to be started or written.  K decides which fields matter.
type Node struct {
	K   string `json:"k"`
	P   S      `json:"p"`   // elem, attr: prefix
	U   S      `json:"u"`   // elem, attr: URI
	N   S      `json:"n"`   // name or target
	S   S      `json:"s"`   // string content, entity value, declaration, default
	V   S      `json:"v"`   // attr: value
	F   bool   `json:"f"`   // elem: full; dtdent: is PE
	At  []Node `json:"at"`  // elem: attributes; attlist: members
	C   []Node `json:"c"`   // elem: content
	Pub S      `json:"pub"` // external identifiers
	Sys S      `json:"sys"`
	Nd  S      `json:"nd"`
	Ty  S      `json:"ty"` // dtdattr
	Df  int    `json:"df"`
	Sv  bool   `json:"sv"` // doc: suppress version, encoding
	Se  bool   `json:"se"`
	Fv  []S    `json:"fv"` // doc: forced version, encoding
	Fe  []S    `json:"fe"`
	Sa  int    `json:"sa"` // doc: -1 absent, 0 no, 1 yes
}

var nodeFields = map[string]string{
	"elem": "p u n at c f", "attr": "p u n v",
	"text": "s", "raw": "s", "ccontent": "s", "cdcontent": "s", "comment": "s", "cdata": "s",
	"pi": "n s", "doc": "sv se fv fe sa", "dtd": "n pub sys",
	"dtdelem": "n s", "dtdent": "n s f pub sys nd", "attlist": "n at",
	"dtdattr": "n ty df s", "notation": "n pub sys",
	"chain": "df c",
}

func (n Node) appendJSON(b []byte) []byte {
	b = append(b, `{"k":"`...)
	b = append(b, n.K...)
	b = append(b, '"')
	fields, ok := nodeFields[n.K]
	if !ok {
		panic("unknown node kind " + n.K)
	}
	start := 0
	for i := 0; i <= len(fields); i++ {
		if i < len(fields) && fields[i] != ' ' {
			continue
		}
		f := fields[start:i]
		start = i + 1
		b = append(b, `,"`...)
		b = append(b, f...)
		b = append(b, `":`...)
		switch f {
		case "p":
			b = n.P.appendJSON(b)
		case "u":
			b = n.U.appendJSON(b)
		case "n":
			b = n.N.appendJSON(b)
		case "s":
			b = n.S.appendJSON(b)
		case "v":
			b = n.V.appendJSON(b)
		case "f":
			b = strconv.AppendBool(b, n.F)
		case "at":
			b = appendNodes(b, n.At)
		case "c":
			b = appendNodes(b, n.C)
		case "pub":
			b = n.Pub.appendJSON(b)
		case "sys":
			b = n.Sys.appendJSON(b)
		case "nd":
			b = n.Nd.appendJSON(b)
		case "ty":
			b = n.Ty.appendJSON(b)
		case "df":
			b = strconv.AppendInt(b, int64(n.Df), 10)
		case "sv":
			b = strconv.AppendBool(b, n.Sv)
		case "se":
			b = strconv.AppendBool(b, n.Se)
		case "fv":
			b = appendStrs(b, n.Fv)
		case "fe":
			b = appendStrs(b, n.Fe)
		case "sa":
			b = strconv.AppendInt(b, int64(n.Sa), 10)
		}
	}
	return append(b, '}')
}

func (n Node) MarshalJSON() ([]byte, error) { return n.appendJSON(nil), nil }

func appendNodes(b []byte, ns []Node) []byte {
	b = append(b, '[')
	for i, n := range ns {
		if i > 0 {
			b = append(b, ',')
		}
		b = n.appendJSON(b)
	}
	return append(b, ']')
}

func appendStrs(b []byte, ss []S) []byte {
	b = append(b, '[')
	for i, s := range ss {
		if i > 0 {
			b = append(b, ',')
		}
		b = s.appendJSON(b)
	}
	return append(b, ']')
}

// Op is one public call.  Via picks between equivalent entry points.
type Op struct {
	O     string `json:"o"`
	Ns    []Node `json:"ns"`
	N     *Node  `json:"n"`
	K     string `json:"k"`
	Names []S    `json:"names"`
	D     int    `json:"d"`
	V     bool   `json:"v"`
	S     S      `json:"s"`
	Via   int    `json:"via"`
	Ops   []Op   `json:"ops"`
}

func (o Op) appendJSON(b []byte) []byte {
	b = append(b, `{"o":"`...)
	b = append(b, o.O...)
	b = append(b, '"')
	switch o.O {
	case "start", "write", "attrs":
		b = append(b, `,"ns":`...)
		b = appendNodes(b, o.Ns)
	case "block":
		b = append(b, `,"n":`...)
		b = o.N.appendJSON(b)
		b = append(b, `,"ns":`...)
		b = appendNodes(b, o.Ns)
	case "end", "endto":
		b = append(b, `,"k":"`...)
		b = append(b, o.K...)
		b = append(b, `","d":`...)
		b = strconv.AppendInt(b, int64(o.D), 10)
		b = append(b, `,"names":`...)
		b = appendStrs(b, o.Names)
	case "endfull":
		b = append(b, `,"names":`...)
		b = appendStrs(b, o.Names)
	case "setenf", "setstrict":
		b = append(b, `,"v":`...)
		b = strconv.AppendBool(b, o.V)
	case "setver", "setnl", "setistr":
		b = append(b, `,"s":`...)
		b = o.S.appendJSON(b)
	case "setind":
		b = append(b, `,"k":"`...)
		b = append(b, o.K...)
		b = append(b, '"')
	case "rep":
		b = append(b, `,"d":`...)
		b = strconv.AppendInt(b, int64(o.D), 10)
		b = append(b, `,"ops":[`...)
		for i, p := range o.Ops {
			if i > 0 {
				b = append(b, ',')
			}
			b = p.appendJSON(b)
		}
		b = append(b, ']')
	case "next", "endany", "endall", "endallflush", "enddoc", "flush":
	default:
		panic("unknown op " + o.O)
	}
	b = append(b, `,"via":`...)
	b = strconv.AppendInt(b, int64(o.Via), 10)
	return append(b, '}')
}

func (o Op) MarshalJSON() ([]byte, error) { return o.appendJSON(nil), nil }

// Cfg is a writer configuration.
type Cfg struct {
	Enf    bool   `json:"enf"`
	Strict bool   `json:"strict"`
	Nl     S      `json:"nl"`
	Ind    string `json:"ind"` // none, std
	Istr   S      `json:"istr"`
	Rec    bool   `json:"rec"`
	Wrap   string `json:"wrap"`
	Mark   bool   `json:"mark"`
	Fail   int    `json:"fail"`
	Enc    S      `json:"enc"`
	Ver    S      `json:"ver"`

	// not part of the specification's configuration
	Buf    int    `json:"buf"`
	Coder  string `json:"coder"` // encoder name, "" for UTF-8 (Open)
	NoStep bool   `json:"nostep"`
}

func defaultCfg() Cfg {
	return Cfg{Enf: true, Strict: true, Nl: "\n", Ind: "none", Istr: " ", Enc: "UTF-8"}
}

// Judge tells the specification what to compare.
type Judge struct {
	Step bool `json:"step"`
	Evs  bool `json:"evs"`
	Wf   bool `json:"wf"`
	Tree bool `json:"tree"`
}

type Ev struct {
	St int    `json:"st"`
	K  string `json:"k"`
	Ch int    `json:"ch"`
}

// Rec is what one call did.
type Rec struct {
	Op  Op      `json:"op"`
	Err bool    `json:"err"`
	Dep int     `json:"dep"`
	Out S       `json:"out"`
	Evs [][2]Ev `json:"evs"`
	Pan bool    `json:"pan"`

	// of a repetition: what the second pass wrote, whether all later ones did too
	More S    `json:"more"`
	Same bool `json:"same"`
}

func (r Rec) appendJSON(b []byte) []byte {
	b = append(b, `{"op":`...)
	b = r.Op.appendJSON(b)
	b = append(b, `,"err":`...)
	b = strconv.AppendBool(b, r.Err)
	b = append(b, `,"dep":`...)
	b = strconv.AppendInt(b, int64(r.Dep), 10)
	b = append(b, `,"out":`...)
	b = r.Out.appendJSON(b)
	b = append(b, `,"evs":[`...)
	for i, e := range r.Evs {
		if i > 0 {
			b = append(b, ',')
		}
		b = append(b, '[')
		b = e[0].appendJSON(b)
		b = append(b, ',')
		b = e[1].appendJSON(b)
		b = append(b, ']')
	}
	b = append(b, `],"pan":`...)
	b = strconv.AppendBool(b, r.Pan)
	if r.Op.O == "rep" {
		b = append(b, `,"more":`...)
		b = r.More.appendJSON(b)
		b = append(b, `,"same":`...)
		b = strconv.AppendBool(b, r.Same)
	}
	return append(b, '}')
}

func (e Ev) appendJSON(b []byte) []byte {
	return append(b, fmt.Sprintf(`{"st":%d,"k":"%s","ch":%d}`, e.St, e.K, e.Ch)...)
}

func (r Rec) MarshalJSON() ([]byte, error) { return r.appendJSON(nil), nil }

// Trace is one recorded run.
type Trace struct {
	ID   int
	Cfg  Cfg
	J    Judge
	Dep0 int
	Ev   []Rec
}

func (t Trace) appendJSON(b []byte) []byte {
	b = append(b, fmt.Sprintf(`{"id":%d,"cfg":`, t.ID)...)
	c, err := json.Marshal(t.Cfg)
	must(err)
	b = append(b, c...)
	j, err := json.Marshal(t.J)
	must(err)
	b = append(b, `,"j":`...)
	b = append(b, j...)
	b = append(b, fmt.Sprintf(`,"dep0":%d,"ev":[`, t.Dep0)...)
	for i, r := range t.Ev {
		if i > 0 {
			b = append(b, ',')
		}
		b = r.appendJSON(b)
	}
	return append(b, "]}"...)
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func jsonLine(v interface{}) []byte {
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	must(e.Encode(v))
	return bytes.TrimSpace(b.Bytes())
}
