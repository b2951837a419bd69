package main

// Random generation of calls, steered by a profile.  The generator keeps a
// light picture of what is open so that most calls are meaningful; what
// they should do is for the specification to say.

import (
	"math/rand"
	"strconv"
	"strings"
)

// Profile steers generation.
type Profile struct {
	Ops     [2]int  // calls per run, between
	Bad     float64 // calls that ignore what is open
	BadStr  float64 // strings from the hostile pools
	BadName float64
	Long    float64 // long strings
	Raw     float64
	Wf      bool               // output is judged as a whole: unique attributes, no raw, no fragments of nodes
	EnfOff  float64            // runs with validation off from the start
	Toggle  float64            // calls that switch validation or strictness
	Layout  float64            // calls that take the indenter away, bring it back, replace or change it
	Reset   float64            // calls that change the version or the newline string
	Lax     float64            // runs without strict checks
	Std     float64            // runs with the standard indenter
	Rec     float64            // runs with a recording indenter
	Deep    float64            // runs starting with a deep stack
	Wide    float64            // runs with very wide elements
	Bulk    float64            // calls that write very many nodes of one kind
	Doc     float64            // runs starting with a document
	Inline  float64            // nodes with inline parts
	List    float64            // calls with several nodes
	Ends    float64            // weight of ending things
	W       map[string]float64 // weights of node kinds
	EndAll  bool
}

var baseW = map[string]float64{
	"elem": 6, "attr": 4, "text": 3, "comment": 1.2, "cdata": 1, "pi": 0.7,
	"ccontent": 2, "cdcontent": 2, "dtd": 0.8, "attlist": 1, "dtdattr": 1.5,
	"dtdelem": 1, "dtdent": 1.5, "notation": 0.8, "doc": 0.2,
}

func w(over map[string]float64) map[string]float64 {
	m := map[string]float64{}
	for k, v := range baseW {
		m[k] = v
	}
	for k, v := range over {
		m[k] = v
	}
	return m
}

func only(over map[string]float64) map[string]float64 {
	m := map[string]float64{}
	for k := range baseW {
		m[k] = 0.02
	}
	for k, v := range over {
		m[k] = v
	}
	return m
}

var profiles = map[string]Profile{
	// general
	"any": {Reset: 0.02, Ops: [2]int{5, 30}, Bulk: 0.003, Bad: 0.12, BadStr: 0.05, BadName: 0.02, Long: 0.01, Raw: 0.05, EnfOff: 0.1, Lax: 0.2, Toggle: 0.02,
		Std: 0.3, Deep: 0.15, Wide: 0.01, Doc: 0.4, Inline: 0.3, List: 0.15, Ends: 1, W: w(nil)},
	// whole documents
	"wf": {Ops: [2]int{5, 40}, Bulk: 0.002, Bad: 0.06, BadStr: 0.25, BadName: 0.12, Long: 0.02, Wf: true, Lax: 0.2,
		Std: 0.25, Deep: 0.12, Wide: 0.01, Doc: 0.4, Inline: 0.35, List: 0.15, Ends: 1, W: w(nil), EndAll: true},
	"tree": {Ops: [2]int{5, 40}, Bulk: 0.002, Bad: 0.04, BadStr: 0.2, BadName: 0.05, Long: 0.03, Wf: true, Lax: 0.3,
		Deep: 0.15, Wide: 0.01, Doc: 0.4, Inline: 0.35, List: 0.2, Ends: 1, W: w(nil), EndAll: true},
	// C04
	"place": {Reset: 0.02, Ops: [2]int{5, 30}, Bulk: 0.001, Bad: 0.5, BadStr: 0.02, Raw: 0.05, Deep: 0.12, Doc: 0.5, Inline: 0.15, List: 0.05, Ends: 1,
		W: w(map[string]float64{"dtd": 2, "comment": 2, "cdata": 2, "doc": 0.6})},
	// C05
	"ends": {Ops: [2]int{8, 40}, EnfOff: 0.15, Toggle: 0.01, Bulk: 0.003, Bad: 0.15, Deep: 0.25, Doc: 0.5, Inline: 0.1, List: 0.25, Ends: 4, Std: 0.1,
		W: w(map[string]float64{"elem": 9, "attr": 2, "dtd": 1.5, "attlist": 2, "comment": 1.5, "cdata": 1.5})},
	// C06
	"tags": {Ops: [2]int{6, 40}, Bulk: 0.004, Bad: 0.05, Raw: 0.15, Deep: 0.2, Wide: 0.02, Inline: 0.4, List: 0.15, Ends: 2, Std: 0.1,
		W: only(map[string]float64{"elem": 8, "attr": 5, "text": 2, "comment": 1, "cdata": 1, "pi": 0.6, "ccontent": 1, "cdcontent": 1})},
	// C07
	"ns": {Ops: [2]int{6, 40}, Bulk: 0.003, Bad: 0.05, BadName: 0.04, Deep: 0.2, Wide: 0.04, Inline: 0.5, List: 0.3, Ends: 1.5, Std: 0.1,
		W: only(map[string]float64{"elem": 8, "attr": 12, "text": 1})},
	// C22: strings for scripts
	"script": {Ops: [2]int{1, 1}, BadStr: 0.02, BadName: 0.01, Long: 0.01, W: w(nil)},
	// C13
	"content": {Ops: [2]int{6, 35}, Toggle: 0.03, Deep: 0.3, Bad: 0.05, BadStr: 0.45, BadName: 0.2, Long: 0.01, Lax: 0.4, Doc: 0.3, Inline: 0.5, List: 0.1, Ends: 2,
		W: w(map[string]float64{"comment": 3, "cdata": 3, "ccontent": 8, "cdcontent": 8, "pi": 4, "dtd": 3, "text": 1, "attr": 2, "elem": 4, "notation": 3, "dtdent": 3})},
	// C14
	"lax": {Reset: 0.02, Ops: [2]int{6, 35}, Deep: 0.15, Bulk: 0.003, Bad: 0.3, BadStr: 0.25, BadName: 0.25, Raw: 0.05, EnfOff: 0.8, Lax: 0.5, Toggle: 0.1, Std: 0.1, Doc: 0.3,
		Inline: 0.3, List: 0.1, Ends: 1.5, W: w(nil)},
	// C15
	"dtd": {Reset: 0.02, Ops: [2]int{6, 35}, Bulk: 0.006, Bad: 0.05, BadStr: 0.15, BadName: 0.08, EnfOff: 0.1, Doc: 0.3, Inline: 0.5, List: 0.15, Ends: 1.2, Std: 0.1,
		W: only(map[string]float64{"dtd": 6, "attlist": 5, "dtdattr": 10, "dtdelem": 2, "dtdent": 6, "notation": 4, "comment": 0.6})},
	// C16
	"doc": {Reset: 0.02, Ops: [2]int{1, 7}, Bad: 0.25, BadStr: 0.2, BadName: 0.2, EnfOff: 0.2, Std: 0.3, Doc: 0.9, Inline: 0.2, List: 0.1, Ends: 3,
		W: only(map[string]float64{"doc": 5, "elem": 1, "comment": 0.4, "pi": 0.4})},
	// C11
	"indent": {Reset: 0.02, Layout: 0.02, Ops: [2]int{6, 45}, Bulk: 0.003, Bad: 0.03, Raw: 0.03, Std: 1, Deep: 0.2, Doc: 0.5, Inline: 0.3, List: 0.1, Ends: 1.4, W: w(map[string]float64{"comment": 2.5, "pi": 1.2})},
	// C12
	"events": {Reset: 0.02, Layout: 0.02, Ops: [2]int{6, 45}, Bulk: 0.003, Bad: 0.05, Raw: 0.06, Rec: 1, Std: 0.4, Deep: 0.2, Doc: 0.5, Inline: 0.35, List: 0.1, Ends: 1.4,
		W: w(map[string]float64{"comment": 2.5, "ccontent": 4})},
	// C08
	"inline": {Ops: [2]int{4, 18}, Bulk: 0.01, Bad: 0.03, BadStr: 0.01, BadName: 0.004, Raw: 0.03, EnfOff: 0.15, Lax: 0.1, Std: 0.3, Deep: 0.3, Doc: 0.3, Inline: 0.9, List: 0.5, Ends: 1,
		W: w(map[string]float64{"elem": 9, "comment": 2, "cdata": 2, "attlist": 3, "dtd": 1.5})},
	// C14: histories with validation on, to be repeated with it off
	"twin": {Ops: [2]int{6, 35}, Bulk: 0.003, Bad: 0.1, BadStr: 0.04, BadName: 0.01, Long: 0.01, Raw: 0.05, Lax: 0.3, Std: 0.3, Deep: 0.2, Doc: 0.4,
		Inline: 0.4, List: 0.15, Ends: 1.2, W: w(nil)},
	// C20
	"share": {Ops: [2]int{5, 25}, Bulk: 0.003, Bad: 0.06, BadStr: 0.03, BadName: 0.01, Raw: 0.04, EnfOff: 0.1, Lax: 0.1, Std: 0.5, Deep: 0.2, Doc: 0.3,
		Inline: 0.6, List: 0.25, Ends: 1.5, W: w(map[string]float64{"elem": 9, "attr": 5, "attlist": 2})},
	// C09, C10
	"sink": {Ops: [2]int{4, 18}, Bad: 0.06, BadStr: 0.05, BadName: 0.01, Long: 0.03, Raw: 0.06, EnfOff: 0.1, Lax: 0.1, Std: 0.4, Deep: 0.12, Doc: 0.5,
		Inline: 0.4, List: 0.15, Ends: 1.3, W: w(map[string]float64{"dtd": 1.5, "pi": 1.2})},
	"sink1": {Ops: [2]int{1, 4}, Bad: 0.2, BadStr: 0.05, EnfOff: 0.2, Std: 0.4, Doc: 0.2, Inline: 0.5, List: 0.15, Ends: 1,
		W: only(map[string]float64{"elem": 2, "attr": 1, "text": 1, "comment": 1.5, "cdata": 1.5, "pi": 1.5, "dtd": 2, "attlist": 2, "dtdattr": 2,
			"dtdelem": 1.5, "dtdent": 2, "notation": 1.5, "ccontent": 1, "cdcontent": 1})},
	// C17
	"enc": {Ops: [2]int{4, 22}, Bad: 0.05, BadStr: 0.08, BadName: 0.01, Long: 0.05, Raw: 0.04, EnfOff: 0.15, Lax: 0.3, Std: 0.4, Deep: 0.12, Doc: 0.8,
		Inline: 0.4, List: 0.15, Ends: 1.2, W: w(map[string]float64{"text": 6, "attr": 6, "pi": 1.2})},
	// C23
	"wild": {Reset: 0.02, Ops: [2]int{8, 40}, Bad: 0.5, BadStr: 0.3, BadName: 0.3, Long: 0.02, Raw: 0.1, EnfOff: 0.3, Lax: 0.3, Toggle: 0.1, Std: 0.4, Rec: 0.2,
		Deep: 0.15, Doc: 0.3, Inline: 0.4, List: 0.3, Ends: 4, W: w(map[string]float64{"doc": 1})},
}

// what a property says, it says of every configuration
func init() {
	for _, k := range []string{"any", "place", "ends", "tags", "ns", "content", "dtd", "doc", "indent", "events"} {
		p := profiles[k]
		p.EnfOff, p.Lax, p.Toggle = max(p.EnfOff, 0.06), max(p.Lax, 0.08), max(p.Toggle, 0.006)
		p.Std, p.Rec = max(p.Std, 0.08), max(p.Rec, 0.05)
		profiles[k] = p
	}
	for _, k := range []string{"twin", "share", "sink", "sink1"} {
		p := profiles[k]
		p.Rec = 0.08
		profiles[k] = p
	}
}

type gframe struct {
	k, n, p string
	open    bool
	attrs   map[string]bool
	ns      map[string]string
}

type gen struct {
	r     *rand.Rand
	p     Profile
	stk   []gframe
	cfg   Cfg
	uniq  int
	fresh bool // nothing written yet

	lastP, lastU string // given before
}

func newGen(p Profile, seed int64) *gen {
	return &gen{r: rand.New(rand.NewSource(seed)), p: p, fresh: true}
}

func (g *gen) chance(p float64) bool    { return p > 0 && g.r.Float64() < p }
func (g *gen) pick(ss ...string) string { return ss[g.r.Intn(len(ss))] }
func (g *gen) between(lo, hi int) int   { return lo + g.r.Intn(hi-lo+1) }

// config picks a configuration for a run.
func (g *gen) config() Cfg {
	c := defaultCfg()
	if g.chance(g.p.EnfOff) {
		c.Enf = false
	}
	if g.chance(g.p.Lax) {
		c.Strict = false
	}
	if g.chance(g.p.Std) {
		c.Ind = "std"
		c.Istr = S(g.pick(" ", "  ", "\t", "    ", "", " \t ", "        ", "                 "))
	}
	if g.chance(g.p.Rec) {
		c.Rec = true
		if g.chance(0.6) {
			c.Wrap = []string{"box", "box", "dash", "trim", "twice", "none"}[g.r.Intn(6)]
		}
		c.Mark = g.chance(0.3)
		if g.chance(0.15) {
			c.Fail = g.between(1, 12)
		}
	}
	if g.chance(0.15) {
		c.Nl = S(g.pick("\r\n", "\n\n", "\n", "\n\n\n", "\r\n\r\n", "\n\t \n", "\n\t", "\r\n  "))
		if !g.p.Wf && g.chance(0.2) {
			c.Nl = ""
		}
	}
	if !g.p.Wf && g.chance(0.15) {
		c.Ver = S(g.pick("1.1", "1.0", "2", "1.10", "1", "1.2 "))
	}
	if !g.p.Wf && g.chance(0.12) {
		c.Enc = S(g.pick("utf-8", "x.y_z-9", "", "UTF8", g.pick(knownEncodings...)))
		if g.chance(g.p.BadName) {
			c.Enc = S(g.pick("1x", "a b", "\u00e9", "-"))
		}
	}
	c.Buf = []int{0, 0, 0, 1, 16, 17, 64, 4096, -1, 100000}[g.r.Intn(10)]
	g.cfg = c
	return c
}

var goodNames = []string{"a", "b", "c", "e1", "foo", "_x", "x-y.z", "elem", "a:b", "\u00e9", "q\u00b7", "\u0371x", "Root", "xmlish", "A", "x\u0300", ":", "_", "n\u02ff", "\u4e2d\u6587", "\u03b1b", "\u0e01\ufdf0", "\uac00"}
var badNames = []string{"1a", "-a", "a b", "a<", "a\x00", "e\xff", ".x", "a\u00d7", "\u0300a", "a&b", "a\"", "a'", " a", "a ", "a/", "a=b", "\u00b7", "a\n", "\ufffe", "a>", "?", "a\u2060", "9", "a\u3000", "\u2190x"}

// names, prefixes, values and so on that mean something to XML or to those who use it
var knownNames = []string{"xml:lang", "xml:space", "xml:id", "xml:base", "html", "body", "pre", "script", "style", "br", "svg", "id", "name", "class", "href", "type", "CDATA", "DOCTYPE",
	"ELEMENT", "xsl:text", "xsd:element", "nil", "true", "Elem", "elem", "text", "none", "a:b:c", "p:q", "Xml", "xmlfoo", "amp", "lt", "X", "INCLUDE"}
var knownTexts = []string{"preserve", "default", "true", "false", "yes", "no", "1.0", "UTF-8", "en", "NaN", "-0", "null", "http://www.w3.org/1999/xhtml", "http://www.w3.org/XML/1998/namespace",
	"\u0085", "\u2028", "\u00a0", "\ufeff", "\ufeffa", "a\u0085b", "\r", "\n", "\n\n", "\r\n", " \n ", "\n  x\n", "x\n", "\nx", " x", "\tx\t", "\r\rx", "a  b", "%", "%s", "%!d(x)", "\\n", "&amp", "&lt;b&gt;",
	"<b>", "[if IE]", "x=\"y\"", "href='a' type=\"b\" ", "!", "#", "$1", "\u200b", "e\u0301", "\u202e"}

var knownEncodings = []string{"latin1", "Latin-1", "ascii", "US-ASCII", "utf-16", "UTF-16", "UTF-16LE", "UTF-16BE", "utf-32", "iso-8859-15", "ISO-8859-1", "windows-1252", "cp1252", "Shift_JIS", "EUC-JP",
	"ISO-2022-JP", "Big5", "GBK", "GB18030", "KOI8-R", "IBM850", "ISO-10646-UCS-2", "ISO-10646-UCS-4", "UCS-2", "Utf-8", "utf8", "none", "binary", "UNICODE-1-1-UTF-7"}

// known gives one of them now and then, else s.
func (g *gen) known(s string, pool []string) string {
	if g.chance(0.08) {
		return g.pick(pool...)
	}
	return s
}

// cut gives s in pieces, cut anywhere, so that a character may be in two of them.
func (g *gen) cut(s string) []string {
	var out []string
	for len(s) > 1 && len(out) < 3 && g.chance(0.8) {
		i := g.between(1, len(s)-1)
		out = append(out, s[:i])
		s = s[i:]
	}
	return append(out, s)
}

func (g *gen) name() string {
	if g.chance(g.p.BadName) {
		if g.chance(0.2) {
			return ""
		}
		if g.chance(0.2) { // deciding character far from the start
			return strings.Repeat("n", g.between(1, 40)) + g.pick(badNames...)
		}
		return g.pick(badNames...)
	}
	if g.chance(g.p.Long + 0.015) {
		n := []int{31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 513, 1025}[g.r.Intn(18)]
		if g.chance(0.05) {
			n = 4097
		}
		return strings.Repeat(g.pick("n", "\u00e9", "ab"), n)
	}
	return g.known(g.pick(goodNames...), knownNames)
}

var goodTexts = []string{"t", "hello", "two words", "1", "x y", "\u00e9t\u00e9", "\u4e2d\u6587", "\U0001f600", "a.b", "line\nline", "\t", " ", "  lead", "trail  ", "it's", "0"}
var specials = []string{"<", ">", "&", "\"", "'", "\r", "\n", "\t", "\r\n", "]]>", "]]", "]", "--", "-", "?>", "?", "&amp;", "&#60;", "<!--", "-->", "<![CDATA[", "</a>",
	"\x00", "\x01", "\x0b", "\x1f", "\x7f", "\u0080", "\u0085", "\u009f", "\u00a0", "\u2028", "\ufdd0", "\ufdef", "\ufffd", "\ufffe", "\uffff",
	"\U0001fffe", "\U0001ffff", "\U00010000", "\U0010fffd", "\U0010ffff", "\ud7ff", "\ue000", "\x80", "\xff", "\xc3", "\xe2\x82", "\xed\xa0\x80", "\xf0\x9f\x98", "\xc0\x80", "\xf4\x90\x80\x80", "{", "}", "%p;", "a", "b "}

func (g *gen) hostile() string {
	var b strings.Builder
	for i := g.between(1, 5); i > 0; i-- {
		if g.chance(0.3) {
			b.WriteString(g.pick(goodTexts...))
		} else {
			b.WriteString(g.pick(specials...))
		}
	}
	return b.String()
}

// far moves what s holds away from the start, so that the deciding characters
// are found at any offset.
func (g *gen) far(s string, pads ...string) string {
	if !g.chance(0.2) {
		return s
	}
	n := g.between(1, 40)
	if g.chance(0.3) {
		n = g.between(41, 270)
	}
	pad := strings.Repeat(g.pick(pads...), n)
	if g.chance(0.2) {
		return pad + s + pad
	}
	return pad + s
}

func (g *gen) longStr() string {
	n := []int{64, 127, 128, 129, 255, 256, 257, 511, 700, 1023, 1024, 2047, 2048, 2049, 3000}[g.r.Intn(15)]
	if g.chance(0.15) {
		n = []int{4095, 4096, 4097, 8191, 8193, 9000}[g.r.Intn(6)]
	}
	s := strings.Repeat(g.pick("x", "y", "\u00e9", "\u4e2d"), n)
	if g.chance(0.6) {
		return s + g.pick(specials...) + g.pick(goodTexts...)
	}
	return s
}

// text for places where everything is escaped
func (g *gen) text() string {
	if g.chance(g.p.Long) {
		return g.longStr()
	}
	if g.chance(g.p.BadStr + 0.15) {
		return g.hostile()
	}
	if g.chance(0.1) {
		return ""
	}
	return g.known(g.pick(goodTexts...), knownTexts)
}

// content for places where it is checked instead
func (g *gen) content() string {
	if g.chance(g.p.BadStr) {
		return g.far(g.hostile(), "c", " ", "\u00e9")
	}
	if g.chance(g.p.Long) {
		return g.longStr()
	}
	if g.chance(0.1) {
		return ""
	}
	if g.chance(0.1) {
		return g.far(g.pick("-", "a-", "-a", "]", "]]", "]>", ">", "]]a", "?", "a ? b", "<b>&c;", "\r", "x\r\ny", "'", "\""), "c", "]", "?")
	}
	return g.known(g.pick(goodTexts...), knownTexts)
}

func (g *gen) literal() string {
	if g.chance(g.p.BadStr) {
		return g.far(g.hostile(), "s", "\u00e9")
	}
	return g.far(g.pick("x", "sys.dtd", "http://e.x/?a=b", "it's", "say \"hi\"", "", "a b", "\u00e9", "#"), "s", "/")
}

func (g *gen) pubid() string {
	if g.chance(g.p.BadStr) {
		return g.far(g.pick("\"", "a\"b", "a&b", "\u00e9", "<", "a\tb", "{", "ok|", "~", "\x80"), "p", " ")
	}
	return g.far(g.pick("p", "-//W3C//DTD XHTML 1.0//EN", "a'b", "x y", "A(1)+2,3./:=?;!*#@$_%", "a\nb", "0"), "p", ".")
}

func (g *gen) prefix() string {
	if g.chance(0.55) {
		return ""
	}
	if g.chance(g.p.BadName) {
		return g.pick("1", "a b", "\"", "-")
	}
	if g.lastP != "" && g.chance(0.2) {
		return g.nearName(g.lastP)
	}
	g.lastP = g.pick("p", "q", "r", "s", "\u00e9", "pre", "P", "pp")
	if g.chance(0.12) {
		g.lastP = g.pick("xml", "xml", "xmlns", "XML", "xsl", "a:b", "_", "ns0", "ns1", "x.y")
		if g.p.Wf && g.lastP == "xmlns" {
			g.lastP = "xml"
		}
	}
	return g.lastP
}

func (g *gen) uri() string {
	if g.chance(0.5) {
		return ""
	}
	if g.lastU != "" && g.chance(0.25) {
		return g.near(g.lastU)
	}
	g.lastU = g.pick("u", "v", "http://x/", "a&b", "urn:\"q\"", "w w", "urn:x", "URN:X")
	if g.chance(0.12) {
		g.lastU = g.pick("http://www.w3.org/XML/1998/namespace", "http://www.w3.org/2000/xmlns/", "http://www.w3.org/1999/xhtml", "http://www.w3.org/1999/XSL/Transform", " ", "\n", "p", "\u00e9", "DAV:", "http://x")
	}
	return g.lastU
}

// near gives a string that is easily taken for s.
func (g *gen) near(s string) string {
	switch g.r.Intn(10) {
	case 7:
		return g.changed(s)
	case 8:
		if s != "" {
			return s[:len(s)-1] + "z"
		}
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.ToLower(s)
	case 2:
		return s + g.pick("/", " ", "#", "x", "\n")
	case 3:
		return g.pick(" ", "x", "\t") + s
	case 4:
		if s != "" {
			return s[:len(s)-1]
		}
	case 5:
		return s + s
	case 6:
		if len(s) > 1 {
			return s[1:]
		}
	}
	return s
}

// changed changes one byte of s.
func (g *gen) changed(s string) string {
	if s == "" {
		return "z"
	}
	i := g.r.Intn(len(s))
	return s[:i] + g.pick("z", "Z", "q") + s[i+1:]
}

// nearName does so for names.
func (g *gen) nearName(s string) string {
	switch g.r.Intn(6) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.ToLower(s)
	case 2:
		return s + g.pick("x", "1", "-", s)
	case 3:
		return g.pick("x", "_") + s
	case 4:
		if s != "" && s[len(s)-1] < 128 {
			return s[:len(s)-1] + g.pick("z", "q")
		}
	}
	return s
}

// attr makes an attribute; used holds the names taken when they must be unique.
func (g *gen) attr(used map[string]bool) Node {
	n := Node{K: "attr", P: S(g.prefix()), N: S(g.name()), V: S(g.text())}
	if g.chance(0.5) {
		n.U = S(g.uri())
	}
	if g.chance(0.1) {
		n.V = S(g.number())
	}
	if g.p.Wf {
		full := string(n.N)
		if n.P != "" {
			full = string(n.P) + ":" + full
		}
		for used[full] || strings.HasPrefix(full, "xmlns") {
			g.uniq++
			n.N = S("u" + itoa(g.uniq))
			full = string(n.N)
			if n.P != "" {
				full = string(n.P) + ":" + full
			}
		}
		used[full] = true
	}
	return n
}

// number: a value that a typed method can write
func (g *gen) number() string {
	if g.chance(0.2) {
		return g.pick("true", "false")
	}
	i := g.r.Int63() >> uint(g.r.Intn(63))
	if g.chance(0.3) {
		i = -i
	}
	return strconv.FormatInt(i, 10)
}

func itoa(i int) string {
	if i == 0 {
		return "0"
	}
	s := ""
	for ; i > 0; i /= 10 {
		s = string(rune('0'+i%10)) + s
	}
	return s
}

func (g *gen) external(n *Node, optional bool) {
	switch g.r.Intn(4) {
	case 0:
		if optional {
			return
		}
		n.Sys = S(g.literal())
	case 1:
		n.Sys = S(g.literal())
	case 2:
		n.Pub, n.Sys = S(g.pubid()), S(g.literal())
	case 3:
		if g.chance(0.2) {
			n.Pub = S(g.pubid())
		} else {
			n.Pub, n.Sys = S(g.pubid()), S("s")
		}
	}
}

func (g *gen) dtdattr() Node {
	n := Node{K: "dtdattr", N: S(g.name()), Ty: S(g.pick("CDATA", "CDATA", "ID", "NMTOKEN", "IDREFS", "ENTITY", "IDREF", "ENTITIES", "NMTOKENS", "(a|b)", "(Yes | no)", "NOTATION (n)"))}
	if !g.p.Wf && g.chance(0.1) {
		n.Ty = S(g.pick("(a  |b)", " CDATA", "ID ", "NOTATION  ( n )", "cdata", "Id", "%t;", "(A|a|A)", "\tID", "STRING"))
	}
	if g.p.BadName > 0 && g.chance(0.03) {
		n.Ty = ""
	}
	switch g.r.Intn(6) {
	case 0:
	case 1:
		n.S = S(g.text())
	case 2:
		n.Df, n.S = 1, S(g.text())
	case 3:
		n.Df = 2
	case 4:
		n.Df = 3
	case 5:
		n.Df, n.S = 4, S(g.text())
	}
	if g.chance(g.p.BadStr * 0.3) {
		n.Df = g.r.Intn(6)
		n.S = S(g.pick("", "x"))
	}
	return n
}

// node makes a node of kind k; depth bounds inline nesting.
func (g *gen) node(k string, depth int) Node {
	n := Node{K: k}
	inline := g.chance(g.p.Inline)
	switch k {
	case "elem":
		n.N, n.P = S(g.name()), S(g.prefix())
		if g.chance(0.5) {
			n.U = S(g.uri())
		}
		n.F = g.chance(0.15)
		used := map[string]bool{}
		if inline && g.chance(0.7) {
			for i := g.between(1, 3); i > 0; i-- {
				n.At = append(n.At, g.attr(used))
			}
			if g.chance(g.p.Wide) {
				for i := 0; i < 300; i++ {
					n.At = append(n.At, Node{K: "attr", P: S(g.pick("", "", "p"+itoa(i))), U: S(g.pick("", "u")), N: S("w" + itoa(i)), V: "v"})
				}
			}
		}
		if inline && depth > 0 && g.chance(0.6) {
			kinds := []string{"text", "elem", "comment", "cdata", "elem", "text"}
			for i := g.between(1, 3); i > 0; i-- {
				c := kinds[g.r.Intn(len(kinds))]
				if !g.p.Wf && g.chance(g.p.Bad*0.2) {
					c = g.pick("pi", "raw", "attr", "ccontent", "cdcontent", "dtdelem")
				}
				n.C = append(n.C, g.node(c, depth-1))
				if c == "text" && g.chance(0.15) {
					parts := g.cut(g.pick("\u00e9", "\u4e2d\u6587", "\U0001f600", "]]>", "\r\n", "&amp;", "a b", string(n.C[len(n.C)-1].S)))
					for _, s := range parts {
						n.C = append(n.C, Node{K: "text", S: S(s)})
					}
				}
			}
		}
	case "attr":
		var used map[string]bool
		if len(g.stk) > 0 && g.stk[len(g.stk)-1].attrs != nil {
			used = g.stk[len(g.stk)-1].attrs
		} else {
			used = map[string]bool{}
		}
		return g.attr(used)
	case "text":
		n.S = S(g.text())
	case "raw":
		n.S = S(g.pick("", "r", "<raw/>", " x=\"y\"", "&r;", "]]>", "\x00", ">", "--", "-->", "?>", "\n"))
		if g.chance(0.15) {
			n.S = S(g.hostile())
		}
	case "comment":
		if inline {
			n.S = S(g.content())
		}
	case "cdata":
		if inline {
			n.S = S(g.content())
		}
	case "ccontent", "cdcontent":
		n.S = S(g.content())
	case "pi":
		n.N, n.S = S(g.name()), S(g.content())
		if g.p.BadName > 0 && g.chance(0.1) {
			n.N = S(g.pick("xml", "XML", "xMl", "xmlx", "xml-stylesheet"))
		}
		if g.chance(0.12) {
			n.N = S(g.pick("xml-stylesheet", "xml-model", "php", "xmlns", "target", "xsl", "XML-x", "x-xml"))
		}
		if g.p.Wf && n.N == "" {
			n.N = "t"
		}
	case "doc":
		n.Sa = g.between(-1, 1)
		if g.chance(0.2) {
			n.Se = true
		}
		if g.chance(0.3) {
			n.Fe = []S{S(g.pick("UTF-8", "x", "", "iso-8859-1", "A._-9", g.pick(knownEncodings...)))}
			if g.chance(g.p.BadName) {
				n.Fe = []S{S(g.pick("8", "a b", "-x", "\u00e9", "a\"", ".", "u:8", "\xff"))}
			}
		}
		if !g.p.Wf {
			n.Sv = g.chance(0.2)
			if g.chance(0.3) {
				n.Fv = []S{S(g.pick("1.0", "1.1", "", "<v>", "1.00", "2.0", "1", "10"))}
			}
		}
	case "dtd":
		n.N = S(g.name())
		g.external(&n, true)
	case "dtdelem":
		n.N, n.S = S(g.name()), S(g.pick("EMPTY", "ANY", "(#PCDATA)", "(a|b)*", "(a,b?)", "(#PCDATA|a)*", "(a, (b | c)+)"))
		if !g.p.Wf && g.chance(0.1) {
			n.S = S(g.pick("#PCDATA", "empty", "any", " ANY ", "CDATA", "a", "%m;", "(a&b)", "<x>"))
		}
		if g.p.BadName > 0 && g.chance(0.03) {
			n.S = ""
		}
	case "dtdent":
		n.N = S(g.name())
		n.F = g.chance(0.25)
		if g.chance(0.45) {
			g.external(&n, false)
			if g.chance(0.35) && (!n.F || g.p.BadStr > 0) {
				n.Nd = S(g.name())
			}
			if g.chance(g.p.BadStr * 0.3) {
				n.S = "x"
			}
		} else {
			n.S = S(g.literal())
			if g.p.Wf {
				n.S = S(strings.NewReplacer("%", "", "&", "").Replace(string(n.S)))
			}
			if g.chance(g.p.BadStr * 0.3) {
				n.Nd = "n"
			}
		}
	case "attlist":
		n.N = S(g.name())
		if inline {
			for i := g.between(1, 3); i > 0; i-- {
				n.At = append(n.At, g.dtdattr())
			}
		}
	case "dtdattr":
		return g.dtdattr()
	case "notation":
		n.N = S(g.name())
		g.external(&n, false)
		if g.chance(0.2) {
			n.Sys, n.Pub = "", S(g.pubid())
		}
	}
	return n
}

var may = map[string][]string{
	"none":    {"doc", "elem", "dtd", "attlist", "comment", "cdata", "attr", "text", "ccontent", "cdcontent", "pi", "dtdelem", "dtdent", "notation", "dtdattr"},
	"doc":     {"elem", "dtd", "comment", "pi"},
	"elem":    {"elem", "comment", "cdata", "attr", "text", "pi"},
	"dtd":     {"attlist", "comment", "dtdelem", "dtdent", "notation"},
	"attlist": {"dtdattr"},
	"comment": {"ccontent"},
	"cdata":   {"cdcontent"},
}
var mayWf = []string{"elem", "dtd", "attlist", "comment", "cdata", "text", "pi", "dtdelem", "dtdent", "notation"}

var allKinds = may["none"]
var endKinds = []string{"elem", "doc", "dtd", "attlist", "comment", "cdata", "none", "attr", "text", "pi", "big", "neg", "past", "raw", "dtdattr"}

func (g *gen) top() *gframe {
	if len(g.stk) == 0 {
		return nil
	}
	return &g.stk[len(g.stk)-1]
}

func (g *gen) weighted(ks []string) string {
	sum := 0.0
	for _, k := range ks {
		sum += g.p.W[k]
	}
	x := g.r.Float64() * sum
	for _, k := range ks {
		x -= g.p.W[k]
		if x < 0 {
			return k
		}
	}
	return ks[len(ks)-1]
}

// kind picks a kind that fits what is open.
func (g *gen) kind() string {
	t := g.top()
	if t == nil {
		if g.p.Wf {
			return g.weighted(mayWf)
		}
		return g.weighted(may["none"])
	}
	ks := may[t.k]
	if t.k == "elem" && !t.open {
		ks = []string{"elem", "comment", "cdata", "text", "pi"}
	}
	return g.weighted(ks)
}

func (g *gen) endNames(f *gframe) []S {
	if f == nil {
		return nil
	}
	switch {
	case len(f.n) > 30 && g.chance(0.6):
		n := g.changed(f.n)
		if g.chance(0.3) {
			n = g.near(f.n)
		}
		if g.chance(0.6) {
			return []S{S(n)}
		} else {
			return []S{S(f.p), S(n)}
		}
	case g.chance(0.4):
		return nil
	case g.chance(0.12):
		return []S{S(g.pick("zz", f.n+"x", "", f.p, g.near(f.n), f.p+":"+f.n, f.n[strings.Index(f.n, ":")+1:]))}
	case g.chance(0.05):
		if i := strings.Index(f.n, ":"); i >= 0 {
			return []S{S(f.n[:i]), S(f.n[i+1:])}
		}
		return []S{S(g.near(f.p)), S(g.near(f.n))}
	case g.chance(0.08):
		return []S{S(g.pick(f.p, "zz", "")), S(g.pick(f.n, "zz"))}
	case g.chance(0.06):
		// the same characters, divided otherwise
		full := f.n
		if f.p != "" {
			full = f.p + ":" + f.n
		}
		var at []int
		for i := range full {
			if full[i] == ':' {
				at = append(at, i)
			}
		}
		if len(at) > 0 {
			i := at[g.r.Intn(len(at))]
			return []S{S(full[:i]), S(full[i+1:])}
		}
		return []S{"", S(full)}
	case g.chance(0.03):
		return []S{S(f.p), S(f.n), "x"}
	}
	switch f.k {
	case "elem":
		if g.chance(0.5) {
			return []S{S(f.p), S(f.n)}
		}
		return []S{S(f.n)}
	case "dtd", "attlist":
		return []S{S(f.n)}
	}
	return nil
}

func (g *gen) endOp() Op {
	t := g.top()
	via := g.r.Intn(2)
	if t == nil {
		switch g.r.Intn(6) {
		case 0:
			return Op{O: "endany"}
		case 1:
			return Op{O: "endall"}
		case 2:
			return Op{O: "enddoc"}
		case 3:
			return Op{O: "endfull"}
		default:
			return Op{O: "end", K: g.pick(endKinds...), Via: via}
		}
	}
	switch x := g.r.Float64(); {
	case x < 0.42:
		return Op{O: "end", K: t.k, Names: g.endNames(t), Via: via}
	case x < 0.55:
		return Op{O: "endfull", Names: g.endNames(t)}
	case x < 0.68:
		return Op{O: "endany"}
	case x < 0.76:
		return Op{O: "end", K: g.pick(endKinds...), Names: g.endNames(t), Via: via}
	case x < 0.80:
		return Op{O: g.pick("endall", "endallflush")}
	case x < 0.84:
		return Op{O: "enddoc"}
	default:
		// a level with at least one node above it
		d := g.r.Intn(len(g.stk))
		if g.chance(0.5) && len(g.stk) > 4 {
			d = len(g.stk) - g.between(1, 4)
		}
		f := g.stk[d]
		k := f.k
		if g.chance(0.15) {
			k = g.pick(endKinds...)
		}
		return Op{O: "endto", D: d, K: k, Names: g.endNames(&f)}
	}
}

var isStart = map[string]bool{"doc": true, "elem": true, "dtd": true, "attlist": true, "comment": true, "cdata": true}

func (g *gen) op() Op {
	if g.chance(g.p.Toggle) {
		return Op{O: g.pick("setenf", "setstrict"), V: g.chance(0.5)}
	}
	if g.chance(g.p.Reset) {
		return g.reset()
	}
	if g.chance(g.p.Layout) {
		return g.layout()
	}
	if g.chance(g.p.Raw) {
		return Op{O: "write", Ns: []Node{g.node("raw", 0)}, Via: g.r.Intn(2)}
	}
	if g.chance(0.02) {
		return Op{O: "flush"}
	}
	if g.chance(0.04) {
		return Op{O: "next"}
	}
	endP := 0.10 * g.p.Ends
	if len(g.stk) == 0 {
		endP = 0.02 * g.p.Ends
	}
	if len(g.stk) > 6 {
		endP *= 2
	}
	if t := g.top(); t != nil && (t.k == "comment" || t.k == "cdata" || t.k == "attlist") {
		endP *= 2.5
	}
	if g.chance(endP) {
		return g.endOp()
	}
	k := g.kind()
	if g.chance(g.p.Bad) {
		k = allKinds[g.r.Intn(len(allKinds))]
		if g.p.Wf && len(g.stk) == 0 && (k == "attr" || k == "dtdattr" || k == "ccontent" || k == "cdcontent" || k == "doc") {
			k = "elem"
		}
	}
	return g.nodeOp(k)
}

func (g *gen) layout() Op {
	if g.chance(0.3) {
		return Op{O: "setistr", S: S(g.pick("", " ", "\t", "    ", "--"))}
	}
	if g.chance(max(g.p.Rec-0.5, 0.2)) {
		return Op{O: "setind", K: g.pick("none", "rec", "rec", "recstd")}
	}
	return Op{O: "setind", K: g.pick("none", "none", "back", "back", "std", "zero")}
}

func (g *gen) reset() Op {
	if g.chance(0.4) {
		return Op{O: "setver", S: S(g.pick("", "1.0", "1.1"))}
	}
	return Op{O: "setnl", S: S(g.pick("\n", "\r\n", "", "\r", "\n\n\n", "\t\r\n \r\n", "\n\t", "\n   "))}
}

// bulk writes many small nodes of kind k, a number where counters tend to turn over.
func (g *gen) bulk(k string) Op {
	n := []int{20, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300}[g.r.Intn(14)]
	if g.chance(0.3) {
		n = 256
	}
	var nd Node
	switch k {
	case "elem":
		nd = Node{K: k, N: "w"}
	case "attr", "dtdattr":
	case "text", "ccontent", "cdcontent", "comment", "cdata":
		nd = Node{K: k, S: "t"}
	case "pi":
		nd = Node{K: k, N: "p", S: "c"}
	case "dtdelem":
		nd = Node{K: k, N: "e", S: "ANY"}
	case "dtdent":
		nd = Node{K: k, N: "e", S: "v"}
	case "notation":
		nd = Node{K: k, N: "n", Sys: "s"}
	case "attlist":
		nd = Node{K: k, N: "l"}
	}
	op := Op{O: "write", Via: 0}
	for i := 0; i < n; i++ {
		if k == "attr" {
			g.uniq++
			nd = Node{K: k, N: S("u" + itoa(g.uniq)), V: "v"}
			if g.chance(0.3) {
				nd.P, nd.U = S("b"+itoa(i)), "u"
			}
		} else if k == "dtdattr" {
			g.uniq++
			nd = Node{K: k, N: S("u" + itoa(g.uniq)), Ty: "ID", Df: 3}
		}
		op.Ns = append(op.Ns, nd)
	}
	if g.chance(0.4) { // one of them is something else, which may be refused
		other := g.node(k, 0)
		if g.chance(0.5) && !g.p.Wf {
			other = g.pickNode()
		}
		op.Ns[g.r.Intn(n)] = other
	}
	switch { // all at once inside something, where they may be
	case k == "dtdattr" && g.chance(0.4):
		return Op{O: "write", Ns: []Node{{K: "attlist", N: "l", At: onlyKind(op.Ns, k)}}, Via: g.r.Intn(2)}
	case k == "attr" && g.chance(0.4):
		return Op{O: g.pick("start", "write"), Ns: []Node{{K: "elem", N: "w", F: g.chance(0.3), At: onlyKind(op.Ns, k)}}}
	case (k == "text" || k == "comment" || k == "cdata" || k == "elem") && g.chance(0.4):
		return Op{O: g.pick("start", "write"), Ns: []Node{{K: "elem", N: "w", C: op.Ns}}}
	case (k == "text" || k == "comment" || k == "cdata" || k == "elem" || k == "pi") && g.chance(0.2):
		return Op{O: "block", N: &Node{K: "elem", N: "w"}, Ns: op.Ns}
	}
	return op
}

func onlyKind(ns []Node, k string) (out []Node) {
	for _, n := range ns {
		if n.K == k {
			out = append(out, n)
		}
	}
	return
}

// pickNode makes some node that can be written.
func (g *gen) pickNode() Node {
	return g.node(g.pick("text", "comment", "pi", "raw", "attr", "ccontent", "cdcontent", "dtdelem", "elem"), 0)
}

func (g *gen) nodeOp(k string) Op {
	depth := g.between(0, 3)
	if g.chance(g.p.Bulk) && k != "doc" && k != "dtd" {
		return g.bulk(k)
	}
	if isStart[k] {
		switch {
		case k == "doc" || g.chance(0.62):
			op := Op{O: "start", Ns: []Node{g.node(k, depth)}, Via: g.r.Intn(2)}
			if k == "elem" && g.chance(g.p.List*0.5) {
				for i := g.between(1, 3); i > 0; i-- {
					op.Ns = append(op.Ns, g.node("elem", depth))
				}
			}
			return op
		case k != "dtd" && g.chance(0.75):
			op := Op{O: "write", Ns: []Node{g.node(k, depth)}, Via: g.r.Intn(2)}
			if g.chance(g.p.List) {
				for i := g.between(1, 3); i > 0; i-- {
					op.Ns = append(op.Ns, g.node(k, depth))
				}
				if k == "elem" && g.chance(g.p.Wide) {
					for i := 0; i < 300; i++ {
						op.Ns = append(op.Ns, Node{K: "elem", N: "w"})
					}
				}
			}
			return op
		default:
			n := g.node(k, depth)
			op := Op{O: "block", N: &n}
			if n.K == "doc" {
				return Op{O: "start", Ns: []Node{n}}
			}
			used := map[string]bool{}
			for _, a := range n.At {
				full := string(a.N)
				if a.P != "" {
					full = string(a.P) + ":" + full
				}
				used[full] = true
			}
			open := true
			for i := g.between(0, 3); i > 0; i-- {
				var ck string
				ks := may[k]
				if k == "elem" && (!open || len(n.C) > 0) {
					ks = []string{"elem", "comment", "cdata", "text", "pi"}
				}
				ck = g.weighted(ks)
				if ck == "dtd" || ck == "doc" {
					continue
				}
				if ck == "attr" {
					op.Ns = append(op.Ns, g.attr(used))
					continue
				}
				open = false
				op.Ns = append(op.Ns, g.node(ck, depth))
			}
			return op
		}
	}
	if k == "attr" && g.chance(g.p.List+0.1) {
		op := Op{O: "attrs", Via: g.r.Intn(2)}
		for i := g.between(1, 4); i > 0; i-- {
			op.Ns = append(op.Ns, g.node("attr", 0))
		}
		return op
	}
	op := Op{O: "write", Ns: []Node{g.node(k, 0)}, Via: g.r.Intn(2)}
	if (k == "text" || k == "ccontent" || k == "cdcontent") && g.chance(0.06) {
		op.Ns = nil
		whole := g.pick("]]>", "\r\n", "--", "a--b", "&#60;", "-->", "x-", "]]")
		if k == "text" { // bytes that are written as they are would come together again
			whole = g.pick("\u00e9", "\u4e2d\u6587", "\U0001f600", whole, g.content())
		}
		for _, s := range g.cut(whole) {
			op.Ns = append(op.Ns, Node{K: k, S: S(s)})
		}
		return op
	}
	if k != "attr" && g.chance(g.p.List*0.5) {
		for i := g.between(1, 2); i > 0; i-- {
			op.Ns = append(op.Ns, g.node(k, 0))
		}
	}
	return op
}

// applied updates the picture after a call that succeeded.
func (g *gen) applied(op Op) {
	settle := func() {
		if t := g.top(); t != nil {
			t.open = false
		}
	}
	switch op.O {
	case "start":
		for _, n := range op.Ns {
			settle()
			f := gframe{k: n.K, n: string(n.N), p: string(n.P), open: true, attrs: map[string]bool{}}
			for _, a := range n.At {
				full := string(a.N)
				if a.P != "" {
					full = string(a.P) + ":" + full
				}
				f.attrs[full] = true
			}
			g.stk = append(g.stk, f)
		}
	case "write":
		for _, n := range op.Ns {
			if n.K != "attr" && n.K != "raw" {
				settle()
			}
		}
	case "block", "next":
		settle()
	case "end", "endfull", "endany":
		if len(g.stk) > 0 {
			g.stk = g.stk[:len(g.stk)-1]
		}
	case "endall", "endallflush", "enddoc":
		g.stk = g.stk[:0]
	case "endto":
		if op.D < len(g.stk) {
			g.stk = g.stk[:op.D]
		}
	}
}

// trace generates and runs one random run.
func (g *gen) trace() Trace { return g.traceWith(g.config()) }

func (g *gen) traceWith(c Cfg) Trace {
	g.cfg = c
	r := newRun(c, &memSink{})
	t := Trace{Cfg: c, Dep0: r.dep0}
	dirty := 0
	do := func(op Op) bool {
		stk := append([]gframe(nil), g.stk...)
		rec, _ := r.step(op)
		if g.p.Wf && rec.Err && !rec.Pan && (rec.Out != "" || rec.Dep != r.dep0+len(stk) || len(op.Ns) > 1 || op.N != nil) && g.chance(0.9) {
			// nothing can be said about the document any more: take the call back
			r = newRun(c, &memSink{})
			for i := range t.Ev {
				r.step(t.Ev[i].Op)
			}
			g.stk = stk
			return true
		}
		t.Ev = append(t.Ev, rec)
		if !rec.Err {
			g.applied(op)
		} else if rec.Out != "" || rec.Dep != r.dep0+len(g.stk) {
			dirty++
			// keep roughly in step with the writer
			for len(g.stk) > rec.Dep-r.dep0 && len(g.stk) > 0 {
				g.stk = g.stk[:len(g.stk)-1]
			}
		}
		return !rec.Pan
	}
	alive := true
	if g.chance(4 * g.p.Reset) {
		alive = do(g.reset())
	}
	if alive && g.chance(g.p.Doc) {
		alive = do(Op{O: "start", Ns: []Node{g.node("doc", 0)}, Via: g.r.Intn(2)})
	}
	if alive && g.chance(g.p.Deep) {
		n := 2 + g.r.Intn(19)
		if g.chance(0.2) {
			n = []int{31, 33, 64, 65, 100, 129, 200, 257}[g.r.Intn(8)]
		}
		for i := 0; i < n && alive; i++ {
			nd := Node{K: "elem", N: S(g.pick("d", "e", "f"))}
			if g.chance(0.2) {
				nd = g.node("elem", 0)
				if g.p.BadName > 0 {
					nd.N, nd.P = "d", ""
				}
			}
			if g.chance(0.1) {
				nd.P, nd.U = "p", "u"
			}
			alive = do(Op{O: "start", Ns: []Node{nd}})
			if alive && len(g.stk) > 0 && g.chance(0.1) {
				alive = do(Op{O: "attrs", Ns: []Node{{K: "attr", P: S(g.pick("", "p", "q")), U: S(g.pick("", "v")), N: "at" + S(itoa(i)), V: "x"}}})
			}
		}
	}
	for n := g.between(g.p.Ops[0], g.p.Ops[1]); n > 0 && alive && dirty < 2; n-- {
		alive = do(g.op())
	}
	if alive && (g.p.EndAll || g.chance(0.7)) {
		alive = do(Op{O: g.pick("endall", "endallflush")})
	}
	return t
}
