package main

// Escaping (C03): strings through every place that escapes, one element or
// attribute at a time, together with the bytes that came out.

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"unicode/utf8"

	xw "github.com/shabbyrobe/xmlwriter"
)

func init() { commands["escape"] = cmdEscape }

// escPlace is a place strings are escaped in: what surrounds them there, and
// the calls that put them there.
type escPlace struct {
	name      string
	text      bool
	pre, post string
	put       func(w *xw.Writer, parts []string) error
}

func inElem(w *xw.Writer, f func() error) error {
	return firstErr(func() error { return w.StartElem(xw.Elem{Name: "a"}) }, f, func() error { return w.EndElemFull("a") })
}

func firstErr(fs ...func() error) error {
	for _, f := range fs {
		if err := f(); err != nil {
			return err
		}
	}
	return nil
}

var escPlaces = []escPlace{
	{"text", true, "<a>", "</a>", func(w *xw.Writer, ps []string) error {
		return inElem(w, func() error {
			for _, p := range ps {
				if err := w.Write(xw.Text(p)); err != nil {
					return err
				}
			}
			return nil
		})
	}},
	{"writetext", true, "<a>", "</a>", func(w *xw.Writer, ps []string) error {
		return inElem(w, func() error {
			for _, p := range ps {
				if err := w.WriteText(p); err != nil {
					return err
				}
			}
			return nil
		})
	}},
	{"content", true, "<a>", "</a>", func(w *xw.Writer, ps []string) error {
		var c []xw.Writable
		for _, p := range ps {
			c = append(c, xw.Text(p))
		}
		return w.Write(xw.Elem{Name: "a", Full: true, Content: c})
	}},
	{"attr", false, `<a b="`, `"/>`, func(w *xw.Writer, ps []string) error {
		return firstErr(func() error { return w.StartElem(xw.Elem{Name: "a"}) },
			func() error { return w.WriteAttr(xw.Attr{Name: "b", Value: ps[0]}) }, func() error { return w.EndElem("a") })
	}},
	{"attrs", false, `<a b="`, `"/>`, func(w *xw.Writer, ps []string) error {
		return w.Write(xw.Elem{Name: "a", Attrs: []xw.Attr{{Name: "b", Value: ps[0]}}})
	}},
	{"elemuri", false, `<p:a xmlns:p="`, `"/>`, func(w *xw.Writer, ps []string) error {
		return w.Write(xw.Elem{Prefix: "p", Name: "a", URI: ps[0]})
	}},
	{"attruri", false, `<a p:b="" xmlns:p="`, `"/>`, func(w *xw.Writer, ps []string) error {
		return w.Write(xw.Elem{Name: "a", Attrs: []xw.Attr{{Prefix: "p", Name: "b", URI: ps[0]}}})
	}},
	{"default", false, `<!ATTLIST a b CDATA "`, `">`, func(w *xw.Writer, ps []string) error {
		return w.Write(xw.DTDAttList{Name: "a", Attrs: []xw.DTDAttr{{Name: "b", Type: "CDATA", Default: xw.DTDAttrDefault, Value: ps[0]}}})
	}},
}

type escLine struct {
	ID   int      `json:"id"`
	Mode string   `json:"mode"` // sweep, some
	At   string   `json:"at"`
	Text bool     `json:"text"`
	B    S        `json:"b"` // what surrounds the string
	A    S        `json:"a"`
	Pre  S        `json:"pre"`
	Post S        `json:"post"`
	Same [][2]int `json:"same"` // sweep: code points that came out as they are
	Ex   []escOne `json:"ex"`   // the others; some: all
	N    int      `json:"n"`
}

type escOne struct {
	P   []S  `json:"p"` // the parts
	Out S    `json:"o"`
	Err bool `json:"e"`
}

// escRun holds a writer whose output is taken after each string.
type escRun struct {
	buf  bytes.Buffer
	w    *xw.Writer
	p    escPlace
	size int
}

func newEscRun(p escPlace, size int) *escRun {
	r := &escRun{p: p}
	r.open(size)
	return r
}

func (r *escRun) open(size int) {
	r.size = size
	r.w = xw.Open(&r.buf, func(w *xw.Writer) {
		if size > 0 {
			w.InitialBufSize = size
		}
	})
}

func (r *escRun) one(parts []string) (out string, bad bool) {
	defer func() {
		if recover() != nil {
			bad = true
		}
	}()
	r.buf.Reset()
	err := r.p.put(r.w, parts)
	if ferr := r.w.Flush(); err == nil {
		err = ferr
	}
	if err != nil {
		r.open(r.size)
	}
	return r.buf.String(), err != nil
}

func escSweep(p escPlace, pre, post string, surr bool) *escLine {
	l := &escLine{Mode: "sweep", At: p.name, Text: p.text, B: S(p.pre), A: S(p.post), Pre: S(pre), Post: S(post), Same: [][2]int{}, Ex: []escOne{}}
	run := newEscRun(p, 0)
	start := -1
	for c := rune(0); c <= 0x110000; c++ {
		same := false
		if c <= 0x10FFFF && (surr || !(c >= 0xD800 && c <= 0xDFFF)) {
			mid := string(c)
			if c >= 0xD800 && c <= 0xDFFF {
				mid = string([]byte{0xED, byte(0x80 | c>>6&0x3F), byte(0x80 | c&0x3F)})
			}
			s := pre + mid + post
			out, bad := run.one([]string{s})
			l.N++
			same = !bad && out == p.pre+s+p.post
			if !same && (len(l.Ex) < 3000 || c%997 == 0) {
				l.Ex = append(l.Ex, escOne{[]S{S(s)}, S(out), bad})
			}
		}
		if same && start < 0 {
			start = int(c)
		} else if !same && start >= 0 {
			l.Same = append(l.Same, [2]int{start, int(c) - 1})
			start = -1
		}
	}
	return l
}

// escSome runs whole strings, or strings in parts where the place takes parts.
func escSome(p escPlace, strs [][]string, size int) *escLine {
	l := &escLine{Mode: "some", At: p.name, Text: p.text, B: S(p.pre), A: S(p.post), Same: [][2]int{}, Ex: []escOne{}}
	run := newEscRun(p, size)
	for _, ps := range strs {
		if !p.text && len(ps) > 1 {
			ps = []string{strings.Join(ps, "")}
		}
		if strings.HasSuffix(p.name, "uri") && ps[0] == "" {
			continue // no URI at all
		}
		out, bad := run.one(ps)
		var q []S
		for _, x := range ps {
			q = append(q, S(x))
		}
		l.Ex = append(l.Ex, escOne{q, S(out), bad})
		l.N++
	}
	return l
}

var escSpecial = []string{"<", ">", "&", "\"", "'", "\t", "\n", "\r", "\r\n", "]]>", "&amp;", "&#13;", "\x00", "\x0b", "\x1f", "\x7f", "\u0080", "\u0085",
	"\u2028", "\ufffd", "\ufffe", "\uffff", "\U00010000", "\U0010ffff", "\U0001fffe", "\x80", "\xc3", "\xe2\x82", "\xf0\x9f\x98", "\xed\xa0\x80", "\xff"}

func escString(r *rand.Rand) string {
	var b []byte
	filler := []string{"a", "xyz", "\u00e9", "\u4e2d", "\U0001F600", " ", "~!", "0"}[r.Intn(8)]
	n := r.Intn(12)
	if r.Intn(3) == 0 {
		n = r.Intn(200)
	}
	if r.Intn(12) == 0 { // around the sizes of buffers
		n = []int{512, 1024, 2048, 4096}[r.Intn(4)]/len(filler) - 12 + r.Intn(24)
	}
	p := []float64{0, 0.02, 0.1, 0.5, 0.95}[r.Intn(5)]
	if n > 300 {
		p = 3 / float64(n)
	}
	for i := 0; i < n; i++ {
		switch {
		case r.Float64() >= p:
			b = append(b, filler...)
		case r.Intn(10) == 0:
			b = utf8.AppendRune(b, rune(r.Intn(0x110000)))
		case r.Intn(10) == 0:
			b = append(b, byte(r.Intn(256)))
		default:
			b = append(b, escSpecial[r.Intn(len(escSpecial))]...)
		}
	}
	if r.Intn(3) == 0 {
		b = append(b, escSpecial[r.Intn(len(escSpecial))]...)
	}
	return string(b)
}

func splitAny(r *rand.Rand, s string) []string {
	var ps []string
	for len(s) > 0 && len(ps) < 5 && r.Intn(3) > 0 {
		k := r.Intn(len(s) + 1)
		ps = append(ps, s[:k])
		s = s[k:]
	}
	return append(ps, s)
}

func cmdEscape(args []string) {
	fs := flag.NewFlagSet("escape", flag.ExitOnError)
	seed := fs.Int64("seed", 1, "")
	n := fs.Int("n", 100, "random strings per place")
	path := fs.String("o", "", "")
	strs := fs.String("strings", "", "file of strings to run in every place")
	sweeps := fs.Int("sweeps", 0, "surroundings to sweep in every place")
	fs.Parse(args)
	o := create(*path)
	surr := [][2]string{{"", ""}, {"a", "b"}, {"\u00e9", "\u4e2d"}, {"ab c", ""}, {"", "x y\u00e9"}, {strings.Repeat("v", 63), "w"},
		{strings.Repeat("v", 2039), "w"}, {strings.Repeat("\u00e9", 1020), "a"}, {strings.Repeat("z", 4090), "end"}, {"a~", strings.Repeat("q", 2048)}}
	var jobs []func() *escLine
	for i, p := range escPlaces {
		for k := 0; k < *sweeps && k < len(surr); k++ {
			// the short ones first, then others by place and seed
			sr := surr[k]
			if k >= 2 {
				sr = surr[2+(k-2+i+int(*seed))%(len(surr)-2)]
			}
			jobs = append(jobs, func() *escLine { return escSweep(p, sr[0], sr[1], k == 0) })
		}
	}
	if *strs != "" {
		f, err := os.Open(*strs)
		must(err)
		var all [][]string
		sc := bufio.NewScanner(f)
		for sc.Scan() {
			var s S
			must(json.Unmarshal(sc.Bytes(), &s))
			all = append(all, []string{string(s)})
		}
		must(sc.Err())
		for _, p := range escPlaces {
			for a := 0; a < len(all); a += 500 {
				part := all[a:min(a+500, len(all))]
				jobs = append(jobs, func() *escLine { return escSome(p, part, 0) })
			}
		}
	}
	// what is special at every offset near the start, and some way off
	var offs []int
	for i := 0; i < 19; i++ {
		offs = append(offs, i)
	}
	for i, p := range escPlaces {
		for k, off := range append(offs, 23, 24, 31, 32, 33, 63, 64, 65) {
			jobs = append(jobs, func() *escLine {
				var ss [][]string
				for m, x := range escSpecial {
					fill := []string{"a", "a", "\u00e9", "Z"}[(i+k+m+int(*seed))%4]
					ss = append(ss, []string{strings.Repeat(fill, off) + x + strings.Repeat("b", []int{0, 1, 7, 8, 20}[(i+k+2*m)%5])})
				}
				return escSome(p, ss, 0)
			})
		}
	}
	for i, p := range escPlaces {
		jobs = append(jobs, func() *escLine {
			k := (i + int(*seed)) % len(escSpecial)
			return escSome(p, [][]string{{strings.Repeat("l", 65536-i+k) + escSpecial[k] + strings.Repeat("m", 8200) + escSpecial[(k+9)%len(escSpecial)] + "."}}, 0)
		})
		// characters of more than one byte that lie across every power of two
		jobs = append(jobs, func() *escLine {
			return escSome(p, [][]string{{"v" + strings.Repeat("\u00e9", 33000)}, {strings.Repeat("\u4e2d", 22000)},
				{strings.Repeat("w", 1+(i+int(*seed))%3) + strings.Repeat("\U0001F600", 16500) + "&\U0001F600"}}, 0)
		})
		for a := 0; a < *n; a += 25 {
			jobs = append(jobs, func() *escLine {
				r := rand.New(rand.NewSource(*seed*1000003 + int64(i*100000+a)))
				var ss [][]string
				for k := 0; k < 25; k++ {
					ss = append(ss, splitAny(r, escString(r)))
				}
				return escSome(p, ss, []int{0, 16, 33, 64, 100, 512}[r.Intn(6)])
			})
		}
	}
	lines := make([]*escLine, len(jobs))
	var wg sync.WaitGroup
	var next int64 = -1
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := atomic.AddInt64(&next, 1); i < int64(len(jobs)); i = atomic.AddInt64(&next, 1) {
				lines[i] = jobs[i]()
			}
		}()
	}
	wg.Wait()
	tried := 0
	for i, l := range lines {
		l.ID = i + 1
		tried += l.N
		b, err := json.Marshal(l)
		must(err)
		o.line(b)
	}
	o.close()
	fmt.Printf("{\"lines\":%d,\"strings\":%d}\n", len(lines), tried)
}
