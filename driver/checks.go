package main

// The exported check functions (C19): sweeps over all code points in fixed
// surroundings, over bytes that are not UTF-8, and random strings.

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"unicode/utf8"

	xw "github.com/shabbyrobe/xmlwriter"
)

func init() { commands["checks"] = cmdChecks }

var checkFns = []struct {
	name string
	f    func(string) error
}{
	{"name", xw.CheckName},
	{"chars", func(s string) error { return xw.CheckChars(s, false) }},
	{"strict", func(s string) error { return xw.CheckChars(s, true) }},
	{"enc", xw.CheckEncoding},
	{"pubid", xw.CheckPubID},
}

// accepted guards against panics: a panic is neither accepted nor refused.
func accepted(f func(string) error, s string) (ok, pan bool) {
	defer func() {
		if recover() != nil {
			ok, pan = false, true
		}
	}()
	return f(s) == nil, false
}

type checkLine struct {
	ID   int      `json:"id"`
	Mode string   `json:"mode"` // sweep, bad, one
	Top  int      `json:"top"`  // sweep: up to this code point
	F    string   `json:"f"`
	Pre  S        `json:"pre"`
	Post S        `json:"post"`
	IV   [][2]int `json:"iv"`  // sweep: accepted code points
	Acc  []S      `json:"acc"` // bad: accepted strings (the first few)
	N    int      `json:"n"`   // strings tried
	S    S        `json:"s"`   // one
	OK   bool     `json:"ok"`
	Pan  bool     `json:"pan"`
}

// invalid lists strings that are not UTF-8.
func invalid() []string {
	var res []string
	for a := 0x80; a < 0x100; a++ {
		res = append(res, string([]byte{byte(a)}))
		for b := 0; b < 0x100; b++ {
			s := string([]byte{byte(a), byte(b)})
			if !utf8.ValidString(s) {
				res = append(res, s)
			}
			if b >= 0x80 {
				res = append(res, string([]byte{'a', byte(a)})+"b"+string([]byte{byte(b)}))
			}
		}
	}
	edge := []byte{0x00, 0x3F, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBD, 0xBF, 0xC0, 0xEF, 0xFF}
	for _, a := range []byte{0xC0, 0xC1, 0xE0, 0xE1, 0xED, 0xEF, 0xF0, 0xF1, 0xF4, 0xF5, 0xF8, 0xFE} {
		for _, b := range edge {
			for _, c := range edge {
				s := string([]byte{a, b, c})
				if !utf8.ValidString(s) {
					res = append(res, s)
				}
				for _, d := range edge {
					s := string([]byte{a, b, c, d})
					if !utf8.ValidString(s) {
						res = append(res, s)
					}
				}
			}
		}
	}
	for r := 0xD800; r <= 0xDFFF; r++ { // surrogates, encoded on their own
		res = append(res, string([]byte{0xED, byte(0x80 | r>>6&0x3F), byte(0x80 | r&0x3F)}))
	}
	return res
}

var checkSurroundings = [][2]string{
	{"", ""}, {"a", ""}, {"", "a"}, {"a", "b"}, {"aB", "c9"}, {"A1-._", ""}, {"\u00e9", "\u00e9"}, {"", "\u4e2d"},
	{strings.Repeat("x", 70), strings.Repeat("y", 40)}, {strings.Repeat("Long-name.", 60), ""}, {"", strings.Repeat("z", 600)},
	{"-", ""}, {"", "!"}, {"a b", "c"}, {"9", ""}, {" ", " "}, {"\u20ac", ""}, {"", "\u0085"}, {"\u0080", ""}, {"\ufffd", "\ufffd"},
	{"\U0001F600", ""}, {"a", "\x00"}, {"\x01", ""}, {"\xff", ""}, {"", "\xc3"}, {"a\xe2\x82", "\xac"},
}

func cmdChecks(args []string) {
	fs := flag.NewFlagSet("checks", flag.ExitOnError)
	seed := fs.Int64("seed", 1, "")
	n := fs.Int("n", 1000, "random strings")
	path := fs.String("o", "", "")
	short := fs.Bool("short", false, "fewer surroundings")
	fs.Parse(args)
	o := create(*path)
	id, tried := 0, 0
	emit := func(l *checkLine) {
		id++
		l.ID = id
		if l.IV == nil {
			l.IV = [][2]int{}
		}
		if l.Acc == nil {
			l.Acc = []S{}
		}
		tried += l.N
		b, err := json.Marshal(l)
		must(err)
		o.line(b)
	}
	bad := invalid()
	var jobs []func() *checkLine
	for _, c := range checkFns {
		for i, sr := range checkSurroundings {
			if *short && len(sr[0])+len(sr[1]) > 500 && (i+int(*seed))%2 == 0 {
				continue
			}
			jobs = append(jobs, func() *checkLine { return sweep(c.name, c.f, sr[0], sr[1], 0x10FFFF) })
		}
		// the low code points at every offset near the start and some way off
		for _, fill := range []string{"a", "\u00e9", "\u4e2d"} {
			if fill != "a" && (c.name == "enc" || c.name == "pubid") {
				continue
			}
			n := 18
			if fill != "a" {
				n = 9
			}
			for i := 0; i < n; i++ {
				for j := 0; j < n; j++ {
					jobs = append(jobs, func() *checkLine {
						return sweep(c.name, c.f, strings.Repeat(fill, i), strings.Repeat(fill, j), 0x2FF)
					})
				}
			}
			for _, i := range []int{23, 24, 25, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024} {
				for _, j := range []int{0, 1, 7, 8} {
					jobs = append(jobs, func() *checkLine {
						return sweep(c.name, c.f, strings.Repeat(fill, i), strings.Repeat(fill, j), 0x2FF)
					})
				}
			}
		}
		for _, sr := range checkSurroundings[:9] {
			jobs = append(jobs, func() *checkLine { return tryBad(c.name, c.f, sr[0], sr[1], bad) })
		}
	}
	// what is accepted does not depend on how long a string is
	for _, c := range checkFns {
		for k, n := range []int{4094, 8191, 32766, 65533, 65534, 65535, 65536, 70001} {
			pre, post := strings.Repeat("a", n), strings.Repeat("b", k%3)
			if k%2 == 1 {
				pre, post = post, pre
			}
			jobs = append(jobs, func() *checkLine { return sweep(c.name, c.f, pre, post, 0xFF) })
		}
	}
	lines := make([]*checkLine, len(jobs))
	var wg sync.WaitGroup
	var next int64 = -1
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := atomic.AddInt64(&next, 1); i < int64(len(jobs)); i = atomic.AddInt64(&next, 1) {
				lines[i] = jobs[i]()
			}
		}()
	}
	wg.Wait()
	for _, l := range lines {
		emit(l)
	}
	r := rand.New(rand.NewSource(*seed))
	for i := 0; i < *n; i++ {
		s := checkString(r)
		for _, c := range checkFns {
			l := &checkLine{Mode: "one", F: c.name, S: S(s), N: 1}
			l.OK, l.Pan = accepted(c.f, s)
			emit(l)
		}
	}
	o.close()
	fmt.Printf("{\"lines\":%d,\"strings\":%d}\n", id, tried)
}

func sweep(name string, f func(string) error, pre, post string, top rune) *checkLine {
	l := &checkLine{Mode: "sweep", F: name, Pre: S(pre), Post: S(post), Top: int(top)}
	start := -1
	for r := rune(0); r <= top+1; r++ {
		ok := false
		if r <= top && !(r >= 0xD800 && r <= 0xDFFF) {
			var p bool
			ok, p = accepted(f, pre+string(r)+post)
			l.Pan = l.Pan || p
			l.N++
		}
		if ok && start < 0 {
			start = int(r)
		} else if !ok && start >= 0 {
			l.IV = append(l.IV, [2]int{start, int(r) - 1})
			start = -1
		}
	}
	if utf8.ValidString(pre) && utf8.ValidString(post) {
		for b := 0x80; b < 0x100; b++ { // bytes that are no character
			s := pre + string([]byte{byte(b)}) + post
			ok, p := accepted(f, s)
			l.Pan = l.Pan || p
			l.N++
			if ok && len(l.Acc) < 20 {
				l.Acc = append(l.Acc, S(s))
			}
		}
	}
	if len(l.IV) > 2000 {
		l.IV = l.IV[:2000]
	}
	return l
}

func tryBad(name string, f func(string) error, pre, post string, bad []string) *checkLine {
	l := &checkLine{Mode: "bad", F: name, Pre: S(pre), Post: S(post)}
	for _, s := range bad {
		s = pre + s + post
		ok, p := accepted(f, s)
		l.N++
		l.Pan = l.Pan || p
		if ok && len(l.Acc) < 20 {
			l.Acc = append(l.Acc, S(s))
		}
	}
	return l
}

// the ends of every range in the productions, and one beyond
var checkEdges = []rune{0, 8, 9, 10, 11, 12, 13, 14, 31, 32, 33, 34, 36, 37, 38, 39, 40, 44, 45, 46, 47, 48, 57, 58, 59, 60, 61, 62, 63, 64, 65, 90, 91,
	94, 95, 96, 97, 122, 123, 126, 127, 128, 132, 133, 134, 159, 160, 182, 183, 184, 191, 192, 214, 215, 216, 246, 247, 248, 767, 768, 879, 880, 893, 894,
	895, 8191, 8192, 8203, 8204, 8205, 8206, 8254, 8255, 8256, 8257, 8303, 8304, 8591, 8592, 11263, 11264, 12271, 12272, 12288, 12289, 55295,
	57344, 63743, 63744, 64975, 64976, 65007, 65008, 65533, 65534, 65535, 65536, 65601, 131069, 131070, 131071, 131072, 196606, 196607, 196608,
	983039, 983040, 983038, 1114109, 1114110, 1114111}

func checkString(r *rand.Rand) string {
	n := r.Intn(9)
	if r.Intn(20) == 0 {
		n = r.Intn(400)
	}
	pool := r.Intn(4)
	var b []byte
	for i := 0; i < n; i++ {
		one := r.Float64() < 1.2/float64(n+1) // about one odd character in the string
		switch {
		case one && r.Intn(4) == 0:
			b = append(b, byte(128+r.Intn(128)))
		case one && r.Intn(2) == 0:
			b = utf8.AppendRune(b, checkEdges[r.Intn(len(checkEdges))])
		case one:
			b = utf8.AppendRune(b, rune(r.Intn(0x110000)))
		case pool == 0:
			b = append(b, "abcXYZ"[r.Intn(6)])
		case pool == 1:
			b = append(b, "abcXYZ019-._:"[r.Intn(13)])
		case pool == 2:
			b = append(b, "abXZ09 -'()+,./:=?;!*#@$_%\r\n"[r.Intn(28)])
		default:
			b = utf8.AppendRune(b, []rune{'a', 0xe9, 0x4e2d, 0x3b1, 0x1F600, 0x10FFFD, 0xFFFD}[r.Intn(7)])
		}
	}
	return string(b)
}
