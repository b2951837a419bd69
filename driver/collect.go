package main

// C18: the error collector, used from several places.

import (
	"bufio"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"io"
	"math/rand"
	"os"
	"regexp"
	"runtime"
	"strconv"
	"strings"

	xw "github.com/shabbyrobe/xmlwriter"
)

func init() { commands["collect"] = cmdCollect }

type errOp struct {
	O    string `json:"o"`
	List []int  `json:"list"`
	Site int    `json:"site"`
}

type errState struct {
	Err  int `json:"err"`
	Idx  int `json:"idx"`
	Site int `json:"site"`
}

type errRec struct {
	errOp
	St  errState `json:"st"`
	Res []int    `json:"res"`
	Pan bool     `json:"pan"`
}

type errTrace struct {
	ID int      `json:"id"`
	Ev []errRec `json:"ev"`
}

type ptrErr struct{ n int }

func (p *ptrErr) Error() string {
	if p == nil {
		return "error <typed nil>"
	}
	return fmt.Sprintf("error <%d>", p.n)
}

type valErr struct{ n int }

func (v valErr) Error() string { return fmt.Sprintf("error <%d>", v.n) }

// the errors used; 0 is nil
var someErrs = []error{nil, errors.New("error <1>"), &ptrErr{2}, valErr{3}, (*ptrErr)(nil), &xw.ErrCollector{File: "x", Line: 1, Index: 1, Err: errors.New("error <5>")}, errors.New("error <6>"),
	sliceErr{"error <7>"}, io.EOF, errors.Join(errors.New("error <9>")), &xw.ErrCollector{}, fmt.Errorf("error <11>: %w", io.ErrUnexpectedEOF), temporary{}, os.ErrDeadlineExceeded, errors.New("")}

// the error without a message
const silent = 14

// an error that cannot be compared
type sliceErr []string

const uncomparable = 7

func (s sliceErr) Error() string { return s[0] }

type place struct {
	file string
	line int
}

var sites = map[place]int{}

func at(n int, file string, line int) {
	p := place{file, line}
	if m, ok := sites[p]; ok && m != n {
		panic("two sites in one place")
	}
	sites[p] = n
}

// here is called in the arguments of the call it marks.
func here(n int, list []error) []error {
	_, file, line, _ := runtime.Caller(1)
	at(n, file, line)
	return list
}

func (r *errRun) site(n int, must bool, list []error) {
	e := r.e
	switch {
	case n == 1 && !must:
		e.Do(here(1, list)...)
	case n == 1:
		e.Must(here(1, list)...)
	case n == 2 && !must:
		func() { e.Do(here(2, list)...) }()
	case n == 2:
		func() { e.Must(here(2, list)...) }()
	case n == 3:
		otherSite(e, must, list)
	case n == 4:
		genericSite(e, must, list)
	default:
		panic("no such site")
	}
}

//go:noinline
func genericSite[E interface {
	Do(...error)
	Must(...error)
}](e E, must bool, list []error) {
	if must {
		e.Must(here(4, list)...)
	} else {
		e.Do(here(4, list)...)
	}
}

type errRun struct{ e *xw.ErrCollector }

func number(err error) int {
	_, slice := err.(sliceErr)
	for i, x := range someErrs {
		if (i == uncomparable && slice) || (i != uncomparable && !slice && err == x) {
			return i
		}
	}
	return -1
}

func (r *errRun) state() errState {
	s := errState{number(r.e.Err), r.e.Index, 0}
	if n, ok := sites[place{r.e.File, r.e.Line}]; ok {
		s.Site = n
	} else if r.e.File != "" || r.e.Line != 0 {
		s.Site = -1
	}
	return s
}

func (r *errRun) do(op errOp) (rec errRec) {
	rec.errOp = op
	rec.Res = []int{}
	self := func(x any) {
		if x == any(r.e) {
			rec.Res = []int{1}
		} else {
			rec.Pan = true
		}
	}
	defer func() {
		if x := recover(); x != nil {
			if op.O == "must" || op.O == "panic" {
				self(x)
			} else {
				rec.Pan = true
			}
		}
		rec.St = r.state()
	}()
	var list []error
	for _, n := range op.List {
		list = append(list, someErrs[n])
	}
	switch op.O {
	case "do":
		r.site(op.Site, false, list)
	case "must":
		r.site(op.Site, true, list)
	case "set":
		v := someErrs[op.List[0]]
		r.e.Set(&v)
		if c, ok := v.(*xw.ErrCollector); ok && c == r.e {
			rec.Res = []int{1}
		} else {
			rec.Res = []int{0, number(v)}
		}
	case "panic":
		r.e.Panic()
	case "unwrap":
		rec.Res = []int{number(errors.Unwrap(r.e))}
	case "is":
		rec.Res = []int{0}
		if t := someErrs[op.List[0]]; t != nil && errors.Is(r.e, t) {
			rec.Res = []int{1}
		}
	case "error":
		if text := r.e.Error(); r.e.Err != nil {
			rec.Res = told(text)
		}
	}
	return rec
}

var indexRx = regexp.MustCompile(` #(\d+) `)

// told reads back what the text of the error says.
func told(text string) []int {
	res := []int{-1, -1, -1}
	for p, n := range sites {
		if strings.Contains(text, fmt.Sprintf("%s:%d ", p.file, p.line)) {
			res[0] = n
		}
	}
	if m := indexRx.FindStringSubmatch(text); m != nil {
		res[1], _ = strconv.Atoi(m[1])
	}
	for i, e := range someErrs {
		if i > 0 && i != silent && strings.Contains(text, fmt.Sprint(e)) {
			res[2] = i
		}
	}
	if res[2] < 0 {
		res[2] = silent // told apart by what is not said
	}
	return res
}

func cmdCollect(args []string) {
	fs := flag.NewFlagSet("collect", flag.ExitOnError)
	seed := fs.Int64("seed", 1, "")
	n := fs.Int("n", 100, "")
	in := fs.String("histories", "", "")
	path := fs.String("o", "", "")
	fs.Parse(args)
	o := create(*path)
	id, calls := 0, 0
	run := func(ops []errOp) {
		id++
		r := &errRun{&xw.ErrCollector{}}
		t := errTrace{ID: id}
		for _, op := range ops {
			if op.List == nil {
				op.List = []int{}
			}
			t.Ev = append(t.Ev, r.do(op))
		}
		calls += len(ops)
		b, err := json.Marshal(t)
		must(err)
		o.line(b)
	}
	if *in != "" {
		f, err := os.Open(*in)
		must(err)
		sc := bufio.NewScanner(f)
		for sc.Scan() {
			var ops []errOp
			must(json.Unmarshal(sc.Bytes(), &ops))
			run(ops)
		}
		must(sc.Err())
	}
	kinds := []string{"do", "do", "do", "must", "set", "panic", "unwrap", "is", "error"}
	for i := 0; i < *n; i++ {
		r := rand.New(rand.NewSource(*seed*1000003 + int64(i)))
		var ops []errOp
		p := []float64{0.02, 0.1, 0.4, 0.9}[r.Intn(4)]
		for k := 1 + r.Intn(20); k > 0; k-- {
			op := errOp{O: kinds[r.Intn(len(kinds))], Site: 1 + r.Intn(4)}
			switch op.O {
			case "do", "must":
				m := r.Intn(6)
				if r.Intn(10) == 0 {
					m = r.Intn(70)
				}
				if r.Intn(30) == 0 {
					m = 250 + r.Intn(300)
				}
				if r.Intn(1500) == 0 {
					m = 65530 + r.Intn(300)
				}
				for j := 0; j < m; j++ {
					e := 0
					if m > 70 && j < m*(1+r.Intn(9))/10 {
						// late in a long list
					} else if r.Float64() < p {
						e = 1 + r.Intn(len(someErrs)-1)
					}
					op.List = append(op.List, e)
				}
			case "set", "is":
				op.List = []int{r.Intn(len(someErrs))}
				if op.O == "is" && op.List[0] == uncomparable {
					op.List[0] = 1
				}
			}
			ops = append(ops, op)
		}
		run(ops)
	}
	o.close()
	fmt.Printf("{\"histories\":%d,\"calls\":%d}\n", id, calls)
}
