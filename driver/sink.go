package main

// C09 and C10: the same history with other buffer sizes, flushes and sinks.

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"flag"
	"fmt"
	"io"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"syscall"
	"unicode/utf8"
)

func init() { commands["sink"] = cmdSink }

var errSink = errors.New("the sink failed")

// faultSink takes limit bytes and fails when given more.
type faultSink struct {
	b     []byte
	limit int    // -1: never fails
	mode  string // part: takes what fits; whole: takes nothing of the write; short: like part, reporting a short write
	once  bool   // takes everything again after having failed
	err   error  // what it fails with
	form  string // what else it is besides an io.Writer
	hits  int
}

// Errors a writer might be tempted to take for something else than a failure.
var sinkErrors = []error{errSink, errSink, errSink, io.EOF, io.ErrClosedPipe, io.ErrUnexpectedEOF, io.ErrNoProgress,
	os.ErrDeadlineExceeded, os.ErrClosed, syscall.EAGAIN, syscall.EINTR, syscall.EPIPE, context.Canceled, bufio.ErrBufferFull,
	temporary{}, &os.PathError{Op: "write", Path: "x", Err: syscall.EINTR}, fmt.Errorf("wrapped: %w", temporary{})}

type temporary struct{}

func (temporary) Error() string   { return "try again" }
func (temporary) Temporary() bool { return true }
func (temporary) Timeout() bool   { return true }

// Sinks that are more than an io.Writer: what else they can do must not matter.
type stringSink struct{ *faultSink }

func (s stringSink) WriteString(x string) (int, error) { return s.Write([]byte(x)) }

type fullSink struct{ stringSink }

func (s fullSink) WriteByte(c byte) error {
	_, err := s.Write([]byte{c})
	return err
}
func (s fullSink) WriteRune(r rune) (int, error) { return s.WriteString(string(r)) }
func (s fullSink) ReadFrom(r io.Reader) (int64, error) {
	b, err := io.ReadAll(r)
	if err != nil {
		return 0, err
	}
	n, err := s.Write(b)
	return int64(n), err
}
func (s fullSink) Flush() error   { return nil }
func (s fullSink) Sync() error    { return nil }
func (s fullSink) Close() error   { return nil }
func (s fullSink) Available() int { return 4096 }
func (s fullSink) Buffered() int  { return 0 }
func (s fullSink) Size() int      { return 4096 }

var sinkForms = []string{"", "", "", "string", "full", "bytes", "builder", "bufio"}

// as gives the sink in its form, and how much it has been given and what.
func (f *faultSink) as() (w io.Writer, given func() int, all func() []byte) {
	given, all = func() int { return len(f.b) }, func() []byte { return f.b }
	switch f.form {
	case "string":
		return stringSink{f}, given, all
	case "full":
		return fullSink{stringSink{f}}, given, all
	case "bytes":
		b := &bytes.Buffer{}
		return b, b.Len, b.Bytes
	case "builder":
		b := &strings.Builder{}
		return b, b.Len, func() []byte { return []byte(b.String()) }
	case "bufio":
		b := bufio.NewWriterSize(f, 64)
		return b, func() int { return len(f.b) + b.Buffered() }, func() []byte { b.Flush(); return f.b }
	}
	return f, given, all
}

func (f *faultSink) Write(p []byte) (int, error) {
	if f.limit < 0 || (f.once && f.hits > 0) || len(f.b)+len(p) <= f.limit {
		f.b = append(f.b, p...)
		return len(p), nil
	}
	f.hits++
	n := 0
	if f.mode != "whole" {
		n = f.limit - len(f.b)
		if n < 0 {
			n = 0
		}
		f.b = append(f.b, p[:n]...)
	}
	if f.mode == "short" {
		return n, io.ErrShortWrite
	}
	return n, f.err
}

func (f *faultSink) own(err error) bool {
	if f.mode == "short" {
		return errors.Is(err, io.ErrShortWrite)
	}
	return errors.Is(err, f.err)
}

type sinkStep struct {
	at            int
	err, own, hit bool
	acc, dep      int
	pan           bool
}

func appendBytes(b, p []byte) []byte {
	b = append(b, '[')
	for i, c := range p {
		if i > 0 {
			b = append(b, ',')
		}
		b = strconv.AppendInt(b, int64(c), 10)
	}
	return append(b, ']')
}

// sinkRun runs ops; plan says after which of them to flush as well.
func sinkRun(c Cfg, ops []Op, plan func(i int) bool, f *faultSink) (out []sinkStep, got []byte) {
	w, given, all := f.as()
	r := newRun(c, w)
	defer func() { got = all() }()
	flush := Op{O: "flush"}
	do := func(at int, op Op) {
		h := f.hits
		rec, err := r.do(op)
		out = append(out, sinkStep{at, rec.Err, rec.Err && f.own(err), f.hits > h, given(), rec.Dep, rec.Pan})
	}
	for i, op := range ops {
		do(i+1, op)
		if r.dead {
			return
		}
		if plan(i) {
			do(0, flush)
		}
		if r.dead {
			return
		}
	}
	return
}

var never = func(int) bool { return false }

func validRaw(ns []Node) bool {
	for _, n := range ns {
		if n.K == "raw" && !utf8.ValidString(string(n.S)) {
			return false
		}
	}
	return true
}

func cmdSink(args []string) {
	fs := flag.NewFlagSet("sink", flag.ExitOnError)
	prof := fs.String("profile", "sink", "")
	seed := fs.Int64("seed", 1, "")
	count := fs.Int("n", 100, "")
	faults := fs.Int("faults", 0, "how many fault positions at most (0: healthy sinks)")
	encs := fs.Bool("encodings", false, "with encoders as well")
	path := fs.String("o", "", "")
	fs.Parse(args)
	o := create(*path)
	nruns, steps := 0, 0
	for i := 0; i < *count; i++ {
		g := newGen(profiles[*prof], *seed*1000003+int64(i))
		rnd := rand.New(rand.NewSource(*seed*104729 + int64(i)))
		t := g.trace()
		c := t.Cfg
		c.Rec, c.Fail = false, 0
		if *encs {
			c.Coder = []string{"", "", "iso-8859-1", "windows-1252", "utf-16be", "utf-16le"}[rnd.Intn(6)]
		}
		var ops []Op
		for _, e := range t.Ev {
			if c.Coder != "" && !validRaw(e.Op.Ns) {
				continue
			}
			ops = append(ops, e.Op)
		}
		// what always reaches the sink
		raw := func(s S) Op { return Op{O: "write", Ns: []Node{{K: "raw", S: s}}, Via: rnd.Intn(2)} }
		none := func() Op {
			return Op{O: "write", Ns: []Node{{K: []string{"raw", "text", "ccontent", "cdcontent"}[rnd.Intn(4)]}}, Via: rnd.Intn(2)}
		}
		for j := len(ops); j > 0; j-- {
			if rnd.Intn(20) == 0 { // a call that writes nothing, anywhere
				ops = append(ops[:j:j], append([]Op{none()}, ops[j:]...)...)
			}
		}
		ops = append(ops, raw("x"), Op{O: "flush"}, raw("yz"), raw(""), raw("w"), none(), Op{O: "endallflush"}, raw(""), none())
		if c.Coder == "" {
			ops = append(ops, raw("\n"))
		}
		ops = append(ops, Op{O: "flush"})

		b := []byte(fmt.Sprintf(`{"id":%d,"cfg":%s,"enc":%v,"base":[`, i+1, jsonLine(c), c.Coder != ""))
		c.Buf = 0
		r := newRun(c, &memSink{})
		var all []byte
		for j, op := range ops {
			rec, _ := r.step(op)
			if j > 0 {
				b = append(b, ',')
			}
			k := op.O
			if k == "write" && len(op.Ns) == 1 && op.Ns[0].K == "raw" {
				k = "raw"
			}
			writes := len(op.Ns) > 0 || op.N != nil
			b = append(b, fmt.Sprintf(`{"o":"%s","err":%v,"n":%d,"dep":%d,"w":%v}`, k, rec.Err, len(rec.Out), rec.Dep, writes)...)
			all = append(all, rec.Out...)
			if r.dead {
				panic("the history panics")
			}
		}
		b = append(b, `],"out":`...)
		if c.Coder == "" {
			b = S(all).appendJSON(b)
		} else {
			b = append(b, "[]"...)
		}
		b = append(b, `,"ref":`...)
		b = appendBytes(b, all)
		b = append(b, `,"runs":[`...)
		n := 0
		add := func(buf int, plan func(int) bool, f *faultSink) {
			c.Buf = buf
			st, got := sinkRun(c, ops, plan, f)
			if n > 0 {
				b = append(b, ',')
			}
			n++
			b = append(b, fmt.Sprintf(`{"buf":%d,"limit":%d,"whole":%v,"mode":"%s%s","st":[`, buf, f.limit, f.mode == "whole", f.mode, map[bool]string{true: " once"}[f.once])...)
			for j, s := range st {
				if j > 0 {
					b = append(b, ',')
				}
				b = append(b, fmt.Sprintf(`{"at":%d,"err":%v,"own":%v,"hit":%v,"acc":%d,"dep":%d,"pan":%v}`, s.at, s.err, s.own, s.hit, s.acc, s.dep, s.pan)...)
			}
			b = append(b, `],"got":`...)
			b = appendBytes(b, got)
			b = append(b, '}')
			steps += len(st)
		}
		bufs := []int{1, 2, 3, 5, 7, 8, 16, 17, 31, 64, 100, 4096, 0, -1}
		if *faults == 0 {
			for k := 0; k < 8; k++ {
				plan := never
				switch rnd.Intn(3) {
				case 1:
					p := 0.1 + 0.4*rnd.Float64()
					marks := make([]bool, len(ops))
					for j := range marks {
						marks[j] = rnd.Float64() < p
					}
					plan = func(i int) bool { return marks[i] }
				case 2:
					one := rnd.Intn(len(ops))
					plan = func(i int) bool { return i == one }
				}
				buf := bufs[rnd.Intn(len(bufs))]
				if rnd.Intn(4) == 0 {
					buf = 1 + rnd.Intn(len(all)+2)
				}
				add(buf, plan, &faultSink{limit: -1, form: sinkForms[rnd.Intn(len(sinkForms))]})
			}
		} else {
			modes := []string{"part", "whole", "short"}
			if c.Coder != "" {
				modes = modes[:2]
			}
			every := 1
			if len(all) > *faults {
				every = len(all) / *faults
			}
			for p := rnd.Intn(every); p < len(all); p += every {
				plan := never
				if rnd.Intn(3) == 0 {
					q := rnd.Float64() * 0.5
					plan = func(int) bool { return rnd.Float64() < q }
				}
				// mostly buffers that make the sink fail in the middle of a call
				add(bufs[rnd.Intn(len(bufs))], plan, &faultSink{limit: p, mode: modes[rnd.Intn(len(modes))], once: rnd.Intn(2) == 0,
					err: sinkErrors[rnd.Intn(len(sinkErrors))], form: sinkForms[rnd.Intn(5)]})
			}
		}
		nruns += n
		o.line(append(b, "]}"...))
	}
	o.close()
	fmt.Printf("{\"histories\":%d,\"runs\":%d,\"steps\":%d}\n", *count, nruns, steps)
}
