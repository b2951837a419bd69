package main

import (
	"bufio"
	"flag"
	"fmt"
	"os"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: driver <command> ...")
		os.Exit(2)
	}
	cmd, args := os.Args[1], os.Args[2:]
	f, ok := commands[cmd]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown command", cmd)
		os.Exit(2)
	}
	go watch()
	f(args)
}

var commands = map[string]func([]string){
	"gen": cmdGen,
}

// out is a buffered line file.
type out struct {
	f *os.File
	w *bufio.Writer
}

func create(path string) *out {
	f, err := os.Create(path)
	must(err)
	return &out{f, bufio.NewWriterSize(f, 1<<20)}
}

func (o *out) line(b []byte) {
	o.w.Write(b)
	o.w.WriteByte('\n')
}

func (o *out) close() {
	must(o.w.Flush())
	must(o.f.Close())
}

func cmdGen(args []string) {
	fs := flag.NewFlagSet("gen", flag.ExitOnError)
	prof := fs.String("profile", "any", "")
	seed := fs.Int64("seed", 1, "")
	count := fs.Int("n", 100, "")
	path := fs.String("o", "", "")
	step := fs.Bool("step", false, "")
	evs := fs.Bool("evs", false, "")
	wf := fs.Bool("wf", false, "")
	tree := fs.Bool("tree", false, "")
	fs.Parse(args)
	p, ok := profiles[*prof]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown profile")
		os.Exit(2)
	}
	o := create(*path)
	steps := 0
	for i := 0; i < *count; i++ {
		t := newGen(p, *seed*1000003+int64(i)).trace()
		t.ID = i + 1
		t.J = Judge{*step, *evs, *wf, *tree}
		steps += len(t.Ev)
		o.line(t.appendJSON(nil))
	}
	o.close()
	fmt.Printf("{\"traces\":%d,\"steps\":%d}\n", *count, steps)
}
