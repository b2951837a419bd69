package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
)

func init() { commands["rerun"] = cmdRerun }

// cmdRerun makes the calls of given histories again: lines with a
// configuration and calls (anything else recorded with them is ignored).
func cmdRerun(args []string) {
	fs := flag.NewFlagSet("rerun", flag.ExitOnError)
	in := fs.String("i", "", "")
	path := fs.String("o", "", "")
	fs.Parse(args)
	f, err := os.Open(*in)
	must(err)
	defer f.Close()
	o := create(*path)
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	n := 0
	for sc.Scan() {
		l := struct {
			ID  int
			Cfg Cfg
			J   Judge
			Ev  []struct{ Op Op }
		}{Cfg: defaultCfg()}
		must(json.Unmarshal(sc.Bytes(), &l))
		var ops []Op
		for _, e := range l.Ev {
			ops = append(ops, e.Op)
		}
		t := runOps(l.Cfg, ops)
		t.ID, t.J = l.ID, l.J
		o.line(t.appendJSON(nil))
		n++
	}
	must(sc.Err())
	o.close()
	fmt.Printf("{\"traces\":%d}\n", n)
}
