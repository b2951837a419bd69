package main

// C21: attributes set from typed values.

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"math"
	"math/rand"
	"os"

	xw "github.com/shabbyrobe/xmlwriter"
)

func init() { commands["typed"] = cmdTyped }

// typedVal is a value of a machine type, as its bytes.
type typedVal struct {
	T string `json:"t"`
	B []int  `json:"b"`
}

type plainAttr struct {
	P S `json:"p"`
	U S `json:"u"`
	N S `json:"n"`
	V S `json:"v"`
}

type typedRec struct {
	typedVal
	R    plainAttr `json:"r"`    // what the setter gave
	Src  plainAttr `json:"src"`  // the attribute it was called on, afterwards
	Kept plainAttr `json:"kept"` // and before
	Doc  S         `json:"doc"`  // an element with the new attribute
	Pan  bool      `json:"pan"`
}

type typedLine struct {
	ID int        `json:"id"`
	At plainAttr  `json:"at"`
	Vs []typedRec `json:"vs"`
}

func plain(a xw.Attr) plainAttr { return plainAttr{S(a.Prefix), S(a.URI), S(a.Name), S(a.Value)} }

func (v typedVal) bits() uint64 {
	var u uint64
	for _, b := range v.B {
		u = u<<8 | uint64(b)
	}
	return u
}

func typedBytes(u uint64, n int) []int {
	b := make([]int, n)
	for i := n - 1; i >= 0; i-- {
		b[i] = int(u & 255)
		u >>= 8
	}
	return b
}

var typedWidth = map[string]int{
	"bool": 1, "int8": 1, "int16": 2, "int32": 4, "int64": 8, "int": 8,
	"uint8": 1, "uint16": 2, "uint32": 4, "uint64": 8, "uint": 8, "float32": 4, "float64": 8,
}

var typedNames = []string{"bool", "int8", "int16", "int32", "int64", "int", "uint8", "uint16", "uint32", "uint64", "uint", "float32", "float64"}

func (v typedVal) set(a xw.Attr) xw.Attr {
	u := v.bits()
	switch v.T {
	case "bool":
		return a.Bool(u == 1)
	case "int8":
		return a.Int8(int8(u))
	case "int16":
		return a.Int16(int16(u))
	case "int32":
		return a.Int32(int32(u))
	case "int64":
		return a.Int64(int64(u))
	case "int":
		return a.Int(int(u))
	case "uint8":
		return a.Uint8(uint8(u))
	case "uint16":
		return a.Uint16(uint16(u))
	case "uint32":
		return a.Uint32(uint32(u))
	case "uint64":
		return a.Uint64(u)
	case "uint":
		return a.Uint(int(u))
	case "float32":
		return a.Float32(math.Float32frombits(uint32(u)))
	case "float64":
		return a.Float64(math.Float64frombits(u))
	}
	panic("unknown type " + v.T)
}

func (v typedVal) run(a xw.Attr) (rec typedRec, res xw.Attr) {
	rec.typedVal = v
	rec.Kept = plain(a)
	defer func() {
		if recover() != nil {
			rec.Pan = true
		}
		rec.Src = plain(a)
	}()
	res = v.set(a)
	rec.R = plain(res)
	var buf bytes.Buffer
	w := xw.Open(&buf)
	err := w.WriteElem(xw.Elem{Name: "e", Attrs: []xw.Attr{res}})
	if err == nil {
		err = w.Flush()
	}
	if err == nil {
		rec.Doc = S(buf.String())
	}
	return rec, res
}

// powers of ten and their neighbours, short decimals, integers as floats
func drawTyped(r *rand.Rand) typedVal {
	t := typedNames[r.Intn(len(typedNames))]
	w := typedWidth[t]
	u := r.Uint64()
	switch t {
	case "bool":
		u &= 1
	case "float32", "float64":
		f := 0.0
		switch r.Intn(7) {
		case 0:
			f = math.Pow(10, float64(r.Intn(640)-320))
		case 1:
			fmt.Sscan(fmt.Sprintf("%de%d", r.Intn(100000), r.Intn(40)-20), &f)
		case 2:
			f = float64(int64(u) >> uint(r.Intn(64)))
		case 3:
			f = float64(r.Intn(2000000)) / []float64{3, 7, 10, 100, 1000}[r.Intn(5)]
		case 4:
			fmt.Sscan(fmt.Sprintf("%d.%de%d", r.Intn(10), r.Int63(), r.Intn(640)-330), &f)
		default:
			if t == "float32" {
				return typedVal{t, typedBytes(u&math.MaxUint32, 4)}
			}
			return typedVal{t, typedBytes(u, 8)}
		}
		if r.Intn(4) == 0 {
			f = -f
		}
		if t == "float32" {
			u = uint64(math.Float32bits(float32(f)))
			if r.Intn(3) == 0 {
				u += uint64(r.Intn(3)) - 1
			}
			u &= math.MaxUint32
		} else {
			u = math.Float64bits(f)
			if r.Intn(3) == 0 {
				u += uint64(r.Intn(3)) - 1
			}
		}
	default:
		switch r.Intn(4) {
		case 0:
			u >>= uint(r.Intn(64))
		case 1:
			u = 1
			for k := r.Intn(20); k > 0; k-- {
				u *= 10
			}
			u += uint64(r.Intn(3)) - 1
		}
		if r.Intn(3) == 0 {
			u = -u
		}
		if t == "uint" {
			u &= math.MaxInt64
		}
		if w < 8 {
			u &= 1<<(8*uint(w)) - 1
		}
	}
	return typedVal{t, typedBytes(u, w)}
}

func cmdTyped(args []string) {
	fs := flag.NewFlagSet("typed", flag.ExitOnError)
	seed := fs.Int64("seed", 1, "")
	n := fs.Int("n", 1000, "")
	full := fs.Bool("full", false, "every value of 16 bits")
	in := fs.String("values", "", "")
	take := fs.Float64("take", 1, "share of the values in the file to use")
	path := fs.String("o", "", "")
	fs.Parse(args)
	r := rand.New(rand.NewSource(*seed))
	var vals []typedVal
	if *in != "" {
		f, err := os.Open(*in)
		must(err)
		sc := bufio.NewScanner(f)
		for sc.Scan() {
			var v typedVal
			must(json.Unmarshal(sc.Bytes(), &v))
			if r.Float64() >= *take {
				continue
			}
			if v.T == "uint" && v.B[0] > 127 {
				continue // Uint takes an int; what it gives for negative ones is not specified
			}
			vals = append(vals, v)
		}
		must(sc.Err())
	}
	vals = append(vals, typedVal{"bool", []int{0}}, typedVal{"bool", []int{1}})
	for i := 0; i < 256; i++ {
		vals = append(vals, typedVal{"int8", []int{i}}, typedVal{"uint8", []int{i}})
	}
	for i := 0; i < 65536; i++ {
		if *full || r.Intn(64) == 0 {
			vals = append(vals, typedVal{"int16", typedBytes(uint64(i), 2)}, typedVal{"uint16", typedBytes(uint64(i), 2)})
		}
	}
	for i := 0; i < *n; i++ {
		vals = append(vals, drawTyped(r))
	}
	r.Shuffle(len(vals), func(i, j int) { vals[i], vals[j] = vals[j], vals[i] })
	o := create(*path)
	names := []string{"a", "n", "value", "x-1", "é"}
	id := 0
	for at := 0; at < len(vals); {
		id++
		a := xw.Attr{Name: names[r.Intn(len(names))]}
		if r.Intn(2) == 0 {
			a.Prefix = "p"
			if r.Intn(2) == 0 {
				a.URI = "urn:x"
			}
		}
		if r.Intn(2) == 0 {
			a.Value = "before"
		}
		line := typedLine{ID: id, At: plain(a)}
		cur := a
		for k := 0; k < 40 && at < len(vals); k++ {
			from := cur
			if r.Intn(3) == 0 {
				from = a
			}
			rec, res := vals[at].run(from)
			line.Vs = append(line.Vs, rec)
			cur = res
			if rec.Pan {
				cur = a
			}
			at++
		}
		b, err := json.Marshal(line)
		must(err)
		o.line(b)
	}
	o.close()
	fmt.Printf("{\"values\":%d,\"lines\":%d}\n", len(vals), id)
}
