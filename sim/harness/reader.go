package main

import (
	"encoding/json"
	"fmt"
	"io"
	"strings"

	"verifsim/simrt"
)

// FaultReader delivers a document in pieces and may fail.
type FaultReader struct {
	data   []byte // what is delivered, after truncation and corruption
	errAt  int    // the read that reaches this offset fails, -1: none
	err    error
	style  int
	big    bool // a document larger than the usual buffers, in larger pieces
	rng    Rand
	eofNow bool // data and EOF, or data and error, in one call
	panics bool
	stall  bool
	what   string

	off   int
	empty int
	done  bool
}

const (
	rdWhole = iota
	rdOne
	rdShort
	rdEmpty
	rdMixed
)

// bigWord is a text beyond the sizes of the usual buffers (4K, 32K, 64K).
func bigWord(r *Rand) string {
	n := []int{4090, 32760, 65530}[r.N(3)] + r.N(20)
	if r.P(25) {
		n *= 2
	}
	return strings.Repeat(string(rune('a'+r.N(26))), n)
}

// newReader builds the reader of a document; equal seeds give equal readers.
func newReader(r *Rand, kind string, prof Profile) *FaultReader {
	word := func() string {
		s := strings.Repeat(string(rune('a'+r.N(26))), r.In(0, 6))
		if r.P(10) {
			s += "é\"\\\n"
		}
		if prof.Long && r.P(30) {
			s = strings.Repeat(s+"z", r.In(20, 200))
		}
		return s
	}
	leaf := func() Leaf {
		return Leaf{ID: r.In(-5, 5000), Name: word(), Price: float64(r.N(64)) / 8, On: r.P(50)}
	}
	var doc interface{}
	big := prof.Long && r.P(6)
	switch kind {
	case "Leaf":
		l := leaf()
		if big {
			l.Name = bigWord(r)
		}
		doc = l
	case "Leafs":
		var l []Leaf
		for i := r.In(0, 5); i > 0; i-- {
			l = append(l, leaf())
		}
		if l == nil {
			l = []Leaf{}
		}
		doc = l
	default:
		l := []string{}
		for i := r.In(0, 6); i > 0; i-- {
			l = append(l, word())
		}
		if big {
			l = append(l, bigWord(r))
		}
		doc = l
	}
	b, _ := json.Marshal(doc)
	f := &FaultReader{data: b, errAt: -1, style: r.N(5), eofNow: r.P(50), big: big}
	if big && f.style == rdOne {
		f.style = rdShort
	}
	if r.P(10) {
		f.data = append([]byte(" \n\t"), f.data...)
	}
	if r.P(10) {
		f.data = append(f.data, " \n"...)
	}
	if r.P(prof.ReadFaults) {
		k := r.N(len(f.data))
		switch r.N(6) {
		case 0, 1:
			f.errAt = k
			f.what = "read-error"
		case 2:
			f.data = f.data[:k]
			f.what = "truncation"
		case 3:
			f.data[k] ^= byte(1 << r.N(7))
			f.what = "corruption"
		case 4:
			f.errAt = len(f.data)
			f.what = "read-error-at-end"
		default:
			// a second document behind the first
			f.data = append(f.data, f.data...)
			f.what = "garbage-behind"
		}
		if r.P(10) {
			f.panics = f.errAt >= 0
		}
	}
	f.err = &FaultErr{Op: -1 - int(r.U()%1000000), At: f.errAt}
	if f.errAt >= 0 && r.P(20) && !f.panics {
		f.err = io.ErrUnexpectedEOF
	}
	f.stall = r.P(prof.ReadStalls)
	f.rng = *NewRand(r.U())
	return f
}

// Read implements io.Reader.
func (f *FaultReader) Read(p []byte) (int, error) {
	c := ctx()
	if c != nil {
		c.reads++
		if !c.active {
			c.outside = append(c.outside, "Read")
		}
	}
	simrt.Y(simrt.SiteReader)
	if f.stall && c != nil && !c.noStall {
		f.stall = false
		c.fired[FStall]++
		simrt.Stall()
	}
	end := len(f.data)
	if f.errAt >= 0 && f.errAt < end {
		end = f.errAt
	}
	if f.off >= end {
		return 0, f.fail(c)
	}
	n := end - f.off
	switch f.style {
	case rdOne:
		n = 1
	case rdShort:
		n = 1 + f.rng.N(9)
	case rdEmpty, rdMixed:
		if f.empty < 3 && f.rng.P(50) {
			f.empty++
			return 0, nil
		}
		f.empty = 0
		n = 1 + f.rng.N(40)
	}
	if f.big {
		n *= 1 + f.rng.N(3000)
	}
	if n > end-f.off {
		n = end - f.off
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, f.data[f.off:f.off+n])
	f.off += n
	if f.off == end && f.eofNow && !f.panics {
		return n, f.fail(c)
	}
	return n, nil
}

func (f *FaultReader) fail(c *Ctx) error {
	if f.errAt < 0 {
		if f.what != "" && !f.done && c != nil {
			f.done = true
			c.readFaults++
		}
		return io.EOF
	}
	if c != nil && !f.done {
		f.done = true
		c.readFaults++
	}
	if f.panics {
		panic(f.err)
	}
	return f.err
}

// all is the model: the complete content, or the error.
func (f *FaultReader) all() ([]byte, error) {
	if f.errAt >= 0 {
		if f.panics {
			panic(f.err)
		}
		return nil, f.err
	}
	if f.done {
		return nil, nil
	}
	f.done = true
	return f.data, nil
}

type jsonErr struct{ s string }

func (j jsonErr) Error() string { return "json: " + j.s }

// decode is the model of UnmarshalInto.
func (e *Env) decode(name string, typ string) interface{} {
	var p, zero interface{}
	switch typ {
	case "Leaf":
		p, zero = new(Leaf), Leaf{}
	case "Leafs":
		p, zero = new([]Leaf), []Leaf(nil)
	case "Strs":
		p, zero = new([]string), []string(nil)
	}
	var b []byte
	var err error
	r, ok := e.v[name].(*FaultReader)
	if !ok || r == nil {
		err = jsonErr{"no reader"}
	} else {
		b, err = r.all()
	}
	if err == nil {
		if jerr := json.Unmarshal(b, p); jerr != nil {
			err = jsonErr{jerr.Error()}
		}
	}
	if err != nil {
		e.addErr(err)
		return zero
	}
	switch a := p.(type) {
	case *Leaf:
		return *a
	case *[]Leaf:
		return *a
	case *[]string:
		return *a
	}
	return nil
}

var readerTypes = map[string]string{"r1": "Leaf", "r2": "Leafs", "r3": "Strs"}
var readerTys = map[string]Ty{"Leaf": TLeaf, "Leafs": TLeafs, "Strs": TStrs}

// decodeSrc generates a decoding expression.
func (g *Gen) decodeEx() *Ex {
	var names []string
	for _, n := range []string{"r1", "r2", "r3"} {
		if g.has(n) {
			names = append(names, n)
		}
	}
	if len(names) == 0 {
		return nil
	}
	n := names[g.r.N(len(names))]
	typ := readerTypes[n]
	if g.r.P(8) {
		typ = pick(g.r, "Leaf", "Leafs", "Strs")
	}
	return callEx(readerTys[typ], fmt.Sprintf("$json.UnmarshalInto($%s, %q)", n, typ), func(e *Env) interface{} { return e.decode(n, typ) })
}
