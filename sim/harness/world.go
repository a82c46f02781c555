package main

import (
	"errors"
	"fmt"
	"reflect"
	"runtime"
	"strings"
	"time"

	"github.com/viant/velty"
	"github.com/viant/velty/ast/expr"
	"github.com/viant/velty/est"
	"github.com/viant/velty/est/op"
	"github.com/viant/velty/functions"

	"verifsim/simrt"
)

// Opts are the planner options of a run.
type Opts struct {
	Buf    int // BufferSize, -1: not given
	Cache  int // CacheSize, -1: not given
	Escape bool
	Panic  bool
	Perm   int // order in which the options are given
}

func (o Opts) list() []velty.Option {
	var l []velty.Option
	if o.Buf >= 0 {
		l = append(l, velty.BufferSize(o.Buf))
	}
	if o.Cache >= 0 {
		l = append(l, velty.CacheSize(o.Cache))
	}
	if o.Escape {
		l = append(l, velty.EscapeHTML(true))
	}
	if o.Panic {
		l = append(l, velty.PanicOnError(true))
	}
	for i := range l {
		j := (i*7 + o.Perm) % len(l)
		l[i], l[j] = l[j], l[i]
	}
	return l
}

func (o Opts) String() string {
	return fmt.Sprintf("{buffer:%d cache:%d escape:%v panicOnError:%v}", o.Buf, o.Cache, o.Escape, o.Panic)
}

func must(err error) {
	if err != nil {
		panic(setupErr{err})
	}
}

type setupErr struct{ err error }

// typeParser serves json.UnmarshalInto.
func typeParser(name string) (reflect.Type, error) {
	typerEvent("parse:" + name)
	switch name {
	case "Leaf":
		return reflect.TypeOf(Leaf{}), nil
	case "Leafs":
		return reflect.TypeOf([]Leaf{}), nil
	case "Map":
		return reflect.TypeOf(map[string]int{}), nil
	case "Strs":
		return reflect.TypeOf([]string{}), nil
	case "Int":
		return reflect.TypeOf(0), nil
	case "Str":
		return reflect.TypeOf(""), nil
	}
	return nil, fmt.Errorf("unknown type %v", name)
}

// typerEvent is a user callback made while compiling (or by json functions).
func typerEvent(what string) {
	c := ctx()
	if c == nil {
		return
	}
	c.compiles++
	c.typer = append(c.typer, what)
	simrt.Y(simrt.SiteCallback)
	switch c.atCompile {
	case FStall:
		if !c.model && !c.noStall {
			c.fired[FStall]++
			simrt.Stall()
		}
	case FPanicStr:
		c.fired[FPanicStr]++
		c.typerPanicked = true
		panic(fmt.Sprintf("fault op%d typer", c.op))
	}
}

// register adds the callback functions to a planner.
func register(p *velty.Planner) {
	must(p.RegisterFunction("fs", fnS))
	must(p.RegisterFunction("fss", fnSS))
	must(p.RegisterFunction("rv", fnRV(0)))
	must(p.RegisterFunction("fi", fnI))
	must(p.RegisterFunction("fb", fnB))
	must(p.RegisterFunction("fie", fnIE))
	must(p.RegisterFunction("fid", fnID))
	must(p.RegisterFunction("fse", fnSE))
	must(p.RegisterFunction("ff", fnF))
	must(p.RegisterFunction("fv", fnV))
	must(p.RegisterFunction("fa", fnA))
	must(p.RegisterFunction("fl", fnL))
	must(p.RegisterFunction("fiii", fnIII))
	must(p.RegisterFunction("fls", fnLS))
	must(p.RegisterFunction("flp", fnLP))
	must(p.RegisterFunction("fli", fnLI))
	must(p.RegisterFunction("fz", fnZ))
	must(p.RegisterFunction("fn", fnN))
	must(p.RegisterFunction("fne", fnNE))
	must(p.RegisterFunction("fp", fnP))
	must(p.RegisterFunction("fk", fnK))
	registerZoo(p)
	must(p.RegisterTypeFunc(reflect.TypeOf(Leaf{}), &op.TypeFunc{Name: "tag", Handler: tfTag, ResultType: reflect.TypeOf("")}))
	must(p.RegisterStandaloneFunction("fx", &op.Function{Handler: fnX, ResultTyper: func(call *expr.Call) (reflect.Type, error) {
		typerEvent("fx")
		if typerHook != nil {
			typerHook(call)
		}
		return reflect.TypeOf(""), nil
	}}))
}

var typerHook func(call *expr.Call)

// newPlanner builds a root planner with the given variables.
func newPlanner(o Opts, vars []string) *velty.Planner {
	l := o.list()
	l = append(l, functions.TypeParser(typeParser))
	p := velty.New(l...)
	register(p)
	for _, v := range vars {
		d := varDef(v)
		if v == "emb" {
			must(p.EmbedVariable(Emb{}))
			continue
		}
		must(p.DefineVariable(d.Name, d.Typ))
	}
	return p
}

// bigInt gives numbers at the edges of what there are.
func bigInt(r *Rand) int {
	n := pick(r, 0, 9, 10, 99, 100, 101, 999, 1000, 99999, 1<<31-1, 1<<31, 1<<32-1, 1<<32, 1<<53, 1<<63-1, 1<<63-1)
	if r.P(50) {
		n = -n
		if r.P(20) {
			n = -1 << 63
		}
	}
	return n
}

// bigFloat gives numbers with many digits, the shortest and the longest.
func bigFloat(r *Rand) float64 {
	f := pick(r, 0, 0.1, 1.0/3, 1e20, 1e21, 1e22, 1<<53, 1e100, 1.7976931348623157e308, 5e-324, 1e-7, 123456789.123456789)
	if r.P(50) {
		f = -f
	}
	return f
}

// newValues builds the variable values of one execution; two calls with the
// same seed give equal but unshared values. Variables left out are not set.
func newValues(seed uint64, vars []string, prof Profile) (map[string]interface{}, map[string]bool) {
	r := NewRand(seed)
	v := map[string]interface{}{}
	set := map[string]bool{}
	word := func() string {
		const al = "abcdefghij<&"
		n := r.In(0, 5)
		b := make([]byte, n)
		for i := range b {
			b[i] = al[r.N(len(al))]
		}
		s := string(b)
		if prof.Big && r.P(10) { // text that means something in a template, or in another notation
			s = pick(r, "$i1", "${s1}", "#end", "#set($i1 = 3)", "$", "#", "é日本", "a\nb", "\"q\"", "%d%s", "\\", "$foreach", "\x00", "\xff")
		}
		if prof.Long && r.P(15) {
			s = strings.Repeat(s+"_", r.In(5, 120))
		}
		return s
	}
	leaf := func() Leaf {
		l := Leaf{ID: r.In(-3, 200), Name: word(), Price: float64(r.N(40)) / 8, On: r.P(50)}
		if prof.Big && r.P(10) {
			l.ID, l.Price = bigInt(r), bigFloat(r)
		}
		return l
	}
	leafp := func() *Leaf { l := leaf(); return &l }
	nod := func() Node {
		n := Node{Title: word(), Count: r.In(-2, 1000), Rate: float64(r.N(100)) / 4, Flag: r.P(50), Leaf: leaf(),
			Leafs: []Leaf{leaf(), leaf()}, Ptrs: []*Leaf{leafp(), leafp()}, Tags: []string{word(), word()}, Nums: []int{r.N(50), -r.N(9), 7},
			M: map[string]int{"a": r.N(9), "b": r.N(99)}}
		if r.P(60) {
			n.Next = leafp()
		}
		return n
	}
	for _, name := range vars {
		d := varDef(name)
		var x interface{}
		leave := prof.Unset && r.P(15)
		switch name {
		case "i1", "i2":
			x = r.In(-50, 5000)
			if prof.Big && r.P(20) {
				x = int(r.U())
			} else if prof.Big && r.P(20) {
				x = bigInt(r)
			}
		case "f1":
			x = float64(r.In(-40, 400)) / 8
			if prof.Big && r.P(20) {
				x = bigFloat(r)
			}
		case "s1", "s2":
			x = word()
			if name == "s1" && r.P(40) {
				x = "a"
			}
		case "b1":
			x = r.P(50)
		case "b2":
			x = r.P(50)
		case "i8":
			x = int8(r.N(100))
		case "u8":
			x = uint8(r.N(128)) // xunsafe converts it as if it were signed
		case "i32":
			x = int32(r.In(-99999, 99999))
		case "u16":
			x = uint16(r.N(32768))
		case "i64":
			x = int64(r.U() >> 2)
		case "g1":
			x = float32(r.In(-40, 400)) / 8
		case "pi":
			i := r.N(1000)
			x, leave = &i, false
		case "ps":
			s := word()
			x, leave = &s, false
		case "ms":
			x, leave = map[string]string{"a": word() + "A", "b": word() + "B"}, false
		case "mx":
			x, leave = map[string]interface{}{"a": word() + "X", "b": r.N(50), "c": nil}, false
		case "leafs2":
			x, leave = []Leaf{leaf(), leaf(), leaf()}[:r.In(2, 3)], false
		case "strs2":
			x, leave = []string{word(), word(), word(), word()}[:r.In(2, 4)], false
		case "ints2":
			x, leave = []int{r.N(200), r.N(9), r.N(5), 4}[:r.In(2, 4)], false
		case "bools":
			x, leave = []bool{r.P(50), r.P(50), true}[:r.In(1, 3)], false
		case "floats":
			x, leave = []float64{float64(r.N(40)) / 8, 0.5, 2}[:r.In(1, 3)], false
		case "bytes":
			x, leave = []uint8{uint8(r.N(128)), 7, uint8(r.N(99))}[:r.In(1, 3)], false
		case "n":
			x = nod()
			leave = false
		case "p":
			if r.P(prof.NilP) {
				x = (*Node)(nil)
			} else {
				n := nod()
				x = &n
			}
		case "leafs":
			l := []Leaf{leaf(), leaf()}
			if r.P(50) {
				l = append(l, leaf())
			}
			x, leave = l, false
		case "ptrs":
			x, leave = []*Leaf{leafp(), leafp()}, false
		case "strs":
			x, leave = []string{word(), word(), word()}, false
		case "ints":
			x, leave = []int{r.N(200), -1, r.N(5)}, false
		case "m":
			x = map[string]int{"a": r.N(50), "b": r.N(500)}
			leave = false
		case "ml":
			x, leave = map[string]Leaf{"a": leaf(), "b": leaf()}, false
		case "mp":
			x, leave = map[string]*Leaf{"a": leafp(), "b": nil}, false
		case "emb":
			e := Emb{EmA: r.N(900), EmS: word()}
			x, leave = e, false
			v["EmA"], v["EmS"] = e.EmA, e.EmS
		case "any":
			switch r.N(5) {
			case 0:
				x = r.N(50)
			case 1:
				x = word()
			case 2:
				x = 1.5
			case 3:
				x = r.P(50)
			default:
				x = time.Date(2020, 1, r.In(1, 28), 1, 2, 3, 0, time.UTC)
			}
		case "nm":
			x, leave = leaf(), false
		case "r1", "r2", "r3":
			x, leave = newReader(NewRand(seed^uint64(name[1])), readerTypes[name], prof), false
		case "tpl1", "tpl2":
			x = ""
		}
		if leave {
			x = reflect.Zero(d.Typ).Interface()
		} else {
			set[name] = true
		}
		v[name] = x
	}
	return v, set
}

// Profile shapes values.
type Profile struct {
	Unset bool
	Drop  bool // nobody but the state holds the values
	Long  bool
	Big   bool
	NilP  int

	ReadFaults, ReadStalls int
}

// Result is what one execution did.
type Result struct {
	Out      string
	Err      error
	Panicked bool
	PanicErr bool // Err is a panic that Exec turned into its error (in the model)
	Panic    interface{}
	Calls    []string
	Values   map[string]interface{} // caller values afterwards
	Outside  []string
	GoesOn   string // what was done after the first failing call
}

func (r *Result) String() string {
	s := fmt.Sprintf("out=%q err=%v", r.Out, r.Err)
	if r.Panicked {
		s += fmt.Sprintf(" panic=%v", r.Panic)
	}
	if len(r.Calls) > 0 {
		s += " calls=" + strings.Join(r.Calls, ";")
	}
	return s
}

// applyValues puts values into a state, in an order that depends on the values'
// seed, some after another value.
func applyValues(st *est.State, vars []string, v map[string]interface{}, set map[string]bool, seed uint64) {
	r := NewRand(seed ^ 0x0dde4)
	order := append([]string{}, vars...)
	if r.P(60) {
		for i := range order {
			j := r.N(i + 1)
			order[i], order[j] = order[j], order[i]
		}
	}
	twice := pick(r, 0, 0, 20)
	for _, name := range order {
		if !set[name] {
			continue
		}
		if name == "emb" {
			if err := st.EmbedValue(v[name]); err != nil {
				panic(setupErr{fmt.Errorf("EmbedValue(%v): %w", name, err)})
			}
			continue
		}
		if twice > 0 && v[name] != nil && r.P(twice) {
			if err := st.SetValue(name, reflect.Zero(reflect.TypeOf(v[name])).Interface()); err != nil {
				panic(setupErr{fmt.Errorf("SetValue(%v): %w", name, err)})
			}
		}
		if err := st.SetValue(name, v[name]); err != nil {
			panic(setupErr{fmt.Errorf("SetValue(%v): %w", name, err)})
		}
	}
}

// realExec runs a plan on a state and records what happened.
func realExec(c *Ctx, ex *est.Execution, st *est.State) (res *Result) {
	res = &Result{}
	c.active = true
	c.outLen = func() int { return len(st.Buffer.String()) }
	func() {
		defer func() {
			c.active = false
			if p := recover(); p != nil {
				res.Panicked = true
				res.Panic = p
			}
		}()
		res.Err = ex.Exec(st)
	}()
	res.Out = st.Buffer.String()
	res.Calls = c.calls
	if c.outLen = nil; c.failed > 0 {
		if len(c.calls) > c.failed {
			res.GoesOn = fmt.Sprintf("after the failing call %s: %v", c.calls[c.failed-1], c.calls[c.failed:])
		} else if len(res.Out) > c.failedOut {
			res.GoesOn = fmt.Sprintf("after the failing call %s, output %q", c.calls[c.failed-1], res.Out[c.failedOut:])
		}
	}
	return res
}

// modelExec is the same in the reference model.
func modelExec(c *Ctx, t *Tmpl, e *Env) (res *Result) {
	res = &Result{}
	c.model = true
	prev := modelCtx
	modelCtx = c
	e.c = c
	if e.out == nil {
		e.out = &strings.Builder{}
	}
	func() {
		defer func() {
			modelCtx = prev
			if p := recover(); p != nil {
				if me, ok := p.(modelErr); ok {
					res.Err = me.err
					return
				}
				if err, ok := p.(error); ok {
					_, own := err.(rtErr)
					if _, rt := err.(runtime.Error); rt && !own {
						panic(p) // a bug of the model
					}
					if e.panicOnErr {
						res.Err, res.PanicErr = err, true
						return
					}
				}
				res.Panicked, res.Panic = true, p
			}
		}()
		t.Exec(e)
		if len(*e.errs) > 0 {
			res.Err = (*e.errs)[0]
		}
	}()
	res.Out = e.out.String()
	res.Calls = c.calls
	return res
}

// sameErr: got must wrap want's error.
func sameErr(want, got error) bool {
	if want == nil || got == nil {
		return want == nil && got == nil
	}
	if fe, ok := want.(*FaultErr); ok {
		var g *FaultErr
		return errors.As(got, &g) && *g == *fe
	}
	if te, ok := want.(textErr); ok {
		return strings.Contains(got.Error(), string(te))
	}
	if re, ok := want.(rtErr); ok {
		var g rtErr
		return errors.As(got, &g) && g == re
	}
	for _, e := range plainErrs {
		if want == e {
			return errors.Is(got, e)
		}
	}
	return true
}

func samePanic(want, got interface{}) bool {
	if a, ok := want.(*FaultErr); ok {
		b, ok := got.(*FaultErr)
		return ok && *a == *b
	}
	defer func() { recover() }()
	return want == got
}

// diff compares a result with the expected one; "" if they agree.
func diff(want, got *Result) string {
	if want.Panicked != got.Panicked {
		if got.Panicked {
			return fmt.Sprintf("unexpected panic: %v", got.Panic)
		}
		return fmt.Sprintf("panic swallowed: want panic %v, got %v", want.Panic, got)
	}
	if want.Panicked && !samePanic(want.Panic, got.Panic) {
		return fmt.Sprintf("panic value: want %v, got %v", want.Panic, got.Panic)
	}
	if !sameErr(want.Err, got.Err) {
		return fmt.Sprintf("error: want %v, got %v", want.Err, got.Err)
	}
	if want.Out != got.Out {
		return fmt.Sprintf("output: want %q, got %q", clip(want.Out, got.Out), clip(got.Out, want.Out))
	}
	if d := diffCalls(want.Calls, got.Calls); d != "" {
		return d
	}
	return ""
}

func diffCalls(want, got []string) string {
	for i := 0; i < len(want) || i < len(got); i++ {
		w, g := "<none>", "<none>"
		if i < len(want) {
			w = want[i]
		}
		if i < len(got) {
			g = got[i]
		}
		if w != g {
			return fmt.Sprintf("call %d: want %v, got %v", i+1, w, g)
		}
	}
	return ""
}

// clip shows a around its first difference from b.
func clip(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	from := i - 40
	pre := "..."
	if from <= 0 {
		from, pre = 0, ""
	}
	to := i + 80
	post := "..."
	if to >= len(a) {
		to, post = len(a), ""
	}
	return pre + a[from:to] + post
}
