package main

import (
	"context"
	"fmt"
	"io"
	"os"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/viant/velty/functions"

	"verifsim/simrt"
)

// Data types the templates work on.

type Leaf struct {
	ID    int
	Name  string
	Price float64
	On    bool
}

// Label is a value-receiver method.
func (l Leaf) Label(p string) string {
	return call("Leaf.Label", fmt.Sprintf("%d,%s", l.ID, p), func() string { return p + "#" + l.Name })
}

// Twice is a pointer-receiver method.
func (l *Leaf) Twice() int {
	if l == nil {
		return call("Leaf.Twice", "nil", func() int { return -2 })
	}
	return call("Leaf.Twice", strconv.Itoa(l.ID), func() int { return 2 * l.ID })
}

// Check may fail.
func (l Leaf) Check(v int) (int, error) {
	return callErr("Leaf.Check", fmt.Sprintf("%d,%d", l.ID, v), func() int { return l.ID + v })
}

// Next returns a struct for call chains.
func (l Leaf) Next(s string) Leaf {
	return call("Leaf.Next", fmt.Sprintf("%d,%s", l.ID, s), func() Leaf {
		return Leaf{ID: l.ID + len(s), Name: s + l.Name, Price: l.Price + 1}
	})
}

// NextE is Next, and may fail.
func (l Leaf) NextE(s string) (Leaf, error) {
	return callErr("Leaf.NextE", fmt.Sprintf("%d,%s", l.ID, s), func() Leaf {
		return Leaf{ID: l.ID + len(s), Name: s + l.Name, Price: l.Price + 1}
	})
}

// Ref returns a pointer for call chains.
func (l Leaf) Ref(i int) *Leaf {
	return call("Leaf.Ref", fmt.Sprintf("%d,%d", l.ID, i), func() *Leaf { return &Leaf{ID: l.ID + i, Name: "r" + l.Name} })
}

// GetName implements Named.
func (l Leaf) GetName() string {
	return call("Leaf.GetName", l.Name, func() string { return "N:" + l.Name })
}

// Named is an interface variable type.
type Named interface {
	GetName() string
}

type Node struct {
	Title string
	Count int
	Rate  float64
	Flag  bool
	Leaf  Leaf
	Next  *Leaf
	Leafs []Leaf
	Ptrs  []*Leaf
	Tags  []string
	Nums  []int
	M     map[string]int
	When  time.Time
}

// Join is variadic.
func (n Node) Join(sep string, xs ...string) string {
	return call("Node.Join", sep+"/"+strings.Join(xs, ","), func() string { return n.Title + strings.Join(xs, sep) })
}

// Pick returns a struct for call chains.
func (n Node) Pick(i int) Leaf {
	return call("Node.Pick", fmt.Sprintf("%s,%d", n.Title, i), func() Leaf {
		return Leaf{ID: i, Name: n.Title + "." + strconv.Itoa(i), Price: 0.5, On: i%2 == 0}
	})
}

// Kids returns items to loop over.
func (n Node) Kids(i int) []*Leaf {
	return call("Node.Kids", fmt.Sprintf("%s,%d", n.Title, i), func() []*Leaf {
		return []*Leaf{{ID: i, Name: n.Title}, {ID: i + 1, Name: "kid"}}
	})
}

// Fail may fail.
func (n *Node) Fail(code int) (int, error) {
	return callErr("Node.Fail", strconv.Itoa(code), func() int {
		if n == nil {
			return code - 1
		}
		return code + n.Count
	})
}

// Emb is embedded: its fields become variables.
type Emb struct {
	EmA int
	EmS string
}

// Fault kinds.
const (
	FNone = iota
	FErr
	FPanicStr
	FPanicErr
	FPanicInt
	FStall
	FGC
	numFaults
)

var faultNames = []string{"none", "call-error", "call-panic-string", "call-panic-error", "call-panic-value", "call-stall", "call-gc"}

// Fault strikes the At-th callback of an operation (1-based).
type Fault struct {
	At   int `json:"at"`
	Kind int `json:"kind"`
}

// FaultErr is the error an injected fault raises; compared by identity.
type FaultErr struct {
	Op, At int
	Panic  bool
}

func (e *FaultErr) Error() string {
	return fmt.Sprintf("fault op%d call%d panic=%v", e.Op, e.At, e.Panic)
}

// panicVal is a non-error panic value.
type panicVal struct{ Op, At int }

// Ctx is the context of one execution, real or modelled.
type Ctx struct {
	op                           int
	n                            int
	calls                        []string
	faults                       []Fault
	model                        bool
	feed                         []time.Time // clock readings: recorded, or to be used by the model
	fed                          int
	fired                        [numFaults]int
	compiles                     int // result-typer callbacks seen
	typer                        []string
	compiled                     []compileEvent
	noStall, noGC, typerPanicked bool
	modelSteps                   int
	errs                         map[int]error
	hooks                        func(name string) // called in real runs in every callback
	reads, readFaults            int
	active                       bool     // an execution is in progress
	outside                      []string // callbacks seen while none is
	where                        func(c *Ctx)
	atCompile                    int // typer fault kind to inject
	kept                         []kept
	outLen                       func() int
	failed, failedOut            int // calls made and output written when the first call failed
}

var modelCtx *Ctx

func ctx() *Ctx {
	if simrt.Active() {
		if c, ok := simrt.Data().(*Ctx); ok {
			return c
		}
	}
	return modelCtx
}

func (c *Ctx) fault() int {
	c.n++
	for _, f := range c.faults {
		if f.At == c.n {
			return f.Kind
		}
	}
	return FNone
}

func (c *Ctx) err(at int, p bool) error {
	if (c.op+at)%7 == 3 {
		return plainErrs[at%len(plainErrs)]
	}
	if p && (c.op+at)%5 == 1 {
		return rtErr{c.op, at}
	}
	return &FaultErr{Op: c.op, At: at, Panic: p}
}

// rtErr is what a panic of the Go runtime looks like.
type rtErr struct{ Op, At int }

func (e rtErr) Error() string { return fmt.Sprintf("runtime fault op%d call%d", e.Op, e.At) }
func (e rtErr) RuntimeError() {}

// plainErrs are errors that code may take for something else.
var plainErrs = []error{io.EOF, context.Canceled, io.ErrUnexpectedEOF, os.ErrNotExist, io.EOF}

// Unwrap makes some of the errors wrap such an error.
func (e *FaultErr) Unwrap() error {
	if k := (e.Op + e.At) % 11; k >= 0 && k < len(plainErrs) {
		return plainErrs[k]
	} else if k < 0 && -k <= len(plainErrs) {
		return plainErrs[-k-1]
	}
	return nil
}

// enter logs a callback and applies its fault; the result says whether the
// callback shall return an error.
func (c *Ctx) enter(name, args string, canFail bool) error {
	k := c.fault()
	c.calls = append(c.calls, name+"("+args+")")
	if !c.active && !c.model {
		c.outside = append(c.outside, name+"("+args+")")
	}
	if !c.model {
		simrt.Y(simrt.SiteCallback)
		if c.hooks != nil {
			c.hooks(name)
		}
	}
	switch k {
	case FErr:
		if canFail {
			c.fired[k]++
			if c.failed == 0 {
				c.failed = len(c.calls)
				if c.outLen != nil {
					c.failedOut = c.outLen()
				}
			}
			return c.err(c.n, false)
		}
	case FPanicStr:
		c.fired[k]++
		panic(fmt.Sprintf("fault op%d call%d", c.op, c.n))
	case FPanicErr:
		c.fired[k]++
		panic(c.err(c.n, true))
	case FPanicInt:
		c.fired[k]++
		panic(panicVal{c.op, c.n})
	case FStall:
		if !c.model && !c.noStall {
			c.fired[k]++
			simrt.Stall()
		}
	case FGC:
		if !c.model && !c.noGC {
			c.fired[k]++
			simrt.GC()
		}
	}
	return nil
}

func call[T any](name, args string, f func() T) T {
	c := ctx()
	_ = c.enter(name, args, false)
	v := short(f())
	if !c.model {
		simrt.Y(simrt.SiteCallbackEnd)
	}
	return v
}

func callErr[T any](name, args string, f func() T) (T, error) {
	c := ctx()
	if err := c.enter(name, args, true); err != nil {
		var z T
		if c.n%2 == 1 { // a result comes with the error
			z = short(f())
		}
		return z, err
	}
	v := short(f())
	if !c.model {
		simrt.Y(simrt.SiteCallbackEnd)
	}
	return v, nil
}

// short bounds what templates can build up in loops.
func short[T any](v T) T {
	if s, ok := any(v).(string); ok && len(s) > 1000 {
		return any(s[:1000]).(T)
	}
	return v
}

// Registered functions.

func fnS(s string) string { return call("fs", s, func() string { return "f(" + s + ")" }) }

// fnRV is the function rv in its version v.
func fnRV(v int) func(string) string {
	return func(s string) string {
		return call("rv"+strconv.Itoa(v), s, func() string { return "v" + strconv.Itoa(v) + "(" + s + ")" })
	}
}
func fnSS(a, b string) string {
	return call("fss", a+","+b, func() string { return a + "|" + b })
}
func fnI(i int) string {
	return call("fi", strconv.Itoa(i), func() string { return "i" + strconv.Itoa(i) })
}
func fnIE(i int) (int, error) {
	return callErr("fie", strconv.Itoa(i), func() int { return i + 100 })
}
func fnSE(s string) (string, error) {
	return callErr("fse", s, func() string { return "e(" + s + ")" })
}

// fnID gives the text of a template.
func fnID(s string) (string, error) {
	c := ctx()
	if err := c.enter("fid", s, true); err != nil {
		return s, err
	}
	return s, nil
}
func fnF(f float64) float64 {
	return call("ff", fmt.Sprint(f), func() float64 { return f / 2 })
}
func fnV(xs ...string) string {
	return call("fv", strings.Join(xs, ","), func() string { return strings.Join(xs, "+") })
}
func fnA(v interface{}) string {
	return call("fa", fmt.Sprint(v), func() string { return fmt.Sprintf("a:%v", v) })
}
func fnL(n int) []string {
	return call("fl", strconv.Itoa(n), func() []string {
		var r []string
		for i := 0; i < n && i < 4; i++ {
			r = append(r, "l"+strconv.Itoa(i))
		}
		return r
	})
}
func fnLS(n int) []Leaf {
	return call("fls", strconv.Itoa(n), func() []Leaf {
		var r []Leaf
		for i := 0; i < n && i < 3; i++ {
			r = append(r, Leaf{ID: n + i, Name: "s" + strconv.Itoa(i)})
		}
		return r
	})
}
func fnLP(n int) ([]*Leaf, error) {
	return callErr("flp", strconv.Itoa(n), func() []*Leaf {
		var r []*Leaf
		for i := 0; i < n && i < 3; i++ {
			r = append(r, &Leaf{ID: n + i, Name: "p" + strconv.Itoa(i)})
		}
		return r
	})
}
func fnLI(n int) []int {
	return call("fli", strconv.Itoa(n), func() []int { return []int{n, n + 1} })
}

// fnZ is an index.
func fnZ(s string) (int, error) {
	return callErr("fz", s, func() int { return len(s) % 2 })
}

// fnN may return nil.
func fnN(s string) interface{} {
	return call("fn", s, func() interface{} {
		switch len(s) % 3 {
		case 0:
			return "n" + s
		case 1:
			return len(s)
		}
		return nil
	})
}

// fnNE may return nil, or fail.
func fnNE(s string) (interface{}, error) {
	return callErr("fne", s, func() interface{} {
		if len(s)%2 == 1 {
			return nil
		}
		return "e" + s
	})
}

// fnP may return nil.
func fnP(i int) *Leaf {
	return call("fp", strconv.Itoa(i), func() *Leaf {
		if i%3 == 0 {
			return nil
		}
		return &Leaf{ID: i, Name: "fp"}
	})
}

// fnK keeps what it gets.
func fnK(v interface{}) string {
	return call("fk", fmt.Sprint(v), func() string {
		if c := ctx(); !c.model {
			c.kept = append(c.kept, kept{v, fmt.Sprint(v)})
		}
		return fmt.Sprintf("k:%v", v)
	})
}

// kept is an argument a function keeps, and how it looked when it got it.
type kept struct {
	v   interface{}
	was string
}

// changed says which kept value has changed.
func (c *Ctx) changed() string {
	for i, k := range c.kept {
		if s := fmt.Sprint(k.v); s != k.was {
			return fmt.Sprintf("value %d kept by a function was %s, and is %s", i+1, k.was, s)
		}
	}
	return ""
}
func fnB(b bool) string {
	return call("fb", fmt.Sprint(b), func() string { return "b" + fmt.Sprint(b) })
}
func fnIII(a, b, c int) (int, error) {
	return callErr("fiii", fmt.Sprint(a, b, c), func() int { return a*100 + b*10 + c })
}
func tfTag(l Leaf, s string) (string, error) {
	return callErr("tag", l.Name+","+s, func() string { return s + "!" + l.Name })
}
func fnX(s string) interface{} { return call("fx", s, func() interface{} { return "x(" + s + ")" }) }

// now is the clock the engine reads (through functions.Now) and the model.
func now() time.Time {
	c := ctx()
	if c == nil {
		return simrt.Epoch
	}
	c.calls = append(c.calls, "now()")
	if c.model {
		if c.fed < len(c.feed) {
			c.fed++
			return c.feed[c.fed-1]
		}
		return simrt.Epoch // the engine read the clock less often: the call logs differ
	}
	if !c.active {
		c.outside = append(c.outside, "now()")
	}
	simrt.Y(simrt.SiteClock)
	t := simrt.Now()
	switch c.op % 4 { // clocks of other time zones
	case 1:
		t = t.In(time.FixedZone("e", 5*3600+1800))
	case 2:
		t = t.In(time.FixedZone("", -8*3600))
	}
	c.feed = append(c.feed, t)
	return t
}

func init() { functions.Now = now }

// equalVals compares like reflect.DeepEqual, but takes a number that is none
// (NaN) for equal to itself.
func equalVals(a, b interface{}) bool {
	return reflect.DeepEqual(a, b) || equalRefl(reflect.ValueOf(a), reflect.ValueOf(b))
}

func equalRefl(a, b reflect.Value) bool {
	if !a.IsValid() || !b.IsValid() || a.Type() != b.Type() {
		return a.IsValid() == b.IsValid() && !a.IsValid()
	}
	switch a.Kind() {
	case reflect.Float32, reflect.Float64:
		return a.Float() == b.Float() || a.Float() != a.Float() && b.Float() != b.Float()
	case reflect.Ptr, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return equalRefl(a.Elem(), b.Elem())
	case reflect.Slice:
		if a.IsNil() != b.IsNil() || a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !equalRefl(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !equalRefl(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Map:
		if a.IsNil() != b.IsNil() || a.Len() != b.Len() {
			return false
		}
		for _, k := range a.MapKeys() {
			if !equalRefl(a.MapIndex(k), b.MapIndex(k)) {
				return false
			}
		}
		return true
	case reflect.String:
		return a.String() == b.String()
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() == b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() == b.Uint()
	}
	return a.CanInterface() && b.CanInterface() && reflect.DeepEqual(a.Interface(), b.Interface())
}

// zeroOf is the zero value of a type of expressions.
func zeroOf(t Ty) interface{} {
	switch t {
	case TInt:
		return 0
	case TStr:
		return ""
	case TFloat:
		return 0.0
	case TBool:
		return false
	}
	return nil
}
