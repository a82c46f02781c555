package main

import (
	"fmt"
	"github.com/viant/velty"
	"github.com/viant/velty/ast/expr"
	"reflect"
	"strings"
)

// zooFn is a registered function of a particular signature. The engine calls
// most of them without reflection, through code of its own per signature.
type zooFn struct {
	name string
	fn   interface{}
	args []reflect.Type
	t    Ty // of the result
	rest bool
	eval func(e *Env, a []interface{}) interface{}
}

func showArg(v interface{}) string {
	switch a := v.(type) {
	case *int:
		return fmt.Sprint(derefd(a))
	case *string:
		return derefd(a)
	case *Leaf:
		if a == nil {
			return "nil"
		}
		return fmt.Sprint(*a)
	case []*Leaf:
		s := ""
		for _, l := range a {
			s += fmt.Sprint(*l)
		}
		return s
	}
	return fmt.Sprint(v)
}

func showArgs(a ...interface{}) string {
	var s []string
	for _, x := range a {
		s = append(s, showArg(x))
	}
	return strings.Join(s, ",")
}

var zoo []*zooFn

func addZoo(t Ty, mk func(name string) (interface{}, func(e *Env, a []interface{}) interface{})) {
	name := fmt.Sprintf("z%d", len(zoo))
	fn, eval := mk(name)
	z := &zooFn{name: name, fn: fn, t: t, eval: eval}
	ft := reflect.TypeOf(fn)
	z.rest = ft.IsVariadic()
	for i := 0; i < ft.NumIn(); i++ {
		z.args = append(z.args, ft.In(i))
	}
	zoo = append(zoo, z)
}

func z1[A, R any](t Ty, f func(A) R) {
	addZoo(t, func(n string) (interface{}, func(e *Env, a []interface{}) interface{}) {
		g := func(x A) R { return call(n, showArgs(x), func() R { return f(x) }) }
		return g, func(e *Env, a []interface{}) interface{} { return g(a[0].(A)) }
	})
}

func z2[A, B, R any](t Ty, f func(A, B) R) {
	addZoo(t, func(n string) (interface{}, func(e *Env, a []interface{}) interface{}) {
		g := func(x A, y B) R { return call(n, showArgs(x, y), func() R { return f(x, y) }) }
		return g, func(e *Env, a []interface{}) interface{} { return g(a[0].(A), a[1].(B)) }
	})
}

func z3[A, B, C, R any](t Ty, f func(A, B, C) R) {
	addZoo(t, func(n string) (interface{}, func(e *Env, a []interface{}) interface{}) {
		g := func(x A, y B, z C) R { return call(n, showArgs(x, y, z), func() R { return f(x, y, z) }) }
		return g, func(e *Env, a []interface{}) interface{} { return g(a[0].(A), a[1].(B), a[2].(C)) }
	})
}

func z4[A, B, C, D, R any](t Ty, f func(A, B, C, D) R) {
	addZoo(t, func(n string) (interface{}, func(e *Env, a []interface{}) interface{}) {
		g := func(x A, y B, z C, w D) R { return call(n, showArgs(x, y, z, w), func() R { return f(x, y, z, w) }) }
		return g, func(e *Env, a []interface{}) interface{} {
			return g(a[0].(A), a[1].(B), a[2].(C), a[3].(D))
		}
	})
}

func z1e[A, R any](t Ty, f func(A) R) {
	addZoo(t, func(n string) (interface{}, func(e *Env, a []interface{}) interface{}) {
		g := func(x A) (R, error) { return callErr(n, showArgs(x), func() R { return f(x) }) }
		return g, func(e *Env, a []interface{}) interface{} {
			v, err := g(a[0].(A))
			e.addErr(err)
			return v
		}
	})
}

func z2e[A, B, R any](t Ty, f func(A, B) R) {
	addZoo(t, func(n string) (interface{}, func(e *Env, a []interface{}) interface{}) {
		g := func(x A, y B) (R, error) { return callErr(n, showArgs(x, y), func() R { return f(x, y) }) }
		return g, func(e *Env, a []interface{}) interface{} {
			v, err := g(a[0].(A), a[1].(B))
			e.addErr(err)
			return v
		}
	})
}

func derefd[T any](p *T) (v T) {
	if p != nil {
		v = *p
	}
	return v
}

// at is an element, or zero.
func at[T any](l []T, i int) (v T) {
	if i < 0 {
		i = -i
	}
	if len(l) > 0 && i >= 0 {
		v = l[i%len(l)]
	}
	return v
}

func among[T comparable](l []T, v T) bool {
	for _, x := range l {
		if x == v {
			return true
		}
	}
	return false
}

func equal[T comparable](a, b []T) bool {
	if len(a) != len(b) {
		return false
	}
	for i, x := range a {
		if b[i] != x {
			return false
		}
	}
	return true
}

func first[T comparable](l []T) bool { return len(l) > 0 && l[0] == l[len(l)-1] }

func init() {
	z2(TBool, func(s, p string) bool { return len(s) > len(p) })
	z2(TStr, func(a, b string) string { return b + "<" + a })
	z1(TStr, func(s string) string { return "<" + s + ">" })
	z2(TInt, func(a, b string) int { return 10*len(a) - len(b) })
	z1(TInt, func(a string) int { return len(a) * 3 })
	z1(TBool, func(s string) bool { return len(s)%2 == 0 })
	z3(TInt, func(a, b string, i int) int { return i/2 + len(a)*2 - len(b) })
	z3(TBool, func(a, b, c string) bool { return len(a)+len(b) < len(c)*2 })
	z2(TStrs, func(s, p string) []string { return []string{s, p, s + p} })
	z3(TBool, func(a, b string, i int) bool { return len(a)-len(b) < i })
	z2(TStr, func(s string, i int) string { return fmt.Sprint(i, s) })
	z3(TStr, func(s string, i, j int) string { return fmt.Sprint(j, s, i) })
	z2(TBool, among[int])
	z2(TBool, among[bool])
	z2(TBool, among[float64])
	z2(TBool, among[uint8])
	z2(TBool, among[string])
	z2(TBool, equal[int])
	z2(TBool, equal[bool])
	z2(TBool, equal[float64])
	z2(TBool, equal[uint8])
	z2(TBool, equal[string])
	z2(TInt, at[int])
	z2(TBool, at[bool])
	z2(TFloat, at[float64])
	z2(TSmall, at[uint8])
	z2(TStr, at[string])
	z1(TBool, first[int])
	z1(TBool, first[bool])
	z1(TBool, first[float64])
	z1(TBool, first[uint8])
	z1(TBool, first[string])
	z1(TInt, func(l []int) int { return len(l) })
	z1(TInt, func(l []bool) int { return len(l) })
	z1(TInt, func(l []float64) int { return len(l) })
	z1(TInt, func(l []string) int { return len(l) })
	z1(TStr, func(i int) string { return fmt.Sprint("z", i) })
	z1(TStr, func(b bool) string { return fmt.Sprint("z", b) })
	z1(TStr, func(f float64) string { return fmt.Sprint("z", f) })
	// the others are called by reflection
	z2(TFloat, func(a, b float64) float64 { return a/2 - b/4 })
	z2(TInt, func(b bool, i int) int {
		if b {
			return i / 2
		}
		return i / 3
	})
	z1(TInt, func(m map[string]int) int { return len(m)*1000 + m["a"] })
	z2(TStr, func(l []Leaf, i int) string { return at(l, i).Name })
	z1(TFloat, func(l Leaf) float64 { return l.Price / 2 })
	z2(TBool, func(l []*Leaf, s string) bool { return len(l) > len(s) })
	z1(TInt, func(i int8) int { return int(i) - 7 })
	z2(TStr, func(i int32, u uint16) string { return fmt.Sprint(u, i) })
	z1(TStr, func(f float32) string { return fmt.Sprint("g", f) })
	z2(TInt, func(p *int, q *string) int { return derefd(p)/2 - len(derefd(q)) })
	z4(TStr, func(a, b, c, d string) string { return d + c + b + a })
	z4(TInt, func(a int, b string, c bool, d float64) int {
		if c {
			return a/2 + len(b)
		}
		return a/2 - len(b)
	})
	z1e(TInt, func(s string) int { return -len(s) })
	z2e(TStr, func(i int, s string) string { return fmt.Sprint(s, i) })
	z2e(TBool, func(l []string, b bool) bool { return b && len(l) > 2 })
	z1e(TFloat, func(f float64) float64 { return f / 8 })
	addZoo(TStr, func(n string) (interface{}, func(e *Env, a []interface{}) interface{}) {
		g := func(s string, l ...int) string {
			return call(n, showArgs(s, l), func() string { return fmt.Sprint(s, l) })
		}
		return g, func(e *Env, a []interface{}) interface{} {
			var l []int
			for _, x := range a[1:] {
				l = append(l, x.(int))
			}
			return g(a[0].(string), l...)
		}
	})
	addZoo(TInt, func(n string) (interface{}, func(e *Env, a []interface{}) interface{}) {
		g := func(i int, l ...interface{}) (int, error) {
			return callErr(n, showArgs(i, l), func() int { return i/2 + len(l) })
		}
		return g, func(e *Env, a []interface{}) interface{} {
			v, err := g(a[0].(int), a[1:]...)
			e.addErr(err)
			return v
		}
	})
}

// zooArg is an argument of the type, or nil.
func (g *Gen) zooArg(t reflect.Type, depth int) *Ex {
	r := g.r
	vars := func(names ...string) *Ex {
		var have []string
		for _, n := range names {
			if g.has(n) {
				have = append(have, n)
			}
		}
		if len(have) == 0 {
			return nil
		}
		n := have[r.N(len(have))]
		return varSel(varDef(n).T, n)
	}
	switch t {
	case reflect.TypeOf(0):
		return g.arg(TInt, depth)
	case reflect.TypeOf(""):
		return g.arg(TStr, depth)
	case reflect.TypeOf(0.0):
		return g.arg(TFloat, depth)
	case reflect.TypeOf(true):
		return g.arg(TBool, depth)
	case reflect.TypeOf([]string{}):
		if a := g.arg(TInt, 0); r.P(30) {
			return callEx(TStrs, "$fl("+a.Src+")", func(e *Env) interface{} { return fnL(a.Eval(e).(int)) })
		}
		return vars("strs", "strs2")
	case reflect.TypeOf([]int{}):
		if a := g.arg(TInt, 0); r.P(30) {
			return callEx(TInts, "$fli("+a.Src+")", func(e *Env) interface{} { return fnLI(a.Eval(e).(int)) })
		}
		return vars("ints", "ints2")
	case reflect.TypeOf([]bool{}):
		return vars("bools")
	case reflect.TypeOf([]float64{}):
		return vars("floats")
	case reflect.TypeOf([]uint8{}):
		return vars("bytes")
	case reflect.TypeOf(uint8(0)):
		return vars("u8")
	case reflect.TypeOf([]Leaf{}):
		return vars("leafs", "leafs2")
	case reflect.TypeOf([]*Leaf{}):
		return vars("ptrs")
	case reflect.TypeOf(Leaf{}):
		for _, l := range g.order {
			if g.locals[l] == TLeaf {
				return varSel(TLeaf, l)
			}
		}
		return nil
	case reflect.TypeOf(map[string]int{}):
		return vars("m")
	case reflect.TypeOf(int8(0)):
		return vars("i8")
	case reflect.TypeOf(int32(0)):
		return vars("i32")
	case reflect.TypeOf(uint16(0)):
		return vars("u16")
	case reflect.TypeOf(float32(0)):
		return vars("g1")
	case reflect.TypeOf((*int)(nil)):
		return vars("pi")
	case reflect.TypeOf((*string)(nil)):
		return vars("ps")
	case reflect.TypeOf((*interface{})(nil)).Elem():
		return g.arg(pick(r, TInt, TStr, TFloat, TBool), 0)
	}
	return nil
}

// zooCall calls a function that gives the type, or is nil.
func (g *Gen) zooCall(t Ty, depth int) *Ex {
	var of []*zooFn
	for _, z := range zoo {
		if z.t == t {
			of = append(of, z)
		}
	}
	for i := 0; i < 4 && len(of) > 0; i++ {
		z := of[g.r.N(len(of))]
		types := z.args
		if z.rest {
			n := len(types) - 1
			types = append([]reflect.Type{}, types[:n]...)
			for k := g.r.N(6); k > 0; k-- {
				types = append(types, z.args[n].Elem())
			}
		}
		var args []*Ex
		var srcs []string
		for _, at := range types {
			a := g.zooArg(at, depth)
			if a == nil {
				break
			}
			args, srcs = append(args, a), append(srcs, a.Src)
		}
		if len(args) < len(types) {
			continue
		}
		return callEx(t, "$"+z.name+"("+strings.Join(srcs, pick(g.r, ", ", ","))+")", func(e *Env) interface{} {
			vs := make([]interface{}, len(args))
			for i, a := range args {
				vs[i] = a.Eval(e)
				if v := reflect.ValueOf(vs[i]); v.IsValid() && types[i].Kind() != reflect.Interface && v.Type() != types[i] {
					vs[i] = v.Convert(types[i]).Interface() // the model keeps small numbers as they were assigned
				}
			}
			return z.eval(e, vs)
		})
	}
	return nil
}

// NS is a registered namespace of functions.
type NS struct{ sep string }

func (n NS) Cat(a, b string) string {
	return call("ns.Cat", showArgs(a, b), func() string { return a + n.sep + b })
}

func (n NS) Fail(i int) (int, error) {
	return callErr("ns.Fail", showArgs(i), func() int { return i - 1 })
}

func (n NS) Pick(l []string, i int, s string) (string, error) {
	return callErr("ns.Pick", showArgs(l, i, s), func() string { return at(l, i) + n.sep + s })
}

func (n NS) Any(s string) interface{} {
	return call("ns.Any", s, func() interface{} { return n.sep + s })
}

// MethodResultType tells the type of what Any gives.
func (n NS) MethodResultType(name string, _ *expr.Call) (reflect.Type, error) {
	typerEvent("ns." + name)
	return reflect.TypeOf(""), nil
}

// kindFn is a function of all slices.
type kindFn struct {
	handler interface{}
	result  func(receiver reflect.Type, call *expr.Call) (reflect.Type, error)
}

func (k *kindFn) Kind() []reflect.Kind { return []reflect.Kind{reflect.Slice} }

func (k *kindFn) Handler() interface{} { return k.handler }

// kindTyped is a function of all slices whose result depends on the slice.
type kindTyped struct{ kindFn }

func (k *kindTyped) ResultType(receiver reflect.Type, call *expr.Call) (reflect.Type, error) {
	return k.result(receiver, call)
}

func kCount(l interface{}, s string) (string, error) {
	return callErr("kcount", showArgs(l, s), func() string { return fmt.Sprint(s, reflect.ValueOf(l).Len()) })
}

func kLast(l interface{}, i int) (interface{}, error) {
	return callErr("klast", showArgs(l, i), func() interface{} {
		v := reflect.ValueOf(l)
		return v.Index(v.Len() - 1).Interface()
	})
}

func registerZoo(p *velty.Planner) {
	for _, z := range zoo {
		must(p.RegisterFunction(z.name, z.fn))
	}
	must(p.RegisterFuncNs("ns", NS{"~"}))
	must(p.RegisterFunctionKind("kcount", &kindFn{handler: kCount}))
	must(p.RegisterFunctionKind("klast", &kindTyped{kindFn{handler: kLast, result: func(receiver reflect.Type, _ *expr.Call) (reflect.Type, error) {
		typerEvent("klast")
		return receiver.Elem(), nil
	}}}))
}

// scopedCall calls a function of a namespace or of a kind, or is nil. Those
// which ask user code for their type are made where functions like that are.
func (g *Gen) scopedCall(t Ty, depth int, typed bool) *Ex {
	r := g.r
	ns := NS{"~"}
	slices := func() *Ex {
		return g.zooArg(pick(r, reflect.TypeOf([]string{}), reflect.TypeOf([]int{}), reflect.TypeOf([]Leaf{}), reflect.TypeOf([]bool{})), 0)
	}
	switch {
	case t == TStr && typed && r.P(50):
		a := g.arg(TStr, 0)
		return callEx(t, "$ns.Any("+a.Src+")", func(e *Env) interface{} { return ns.Any(a.Eval(e).(string)) })
	case (t == TStr || t == TInt) && typed:
		l := varSel(TStrs, "strs")
		if t == TInt {
			l = varSel(TInts, "ints")
		}
		if !g.has(l.Src[1:]) {
			return nil
		}
		i := g.arg(TInt, 0)
		return callEx(t, l.Src+".klast("+i.Src+")", func(e *Env) interface{} {
			s := l.Eval(e)
			v, err := kLast(s, i.Eval(e).(int))
			e.addErr(err)
			if v == nil { // failed
				return zeroOf(t)
			}
			return v
		})
	case t == TInt:
		a := g.arg(t, depth)
		return callEx(t, "$ns.Fail("+a.Src+")", func(e *Env) interface{} {
			v, err := ns.Fail(a.Eval(e).(int))
			e.addErr(err)
			return v
		})
	case t == TStr && r.P(40):
		a, b := g.arg(t, depth), g.arg(t, depth)
		return callEx(t, "$ns.Cat("+a.Src+", "+b.Src+")", func(e *Env) interface{} {
			x := a.Eval(e).(string)
			return ns.Cat(x, b.Eval(e).(string))
		})
	case t == TStr && r.P(30):
		l, i, s := g.zooArg(reflect.TypeOf([]string{}), 0), g.arg(TInt, depth), g.arg(t, depth)
		if l == nil {
			return nil
		}
		return callEx(t, "$ns.Pick("+l.Src+", "+i.Src+", "+s.Src+")", func(e *Env) interface{} {
			x := l.Eval(e).([]string)
			y := i.Eval(e).(int)
			v, err := ns.Pick(x, y, s.Eval(e).(string))
			e.addErr(err)
			return v
		})
	case t == TStr:
		l, s := slices(), g.arg(t, depth)
		if l == nil {
			return nil
		}
		return callEx(t, l.Src+".kcount("+s.Src+")", func(e *Env) interface{} {
			x := l.Eval(e)
			v, err := kCount(x, s.Eval(e).(string))
			e.addErr(err)
			return v
		})
	}
	return nil
}
