package main

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/viant/velty"
	"github.com/viant/velty/est"

	"verifsim/simrt"
)

// The worlds of C24: plans with variables of many types and sizes in random
// order. A plan prints all its variables, does one of several groups of
// assignments, chosen by the variable sel, and prints all of them again after
// each. What a state printed before is the reference for what it prints later;
// only the assigned variable is compared with the value it was given.

const (
	aInt = iota // all integers
	aFloat
	aStr
	aBool
	aLeaf
	aLeafP
	aPInt
	aPStr
	aStrs
	aInts
	aLeafs
	aAny
	aMap
	aMini
	aAlt
	aEmb
	aNode
	aPtrs
	aMapP
	aMapL
	aMapS
	aFloats
	aBools
	aSmalls
	aPNum // pointers to the other integers
	aPFloat
	aPBool
	aAnys
	aTime
	aArr
	aAnon
)

// NamedStr and NamedInt have the layout of basic types.
type (
	NamedStr string
	NamedInt int32
)

// anon is embedded without a name.
type anon = struct {
	AnA int
	AnS string
}

func embedded(kind int) bool { return kind == aEmb || kind == aAnon }

func pointer(kind int) bool {
	switch kind {
	case aLeafP, aPInt, aPStr, aPNum, aPFloat, aPBool:
		return true
	}
	return false
}

// Mini is a small struct of odd size.
type Mini struct {
	A bool
	B uint8
	C bool
	D float32
	E int16
}

type aType struct {
	name string
	kind int
	typ  reflect.Type
}

var aTypes = []aType{
	{"int", aInt, reflect.TypeOf(0)},
	{"i8", aInt, reflect.TypeOf(int8(0))},
	{"i16", aInt, reflect.TypeOf(int16(0))},
	{"i32", aInt, reflect.TypeOf(int32(0))},
	{"i64", aInt, reflect.TypeOf(int64(0))},
	{"u", aInt, reflect.TypeOf(uint(0))},
	{"u8", aInt, reflect.TypeOf(uint8(0))},
	{"u16", aInt, reflect.TypeOf(uint16(0))},
	{"u32", aInt, reflect.TypeOf(uint32(0))},
	{"u64", aInt, reflect.TypeOf(uint64(0))},
	{"f32", aFloat, reflect.TypeOf(float32(0))},
	{"f64", aFloat, reflect.TypeOf(0.0)},
	{"str", aStr, reflect.TypeOf("")},
	{"bool", aBool, reflect.TypeOf(true)},
	{"leaf", aLeaf, reflect.TypeOf(Leaf{})},
	{"leafp", aLeafP, reflect.TypeOf(&Leaf{})},
	{"pint", aPInt, reflect.TypeOf((*int)(nil))},
	{"pstr", aPStr, reflect.TypeOf((*string)(nil))},
	{"strs", aStrs, reflect.TypeOf([]string{})},
	{"ints", aInts, reflect.TypeOf([]int{})},
	{"leafs", aLeafs, reflect.TypeOf([]Leaf{})},
	{"any", aAny, reflect.TypeOf((*interface{})(nil)).Elem()},
	{"map", aMap, reflect.TypeOf(map[string]int{})},
	{"mini", aMini, reflect.TypeOf(Mini{})},
	{"alt", aAlt, reflect.TypeOf(Alt{})},
	{"emb", aEmb, reflect.TypeOf(Emb{})},
	{"node", aNode, reflect.TypeOf(Node{})},
	{"ptrs", aPtrs, reflect.TypeOf([]*Leaf{})},
	{"mapp", aMapP, reflect.TypeOf(map[string]*Leaf{})},
	{"mapl", aMapL, reflect.TypeOf(map[string]Leaf{})},
	{"maps", aMapS, reflect.TypeOf(map[string]string{})},
	{"floats", aFloats, reflect.TypeOf([]float64{})},
	{"bools", aBools, reflect.TypeOf([]bool{})},
	{"smalls", aSmalls, reflect.TypeOf([]int8{})},
	{"pi8", aPNum, reflect.TypeOf((*int8)(nil))},
	{"pi16", aPNum, reflect.TypeOf((*int16)(nil))},
	{"pi32", aPNum, reflect.TypeOf((*int32)(nil))},
	{"pi64", aPNum, reflect.TypeOf((*int64)(nil))},
	{"pf32", aPFloat, reflect.TypeOf((*float32)(nil))},
	{"pf64", aPFloat, reflect.TypeOf((*float64)(nil))},
	{"pbool", aPBool, reflect.TypeOf((*bool)(nil))},
	{"anys", aAnys, reflect.TypeOf([]interface{}{})},
	{"time", aTime, reflect.TypeOf(time.Time{})},
	{"arr", aArr, reflect.TypeOf([3]int{})},
	{"anon", aAnon, reflect.TypeOf(anon{})},
	{"nstr", aStr, reflect.TypeOf(NamedStr(""))},
	{"nint", aInt, reflect.TypeOf(NamedInt(0))},
}

type aVar struct {
	name string
	aType
	child bool // defined in the child scope
}

// value is a value of the variable's type.
func (v *aVar) value(r *Rand) interface{} {
	word := func() string {
		if r.P(10) {
			return strings.Repeat(letters(r.N(30000)), r.In(2, 30))
		}
		return letters(r.N(30000))
	}
	leaf := func() Leaf {
		return Leaf{ID: r.In(-9, 5000), Name: word(), Price: float64(r.N(900)) / 8, On: r.P(50)}
	}
	switch v.kind {
	case aInt:
		n := int64(r.N(120))
		switch v.typ.Size() {
		case 2:
			n = int64(r.N(32000))
		case 4:
			n = int64(r.N(2000000000))
		case 8:
			n = int64(r.U() >> pick(r, 2, 2, 20, 40))
		}
		if k := v.typ.Kind(); k >= reflect.Int && k <= reflect.Int64 && r.P(40) {
			n = -n
			if v.typ.Size() == 8 && r.P(5) {
				n = -1 << 63
			}
		}
		return reflect.ValueOf(n).Convert(v.typ).Interface()
	case aFloat:
		f := float64(r.In(-5000, 5000)) / 8
		if v.typ.Kind() == reflect.Float64 && r.P(5) {
			f = bigFloat(r)
		}
		return reflect.ValueOf(f).Convert(v.typ).Interface()
	case aStr:
		return reflect.ValueOf(word()).Convert(v.typ).Interface()
	case aPNum:
		x := reflect.New(v.typ.Elem())
		x.Elem().SetInt(int64(r.In(-100, 120)))
		return x.Interface()
	case aPFloat:
		x := reflect.New(v.typ.Elem())
		x.Elem().SetFloat(float64(r.In(-5000, 5000)) / 8)
		return x.Interface()
	case aPBool:
		b := r.P(50)
		return &b
	case aAnys:
		l := []interface{}{}
		for i := r.N(4); i > 0; i-- {
			if r.P(50) {
				l = append(l, r.N(9999))
			} else {
				l = append(l, word())
			}
		}
		return l
	case aTime:
		return time.Unix(int64(r.N(2000000000)), 0).UTC()
	case aArr:
		return [3]int{r.N(99), r.N(9999), r.N(9)}
	case aAnon:
		return anon{AnA: r.N(9999), AnS: word()}
	case aBool:
		return r.P(50)
	case aLeaf:
		return leaf()
	case aLeafP:
		l := leaf()
		return &l
	case aPInt:
		n := r.In(-999, 99999)
		return &n
	case aPStr:
		s := word()
		return &s
	case aStrs:
		l := []string{}
		for i := r.N(5); i > 0; i-- {
			l = append(l, word())
		}
		return l
	case aInts:
		l := []int{}
		for i := r.N(5); i > 0; i-- {
			l = append(l, r.N(9999))
		}
		return l
	case aLeafs:
		l := []Leaf{}
		for i := r.N(4); i > 0; i-- {
			l = append(l, leaf())
		}
		return l
	case aAny:
		if r.P(50) {
			return r.N(99999)
		}
		return word()
	case aMap:
		return map[string]int{"a": r.N(999), "b": r.N(999)}
	case aMini:
		return Mini{A: r.P(50), B: uint8(r.N(120)), C: r.P(50), D: float32(r.N(900)) / 8, E: int16(r.N(30000))}
	case aAlt:
		return Alt{On: r.P(50), Name: word(), Pad: [3]int{r.N(9), r.N(9), 7}, ID: r.N(9999)}
	}
	l := leaf()
	switch v.kind {
	case aNode:
		return Node{Title: word(), Count: r.N(9999), Rate: float64(r.N(900)) / 8, Flag: r.P(50), Leaf: leaf()}
	case aPtrs:
		x := []*Leaf{}
		for i := r.N(4); i > 0; i-- {
			l := leaf()
			x = append(x, &l)
		}
		return x
	case aMapP:
		return map[string]*Leaf{"a": &l, "b": {ID: r.N(99)}}
	case aMapL:
		return map[string]Leaf{"a": l, "b": leaf()}
	case aMapS:
		return map[string]string{"a": word(), "b": word()}
	case aFloats:
		x := []float64{}
		for i := r.N(4); i > 0; i-- {
			x = append(x, float64(r.N(900))/8)
		}
		return x
	case aBools:
		x := []bool{}
		for i := r.N(9); i > 0; i-- {
			x = append(x, r.P(50))
		}
		return x
	case aSmalls:
		x := []int8{}
		for i := r.N(9); i > 0; i-- {
			x = append(x, int8(r.In(-100, 100)))
		}
		return x
	}
	return Emb{EmA: r.N(9999), EmS: word()}
}

// copyValue keeps a value that has been handed out.
func copyValue(x interface{}) interface{} {
	switch a := x.(type) {
	case []string:
		return append([]string{}, a...)
	case []int:
		return append([]int{}, a...)
	case []Leaf:
		return append([]Leaf{}, a...)
	case map[string]int:
		m := map[string]int{}
		for k, v := range a {
			m[k] = v
		}
		return m
	case []float64:
		return append([]float64{}, a...)
	case []bool:
		return append([]bool{}, a...)
	case []int8:
		return append([]int8{}, a...)
	case []interface{}:
		return append([]interface{}{}, a...)
	case *Leaf, *int, *string, *int8, *int16, *int32, *int64, *float32, *float64, *bool, []*Leaf, map[string]*Leaf:
		return nil // templates may write through it
	}
	return x
}

// form is what the caller may give for the value: a pointer to a struct, or
// another kind of integer.
func (v *aVar) form(r *Rand, x interface{}) interface{} {
	switch v.kind {
	case aStr: // a value of a named type is not accepted
		return fmt.Sprint(x)
	case aLeaf, aMini, aAlt, aNode:
		if r.P(25) {
			p := reflect.New(v.typ)
			p.Elem().Set(reflect.ValueOf(x))
			return p.Interface()
		}
	case aInt:
		switch v.typ.Kind() {
		case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Uint8, reflect.Uint16, reflect.Uint32:
			if r.P(25) {
				t := []reflect.Type{reflect.TypeOf(0), reflect.TypeOf(int64(0)), reflect.TypeOf(uint32(0))}[r.N(2)]
				return reflect.ValueOf(x).Convert(t).Interface()
			}
		}
	}
	return x
}

// src prints the variable.
func (v *aVar) src() string {
	n := "${" + v.name
	switch v.kind {
	case aLeaf, aLeafP:
		return n + ".ID}," + n + ".Name}," + n + ".Price}," + n + ".On}"
	case aStrs, aInts, aFloats, aBools, aSmalls, aAnys:
		return "#foreach($q" + v.name + " in $" + v.name + ")${q" + v.name + "},#end"
	case aLeafs, aPtrs:
		return "#foreach($q" + v.name + " in $" + v.name + ")${q" + v.name + ".ID},${q" + v.name + ".Name},#end"
	case aMapP, aMapL:
		return "$" + v.name + "[\"a\"].ID,$" + v.name + "[\"a\"].Name,$" + v.name + "[\"b\"].ID"
	case aNode:
		return n + ".Title}," + n + ".Count}," + n + ".Rate}," + n + ".Flag}," + n + ".Leaf.ID}," + n + ".Leaf.Name}"
	case aMap, aMapS:
		return "$" + v.name + "[\"a\"],$" + v.name + "[\"b\"]"
	case aMini:
		return n + ".A}," + n + ".B}," + n + ".C}," + n + ".D}," + n + ".E}"
	case aAlt:
		return n + ".On}," + n + ".Name}," + n + ".ID}"
	case aEmb:
		return "$EmA,$EmS"
	case aAnon:
		return "$AnA,$AnS"
	}
	return n + "}"
}

// shows tells whether the printed text is that of the value.
func (v *aVar) shows(x interface{}, text string) bool {
	p := strings.Split(text, ",")
	float := func(s string, f float64) bool {
		g, err := strconv.ParseFloat(s, 64)
		return err == nil && (g == f || float32(g) == float32(f) && v.typ.Kind() == reflect.Float32)
	}
	is := func(l ...interface{}) bool {
		if len(p) != len(l) {
			return false
		}
		for i, e := range l {
			if f, ok := e.(float64); ok {
				if !float(p[i], f) {
					return false
				}
			} else if fmt.Sprint(e) != p[i] {
				return false
			}
		}
		return true
	}
	list := func(x interface{}) bool {
		s := ""
		for l, i := reflect.ValueOf(x), 0; i < l.Len(); i++ {
			s += fmt.Sprint(l.Index(i).Interface()) + ","
		}
		return text == s
	}
	if r := reflect.ValueOf(x); v.kind == aPNum || v.kind == aPFloat || v.kind == aPBool {
		text = strings.Trim(text, `"`)
		if v.kind == aPFloat {
			f, err := strconv.ParseFloat(text, 64)
			return err == nil && (f == r.Elem().Float() || float32(f) == float32(r.Elem().Float()))
		}
		return text == fmt.Sprint(r.Elem().Interface())
	}
	switch a := x.(type) {
	case []bool, []int8, []interface{}:
		return list(a)
	case time.Time:
		return strings.Trim(text, `"`) == a.Format(time.RFC3339Nano)
	case [3]int:
		return text == js(a)
	case anon:
		return is(a.AnA, a.AnS)
	case []float64:
		if len(p) != len(a)+1 {
			return false
		}
		for i, f := range a {
			if !float(p[i], f) {
				return false
			}
		}
		return true
	case map[string]string:
		return is(a["a"], a["b"])
	case map[string]*Leaf:
		return is(a["a"].ID, a["a"].Name, a["b"].ID)
	case map[string]Leaf:
		return is(a["a"].ID, a["a"].Name, a["b"].ID)
	case Node:
		return is(a.Title, a.Count, a.Rate, a.Flag, a.Leaf.ID, a.Leaf.Name)
	case []*Leaf:
		s := ""
		for _, n := range a {
			s += strconv.Itoa(n.ID) + "," + n.Name + ","
		}
		return text == s
	case float32:
		return is(float64(a))
	case Leaf:
		return is(a.ID, a.Name, a.Price, a.On)
	case *Leaf:
		return is(a.ID, a.Name, a.Price, a.On)
	case *int:
		return strings.Trim(text, `"`) == strconv.Itoa(*a)
	case *string:
		return strings.Trim(text, `"`) == *a
	case []string:
		return text == strings.Join(append(append([]string{}, a...), ""), ",") || len(a) == 0 && text == ""
	case []int:
		s := ""
		for _, n := range a {
			s += strconv.Itoa(n) + ","
		}
		return text == s
	case []Leaf:
		s := ""
		for _, n := range a {
			s += strconv.Itoa(n.ID) + "," + n.Name + ","
		}
		return text == s
	case map[string]int:
		return is(a["a"], a["b"])
	case Mini:
		return is(a.A, a.B, a.C, float64(a.D), a.E)
	case Alt:
		return is(a.On, a.Name, a.ID)
	case Emb:
		return is(a.EmA, a.EmS)
	}
	return is(x)
}

// aAssign is one assignment of a template, or a loop that assigns what it
// iterates, or a call that keeps a variable.
type aAssign struct {
	text string
	to   int // variable assigned, -1: none
	from int // variable it is given, -1: none
	lit  interface{}
	add  int
	pos  int  // field of the variable, -1: all
	fpos int  // field of from
	loop int  // variable iterated, -1: none
	bump bool // changed by a function through the pointer
	conv bool // between types: it may not compile, and what it gives is not compared
}

type aPlan struct {
	opts   Opts
	vars   []*aVar // the last ones are local to the template
	locals int
	inits  []int // variables the locals start with
	cases  [][]*aAssign
	order  []int
	child  bool
	b      *builtPlan
}

func (p *aPlan) print() string {
	var sb strings.Builder
	for _, v := range p.vars {
		sb.WriteString("~" + v.src())
	}
	return sb.String() + "|"
}

func (p *aPlan) text() string {
	var sb strings.Builder
	for i := 0; i < p.locals; i++ {
		fmt.Fprintf(&sb, "#set($%s = $%s)", p.vars[len(p.vars)-p.locals+i].name, p.vars[p.inits[i]].name)
	}
	sb.WriteString(p.print())
	for i, c := range p.cases {
		fmt.Fprintf(&sb, "#if($sel == %d)", i+1)
		for _, a := range c {
			sb.WriteString(a.text + "|" + p.print())
		}
		sb.WriteString("#end")
	}
	return sb.String() + "."
}

// AsgStep is a step of an OpAssign.
type AsgStep struct {
	St     int // one of the states of the operation
	Sel    int
	Set    []int // variables set before
	Seed   uint64
	New    bool // a new state
	Faults []Fault
}

func genAssignWorld(r *Rand, w *World) *World {
	vars := []string{"i1"}
	w.Planners = append(w.Planners, &PlannerSpec{Opts: Opts{Buf: -1, Cache: -1}, Vars: vars})
	w.Scopes = append(w.Scopes, &ScopeSpec{Planner: 0, Parent: -1, X: TNone, xT: TNone})
	for i := r.In(1, 2); i > 0; i-- {
		w.Asg = append(w.Asg, genAPlan(r.Fork(), w.Cfg.opts(r)))
	}
	for t := r.In(1, 3); t > 0; t-- {
		var ops []*OpSpec
		for i := r.In(1, 2); i > 0; i-- {
			o := &OpSpec{ID: w.opID(), Kind: OpAssign, Plan: r.N(len(w.Asg)), Slot: -1, Pool: -1}
			p := w.Asg[o.Plan]
			for k := r.In(3, 14); k > 0; k-- {
				s := &AsgStep{St: r.N(2), Sel: r.N(len(p.cases) + 1), Seed: r.U(), New: r.P(8)}
				if r.P(50) {
					for j := r.In(1, 4); j > 0; j-- {
						s.Set = append(s.Set, r.N(len(p.vars)-p.locals))
					}
				}
				if r.P(20) {
					s.Faults = []Fault{{At: r.In(1, 2), Kind: FGC}}
				}
				o.Asg = append(o.Asg, s)
			}
			ops = append(ops, o)
		}
		w.Tasks = append(w.Tasks, ops)
	}
	return w
}

func genAPlan(r *Rand, o Opts) *aPlan {
	p := &aPlan{opts: o, child: r.P(30)}
	p.opts.Escape, p.opts.Panic = false, false
	emb := map[int]bool{}
	some := aTypes
	if r.P(50) { // several of a few types
		some = nil
		for i := r.In(2, 6); i > 0; i-- {
			some = append(some, aTypes[r.N(len(aTypes))])
		}
	}
	for i := r.In(2, 16); i > 0; i-- {
		t := some[r.N(len(some))]
		if embedded(t.kind) {
			if emb[t.kind] {
				continue
			}
			emb[t.kind] = true
		}
		p.vars = append(p.vars, &aVar{name: "v" + strconv.Itoa(len(p.vars)) + t.name, aType: t, child: r.P(50)})
	}
	if len(p.vars) == 0 {
		p.vars = append(p.vars, &aVar{name: "v0int", aType: aTypes[0]})
	}
	n := len(p.vars)
	for i := r.N(4); i > 0; i-- {
		k := r.N(n)
		if embedded(p.vars[k].kind) || p.vars[k].kind == aAny || p.vars[k].kind == aFloat && p.vars[k].typ.Size() == 4 {
			continue
		}
		p.inits = append(p.inits, k)
		p.vars = append(p.vars, &aVar{name: "l" + strconv.Itoa(p.locals) + p.vars[k].aType.name, aType: p.vars[k].aType})
		p.locals++
	}
	for i := r.In(1, 6); i > 0; i-- {
		var c []*aAssign
		for k := r.In(1, 4); k > 0; k-- {
			if a := p.genAssign(r); a != nil {
				c = append(c, a)
			}
		}
		if len(c) > 0 {
			p.cases = append(p.cases, c)
		}
	}
	return p
}

// fieldsOf are the parts of a printed variable that can be assigned.
var fieldsOf = map[int][]aField{
	aLeaf: fields(Leaf{}, "ID", "Name", "Price", "On"), aLeafP: fields(Leaf{}, "ID", "Name", "Price", "On"),
	aAlt:  fields(Alt{}, "On", "Name", "ID"),
	aMini: fields(Mini{}, "A", "B", "C", "D", "E"),
	aNode: fields(Node{}, "Title", "Count", "Rate", "Flag", "Leaf.ID", "Leaf.Name"),
}

type aField struct {
	path string
	kind int
	typ  reflect.Type
}

func fields(x interface{}, paths ...string) (l []aField) {
	for _, p := range paths {
		t := reflect.TypeOf(x)
		for _, n := range strings.Split(p, ".") {
			f, _ := t.FieldByName(n)
			t = f.Type
		}
		k := aInt
		switch t.Kind() {
		case reflect.String:
			k = aStr
		case reflect.Bool:
			k = aBool
		case reflect.Float32, reflect.Float64:
			k = aFloat
		}
		l = append(l, aField{p, k, t})
	}
	return
}

// bumps are functions that change what a pointer points to.
var bumps = map[int]string{aPInt: "bumpi", aPStr: "bumps", aPBool: "bumpb", aLeafP: "bumpl"}

func registerBumps(p *velty.Planner) {
	must(p.RegisterFunction("bumpi", func(p *int) string {
		if p != nil {
			*p += 7
		}
		return ""
	}))
	must(p.RegisterFunction("bumps", func(p *string) string {
		if p != nil {
			*p = "b" + *p
		}
		return ""
	}))
	must(p.RegisterFunction("bumpb", func(p *bool) string {
		if p != nil {
			*p = !*p
		}
		return ""
	}))
	must(p.RegisterFunction("bumpl", func(p *Leaf) string {
		if p != nil {
			p.ID += 7
		}
		return ""
	}))
}

// bumped is how the variable prints after the function has changed it.
func bumped(v *aVar, text string) string {
	t := strings.Trim(text, `"`)
	switch v.kind {
	case aPInt:
		if n, err := strconv.Atoi(t); err == nil {
			return strconv.Itoa(n + 7)
		}
	case aPStr:
		if text != "null" {
			return `"b` + t + `"`
		}
	case aPBool:
		if t == "true" {
			return "false"
		} else if t == "false" {
			return "true"
		}
	case aLeafP:
		l := strings.SplitN(t, ",", 2)
		if n, err := strconv.Atoi(l[0]); err == nil && len(l) == 2 {
			return strconv.Itoa(n+7) + "," + l[1]
		}
	}
	return text
}

func (p *aPlan) genAssign(r *Rand) *aAssign {
	a := &aAssign{to: r.N(len(p.vars)), from: -1, pos: -1, fpos: -1, loop: -1}
	v := p.vars[a.to]
	name, kind, typ := "$"+v.name, v.kind, v.typ
	if embedded(v.kind) {
		a.pos = r.N(2)
		names := []string{"$EmA", "$EmS"}
		if v.kind == aAnon {
			names = []string{"$AnA", "$AnS"}
		}
		name, kind, typ = names[a.pos], []int{aInt, aStr}[a.pos], []reflect.Type{reflect.TypeOf(0), reflect.TypeOf("")}[a.pos]
	} else if f := fieldsOf[v.kind]; f != nil && r.P(60) {
		a.pos = r.N(len(f))
		name, kind, typ = name+"."+f[a.pos].path, f[a.pos].kind, f[a.pos].typ
	}
	if r.P(8) {
		// a function keeps it
		a.to = -1
		switch v.kind {
		case aInt, aFloat, aStr, aBool, aLeaf, aAny, aMini, aAlt:
		default:
			return nil
		}
		a.text = "$fk($" + v.name + ")"
		return a
	}
	// a function changes what it points to
	if f, ok := bumps[v.kind]; ok && r.P(30) {
		a.pos, a.bump = -1, true
		a.text = "$" + f + "($" + v.name + ")"
		return a
	}
	set := func(from string) *aAssign { a.text = "#set(" + name + " = " + from + ")"; return a }
	// from a variable of another type
	if r.P(12) && a.pos < 0 {
		if i := r.N(len(p.vars)); p.vars[i].typ != typ && !embedded(p.vars[i].kind) {
			a.conv, a.from = true, i
			return set("$" + p.vars[i].name)
		}
	}
	// from another variable of the type
	var from []int
	for i, x := range p.vars {
		if x.typ == typ && x.kind == kind && !embedded(x.kind) {
			from = append(from, i)
		}
	}
	if len(from) > 0 && r.P(60) {
		a.from = from[r.N(len(from))]
		if (kind == aStrs || kind == aInts || kind == aFloats || kind == aBools || kind == aSmalls || kind == aAnys) && r.P(50) && a.pos < 0 {
			a.loop = a.to
			q := "q" + v.name
			a.text = "#foreach($" + q + " in $" + v.name + ")#set($" + v.name + " = $" + p.vars[a.from].name + ")${" + q + "},#end"
			return a
		}
		if kind == aInt && typ.Kind() == reflect.Int && r.P(25) {
			a.add = r.In(1, 99)
			return set("$" + p.vars[a.from].name + " + " + strconv.Itoa(a.add))
		}
		return set("$" + p.vars[a.from].name)
	}
	// from a field
	if r.P(30) {
		for i, x := range p.vars {
			for k, f := range fieldsOf[x.kind] {
				if f.typ == typ && r.P(50) {
					a.from, a.fpos = i, k
					return set("$" + x.name + "." + f.path)
				}
			}
		}
	}
	// from a constant
	switch kind {
	case aInt, aPInt, aPNum:
		a.lit = r.N(120)
		return set(fmt.Sprint(a.lit))
	case aStr, aPStr:
		a.lit = letters(r.N(9999))
		return set(fmt.Sprintf("%q", a.lit))
	case aBool, aPBool:
		a.lit = r.P(50)
		return set(fmt.Sprint(a.lit))
	case aFloat, aPFloat:
		a.lit = float64(r.N(400))/4 + 0.5
		return set(fmt.Sprintf("%.2f", a.lit))
	}
	return nil
}

// newAPlanner is a planner with the plan's variables.
func (w *World) newAPlanner(p *aPlan) *velty.Planner {
	pl := newPlanner(w.opts(p.opts), nil)
	registerBumps(pl)
	define := func(pl *velty.Planner, child bool) {
		for _, v := range p.vars[:len(p.vars)-p.locals] {
			switch {
			case p.child && v.child != child:
			case v.kind == aEmb:
				must(pl.EmbedVariable(Emb{}))
			case v.kind == aAnon:
				must(pl.EmbedVariable(anon{}))
			default:
				must(pl.DefineVariable(v.name, v.typ))
			}
		}
	}
	must(pl.DefineVariable("sel", 0))
	define(pl, false)
	if p.child {
		pl = pl.New()
		define(pl, true)
	}
	return pl
}

// buildAssign compiles the plans.
func (w *World) buildAssign() {
	for i, p := range w.Asg {
		need := w.mode.OnlyOp < 0 || w.mode.BuildAll
		w.eachOp(func(o *OpSpec) { need = need || o.ID == w.mode.OnlyOp && o.Plan == i })
		if !need {
			continue
		}
		// leave out the conversions there are not
		var cases [][]*aAssign
		for _, c := range p.cases {
			var l []*aAssign
			for _, a := range c {
				if a.conv {
					q := *p
					q.cases = [][]*aAssign{{a}}
					if w.compile(w.newAPlanner(&q), q.text()).err != nil {
						w.probe("conversions-rejected", 1)
						continue
					}
				}
				l = append(l, a)
			}
			cases = append(cases, l)
		}
		p.cases = cases
		p.b = w.compile(w.newAPlanner(p), p.text())
	}
}

// aState is a state and what it printed last.
type aState struct {
	st   *est.State
	last []string
	set  map[int]interface{} // values set since
}

type heldValue struct {
	name      string
	val, copy interface{}
}

// runAssign runs an OpAssign.
func (w *World) runAssign(task int, o *OpSpec) (r *Rec) {
	c := w.newCtx(o.ID, nil, FNone)
	r = &Rec{Task: task, Op: o.ID, What: fmt.Sprintf("assignments of plan%d", o.Plan), Ctx: c, Res: &Result{}, Start: seqNow()}
	p := w.Asg[o.Plan]
	if p.b.err != nil {
		w.probe("assign-failed", 1)
		r.Err = p.b.err
		return r
	}
	defer func() {
		r.End = seqNow()
		if x := recover(); x != nil {
			if se, ok := x.(setupErr); ok {
				r.Err = se.err
				return
			}
			r.Err = fmt.Errorf("panic: %v", x)
		}
	}()
	var states [2]*aState
	var held []heldValue
	bad := func(sub int, f string, x ...interface{}) {
		if r.Asg == "" {
			r.Asg = fmt.Sprintf("step %d: ", sub) + fmt.Sprintf(f, x...)
		}
	}
	for i, s := range o.Asg {
		if w.drop[o.ID*1000+i+1] {
			continue
		}
		simrt.Y(simrt.SiteOp)
		a := states[s.St]
		if a == nil || s.New {
			a = &aState{st: p.b.ns(), set: map[int]interface{}{}}
			states[s.St] = a
		} else {
			a.st.Reset()
		}
		vr := NewRand(s.Seed)
		for _, k := range s.Set {
			v := p.vars[k]
			x := v.value(vr)
			held = append(held, heldValue{v.name, x, copyValue(x)})
			if embedded(v.kind) {
				must(a.st.EmbedValue(x))
			} else {
				must(a.st.SetValue(v.name, v.form(vr, x)))
			}
			if pointer(v.kind) { // a template may change what it points to
				y := reflect.New(v.typ.Elem())
				y.Elem().Set(reflect.ValueOf(x).Elem())
				x = y.Interface()
			}
			a.set[k] = x
		}
		must(a.st.SetValue("sel", s.Sel))
		c.faults, c.n = s.Faults, 0
		res := realExec(c, p.b.ex, a.st)
		w.probe("assign-steps", 1)
		if (res.Err != nil || res.Panicked) && s.Sel > 0 && s.Sel <= len(p.cases) {
			conv := false
			for _, as := range p.cases[s.Sel-1] {
				conv = conv || as.conv
			}
			if conv && res.Panicked { // of a nil pointer
				w.probe("conversions-panicked", 1)
				return r
			}
			if conv { // a text that is no number
				res.Err = nil
			}
		}
		if res.Panicked || res.Err != nil {
			w.probe("assign-failed", 1)
			r.Err = fmt.Errorf("step %d: panic %v, error %v", i+1, res.Panic, res.Err)
			return r
		}
		out := strings.Clone(res.Out)
		w.stats.Execs++
		w.checkAssign(p, a, s, i+1, out, bad)
		if r.Asg != "" {
			r.Res.Out = out
			return r
		}
	}
	for _, h := range held {
		if h.copy != nil && !equalVals(h.val, h.copy) {
			bad(len(o.Asg), "the caller's value of %s was %s, and is %s", h.name, js(h.copy), js(h.val))
		}
	}
	return r
}

// checkAssign checks the output of one execution.
func (w *World) checkAssign(p *aPlan, a *aState, s *AsgStep, step int, out string, bad func(int, string, ...interface{})) {
	parts := strings.Split(out, "|")
	var c []*aAssign
	if s.Sel > 0 && s.Sel <= len(p.cases) {
		c = p.cases[s.Sel-1]
	}
	n := len(p.vars)
	split := func(t string) []string {
		l := strings.Split(t, "~")
		if len(l) != n+1 {
			return nil
		}
		return l[1:]
	}
	cur := split(parts[0])
	if len(parts) != 2+2*len(c) || cur == nil {
		bad(step, "unexpected output %q", out)
		return
	}
	// as the state was left, but for what was set
	first := a.last == nil
	for i, v := range p.vars[:n-p.locals] {
		if x, ok := a.set[i]; ok {
			if !v.shows(x, cur[i]) {
				bad(step, "%s was set to %s, and prints %q", v.name, js(x), cur[i])
			}
		} else if !first && cur[i] != a.last[i] {
			bad(step, "%s has not been set, and prints %q instead of %q (set: %v)", v.name, cur[i], a.last[i], p.names(a.set))
		}
	}
	for i := 0; i < p.locals; i++ {
		v, f := p.vars[n-p.locals+i], p.vars[p.inits[i]]
		if cur[n-p.locals+i] != cur[p.inits[i]] {
			bad(step, "%s was assigned $%s, which prints %q, and prints %q", v.name, f.name, cur[p.inits[i]], cur[n-p.locals+i])
		}
	}
	for k, as := range c {
		next := split(parts[2+2*k])
		if next == nil {
			bad(step, "unexpected output %q", out)
			return
		}
		w.probe("assignments", 1)
		for i, v := range p.vars {
			if i == as.to {
				if v.kind == aLeafP && as.pos >= 0 && cur[i] == "0,,0,false" && next[i] == cur[i] {
					continue // there is nothing to assign to
				}
				if m := as.wrong(p, cur, next[i]); m != "" && !(as.loop >= 0 && cur[i] == "") {
					bad(step, "after %s, %s", as.text, m)
				}
				continue
			}
			if next[i] == cur[i] {
				continue
			}
			if as.to >= 0 && v.kind == p.vars[as.to].kind && pointer(v.kind) {
				continue // they may point to the same
			}
			bad(step, "after %s, %s prints %q instead of %q", as.text, v.name, next[i], cur[i])
		}
		if as.loop >= 0 {
			if got := parts[1+2*k]; got != cur[as.loop] {
				bad(step, "%s printed %q, the items of $%s were %q", as.text, got, p.vars[as.loop].name, cur[as.loop])
			}
		}
		cur = next
	}
	a.last, a.set = cur, map[int]interface{}{}
}

func (p *aPlan) names(m map[int]interface{}) (l []string) {
	for i, v := range p.vars {
		if _, ok := m[i]; ok {
			l = append(l, v.name)
		}
	}
	return
}

// wrong tells how the assigned variable differs from what it was given.
func (as *aAssign) wrong(p *aPlan, cur []string, got string) string {
	v := p.vars[as.to]
	if as.conv {
		return ""
	}
	want := ""
	full := cur[as.to]
	part := func(i int, t string) string {
		if l := strings.Split(t, ","); i >= 0 && i < len(l) {
			return l[i]
		}
		return t
	}
	switch {
	case as.bump:
		want = bumped(v, full)
	case as.from >= 0:
		want = cur[as.from]
		if as.fpos >= 0 {
			want = part(as.fpos, want)
		}
		if as.add != 0 {
			n, err := strconv.Atoi(want)
			if err != nil {
				return ""
			}
			want = strconv.Itoa(n + as.add)
		}
	case v.kind == aFloat || v.kind == aPFloat || as.pos >= 0 && fieldsOf[v.kind] != nil && fieldsOf[v.kind][as.pos].kind == aFloat:
		g, err := strconv.ParseFloat(strings.Trim(part(as.pos, got), `"`), 64)
		if err != nil || g != as.lit.(float64) {
			return fmt.Sprintf("%s prints %q", v.name, got)
		}
		want = part(as.pos, got)
	default:
		want = fmt.Sprint(as.lit)
	}
	if as.pos >= 0 {
		l := strings.Split(full, ",")
		if as.pos < len(l) {
			l[as.pos] = want
		}
		want = strings.Join(l, ",")
	}
	if as.bump && v.kind == aLeafP && full == "0,,0,false" && got == full {
		return "" // nil
	}
	if got == want || (pointer(v.kind) || v.kind == aAny || v.kind == aTime) && strings.Trim(got, `"`) == strings.Trim(want, `"`) {
		return ""
	}
	return fmt.Sprintf("%s prints %q instead of %q", v.name, got, want)
}
