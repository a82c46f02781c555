package main

import (
	"encoding/json"
	"fmt"
	"html"
	"io"
	"math"
	"reflect"
	"strconv"
	"strings"
	"time"
)

// Ty is the type of a template expression.
type Ty int

const (
	TInt Ty = iota
	TStr
	TFloat
	TBool
	TLeaf
	TLeafPtr
	TNode
	TStrs
	TInts
	TLeafs
	TPtrs
	TMap
	TAny
	TTime
	TSmall // an integer of another size
	TF32
	TPInt
	TPStr
	TNone
)

// Ex is a template expression: its source and its meaning in the model.
type Ex struct {
	T    Ty
	Src  string
	Eval func(e *Env) interface{}
	Call bool // contains a call
	Atom bool // may be used as an operand without parentheses
	Sel  bool // is a selector (can be printed, indexed, called)
}

// Env is the state of the reference model.
type Env struct {
	v          map[string]interface{}
	out        *strings.Builder
	c          *Ctx
	errs       *[]error
	panicOnErr bool
	escape     bool
	dyn        func(scope int, text string) *Tmpl
	scope      int
	xT         Ty
	ys         map[string]Ty
	depth      int
	steps      int
	fver       int // of the function rv
}

type modelErr struct{ err error }

func (e *Env) addErr(err error) {
	if err == nil {
		return
	}
	*e.errs = append(*e.errs, err)
	if e.panicOnErr {
		panic(modelErr{err})
	}
}

func (e *Env) str(s string) {
	if e.escape {
		s = html.EscapeString(s)
	}
	e.out.WriteString(s)
}

// small is the value of an integer of any size.
func small(v interface{}) int {
	switch a := reflect.ValueOf(v); a.Kind() {
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint, reflect.Uint64:
		return int(a.Uint())
	default:
		return int(a.Int())
	}
}

// print renders a value the way the engine appends it.
func (e *Env) print(t Ty, v interface{}) {
	switch t {
	case TInt:
		e.out.WriteString(strconv.Itoa(v.(int)))
	case TSmall:
		e.out.WriteString(strconv.Itoa(small(v)))
	case TF32:
		e.str(strconv.FormatFloat(reflect.ValueOf(v).Float(), 'f', -1, 64))
	case TPInt:
		if a := v.(*int); a != nil {
			e.out.WriteString(strconv.Itoa(*a))
			break
		}
		e.str("null")
	case TStr:
		e.str(v.(string))
	case TFloat:
		e.str(strconv.FormatFloat(v.(float64), 'f', -1, 64))
	case TBool:
		e.str(strconv.FormatBool(v.(bool)))
	case TAny:
		switch a := v.(type) {
		case string:
			e.str(a)
		case int:
			e.out.WriteString(strconv.Itoa(a))
		case float64:
			e.str(strconv.FormatFloat(a, 'f', -1, 64))
		case time.Time:
			e.str(a.Format(time.RFC3339))
		case *time.Time:
			e.str(a.Format(time.RFC3339))
		case bool:
			e.str(strconv.FormatBool(a))
		default:
			e.str(fmt.Sprintf("%v", a))
		}
	default:
		b, _ := json.Marshal(v)
		e.str(string(b))
	}
}

// Stmt is a template statement.
type Stmt struct {
	ID    int
	Keep  bool // cannot be dropped by the minimiser (defines a variable)
	Head  string
	Body  []*Stmt
	Mid   string
	Else  []*Stmt
	Tail  string
	Run   func(e *Env, s *Stmt)
	IsTxt bool
}

// Tmpl is a generated template.
type Tmpl struct {
	Body []*Stmt
	drop map[int]bool
	text string
	eval bool // may contain #evaluate
	ys   map[string]bool
}

func (t *Tmpl) render(sb *strings.Builder, list []*Stmt) {
	for _, s := range list {
		if t.drop[s.ID] && !s.Keep {
			continue
		}
		sb.WriteString(s.Head)
		t.render(sb, s.Body)
		sb.WriteString(s.Mid)
		t.render(sb, s.Else)
		sb.WriteString(s.Tail)
	}
}

// Text is the template source.
func (t *Tmpl) Text() string {
	if t.text == "" {
		var sb strings.Builder
		t.render(&sb, t.Body)
		t.text = sb.String()
	}
	return t.text
}

func (t *Tmpl) run(e *Env, list []*Stmt) {
	for _, s := range list {
		if t.drop[s.ID] && !s.Keep {
			continue
		}
		e.steps++
		s.Run(e, s)
	}
}

// Exec runs the template in the model.
func (t *Tmpl) Exec(e *Env) { t.run(e, t.Body) }

// VarDef describes a variable a planner defines.
type VarDef struct {
	Name string
	T    Ty
	Typ  reflect.Type
}

var readerType = reflect.TypeOf((*io.Reader)(nil)).Elem()

var varDefs = []VarDef{
	{"i1", TInt, reflect.TypeOf(0)},
	{"i8", TSmall, reflect.TypeOf(int8(0))},
	{"u8", TSmall, reflect.TypeOf(uint8(0))},
	{"i2", TInt, reflect.TypeOf(0)},
	{"f1", TFloat, reflect.TypeOf(0.0)},
	{"s1", TStr, reflect.TypeOf("")},
	{"i32", TSmall, reflect.TypeOf(int32(0))},
	{"g1", TF32, reflect.TypeOf(float32(0))},
	{"s2", TStr, reflect.TypeOf("")},
	{"b1", TBool, reflect.TypeOf(true)},
	{"b2", TBool, reflect.TypeOf(true)},
	{"u16", TSmall, reflect.TypeOf(uint16(0))},
	{"i64", TSmall, reflect.TypeOf(int64(0))},
	{"pi", TPInt, reflect.TypeOf((*int)(nil))},
	{"ps", TPStr, reflect.TypeOf((*string)(nil))},
	{"n", TNode, reflect.TypeOf(Node{})},
	{"p", TNode, reflect.TypeOf(&Node{})},
	{"leafs", TLeafs, reflect.TypeOf([]Leaf{})},
	{"ptrs", TPtrs, reflect.TypeOf([]*Leaf{})},
	{"strs", TStrs, reflect.TypeOf([]string{})},
	{"ints", TInts, reflect.TypeOf([]int{})},
	{"strs2", TStrs, reflect.TypeOf([]string{})},
	{"ints2", TInts, reflect.TypeOf([]int{})},
	{"leafs2", TLeafs, reflect.TypeOf([]Leaf{})},
	{"m", TMap, reflect.TypeOf(map[string]int{})},
	{"ms", TNone, reflect.TypeOf(map[string]string{})},
	{"mx", TNone, reflect.TypeOf(map[string]interface{}{})},
	{"any", TAny, reflect.TypeOf((*interface{})(nil)).Elem()},
	{"nm", TLeaf, reflect.TypeOf((*Named)(nil)).Elem()},
	{"ml", TAny, reflect.TypeOf(map[string]Leaf{})},
	{"mp", TAny, reflect.TypeOf(map[string]*Leaf{})},
	{"bools", TNone, reflect.TypeOf([]bool{})},
	{"floats", TNone, reflect.TypeOf([]float64{})},
	{"bytes", TNone, reflect.TypeOf([]uint8{})},
	{"emb", TNone, reflect.TypeOf(Emb{})},
	{"r1", TNone, readerType},
	{"r2", TNone, readerType},
	{"r3", TNone, readerType},
	{"tpl1", TStr, reflect.TypeOf("")},
	{"tpl2", TStr, reflect.TypeOf("")},
}

func varDef(name string) *VarDef {
	for i := range varDefs {
		if varDefs[i].Name == name {
			return &varDefs[i]
		}
	}
	return nil
}

// Gen generates templates over a set of variables.
type Gen struct {
	r          *Rand
	vars       map[string]bool
	nextID     int
	locals     map[string]Ty // variables introduced by #set / loops, by type
	order      []string
	loops      []string // loop variables in scope, "name:type"
	calls      bool     // generate calls
	eval       bool     // generate #evaluate
	assign     bool     // generate assignments to paths
	maxSt      int
	nst        int
	prefix     string // for local names
	xT         Ty     // type of the scope-dependent variable x, if xOn
	xOn        bool
	time       bool
	pnil       bool // p may be nil: no value-receiver methods on it
	vtypes     map[string]Ty
	noMiss     bool
	regErr     bool
	fors       []string    // the variables of #for loops
	neg        bool        // negative constants
	indexes    [][2]string // locals that hold $leafs by a field
	evalPct    int
	xprint     int
	yprint     int
	ys         map[string]bool
	fx         int
	evalOnly   string
	aliases    bool
	builtinPct int
	binPct     int
	callPct    int
	litEval    []string
	dyn        bool // a dynamic template
	reassign   int
	common     bool // local names that other templates use too
	rv         bool // call $rv, which is registered again and again
	json       int  // percentage of statements that decode
}

func NewGen(r *Rand, vars []string) *Gen {
	g := &Gen{r: r, vars: map[string]bool{}, locals: map[string]Ty{}, ys: map[string]bool{}, calls: true, maxSt: 12, prefix: "l", binPct: 30, callPct: 35, reassign: 12, builtinPct: 15, aliases: true, neg: true}
	for _, v := range vars {
		g.vars[v] = true
	}
	return g
}

func (g *Gen) has(v string) bool { return g.vars[v] }

func atom(t Ty, src string, f func(e *Env) interface{}) *Ex {
	return &Ex{T: t, Src: src, Eval: f, Atom: true}
}
func sel(t Ty, src string, f func(e *Env) interface{}) *Ex {
	return &Ex{T: t, Src: src, Eval: f, Atom: true, Sel: true}
}

var texts = []string{"a", "b ", " c", "-", "; ", "<p>", "x=", "\n", "0", "text ", "é", "$ 5 ", "$(a) ", "# b ", "$5 ", "%d", "$ "}

func (g *Gen) word() string {
	const al = "abcdefghij"
	n := g.r.In(1, 4)
	b := make([]byte, n)
	for i := range b {
		b[i] = al[g.r.N(len(al))]
	}
	return string(b)
}

func varSel(t Ty, name string) *Ex {
	return sel(t, "$"+name, func(e *Env) interface{} { return e.v[name] })
}

func node(e *Env, name string) *Node {
	switch a := e.v[name].(type) {
	case Node:
		return &a
	case *Node:
		return a
	}
	return nil
}

func leafPath(src string, f func(e *Env) *Leaf) []*Ex {
	return []*Ex{
		sel(TInt, src+".ID", func(e *Env) interface{} {
			if l := f(e); l != nil {
				return l.ID
			}
			return 0
		}),
		sel(TStr, src+".Name", func(e *Env) interface{} {
			if l := f(e); l != nil {
				return l.Name
			}
			return ""
		}),
		sel(TFloat, src+".Price", func(e *Env) interface{} {
			if l := f(e); l != nil {
				return l.Price
			}
			return 0.0
		}),
		sel(TBool, src+".On", func(e *Env) interface{} {
			if l := f(e); l != nil {
				return l.On
			}
			return false
		}),
	}
}

// atoms lists the available selectors of a type.
func (g *Gen) atoms(t Ty) []*Ex {
	var all []*Ex
	for _, d := range varDefs {
		if !g.has(d.Name) || strings.HasPrefix(d.Name, "tpl") {
			continue
		}
		switch d.T {
		case TSmall, TF32, TPInt, TPStr, TInt, TStr, TFloat, TBool, TStrs, TInts, TLeafs, TPtrs, TMap, TAny:
			if d.Name == "ml" || d.Name == "mp" {
				continue
			}
			all = append(all, varSel(d.T, d.Name))
		case TNode:
			all = append(all, g.nodePaths(d.Name)...)
		}
	}
	if g.has("leafs") {
		k := g.r.N(2)
		all = append(all, leafPath(fmt.Sprintf("$leafs[%d]", k), func(e *Env) *Leaf { return &e.v["leafs"].([]Leaf)[k] })...)
	}
	if g.has("ints") {
		k := g.r.N(2)
		all = append(all, sel(TInt, fmt.Sprintf("$ints[%d]", k), func(e *Env) interface{} { return e.v["ints"].([]int)[k] }))
	}
	for _, v := range []string{"strs", "strs2", "ints"} {
		if v := v; g.has(v) && g.calls && g.r.P(30) {
			t := map[bool]Ty{true: TInt, false: TStr}[v == "ints"]
			k := g.word()
			all = append(all, callEx(t, fmt.Sprintf("$%s[$fz(%q)]", v, k), func(e *Env) interface{} {
				i, err := fnZ(k)
				e.addErr(err)
				if t == TInt {
					return e.v[v].([]int)[i]
				}
				return e.v[v].([]string)[i]
			}))
		}
	}
	if g.has("strs") {
		k := g.r.N(2)
		all = append(all, sel(TStr, fmt.Sprintf("$strs[%d]", k), func(e *Env) interface{} { return e.v["strs"].([]string)[k] }))
	}
	if g.has("m") {
		k := pick(g.r, "a", "b", "zz")
		all = append(all, sel(TInt, fmt.Sprintf("$m[%q]", k), func(e *Env) interface{} { return e.v["m"].(map[string]int)[k] }))
		if g.has("s1") {
			all = append(all, sel(TInt, "$m[$s1]", func(e *Env) interface{} { return e.v["m"].(map[string]int)[e.v["s1"].(string)] }))
		}
	}
	if g.has("ms") {
		k := pick(g.r, "a", "b", "zz")
		all = append(all, sel(TStr, fmt.Sprintf("$ms[%q]", k), func(e *Env) interface{} { return e.v["ms"].(map[string]string)[k] }))
		all = append(all, sel(TStr, "$ms[$s1]", func(e *Env) interface{} { return e.v["ms"].(map[string]string)[e.v["s1"].(string)] }))
	}
	if g.has("mx") {
		k := pick(g.r, "a", "b", "c", "zz")
		all = append(all, sel(TAny, fmt.Sprintf("$mx[%q]", k), func(e *Env) interface{} { return e.v["mx"].(map[string]interface{})[k] }))
		all = append(all, sel(TAny, "$mx[$s1]", func(e *Env) interface{} { return e.v["mx"].(map[string]interface{})[e.v["s1"].(string)] }))
	}
	if g.has("ml") {
		k := pick(g.r, "a", "b", "zz")
		all = append(all, leafPath(fmt.Sprintf("$ml[%q]", k), func(e *Env) *Leaf { l := e.v["ml"].(map[string]Leaf)[k]; return &l })...)
	}
	if g.has("mp") {
		k := pick(g.r, "a", "b", "zz")
		all = append(all, leafPath(fmt.Sprintf("$mp[%q]", k), func(e *Env) *Leaf { return e.v["mp"].(map[string]*Leaf)[k] })...)
	}
	for _, x := range g.indexes {
		x := x
		k := pick(g.r, "s1", "leafs[0].Name", "leafs[1].Name")
		key := func(e *Env) interface{} { return e.v["s1"] }
		if !g.has("s1") {
			k = "leafs[1].Name"
		}
		if x[1] == "ID" {
			k = pick(g.r, "leafs[0].ID", "leafs[1].ID")
		}
		// a name of before the assignments, or one that need not be there
		for _, name := range g.order {
			if t := g.locals[name]; (t == TStr && x[1] == "Name" || t == TInt && x[1] == "ID") && g.r.P(30) {
				name := name
				k = name
				key = func(e *Env) interface{} { return e.v[name] }
			}
		}
		if strings.HasPrefix(k, "leafs") {
			i := int(k[6] - '0')
			key = func(e *Env) interface{} {
				if x[1] == "ID" {
					return e.v["leafs"].([]Leaf)[i].ID
				}
				return e.v["leafs"].([]Leaf)[i].Name
			}
		}
		all = append(all, leafPath(fmt.Sprintf("$%s[$%s]", x[0], k), func(e *Env) *Leaf {
			m, _ := e.v[x[0]].(map[interface{}]Leaf)
			l := m[key(e)]
			return &l
		})...)
	}
	if g.has("emb") {
		all = append(all, varSel(TInt, "EmA"), varSel(TStr, "EmS"))
	}
	if g.xOn {
		all = append(all, varSel(g.xT, "x"))
	}
	for _, name := range g.order {
		t := g.locals[name]
		if t == TLeaf || t == TLeafPtr {
			name := name
			all = append(all, leafPath("$"+name, func(e *Env) *Leaf {
				switch a := e.v[name].(type) {
				case Leaf:
					return &a
				case *Leaf:
					return a
				}
				return nil
			})...)
			continue
		}
		all = append(all, varSel(t, name))
	}
	var res []*Ex
	for _, a := range all {
		if a.T == t {
			res = append(res, a)
		}
	}
	return res
}

func (g *Gen) nodePaths(v string) []*Ex {
	s := "$" + v
	z := func(e *Env) *Node {
		if n := node(e, v); n != nil {
			return n
		}
		return &Node{}
	}
	res := []*Ex{
		sel(TStr, s+".Title", func(e *Env) interface{} { return z(e).Title }),
		sel(TInt, s+".Count", func(e *Env) interface{} { return z(e).Count }),
		sel(TFloat, s+".Rate", func(e *Env) interface{} { return z(e).Rate }),
		sel(TBool, s+".Flag", func(e *Env) interface{} { return z(e).Flag }),
		sel(TStrs, s+".Tags", func(e *Env) interface{} { return z(e).Tags }),
		sel(TInts, s+".Nums", func(e *Env) interface{} { return z(e).Nums }),
		sel(TLeafs, s+".Leafs", func(e *Env) interface{} { return z(e).Leafs }),
		sel(TPtrs, s+".Ptrs", func(e *Env) interface{} { return z(e).Ptrs }),
	}
	res = append(res, leafPath(s+".Leaf", func(e *Env) *Leaf { return &z(e).Leaf })...)
	res = append(res, leafPath(s+".Next", func(e *Env) *Leaf { return z(e).Next })...)
	return res
}

func (g *Gen) lit(t Ty) *Ex {
	switch t {
	case TInt:
		k := g.r.In(10, 159)
		if g.neg && g.r.P(12) {
			k = -k
		}
		return atom(TInt, strconv.Itoa(k), func(e *Env) interface{} { return k })
	case TStr:
		w := g.word()
		return atom(TStr, `"`+w+`"`, func(e *Env) interface{} { return w })
	case TFloat:
		f := float64(g.r.N(40))/4 + 0.25
		return atom(TFloat, strconv.FormatFloat(f, 'f', 2, 64), func(e *Env) interface{} { return f })
	case TBool:
		b := g.r.P(50)
		return atom(TBool, fmt.Sprint(b), func(e *Env) interface{} { return b })
	}
	return nil
}

// expr generates an expression of one of the four scalar types.
func (g *Gen) expr(t Ty, depth int) *Ex {
	if depth > 0 {
		if g.calls && g.r.P(g.callPct) {
			if c := g.call(t, depth-1); c != nil {
				return c
			}
		}
		if g.r.P(g.binPct) {
			if b := g.bin(t, depth-1); b != nil {
				return b
			}
		}
	}
	as := g.atoms(t)
	if len(as) > 0 && g.r.P(75) {
		return as[g.r.N(len(as))]
	}
	if l := g.lit(t); l != nil {
		return l
	}
	if len(as) > 0 {
		return as[g.r.N(len(as))]
	}
	return nil
}

// operand is an expression that can stand next to an operator.
func (g *Gen) operand(t Ty, depth int) *Ex {
	x := g.expr(t, depth)
	if x == nil || x.Atom {
		return x
	}
	return &Ex{T: x.T, Src: "(" + x.Src + ")", Eval: x.Eval, Call: x.Call, Atom: true}
}

func (g *Gen) bin(t Ty, depth int) *Ex {
	mk := func(rt, ot Ty, op string, f func(a, b interface{}) interface{}) *Ex {
		a := g.operand(ot, depth)
		if !a.Sel && !strings.HasPrefix(a.Src, "(") && g.r.P(80) {
			if as := g.atoms(ot); len(as) > 0 {
				a = as[g.r.N(len(as))]
			}
		}
		b := g.operand(ot, depth)
		if strings.HasPrefix(a.Src, "(") {
			// a leading parenthesis is parsed differently; put the simple operand first
			if as := g.atoms(ot); len(as) > 0 {
				a = as[g.r.N(len(as))]
			} else {
				a = g.lit(ot)
			}
		}
		return &Ex{T: rt, Src: a.Src + " " + op + " " + b.Src, Call: a.Call || b.Call, Eval: func(e *Env) interface{} {
			x := a.Eval(e)
			y := b.Eval(e)
			return f(x, y)
		}}
	}
	switch t {
	case TInt:
		switch g.r.N(5) {
		case 0:
			return mk(TInt, TInt, "+", func(a, b interface{}) interface{} { return a.(int) + b.(int) })
		case 1:
			return mk(TInt, TInt, "-", func(a, b interface{}) interface{} { return a.(int) - b.(int) })
		case 2:
			return mk(TInt, TInt, "*", func(a, b interface{}) interface{} { return a.(int) * b.(int) })
		case 3:
			if a := g.operand(TInt, depth); !strings.HasPrefix(a.Src, "(") {
				d := g.r.In(10, 40)
				return &Ex{T: TInt, Src: fmt.Sprintf("%s / %d", a.Src, d), Call: a.Call, Eval: func(e *Env) interface{} { return a.Eval(e).(int) / d }}
			}
			return nil
		default:
			as := append(g.atoms(TSmall), g.atoms(TPInt)...)
			if len(as) == 0 {
				return nil
			}
			a, b := as[g.r.N(len(as))], g.lit(TInt)
			return &Ex{T: TInt, Src: a.Src + " + " + b.Src, Call: a.Call, Eval: func(e *Env) interface{} {
				x := a.Eval(e)
				if p, ok := x.(*int); ok {
					if p == nil {
						return b.Eval(e)
					}
					x = *p
				}
				return small(x) + b.Eval(e).(int)
			}}
		}
	case TFloat:
		switch g.r.N(5) {
		case 0:
			return mk(TFloat, TFloat, "+", func(a, b interface{}) interface{} { return a.(float64) + b.(float64) })
		case 1:
			return mk(TFloat, TFloat, "-", func(a, b interface{}) interface{} { return a.(float64) - b.(float64) })
		case 2:
			return mk(TFloat, TFloat, "/", func(a, b interface{}) interface{} { return a.(float64) / b.(float64) })
		case 3: // the operands are converted
			return g.mixed(TFloat, depth)
		default:
			return mk(TFloat, TFloat, "*", func(a, b interface{}) interface{} { return a.(float64) * b.(float64) })
		}
	case TStr:
		if g.r.P(15) {
			return g.mixed(TStr, depth)
		}
		return mk(TStr, TStr, "+", func(a, b interface{}) interface{} { return a.(string) + b.(string) })
	case TBool:
		switch g.r.N(11) {
		case 0, 1, 2:
			switch g.r.N(6) {
			case 0:
				return mk(TBool, TInt, "==", func(a, b interface{}) interface{} { return a.(int) == b.(int) })
			case 1:
				return mk(TBool, TInt, "<", func(a, b interface{}) interface{} { return a.(int) < b.(int) })
			case 2:
				return mk(TBool, TInt, ">=", func(a, b interface{}) interface{} { return a.(int) >= b.(int) })
			case 3:
				return mk(TBool, TInt, "<=", func(a, b interface{}) interface{} { return a.(int) <= b.(int) })
			case 4:
				return mk(TBool, TInt, ">", func(a, b interface{}) interface{} { return a.(int) > b.(int) })
			}
			return mk(TBool, TInt, "!=", func(a, b interface{}) interface{} { return a.(int) != b.(int) })
		case 3:
			return mk(TBool, TStr, "==", func(a, b interface{}) interface{} { return a.(string) == b.(string) })
		case 4:
			return mk(TBool, TStr, "!=", func(a, b interface{}) interface{} { return a.(string) != b.(string) })
		case 5:
			switch g.r.N(6) {
			case 0:
				return mk(TBool, TFloat, "==", func(a, b interface{}) interface{} { return a.(float64) == b.(float64) })
			case 1:
				return mk(TBool, TFloat, "<", func(a, b interface{}) interface{} { return a.(float64) < b.(float64) })
			case 2:
				return mk(TBool, TFloat, ">=", func(a, b interface{}) interface{} { return a.(float64) >= b.(float64) })
			case 3:
				return mk(TBool, TFloat, "<=", func(a, b interface{}) interface{} { return a.(float64) <= b.(float64) })
			case 4:
				return mk(TBool, TFloat, ">", func(a, b interface{}) interface{} { return a.(float64) > b.(float64) })
			}
			return mk(TBool, TFloat, "!=", func(a, b interface{}) interface{} { return a.(float64) != b.(float64) })
		case 6:
			return g.mixed(TBool, depth)
		case 7:
			if g.r.P(50) {
				return mk(TBool, TBool, "==", func(a, b interface{}) interface{} { return a.(bool) == b.(bool) })
			}
			return mk(TBool, TBool, "!=", func(a, b interface{}) interface{} { return a.(bool) != b.(bool) })
		case 8, 9:
			return mk(TBool, TBool, "&&", func(a, b interface{}) interface{} { return a.(bool) && b.(bool) })
		default:
			return mk(TBool, TBool, "||", func(a, b interface{}) interface{} { return a.(bool) || b.(bool) })
		}
	}
	return nil
}

// lead is an operation on two operations; only an assignment may start with
// a parenthesis.
func (g *Gen) lead(t Ty) *Ex {
	if !g.r.P(10) {
		return nil
	}
	if t == TFloat {
		t = TInt
	}
	side := func() *Ex {
		x := g.bin(t, 0)
		if x == nil || x.Atom || x.Call {
			return nil
		}
		return x
	}
	a, b := side(), side()
	if a == nil || b == nil || t != TInt {
		return nil
	}
	switch g.r.N(3) {
	case 0:
		return &Ex{T: t, Src: "(" + a.Src + ") + (" + b.Src + ")", Eval: func(e *Env) interface{} { return a.Eval(e).(int) + b.Eval(e).(int) }}
	case 1:
		return &Ex{T: t, Src: "(" + a.Src + ") * (" + b.Src + ")", Eval: func(e *Env) interface{} { return a.Eval(e).(int) * b.Eval(e).(int) }}
	}
	return &Ex{T: t, Src: "(" + a.Src + ") - (" + b.Src + ")", Eval: func(e *Env) interface{} { return a.Eval(e).(int) - b.Eval(e).(int) }}
}

// mixed is an operation on operands of two types, one of which is converted.
func (g *Gen) mixed(t Ty, depth int) *Ex {
	at, bt := TInt, TFloat
	if t == TStr {
		at, bt = TInt, TStr
	}
	if g.r.P(50) {
		at, bt = bt, at
	}
	a, b := g.operand(at, depth), g.operand(bt, depth)
	if strings.HasPrefix(a.Src, "(") || g.r.P(60) {
		if as := g.atoms(at); len(as) > 0 {
			a = as[g.r.N(len(as))]
		} else {
			a = g.lit(at)
		}
	}
	op := "+"
	num := func(x interface{}) float64 {
		if i, ok := x.(int); ok {
			return float64(i)
		}
		return x.(float64)
	}
	f := func(x, y interface{}) interface{} { return num(x) + num(y) }
	switch {
	case t == TStr:
		f = func(x, y interface{}) interface{} { return fmt.Sprint(x) + fmt.Sprint(y) }
	case t == TBool:
		op, f = ">", func(x, y interface{}) interface{} { return num(x) > num(y) }
		if g.r.P(30) {
			op, f = "==", func(x, y interface{}) interface{} { return num(x) == num(y) }
		}
	case g.r.P(50):
		op, f = "*", func(x, y interface{}) interface{} { return num(x) * num(y) }
	}
	return &Ex{T: t, Src: a.Src + " " + op + " " + b.Src, Call: a.Call || b.Call, Eval: func(e *Env) interface{} {
		x := a.Eval(e)
		return f(x, b.Eval(e))
	}}
}

func callEx(t Ty, src string, f func(e *Env) interface{}) *Ex {
	return &Ex{T: t, Src: src, Eval: f, Call: true, Atom: true, Sel: true}
}

// arg generates a call argument.
func (g *Gen) arg(t Ty, depth int) *Ex {
	for i := 0; i < 5; i++ {
		x := g.expr(t, depth)
		if x != nil && x.Atom {
			return x
		}
	}
	if as := g.atoms(t); len(as) > 0 {
		return as[g.r.N(len(as))]
	}
	return g.lit(t)
}

func (g *Gen) call(t Ty, depth int) *Ex {
	r := g.r
	if r.P(25) {
		if x := g.zooCall(t, depth); x != nil {
			return x
		}
	}
	if r.P(8) {
		if x := g.scopedCall(t, depth, false); x != nil {
			return x
		}
	}
	leafRecv := func(ptrs bool) (string, func(e *Env) *Leaf) {
		var names []string
		if g.has("n") {
			names = append(names, "$n.Leaf")
		}
		if g.has("leafs") {
			names = append(names, "$leafs[0]", "$leafs[1]")
		}
		for _, l := range g.order {
			if g.locals[l] == TLeaf || ptrs && g.locals[l] == TLeafPtr {
				names = append(names, "$"+l)
			}
		}
		if len(names) == 0 {
			return "", nil
		}
		s := names[r.N(len(names))]
		return s, func(e *Env) *Leaf {
			switch s {
			case "$n.Leaf":
				return &node(e, "n").Leaf
			case "$leafs[0]":
				return &e.v["leafs"].([]Leaf)[0]
			case "$leafs[1]":
				return &e.v["leafs"].([]Leaf)[1]
			}
			switch a := e.v[s[1:]].(type) {
			case Leaf:
				return &a
			case *Leaf:
				return a
			}
			return nil
		}
	}
	if r.P(g.builtinPct) {
		if x := g.builtin(t, depth); x != nil {
			return x
		}
	}
	switch t {
	case TStr:
		if g.rv && r.P(40) {
			a := g.arg(TStr, depth)
			return callEx(TStr, "$rv("+a.Src+")", func(e *Env) interface{} { return fnRV(e.fver)(a.Eval(e).(string)) })
		}
		switch r.N(12) {
		case 0, 1:
			a := g.arg(TStr, depth)
			return callEx(TStr, "$fs("+a.Src+")", func(e *Env) interface{} { return fnS(a.Eval(e).(string)) })
		case 2:
			a, b := g.arg(TStr, depth), g.arg(TStr, depth)
			return callEx(TStr, "$fss("+a.Src+", "+b.Src+")", func(e *Env) interface{} {
				x := a.Eval(e).(string)
				return fnSS(x, b.Eval(e).(string))
			})
		case 3:
			a := g.arg(TInt, depth)
			return callEx(TStr, "$fi("+a.Src+")", func(e *Env) interface{} { return fnI(a.Eval(e).(int)) })
		case 4, 5:
			a := g.arg(TStr, depth)
			return callEx(TStr, "$fse("+a.Src+")", func(e *Env) interface{} {
				v, err := fnSE(a.Eval(e).(string))
				e.addErr(err)
				return v
			})
		case 6:
			a, b, c := g.arg(TStr, depth), g.arg(TStr, 0), g.arg(TStr, 0)
			return callEx(TStr, "$fv("+a.Src+", "+b.Src+", "+c.Src+")", func(e *Env) interface{} {
				x := a.Eval(e).(string)
				y := b.Eval(e).(string)
				return fnV(x, y, c.Eval(e).(string))
			})
		case 7:
			at := pick(r, TInt, TStr, TFloat, TBool)
			a := g.arg(at, depth)
			if r.P(50) {
				if r.P(50) {
					if as := g.atoms(pick(r, TSmall, TF32)); len(as) > 0 {
						a = as[r.N(len(as))]
					}
				} else if s, f := leafRecv(false); f != nil {
					a = &Ex{Src: s, Eval: func(e *Env) interface{} { return *f(e) }}
				}
				return callEx(TStr, "$fk("+a.Src+")", func(e *Env) interface{} { return fnK(a.Eval(e)) })
			}
			return callEx(TStr, "$fa("+a.Src+")", func(e *Env) interface{} { return fnA(a.Eval(e)) })
		case 8:
			s, f := leafRecv(true)
			if f == nil {
				return nil
			}
			a := g.arg(TStr, depth)
			return callEx(TStr, s+".Label("+a.Src+")", func(e *Env) interface{} {
				l := *f(e)
				return l.Label(a.Eval(e).(string))
			})
		case 9:
			if !g.has("n") {
				return nil
			}
			a, b := g.arg(TStr, depth), g.arg(TStr, 0)
			return callEx(TStr, "$n.Join("+a.Src+", "+b.Src+")", func(e *Env) interface{} {
				x := a.Eval(e).(string)
				return node(e, "n").Join(x, b.Eval(e).(string))
			})
		case 10:
			if !g.has("n") {
				return nil
			}
			src, f := g.chain(depth)
			b := g.arg(TStr, 0)
			return callEx(TStr, src+".Label("+b.Src+")", func(e *Env) interface{} {
				l := f(e)
				return l.Label(b.Eval(e).(string))
			})
		default:
			if g.has("nm") && r.P(50) {
				return callEx(TStr, "$nm.GetName()", func(e *Env) interface{} { return e.v["nm"].(Named).GetName() })
			}
			s, f := leafRecv(false)
			if f == nil {
				return nil
			}
			a := g.arg(TStr, depth)
			return callEx(TStr, s+".tag("+a.Src+")", func(e *Env) interface{} {
				l := *f(e)
				v, err := tfTag(l, a.Eval(e).(string))
				e.addErr(err)
				return v
			})
		}
	case TInt:
		switch r.N(7) {
		case 6:
			var names []string
			if r.P(30) {
				a := g.arg(TInt, depth)
				return callEx(TInt, "$fp("+a.Src+").Twice()", func(e *Env) interface{} {
					if l := fnP(a.Eval(e).(int)); l != nil { // nil ends a chain
						return l.Twice()
					}
					return 0
				})
			}
			for _, l := range g.order {
				if g.locals[l] == TLeafPtr {
					names = append(names, l)
				}
			}
			if len(names) == 0 {
				return nil
			}
			l := names[r.N(len(names))]
			return callEx(TInt, "$"+l+".Twice()", func(e *Env) interface{} { return e.v[l].(*Leaf).Twice() })
		case 0, 1:
			a := g.arg(TInt, depth)
			return callEx(TInt, "$fie("+a.Src+")", func(e *Env) interface{} {
				v, err := fnIE(a.Eval(e).(int))
				e.addErr(err)
				return v
			})
		case 2:
			s, f := leafRecv(true)
			if f == nil {
				return nil
			}
			a := g.arg(TInt, depth)
			return callEx(TInt, s+".Check("+a.Src+")", func(e *Env) interface{} {
				l := *f(e)
				v, err := l.Check(a.Eval(e).(int))
				e.addErr(err)
				return v
			})
		case 3:
			if !g.has("p") {
				return nil
			}
			a := g.arg(TInt, depth)
			return callEx(TInt, "$p.Fail("+a.Src+")", func(e *Env) interface{} {
				v, err := node(e, "p").Fail(a.Eval(e).(int))
				e.addErr(err)
				return v
			})
		case 4:
			a, b, c := g.arg(TInt, depth), g.arg(TInt, 0), g.arg(TInt, 0)
			return callEx(TInt, "$fiii("+a.Src+", "+b.Src+","+c.Src+")", func(e *Env) interface{} {
				x := a.Eval(e).(int)
				y := b.Eval(e).(int)
				v, err := fnIII(x, y, c.Eval(e).(int))
				e.addErr(err)
				return v
			})
		default:
			if !g.has("n") {
				return nil
			}
			src, f := g.chain(depth)
			if r.P(30) {
				b := g.arg(TInt, 0)
				return callEx(TInt, src+".Ref("+b.Src+").Twice()", func(e *Env) interface{} {
					l := f(e)
					return l.Ref(b.Eval(e).(int)).Twice()
				})
			}
			b := g.arg(TInt, 0)
			return callEx(TInt, src+".Check("+b.Src+")", func(e *Env) interface{} {
				l := f(e)
				v, err := l.Check(b.Eval(e).(int))
				e.addErr(err)
				return v
			})
		}
	case TBool:
		return g.builtin(t, depth)
	case TFloat:
		a := g.arg(TFloat, depth)
		return callEx(TFloat, "$ff("+a.Src+")", func(e *Env) interface{} { return fnF(a.Eval(e).(float64)) })
	}
	return nil
}

// chain generates a chain of calls that gives a Leaf.
func (g *Gen) chain(depth int) (string, func(e *Env) Leaf) {
	a := g.arg(TInt, depth)
	src := "$n.Pick(" + a.Src + ")"
	f := func(e *Env) Leaf { return node(e, "n").Pick(a.Eval(e).(int)) }
	for g.r.P(35) {
		b, up := g.arg(TStr, 0), f
		if g.r.P(60) {
			src += ".Next(" + b.Src + ")"
			f = func(e *Env) Leaf {
				l := up(e)
				return l.Next(b.Eval(e).(string))
			}
			continue
		}
		src += ".NextE(" + b.Src + ")"
		f = func(e *Env) Leaf {
			l := up(e)
			v, err := l.NextE(b.Eval(e).(string))
			e.addErr(err)
			return v
		}
	}
	return src, f
}

// slice generates calls that give a slice.
func (g *Gen) slice() *Ex {
	r := g.r
	a := g.arg(TInt, 0)
	small := func(e *Env) int { return a.Eval(e).(int) }
	switch r.N(9) {
	case 0, 1:
		return callEx(TStrs, "$fl("+a.Src+")", func(e *Env) interface{} { return fnL(small(e)) })
	case 2:
		return callEx(TLeafs, "$fls("+a.Src+")", func(e *Env) interface{} { return fnLS(small(e)) })
	case 3:
		return callEx(TPtrs, "$flp("+a.Src+")", func(e *Env) interface{} {
			v, err := fnLP(small(e))
			e.addErr(err)
			return v
		})
	case 4:
		return callEx(TInts, "$fli("+a.Src+")", func(e *Env) interface{} { return fnLI(small(e)) })
	case 5:
		if g.has("n") {
			return callEx(TPtrs, "$n.Kids("+a.Src+")", func(e *Env) interface{} { return node(e, "n").Kids(small(e)) })
		}
	case 6:
		if g.has("strs") {
			return callEx(TStrs, "$slices.ReverseStrings($strs)", func(e *Env) interface{} {
				var l []string
				for _, x := range e.v["strs"].([]string) {
					l = append([]string{x}, l...)
				}
				return l
			})
		}
	case 8:
		// calls with several arguments do not parse as the collection of a loop
		if s := g.arg(TStr, 0); !strings.Contains(s.Src, ",") {
			return callEx(TStrs, "$strings.Fields("+s.Src+")", func(e *Env) interface{} { return strings.Fields(s.Eval(e).(string)) })
		}
	case 7:
		if g.has("ints") {
			return callEx(TInts, "$slices.ReverseInts($ints)", func(e *Env) interface{} {
				var l []int
				for _, x := range e.v["ints"].([]int) {
					l = append([]int{x}, l...)
				}
				return l
			})
		}
	}
	return callEx(TStrs, "$fl("+a.Src+")", func(e *Env) interface{} { return fnL(small(e)) })
}

// builtin generates calls of built-in functions.
func (g *Gen) builtin(t Ty, depth int) *Ex {
	r := g.r
	if r.P(50) {
		if x := g.library(t, depth); x != nil {
			return x
		}
	}
	switch t {
	case TInt:
		if g.time && r.P(60) {
			for _, l := range g.order {
				if g.locals[l] == TTime && r.P(30) {
					l := l
					return callEx(TInt, "$"+l+".Nanosecond()", func(e *Env) interface{} { return e.v[l].(time.Time).Nanosecond() })
				}
			}
			return callEx(TInt, "$time.Now()."+pick(r, "Nanosecond()", "Nanosecond()", "Second()", "Hour()"), nil).now()
		}
		switch r.N(3) {
		case 0:
			a := g.arg(TStr, depth)
			return callEx(TInt, "$strings.Length("+a.Src+")", func(e *Env) interface{} { return len(a.Eval(e).(string)) })
		case 1:
			if g.has("leafs") {
				return callEx(TInt, "$slices.Length($leafs)", func(e *Env) interface{} { return len(e.v["leafs"].([]Leaf)) })
			}
		default:
			if g.has("m") {
				k := pick(r, "a", "b")
				return callEx(TInt, fmt.Sprintf("$maps.GetInt($m, %q)", k), func(e *Env) interface{} { return e.v["m"].(map[string]int)[k] })
			}
		}
	case TBool:
		if g.has("m") && r.P(50) {
			k := pick(r, "a", "b", "zz")
			f := func(e *Env) interface{} { _, ok := e.v["m"].(map[string]int)[k]; return ok }
			if r.P(50) {
				return callEx(TBool, fmt.Sprintf("$m.HasKey(%q)", k), f)
			}
			return callEx(TBool, fmt.Sprintf("$maps.Has($m, %q)", k), f)
		}
	case TStr:
		if g.time && r.P(40) {
			const layout = "15:04:05.000 -0700"
			for _, l := range g.order {
				if g.locals[l] == TTime && r.P(50) {
					l := l
					return callEx(TStr, fmt.Sprintf("$%s.Format(%q)", l, layout), func(e *Env) interface{} { return e.v[l].(time.Time).Format(layout) })
				}
			}
			return callEx(TStr, fmt.Sprintf("$time.Now().Format(%q)", layout), func(e *Env) interface{} { return now().Format(layout) })
		}
		switch r.N(4) {
		case 0:
			a := g.arg(TStr, depth)
			return callEx(TStr, "$strings.ToUpper("+a.Src+")", func(e *Env) interface{} { return strings.ToUpper(a.Eval(e).(string)) })
		case 1:
			a := g.arg(TStr, depth)
			x, y := g.word()[:1], g.word()
			return callEx(TStr, fmt.Sprintf("$strings.ReplaceAll(%s, %q, %q)", a.Src, x, y), func(e *Env) interface{} {
				return strings.ReplaceAll(a.Eval(e).(string), x, y)
			})
		case 2:
			if as := g.atoms(TLeafs); len(as) > 0 {
				a := as[r.N(len(as))]
				return callEx(TStr, "$json.Marshal("+a.Src+")", func(e *Env) interface{} { b, _ := json.Marshal(a.Eval(e)); return string(b) })
			}
		default:
			if g.regErr && r.P(30) {
				w := g.word()
				return callEx(TStr, fmt.Sprintf("$errors.RegisterError(%q)", w), func(e *Env) interface{} { e.addErr(textErr(w)); return "" })
			}
		}
	}
	return nil
}

// library generates calls of further built-in functions.
func (g *Gen) library(t Ty, depth int) *Ex {
	r := g.r
	str := func(x *Ex) func(e *Env) string { return func(e *Env) string { return x.Eval(e).(string) } }
	switch t {
	case TInt:
		switch r.N(5) {
		case 0, 1:
			a, w := g.arg(TStr, depth), g.word()[:1]
			name, f := "Index", strings.Index
			if r.P(50) {
				name, f = "LastIndex", strings.LastIndex
			}
			return callEx(t, fmt.Sprintf("$strings.%s(%s, %q)", name, a.Src, w), func(e *Env) interface{} { return f(str(a)(e), w) })
		case 2:
			if g.has("ints") && g.calls {
				k := g.word()
				return callEx(t, fmt.Sprintf("$slices.IntAt($ints, $fz(%q))", k), func(e *Env) interface{} {
					i, err := fnZ(k)
					e.addErr(err)
					return e.v["ints"].([]int)[i]
				})
			}
		case 3:
			if g.regErr {
				a := g.arg(TStr, depth)
				return callEx(t, "$strconv.Atoi("+a.Src+")", func(e *Env) interface{} {
					n, err := strconv.Atoi(str(a)(e))
					e.addText(err)
					return n
				})
			}
			n := r.In(100, 99999)
			return callEx(t, fmt.Sprintf("$strconv.Atoi(\"%d\")", n), func(e *Env) interface{} { return n })
		default:
			if g.has("mx") && g.regErr {
				k := pick(r, "a", "b", "zz")
				return callEx(t, fmt.Sprintf("$maps.GetInt($mx, %q)", k), func(e *Env) interface{} {
					n, ok := e.v["mx"].(map[string]interface{})[k].(int)
					if !ok {
						e.addErr(textErr("unexpected map value type"))
					}
					return n
				})
			}
		}
	case TFloat:
		a := g.arg(TFloat, depth)
		switch r.N(5) {
		case 0:
			b := g.arg(TFloat, depth)
			name, f := "Min", math.Min
			if r.P(50) {
				name, f = "Max", math.Max
			}
			return callEx(t, "$math."+name+"("+a.Src+", "+b.Src+")", func(e *Env) interface{} {
				x := a.Eval(e).(float64)
				return f(x, b.Eval(e).(float64))
			})
		case 1:
			b := g.arg(TAny, depth)
			switch r.N(3) {
			case 0:
				b = g.arg(TInt, depth)
			case 1:
				b = a
			}
			if b == nil || b.T == TAny {
				return nil
			}
			return callEx(t, "$strconv.AsFloat("+b.Src+")", func(e *Env) interface{} {
				switch x := b.Eval(e).(type) {
				case int:
					return float64(x)
				case float64:
					return x
				}
				return 0.0
			})
		default:
			k := r.N(5)
			name := []string{"Round", "Ceil", "Abs", "Floor", "Sqrt"}[k]
			f := []func(float64) float64{math.Round, math.Ceil, math.Abs, math.Floor, math.Sqrt}[k]
			return callEx(t, "$math."+name+"("+a.Src+")", func(e *Env) interface{} { return f(a.Eval(e).(float64)) })
		}
	case TStr:
		a := g.arg(TStr, depth)
		switch r.N(6) {
		case 0:
			return callEx(t, "$strings.ToLower("+a.Src+")", func(e *Env) interface{} { return strings.ToLower(str(a)(e)) })
		case 1:
			return callEx(t, "$strings.TrimSpace("+a.Src+")", func(e *Env) interface{} { return strings.TrimSpace(str(a)(e)) })
		case 2:
			w := g.word()
			return callEx(t, fmt.Sprintf("$strings.Trim(%s, %q)", a.Src, w), func(e *Env) interface{} { return strings.Trim(str(a)(e), w) })
		case 3:
			b := g.arg(TInt, depth)
			return callEx(t, "$strconv.Itoa("+b.Src+")", func(e *Env) interface{} { return strconv.Itoa(b.Eval(e).(int)) })
		case 4:
			if g.has("ms") {
				k := pick(r, "a", "b")
				if g.regErr && r.P(50) {
					k = "zz"
				}
				return callEx(t, fmt.Sprintf("$maps.GetString($ms, %q)", k), func(e *Env) interface{} {
					x, ok := e.v["ms"].(map[string]string)[k]
					if !ok {
						e.addErr(textErr("unexpected map value type"))
					}
					return x
				})
			}
		default:
			if g.regErr {
				w := g.word()
				return callEx(t, fmt.Sprintf("$errors.Raise(%q)", w), func(e *Env) interface{} { e.addErr(textErr(w)); return "" })
			}
		}
	case TBool:
		switch r.N(4) {
		case 0:
			a, w := g.arg(TStr, depth), g.word()[:1]
			name, f := "HasPrefix", strings.HasPrefix
			if r.P(50) {
				name, f = "HasSuffix", strings.HasSuffix
			}
			return callEx(t, fmt.Sprintf("$strings.%s(%s, %q)", name, a.Src, w), func(e *Env) interface{} { return f(str(a)(e), w) })
		case 1:
			if g.has("strs") {
				a := g.arg(TStr, depth)
				return callEx(t, "$strings.In($strs, "+a.Src+")", func(e *Env) interface{} {
					x := str(a)(e)
					for _, y := range e.v["strs"].([]string) {
						if x == y {
							return true
						}
					}
					return false
				})
			}
		case 2:
			at := pick(r, TInt, TStr, TFloat, TBool)
			a, k := g.arg(at, depth), r.N(4)
			is := []func(x interface{}) bool{
				func(x interface{}) bool { _, ok := x.(int); return ok },
				func(x interface{}) bool { _, ok := x.(float64); return ok },
				func(x interface{}) bool { _, ok := x.(string); return ok },
				func(x interface{}) bool { _, ok := x.(bool); return ok },
			}[k]
			if g.regErr && r.P(70) {
				name := []string{"Int", "Float", "String", "Bool"}[k]
				return callEx(t, "$errors.Assert"+name+"("+a.Src+")", func(e *Env) interface{} {
					if is(a.Eval(e)) {
						return true
					}
					e.addErr(textErr("expected to got " + strings.ToLower(name)))
					return false
				})
			}
			return callEx(t, "$types.Is"+[]string{"Int", "Float64", "String", "Bool"}[k]+"("+a.Src+")", func(e *Env) interface{} { return is(a.Eval(e)) })
		default:
			if g.regErr {
				a, w := g.arg(TBool, depth), g.word()
				return callEx(t, fmt.Sprintf("$errors.AssertWithMessage(%s, %q)", a.Src, w), func(e *Env) interface{} {
					if a.Eval(e).(bool) {
						return true
					}
					e.addErr(textErr(w))
					return false
				})
			}
		}
	}
	return nil
}

// addText adds an error that is known by its text.
func (e *Env) addText(err error) {
	if err != nil {
		e.addErr(textErr(err.Error()))
	}
}

type textErr string

func (t textErr) Error() string { return string(t) }

// now makes x a reading of the clock.
func (x *Ex) now() *Ex {
	sec := strings.HasSuffix(x.Src, ".Second()")
	hour := strings.HasSuffix(x.Src, ".Hour()")
	x.Eval = func(e *Env) interface{} {
		t := now()
		if hour {
			return t.Hour()
		}
		if sec {
			return t.Second()
		}
		return t.Nanosecond()
	}
	return x
}

func (g *Gen) stmt(head string, run func(e *Env, s *Stmt)) *Stmt {
	g.nextID++
	return &Stmt{ID: g.nextID, Head: head, Run: run}
}

func (g *Gen) text() *Stmt {
	t := pick(g.r, texts...)
	if g.r.P(8) {
		t = strings.Repeat(t, g.r.In(10, 200))
	}
	if g.r.P(8) { // printed as it is
		t = pick(g.r, "x $n #if <b>", "$s1", "#end", "#set($i1 = 3)", "${n.Title}", "a \"b\"", "# $", "")
		src := "#[[" + t + "]]#"
		if g.r.P(40) {
			src += "##" + pick(g.r, "", " $n #end", "<c>", "#") + "\n"
		}
		s := g.stmt(src, func(e *Env, s *Stmt) { e.out.WriteString(t) })
		s.IsTxt = true
		return s
	}
	s := g.stmt(t, func(e *Env, s *Stmt) { e.out.WriteString(t) })
	s.IsTxt = true
	return s
}

func (g *Gen) print() *Stmt {
	if g.xprint > 0 && g.r.P(g.xprint) {
		// meaning depends on the scope the text is evaluated in
		return g.stmt("$x", func(e *Env, s *Stmt) {
			if e.xT == TNone {
				e.out.WriteString("$x")
				return
			}
			e.print(e.xT, e.v["x"])
		})
	}
	if g.yprint > 0 && g.r.P(g.yprint) {
		return g.yPrint()
	}
	if g.fx > 0 && g.r.P(g.fx) {
		if t := pick(g.r, TInt, TStr, TNone); t != TNone {
			if x := g.scopedCall(t, 0, true); x != nil {
				return g.stmt(x.Src, func(e *Env, s *Stmt) { e.print(t, x.Eval(e)) })
			}
		}
		w := g.word()
		return g.stmt(fmt.Sprintf("$fx(%q)", w), func(e *Env, s *Stmt) { e.print(TStr, fnX(w)) })
	}
	t := pick(g.r, TInt, TStr, TStr, TFloat, TBool, TInt, TStr, TAny, TStrs, TInts, TLeafs, TSmall, TSmall, TF32, TPInt, TPStr)
	var x *Ex
	if g.calls && g.r.P(4) {
		a := g.arg(TStr, 0)
		if g.r.P(50) {
			x = callEx(TAny, "$fn("+a.Src+")", func(e *Env) interface{} { return fnN(a.Eval(e).(string)) })
		} else {
			x = callEx(TAny, "$fne("+a.Src+")", func(e *Env) interface{} {
				v, err := fnNE(a.Eval(e).(string))
				e.addErr(err)
				return v
			})
		}
	} else if g.calls && g.r.P(4) {
		x = g.slice()
		t = TAny
	}
	if g.calls && g.r.P(45) && t <= TFloat {
		x = g.call(t, 2)
	}
	if g.json > 0 && g.r.P(g.json) {
		if d := g.decodeEx(); d != nil && d.T != TLeaf {
			x = d
		}
	}
	if g.time && g.r.P(10) {
		x = callEx(TTime, "$time.Now()", func(e *Env) interface{} { return now() })
	}
	if x == nil {
		as := g.atoms(t)
		if len(as) == 0 {
			return g.text()
		}
		x = as[g.r.N(len(as))]
	}
	src := x.Src
	if g.r.P(40) {
		src = "${" + src[1:] + "}"
	}
	return g.stmt(src, func(e *Env, s *Stmt) { e.print(x.T, x.Eval(e)) })
}

// define introduces local variables used by the rest of the template.
func (g *Gen) define() []*Stmt {
	var res []*Stmt
	n := g.r.N(3)
	if g.time && g.r.P(40) {
		name := g.localName(TTime, "t")
		s := g.stmt("#set($"+name+" = $time.Now())", func(e *Env, s *Stmt) { e.v[name] = now() })
		s.Keep = true
		g.locals[name] = TTime
		g.order = append(g.order, name)
		res = append(res, s)
	}
	if g.json > 0 && g.r.P(40+g.json) {
		for i := g.r.In(1, 2); i > 0; i-- {
			if x := g.decodeEx(); x != nil {
				name := g.localName(x.T, "j")
				s := g.stmt("#set($"+name+" = "+x.Src+")", func(e *Env, s *Stmt) { e.v[name] = x.Eval(e) })
				s.Keep = true
				g.locals[name] = x.T
				g.order = append(g.order, name)
				res = append(res, s)
			}
		}
	}
	if g.aliases && g.r.P(40) {
		type src struct {
			src string
			t   Ty
			f   func(e *Env) interface{}
		}
		var l []src
		for _, v := range []string{"leafs", "strs", "ints"} {
			if g.has(v) {
				v := v
				l = append(l, src{"$" + v, varDef(v).T, func(e *Env) interface{} { return e.v[v] }})
			}
		}
		if g.has("n") {
			l = append(l, src{"$n.Leaf", TLeaf, func(e *Env) interface{} { return node(e, "n").Leaf }})
		}
		if g.has("leafs") {
			l = append(l, src{"$leafs[1]", TLeaf, func(e *Env) interface{} { return e.v["leafs"].([]Leaf)[1] }})
		}
		if len(l) > 0 {
			x := l[g.r.N(len(l))]
			name := g.localName(x.t, "a")
			s := g.stmt("#set($"+name+" = "+x.src+")", func(e *Env, s *Stmt) { e.v[name] = x.f(e) })
			s.Keep = true
			g.locals[name] = x.t
			g.order = append(g.order, name)
			res = append(res, s)
		}
	}
	if g.calls && g.r.P(20) {
		a, w := g.arg(TStr, 1), g.word()[:1]
		name := g.localName(TStrs, "l")
		s := g.stmt(fmt.Sprintf("#set($%s = $strings.Split(%s, %q))", name, a.Src, w), func(e *Env, s *Stmt) { e.v[name] = strings.Split(a.Eval(e).(string), w) })
		s.Keep = true
		g.locals[name] = TStrs
		g.order = append(g.order, name)
		res = append(res, s)
	}
	if g.has("leafs") && g.r.P(15) {
		field := pick(g.r, "Name", "ID")
		name := g.localName(TNone, "m"+field)
		s := g.stmt(fmt.Sprintf("#set($%s = $leafs.IndexBy(%q))", name, field), func(e *Env, s *Stmt) {
			m := map[interface{}]Leaf{}
			for _, l := range e.v["leafs"].([]Leaf) {
				if field == "ID" {
					m[l.ID] = l
				} else {
					m[l.Name] = l
				}
			}
			e.v[name] = m
		})
		s.Keep = true
		g.indexes = append(g.indexes, [2]string{name, field})
		res = append(res, s)
		for i := 0; i < 2; i++ {
			if g.r.P(50) {
				i := i
				name, t := g.localName(TStr, "k"), TStr
				if field == "ID" {
					name, t = g.localName(TInt, "k"), TInt
				}
				s := g.stmt(fmt.Sprintf("#set($%s = $leafs[%d].%s)", name, i, field), func(e *Env, s *Stmt) {
					l := e.v["leafs"].([]Leaf)[i]
					e.v[name] = l.ID
					if t == TStr {
						e.v[name] = l.Name
					}
				})
				s.Keep = true
				g.locals[name] = t
				g.order = append(g.order, name)
				res = append(res, s)
			}
		}
	}
	for i := 0; i < n; i++ {
		t := pick(g.r, TInt, TStr, TFloat, TInt, TStr)
		name := g.localName(t, map[Ty]string{TInt: "i", TStr: "s", TFloat: "f"}[t])
		x := g.expr(t, 1)
		if y := g.lead(t); y != nil && t == TInt {
			x = y
		}
		if x == nil {
			continue
		}
		s := g.stmt("#set($"+name+" = "+x.Src+")", func(e *Env, s *Stmt) { e.v[name] = x.Eval(e) })
		s.Keep = true
		g.locals[name] = t
		g.order = append(g.order, name)
		res = append(res, s)
	}
	return res
}

func (g *Gen) set() *Stmt {
	type target struct {
		src string
		t   Ty
		set func(e *Env, v interface{})
	}
	var ts []target
	for _, v := range []string{"i1", "i2", "s1", "s2", "f1", "b1", "b2", "i8", "u8", "u16", "i32", "i64", "g1", "pi", "ps"} {
		if g.has(v) {
			v := v
			ts = append(ts, target{"$" + v, varDef(v).T, func(e *Env, x interface{}) { e.v[v] = x }})
		}
	}
	for _, v := range g.order {
		t := g.locals[v]
		if g.isFor(v) {
			continue
		}
		if t == TInt || t == TStr || t == TFloat {
			v := v
			ts = append(ts, target{"$" + v, t, func(e *Env, x interface{}) { e.v[v] = x }})
		}
	}
	if g.has("emb") {
		ts = append(ts, target{"$EmA", TInt, func(e *Env, x interface{}) { e.v["EmA"] = x }},
			target{"$EmS", TStr, func(e *Env, x interface{}) { e.v["EmS"] = x }})
	}
	for _, v := range g.order {
		if g.locals[v] == TLeafPtr && g.assign {
			v := v
			ts = append(ts, target{"$" + v + ".Name", TStr, func(e *Env, x interface{}) {
				if l, _ := e.v[v].(*Leaf); l != nil {
					l.Name = x.(string)
				}
			}})
		}
		if g.locals[v] == TLeaf {
			v := v
			ts = append(ts,
				target{"$" + v + ".Name", TStr, func(e *Env, x interface{}) { l := e.v[v].(Leaf); l.Name = x.(string); e.v[v] = l }},
				target{"$" + v + ".ID", TInt, func(e *Env, x interface{}) { l := e.v[v].(Leaf); l.ID = x.(int); e.v[v] = l }})
		}
	}
	if g.assign {
		for _, v := range []string{"strs", "ints"} {
			if !g.has(v) {
				continue
			}
			k := g.r.N(2)
			if v == "strs" {
				ts = append(ts, target{fmt.Sprintf("$strs[%d]", k), TStr, func(e *Env, x interface{}) { e.v["strs"].([]string)[k] = x.(string) }})
			} else {
				ts = append(ts, target{fmt.Sprintf("$ints[%d]", k), TInt, func(e *Env, x interface{}) { e.v["ints"].([]int)[k] = x.(int) }})
			}
		}
		if g.has("leafs") {
			k := g.r.N(2)
			ts = append(ts, target{fmt.Sprintf("$leafs[%d].Name", k), TStr, func(e *Env, x interface{}) { e.v["leafs"].([]Leaf)[k].Name = x.(string) }})
		}
		for _, v := range []string{"n", "p"} {
			if !g.has(v) {
				continue
			}
			v := v
			upd := func(f func(n *Node, x interface{})) func(e *Env, x interface{}) {
				return func(e *Env, x interface{}) {
					switch a := e.v[v].(type) {
					case Node:
						f(&a, x)
						e.v[v] = a
					case *Node:
						if a != nil {
							f(a, x)
						}
					}
				}
			}
			ts = append(ts,
				target{"$" + v + ".Count", TInt, upd(func(n *Node, x interface{}) { n.Count = x.(int) })},
				target{"$" + v + ".Title", TStr, upd(func(n *Node, x interface{}) { n.Title = x.(string) })},
				target{"$" + v + ".Rate", TFloat, upd(func(n *Node, x interface{}) { n.Rate = x.(float64) })},
				target{"$" + v + ".Leaf.ID", TInt, upd(func(n *Node, x interface{}) { n.Leaf.ID = x.(int) })},
				target{"$" + v + ".Leaf.Name", TStr, upd(func(n *Node, x interface{}) { n.Leaf.Name = x.(string) })},
				target{"$" + v + ".Next.ID", TInt, upd(func(n *Node, x interface{}) {
					if n.Next != nil {
						n.Next.ID = x.(int)
					}
				})},
				target{"$" + v + ".Next.Name", TStr, upd(func(n *Node, x interface{}) {
					if n.Next != nil {
						n.Next.Name = x.(string)
					}
				})},
			)
		}
	}
	if g.assign && g.r.P(15) { // of types that expressions do not have
		if st := g.setField(); st != nil {
			return st
		}
	}
	for _, v := range []string{"strs", "ints", "leafs"} {
		if v := v; g.has(v) && g.has(v+"2") {
			a, b := v, v+"2"
			if g.r.P(50) {
				a, b = b, a
			}
			if g.r.P(30) {
				return g.stmt("#set($"+a+" = $"+b+")", func(e *Env, s *Stmt) { e.v[a] = e.v[b] })
			}
		}
	}
	if len(ts) == 0 {
		return g.text()
	}
	tg := ts[g.r.N(len(ts))]
	if x := g.smallSource(tg.t); x != nil {
		return g.stmt("#set("+tg.src+" = "+x.Src+")", func(e *Env, s *Stmt) { tg.set(e, x.Eval(e)) })
	}
	x := g.expr(tg.t, 2)
	if tg.t == TStr && (len(g.loops) > 0 || g.dyn) {
		x = g.bounded()
	}
	return g.stmt("#set("+tg.src+" = "+x.Src+")", func(e *Env, s *Stmt) {
		tg.set(e, x.Eval(e))
	})
}

// setField assigns a slice or a struct to a field of a struct.
func (g *Gen) setField() *Stmt {
	var vs []string
	for _, v := range []string{"n", "p"} {
		if g.has(v) {
			vs = append(vs, v)
		}
	}
	if len(vs) == 0 {
		return nil
	}
	v := vs[g.r.N(len(vs))]
	t := pick(g.r, TStrs, TInts, TLeafs, TLeaf)
	var as []*Ex
	if t == TLeaf {
		if g.has("leafs") {
			k := g.r.N(2)
			as = append(as, sel(TLeaf, fmt.Sprintf("$leafs[%d]", k), func(e *Env) interface{} { return e.v["leafs"].([]Leaf)[k] }))
		}
		if g.has("n") {
			as = append(as, sel(TLeaf, "$n.Leaf", func(e *Env) interface{} { return node(e, "n").Leaf }))
		}
	} else {
		as = g.atoms(t)
	}
	if len(as) == 0 {
		return nil
	}
	x := as[g.r.N(len(as))]
	f := map[Ty]string{TStrs: "Tags", TInts: "Nums", TLeafs: "Leafs", TLeaf: "Leaf"}[t]
	return g.stmt(fmt.Sprintf("#set($%s.%s = %s)", v, f, x.Src), func(e *Env, s *Stmt) {
		set := func(n *Node) {
			switch y := x.Eval(e).(type) {
			case []string:
				n.Tags = y
			case []int:
				n.Nums = y
			case []Leaf:
				n.Leafs = y
			case Leaf:
				n.Leaf = y
			}
		}
		switch n := e.v[v].(type) {
		case Node:
			set(&n)
			e.v[v] = n
		case *Node:
			if n == nil {
				n = &Node{} // there is nothing to assign to
			}
			set(n)
		}
	})
}

// smallSource gives what is assigned to and from variables of other types than
// the ones expressions have.
func (g *Gen) smallSource(t Ty) *Ex {
	from := func(t Ty, f func(v interface{}) interface{}) *Ex {
		as := g.atoms(t)
		if len(as) == 0 {
			return nil
		}
		a := as[g.r.N(len(as))]
		return &Ex{T: t, Src: a.Src, Eval: func(e *Env) interface{} { return f(a.Eval(e)) }}
	}
	lit := func(t Ty, f func(v interface{}) interface{}) *Ex {
		a := g.lit(t)
		return &Ex{T: t, Src: a.Src, Eval: func(e *Env) interface{} { return f(a.Eval(e)) }}
	}
	same := func(v interface{}) interface{} { return v }
	ptr := func(v interface{}) interface{} {
		switch a := v.(type) {
		case int:
			return &a
		case string:
			return &a
		}
		return v
	}
	var x *Ex
	switch t {
	case TSmall:
		k := g.r.In(10, 99)
		x = atom(TInt, strconv.Itoa(k), func(e *Env) interface{} { return k })
	case TF32:
		if g.r.P(40) {
			x = from(TF32, same)
		}
		if x == nil {
			x = lit(TFloat, same)
		}
	case TPInt:
		if g.r.P(50) {
			x = from(TInt, ptr)
		}
		if x == nil {
			x = lit(TInt, ptr)
		}
	case TPStr:
		if g.r.P(50) {
			x = from(TStr, ptr)
		}
		if x == nil {
			x = lit(TStr, ptr)
		}
	case TInt:
		if g.r.P(10) {
			x = from(TSmall, func(v interface{}) interface{} { return small(v) })
		} else if g.r.P(5) {
			x = from(TPInt, func(v interface{}) interface{} { return *v.(*int) })
		}
	case TStr:
		if g.r.P(5) {
			x = from(TPStr, func(v interface{}) interface{} { return *v.(*string) })
		}
	}
	return x
}

// bounded is a string expression whose length does not grow when it is assigned
// again and again.
func (g *Gen) bounded() *Ex {
	if g.calls && g.r.P(60) {
		b := g.builtinPct
		g.builtinPct = 0
		x := g.call(TStr, 0)
		g.builtinPct = b
		if x != nil {
			return x
		}
	}
	if as := g.atoms(TStr); len(as) > 0 && g.r.P(50) {
		return as[g.r.N(len(as))]
	}
	return g.lit(TStr)
}

func (g *Gen) cond() *Ex {
	x := g.expr(TBool, 2)
	if g.r.P(20) {
		if as := g.atoms(TBool); len(as) > 0 {
			a := as[g.r.N(len(as))]
			return &Ex{T: TBool, Src: "!" + a.Src, Call: a.Call, Eval: func(e *Env) interface{} { return !a.Eval(e).(bool) }}
		}
	}
	if g.r.P(12) {
		if as := g.atoms(TBool); len(as) > 0 {
			a, b := as[g.r.N(len(as))], as[g.r.N(len(as))]
			mk := func(src string, f func(a, b bool) bool) *Ex {
				return &Ex{T: TBool, Src: src, Call: a.Call || b.Call, Eval: func(e *Env) interface{} {
					x := a.Eval(e).(bool)
					return f(x, b.Eval(e).(bool))
				}}
			}
			switch g.r.N(6) {
			case 0:
				return mk("!("+a.Src+" && "+b.Src+")", func(a, b bool) bool { return !(a && b) })
			case 1:
				return mk("!("+a.Src+" || "+b.Src+")", func(a, b bool) bool { return !(a || b) })
			case 2:
				return mk(a.Src+" && !"+b.Src, func(a, b bool) bool { return a && !b })
			case 3:
				return mk(a.Src+" || !"+b.Src, func(a, b bool) bool { return a || !b })
			case 4:
				return mk("("+a.Src+" && "+b.Src+")", func(a, b bool) bool { return a && b })
			}
			return mk("("+a.Src+" == "+b.Src+") || "+b.Src, func(a, b bool) bool { return a == b || b })
		}
	}
	if g.r.P(15) { // other types are true unless they are zero
		t := pick(g.r, TInt, TStr, TFloat, TStrs, TInts, TLeafs, TPInt, TPStr)
		var a *Ex
		if as := g.atoms(t); len(as) > 0 {
			a = as[g.r.N(len(as))]
		}
		if t <= TFloat && g.r.P(60) {
			a = g.expr(t, 1)
		}
		if a != nil {
			return &Ex{T: TBool, Src: a.Src, Call: a.Call, Eval: func(e *Env) interface{} {
				v := reflect.ValueOf(a.Eval(e))
				if v.Kind() == reflect.Slice { // empty ones are true
					return !v.IsNil()
				}
				if v.Kind() == reflect.Ptr && !v.IsNil() { // what it points to counts
					v = v.Elem()
				}
				return !v.IsZero()
			}}
		}
	}
	return x
}

func (g *Gen) ifStmt(depth int, owner *Tmpl) *Stmt {
	c := g.cond()
	s := g.stmt("#if("+c.Src+")", nil)
	s.Body = g.block(depth-1, owner, 3)
	if g.r.P(15) {
		defer func() {
			s.Tail = "#{end}"
			if s.Mid == "#else " {
				s.Mid = "#{else} "
			}
		}()
	}
	switch g.r.N(4) {
	case 3:
		c2 := g.cond()
		m := g.stmt("#elseif("+c2.Src+")", nil)
		m.Body = g.block(depth-1, owner, 2)
		m.Mid = "#else "
		m.Else = g.block(depth-1, owner, 2)
		m.Run = func(e *Env, m *Stmt) {
			if c2.Eval(e).(bool) {
				owner.run(e, m.Body)
			} else {
				e.out.WriteString(" ")
				owner.run(e, m.Else)
			}
		}
		s.Else = []*Stmt{m}
		s.Tail = "#end"
		s.Run = func(e *Env, s *Stmt) {
			if c.Eval(e).(bool) {
				owner.run(e, s.Body)
			} else {
				owner.run(e, s.Else)
			}
		}
	case 0:
		s.Tail = "#end"
		s.Run = func(e *Env, s *Stmt) {
			if c.Eval(e).(bool) {
				owner.run(e, s.Body)
			}
		}
	case 1:
		s.Mid = "#else "
		s.Else = g.block(depth-1, owner, 2)
		s.Tail = "#end"
		s.Run = func(e *Env, s *Stmt) {
			if c.Eval(e).(bool) {
				owner.run(e, s.Body)
			} else {
				e.out.WriteString(" ")
				owner.run(e, s.Else)
			}
		}
	default:
		c2 := g.cond()
		s.Mid = "#elseif(" + c2.Src + ")"
		s.Else = g.block(depth-1, owner, 2)
		s.Tail = "#end"
		s.Run = func(e *Env, s *Stmt) {
			if c.Eval(e).(bool) {
				owner.run(e, s.Body)
			} else if c2.Eval(e).(bool) {
				owner.run(e, s.Else)
			}
		}
	}
	return s
}

// localName names a new local variable.
func (g *Gen) localName(t Ty, suffix string) string {
	if g.common {
		return g.commonName(t)
	}
	return fmt.Sprintf("%s%d%s", g.prefix, len(g.order), suffix)
}

// commonName is a name that all templates use for locals of the type.
func (g *Gen) commonName(t Ty) string {
	for i := 0; ; i++ {
		n := fmt.Sprintf("sh%d%s", i, letters(int(t)))
		if _, ok := g.locals[n]; !ok {
			return n
		}
	}
}

func (g *Gen) newLocal(t Ty) string {
	if g.common {
		return g.commonName(t)
	}
	return fmt.Sprintf("%s%dv", g.prefix, g.nextID+100)
}

func (g *Gen) forStmt(depth int, owner *Tmpl) *Stmt {
	k := g.r.In(1, 4)
	s := g.stmt("", nil)
	name := g.newLocal(TInt)
	init, bound := "0", strconv.Itoa(k)
	from := func() int { return 0 }
	to := func() int { return k }
	call := func(e *Env, x string) func() int {
		return func() int {
			i, err := fnZ(x)
			e.addErr(err)
			return i
		}
	}
	callFrom, callTo := "", ""
	if g.calls && g.r.P(15) {
		callFrom = g.word()
		init = fmt.Sprintf("$fz(%q)", callFrom)
	}
	if g.calls && g.r.P(20) {
		callTo = g.word()
		bound = fmt.Sprintf("$fz(%q)", callTo)
	}
	s.Head = fmt.Sprintf("#for($%s = %s; $%s < %s; $%s++)", name, init, name, bound, name)
	g.locals[name] = TInt
	g.order = append(g.order, name)
	saved := len(g.order)
	// the loop variable is read but not assigned in the body
	g.loops, g.fors = append(g.loops, name), append(g.fors, name)
	s.Body = g.block(depth-1, owner, 3)
	g.loops, g.fors = g.loops[:len(g.loops)-1], g.fors[:len(g.fors)-1]
	_ = saved
	g.remove(name)
	s.Tail = "#end"
	s.Run = func(e *Env, s *Stmt) {
		from, to := from, to
		if callFrom != "" {
			from = call(e, callFrom)
		}
		if callTo != "" {
			to = call(e, callTo)
		}
		i := from()
		for ; i < to(); i++ {
			e.v[name] = i
			owner.run(e, s.Body)
		}
		e.v[name] = i
	}
	return s
}

func (g *Gen) remove(name string) {
	delete(g.locals, name)
	var o []string
	for _, x := range g.order {
		if x != name {
			o = append(o, x)
		}
	}
	g.order = o
}

func (g *Gen) foreach(depth int, owner *Tmpl) *Stmt {
	kinds := []Ty{TStrs, TInts, TLeafs, TPtrs}
	t := kinds[g.r.N(len(kinds))]
	var x *Ex
	switch {
	case g.r.P(20):
		a := g.r.N(3)
		b := a + g.r.In(1, 3)
		var l []int
		if g.r.P(25) {
			a = -g.r.In(1, 3)
			b = g.r.In(0, 2)
		}
		if g.r.P(25) {
			a, b = b, a
			for i := a; i > b; i-- {
				l = append(l, i)
			}
		}
		for i := a; i < b; i++ {
			l = append(l, i)
		}
		t = TInts
		x = &Ex{T: TInts, Src: fmt.Sprintf("[%d...%d]", a, b), Eval: func(e *Env) interface{} { return l }}
	case g.calls && g.r.P(20):
		x = g.slice()
		t = x.T
	default:
		as := g.atoms(t)
		if len(as) == 0 {
			return g.text()
		}
		x = as[g.r.N(len(as))]
	}
	s := g.stmt("", nil)
	et := map[Ty]Ty{TStrs: TStr, TInts: TInt, TLeafs: TLeaf, TPtrs: TLeafPtr}[t]
	name := g.newLocal(et)
	s.Head = fmt.Sprintf("#foreach($%s in %s)", name, x.Src)
	g.locals[name] = et
	g.order = append(g.order, name)
	g.loops = append(g.loops, name)
	s.Body = g.block(depth-1, owner, 3)
	if src := strings.TrimPrefix(x.Src, "$"); g.has(src) && g.has(src+"2") && g.r.P(g.reassign) {
		// the loop goes on over what it started with
		s.Body = append([]*Stmt{g.stmt("#set($"+src+" = $"+src+"2);", func(e *Env, s *Stmt) { e.v[src] = e.v[src+"2"]; e.out.WriteString(";") })}, s.Body...)
	}
	g.loops = g.loops[:len(g.loops)-1]
	g.remove(name)
	s.Tail = "#end"
	s.Run = func(e *Env, s *Stmt) {
		v := reflect.ValueOf(x.Eval(e))
		for i := 0; i < v.Len(); i++ {
			e.v[name] = v.Index(i).Interface()
			owner.run(e, s.Body)
		}
	}
	return s
}

func (g *Gen) evalStmt() *Stmt {
	var names []string
	for _, v := range []string{"tpl1", "tpl2"} {
		if g.has(v) && (g.evalOnly == "" || g.evalOnly == v) {
			names = append(names, v)
		}
	}
	if len(names) == 0 {
		return g.text()
	}
	v := names[g.r.N(len(names))]
	switch {
	case g.calls && g.r.P(15): // the text comes from a function
		return g.stmt("#evaluate($fid($"+v+"))", func(e *Env, s *Stmt) {
			text, err := fnID(e.v[v].(string))
			e.addErr(err)
			e.evaluate(text)
		})
	case g.r.P(8):
		return g.stmt("#set($evt = $"+v+")#evaluate($evt)", func(e *Env, s *Stmt) {
			e.v["evt"] = e.v[v]
			e.evaluate(e.v[v].(string))
		})
	case g.assign && g.has("n") && g.r.P(15):
		return g.stmt("#set($n.Title = $"+v+")#evaluate($n.Title)", func(e *Env, s *Stmt) {
			n := e.v["n"].(Node)
			n.Title = e.v[v].(string)
			e.v["n"] = n
			e.evaluate(n.Title)
		})
	}
	return g.stmt("#evaluate($"+v+")", func(e *Env, s *Stmt) { e.evaluate(e.v[v].(string)) })
}

// evaluate is the model of #evaluate: the text is compiled afresh in this
// scope and executed on copies of the variables.
func (e *Env) evaluate(text string) {
	t := e.dyn(e.scope, text)
	if t == nil || e.depth > 4 {
		return
	}
	c := *e
	c.v = map[string]interface{}{}
	for k, v := range e.v {
		c.v[k] = v
	}
	c.depth++
	t.Exec(&c)
}

func (g *Gen) block(depth int, owner *Tmpl, max int) []*Stmt {
	var res []*Stmt
	n := g.r.In(1, max)
	for i := 0; i < n && g.nst < g.maxSt; i++ {
		g.nst++
		var s *Stmt
		k := g.r.N(100)
		if g.eval && g.evalPct > 0 && g.r.P(g.evalPct) {
			k = 99
		}
		switch {
		case k == 99 && g.eval && g.evalPct > 0:
			s = g.evalStmt()
		case k < 15:
			s = g.text()
		case k < 50 || depth <= 0:
			s = g.print()
		case k < 65:
			s = g.set()
		case k < 75:
			s = g.ifStmt(depth, owner)
		case k < 82:
			s = g.forStmt(depth, owner)
		case k < 92 || !g.eval:
			s = g.foreach(depth, owner)
		default:
			s = g.evalStmt()
		}
		// keep selectors apart from following text
		if len(res) > 0 && s.IsTxt {
			sep := g.stmt(" ", func(e *Env, s *Stmt) { e.out.WriteString(" ") })
			sep.Keep = true
			res = append(res, sep)
		}
		res = append(res, s)
		if !s.IsTxt {
			sep := g.stmt(";", func(e *Env, s *Stmt) { e.out.WriteString(";") })
			sep.Keep = true
			res = append(res, sep)
		}
	}
	return res
}

// Template generates a whole template.
func (g *Gen) Template(max int) *Tmpl {
	t := &Tmpl{drop: map[int]bool{}}
	g.nst = 0
	t.Body = append(t.Body, g.define()...)
	t.Body = append(t.Body, g.block(3, t, max)...)
	// the parser drops nothing after the last statement if it ends in text
	end := g.stmt(".", func(e *Env, s *Stmt) { e.out.WriteString(".") })
	end.Keep = true
	t.Body = append(t.Body, end)
	return t
}

func (g *Gen) isFor(v string) bool {
	for _, l := range g.fors {
		if l == v {
			return true
		}
	}
	return false
}
