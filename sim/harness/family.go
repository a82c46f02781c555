package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/viant/velty"
	"github.com/viant/velty/est"

	"verifsim/simrt"
)

// An OpFamily grows a tree of scopes; every scope defines its own variables
// y0..y5 (of its own types) and z0, z1 (structs of its own layout), and
// templates compiled anywhere in the tree, before or after, print what they
// know of them.

var yNames = []string{"y0", "y1", "y2", "y3", "y4", "y5"}
var zNames = []string{"z0", "z1"}

// Alt has the fields of Leaf in another order.
type Alt struct {
	On   bool
	Name string
	Pad  [3]int
	ID   int
}

var yTypes = []Ty{TInt, TStr, TFloat, TBool, TStrs}

// zt tells the layouts apart; they are kept in known as these types.
const (
	zLeaf = TLeaf
	zAlt  = TNode
	zPtr  = TLeafPtr
)

func yType(t Ty) reflect.Type {
	switch t {
	case zLeaf:
		return reflect.TypeOf(Leaf{})
	case zAlt:
		return reflect.TypeOf(Alt{})
	case zPtr:
		return reflect.TypeOf(&Leaf{})
	}
	return xType(t)
}

func yValue(name string, t Ty, seed uint64) interface{} {
	h := seed
	for _, c := range name {
		h = h*31 + uint64(c)
	}
	r := NewRand(h)
	switch t {
	case zLeaf:
		return Leaf{ID: r.N(500), Name: letters(r.N(9999))}
	case zAlt:
		return Alt{ID: r.N(500), Name: letters(r.N(9999))}
	case zPtr:
		return &Leaf{ID: r.N(500), Name: letters(r.N(9999))}
	}
	return xValue(t, h)
}

// yPrint prints one of the scope-dependent variables, if the scope knows it,
// or else its own source text.
func (g *Gen) yPrint() *Stmt {
	if g.r.P(25) {
		n := zNames[g.r.N(len(zNames))]
		f := pick(g.r, "ID", "Name")
		src := "$" + n + "." + f
		if g.r.P(40) {
			src = "${" + n + "." + f + "}"
		}
		g.ys[n] = true
		return g.stmt(src, func(e *Env, s *Stmt) {
			if _, ok := e.ys[n]; !ok {
				e.out.WriteString(src)
				return
			}
			v := reflect.Indirect(reflect.ValueOf(e.v[n]))
			if f == "ID" {
				e.print(TInt, int(v.FieldByName(f).Int()))
			} else {
				e.print(TStr, v.FieldByName(f).String())
			}
		})
	}
	n := yNames[g.r.N(len(yNames))]
	src := "$" + n
	if g.r.P(40) {
		src = "${" + n + "}"
	}
	g.ys[n] = true
	return g.stmt(src, func(e *Env, s *Stmt) {
		t, ok := e.ys[n]
		if !ok {
			e.out.WriteString(src)
			return
		}
		e.print(t, e.v[n])
	})
}

const (
	FamChild = iota
	FamDefine
	FamExec
	FamRerun
	FamSet
	FamBad
	FamRegister
	FamBuffer
)

var famNames = []string{"child of", "define in", "compile+exec in", "rerun a plan of", "compile a #set in", "compile bad in", "register function in", "compare buffers of"}

// FamStep is a step of an OpFamily.
type FamStep struct {
	Kind   int
	Node   int // modulo the number of scopes there are
	Name   string
	T      Ty
	Tm     *Tmpl
	Val    ValSpec
	Faults []Fault
	Pick   int
	OldSt  bool
}

func (w *World) genFamily(r *Rand, o *OpSpec, alone bool) {
	o.Kind, o.Scope = OpFamily, r.N(len(w.Scopes))
	vars := w.Planners[0].Vars
	if r.P(30) { // a root planner of its own
		o.P = &PlannerSpec{Opts: w.Cfg.opts(r), Vars: vars}
	}
	for i := r.In(3, 14); i > 0; i-- {
		s := &FamStep{Node: r.N(1000), Pick: r.N(1000), OldSt: r.P(40)}
		s.Kind = pick(r, FamChild, FamChild, FamDefine, FamDefine, FamDefine, FamExec, FamExec, FamExec, FamRerun, FamRerun, FamSet, FamBad, FamRegister, FamBuffer)
		if s.Kind == FamRegister && !alone && o.P == nil {
			s.Kind = FamChild // functions are registered before the concurrent use
		}
		switch s.Kind {
		case FamDefine:
			if r.P(25) {
				s.Name, s.T = zNames[r.N(len(zNames))], pick(r, zLeaf, zAlt, zPtr)
			} else {
				s.Name, s.T = yNames[r.N(len(yNames))], yTypes[r.N(len(yTypes))]
			}
		case FamSet:
			s.Name = yNames[r.N(len(yNames))]
		case FamBad:
			s.Name = badText(r)
		case FamExec:
			rr := r.Fork()
			g := w.gen(rr, vars, TNone, "t"+letters(len(w.Tmpls))+"q")
			g.eval = rr.P(50)
			g.yprint = 60
			if rr.P(60) {
				g.maxSt = 4
			}
			s.Tm = w.addTmpl(g.Template(rr.In(1, 5)))
			s.Tm.eval = g.eval
			s.Tm.ys = g.ys
			s.Faults = w.faults(r)
			s.Val = w.val(r, true)
		case FamRerun:
			s.Faults = w.faults(r)
			s.Val = w.val(r, false)
		}
		o.Fam = append(o.Fam, s)
	}
	for _, s := range o.Fam {
		s.Val.Shared = -1
	}
}

type famNode struct {
	p     *velty.Planner
	known map[string]Ty
	amb   map[string]bool
	ver   int
	funcs int
}

type famPlan struct {
	node  int
	tm    *Tmpl
	known map[string]Ty
	ver   int
	b     *builtPlan
	st    *est.State
	skip  bool
}

func copyKnown(m map[string]Ty) map[string]Ty {
	c := map[string]Ty{}
	for k, v := range m {
		c[k] = v
	}
	return c
}

// bufferCap is the capacity of the byte slice in a state's buffer, -1 if there
// is none to be found.
func bufferCap(st *est.State) int {
	v := reflect.ValueOf(st.Buffer)
	for v.Kind() == reflect.Ptr {
		v = v.Elem()
	}
	if v.Kind() != reflect.Struct {
		return -1
	}
	for i := 0; i < v.NumField(); i++ {
		if f := v.Field(i); f.Kind() == reflect.Slice && f.Type().Elem().Kind() == reflect.Uint8 {
			return f.Cap()
		}
	}
	return -1
}

func (w *World) runFamily(task int, o *OpSpec) (recs []*Rec) {
	c := w.newCtx(o.ID, nil, FNone)
	ps := w.Planners[w.Scopes[o.Scope].Planner]
	opts, vars := w.opts(ps.Opts), ps.Vars
	xT := w.Scopes[o.Scope].xT
	fv := new(int)
	if o.P == nil {
		fv = w.fvers[w.Scopes[o.Scope].Planner]
	}
	root := w.mode.Root || w.mode.Solo && w.mode.OnlyOp > 0 // only the wanted step, in a root planner that knows the same
	guard := func(f func() error) (err error) {
		defer func() {
			if x := recover(); x != nil {
				if se, ok := x.(setupErr); ok {
					err = se.err
					return
				}
				err = fmt.Errorf("panic: %v", x)
			}
		}()
		return f()
	}
	fresh := func(known map[string]Ty) *velty.Planner {
		p := newPlanner(opts, vars)
		if xT != TNone {
			must(p.DefineVariable("x", xType(xT)))
		}
		for _, n := range append(append([]string{}, yNames...), zNames...) {
			if t, ok := known[n]; ok {
				must(p.DefineVariable(n, yType(t)))
			}
		}
		return p
	}
	fail := func(sub int, what string, err error) {
		recs = append(recs, &Rec{Task: task, Op: o.ID, Sub: sub, What: what, Ctx: c, Err: err})
	}
	var nodes []*famNode
	err := guard(func() error {
		n := &famNode{known: map[string]Ty{}, amb: map[string]bool{}}
		if o.P != nil {
			opts, vars, xT = w.opts(o.P.Opts), o.P.Vars, TNone
			if !root {
				n.p = newPlanner(opts, vars)
			}
		} else if !root {
			n.p = w.scopes[o.Scope].New()
		}
		nodes = append(nodes, n)
		return nil
	})
	if err != nil {
		fail(0, "family", err)
		return
	}
	var plans []*famPlan
	for i, s := range o.Fam {
		sub := i + 1
		if w.drop[o.ID*1000+sub] {
			continue
		}
		if w.mode.OnlySub > 0 && sub > w.mode.OnlySub {
			break
		}
		c = w.newCtx(o.ID, s.Faults, FNone)
		simrt.Y(simrt.SiteOp)
		k := s.Node % len(nodes)
		n := nodes[k]
		switch s.Kind {
		case FamRerun:
			if len(plans) == 0 {
				continue
			}
		case FamDefine:
			if _, ok := n.known[s.Name]; ok || n.amb[s.Name] {
				continue
			}
		case FamSet:
			if _, ok := n.known[s.Name]; ok {
				continue
			}
		}
		var rec *Rec
		err := guard(func() error {
			switch s.Kind {
			case FamChild:
				m := &famNode{known: copyKnown(n.known), amb: map[string]bool{}, funcs: n.funcs}
				for a := range n.amb {
					m.amb[a] = true
				}
				if !root {
					m.p = n.p.New()
				}
				nodes = append(nodes, m)
			case FamDefine:
				n.known[s.Name] = s.T
				n.ver++
				if !root {
					return n.p.DefineVariable(s.Name, yType(s.T))
				}
			case FamSet:
				n.amb[s.Name] = true
				n.ver++
				if !root {
					return w.compile(n.p, "#set($"+s.Name+" = 71)a$"+s.Name+";").err
				}
			case FamBad:
				if !root {
					w.compile(n.p, s.Name)
				}
			case FamRegister:
				if s.Pick%2 == 0 && !root {
					*fv++
					return n.p.RegisterFunction("rv", fnRV(*fv))
				}
				if !root {
					return n.p.RegisterFunction(fmt.Sprintf("reg%d_%d", o.ID, s.Pick), fnS)
				}
			case FamBuffer:
				if root || len(nodes) < 2 {
					return nil
				}
				a, b := w.compile(nodes[0].p, "a"), w.compile(nodes[len(nodes)-1].p, "a")
				if a.err != nil || b.err != nil {
					return fmt.Errorf("%v %v", a.err, b.err)
				}
				x, y := bufferCap(a.ns()), bufferCap(b.ns())
				if x != y {
					rec = &Rec{Task: task, Op: o.ID, Sub: sub, What: "family/buffers", Ctx: c, Res: &Result{}, Dirty: fmt.Sprintf("states of a child scope start with a buffer of %d bytes, those of its parent with %d", y, x)}
				}
			case FamExec, FamRerun:
				var p *famPlan
				if s.Kind == FamExec {
					p = &famPlan{node: k, tm: s.Tm, known: copyKnown(n.known), ver: n.ver}
					for y := range s.Tm.ys {
						p.skip = p.skip || n.amb[y]
					}
					if s.Tm.eval {
						p.skip = p.skip || len(n.amb) > 0
					}
					plans = append(plans, p)
				} else {
					p = plans[s.Pick%len(plans)]
					if m := nodes[p.node]; p.tm.eval && p.ver != m.ver {
						// the evaluated texts know what was defined since
						if len(m.amb) > 0 {
							return nil
						}
						for y := range p.tm.ys {
							_, then := p.known[y]
							if _, now := m.known[y]; then != now {
								return nil
							}
						}
						p.known, p.ver, p.st = copyKnown(m.known), m.ver, nil
					}
				}
				if root && (w.mode.OnlySub != sub) {
					return nil
				}
				rec = &Rec{Task: task, Op: o.ID, Sub: sub, What: fmt.Sprintf("family/%s scope %d", famNames[s.Kind], p.node), T: p.tm, Opts: opts, Vars: vars, xT: xT, Val: s.Val, Ctx: c, Faults: s.Faults, Ys: p.known}
				if p.skip {
					rec.T = nil
				}
				if p.b == nil {
					pl := n.p
					if root {
						pl = fresh(p.known)
					}
					p.b = w.compile(pl, p.tm.Text())
					if p.b.err != nil {
						return p.b.err
					}
					p.b.fv = *fv
					if root {
						p.b.fv = 0
					}
				}
				switch {
				case p.st == nil:
					p.st = p.b.ns()
				case s.OldSt:
					p.st.Reset()
				default:
					p.st = p.b.ns()
				}
				w.execOn(rec, p.b, p.st)
			}
			return nil
		})
		if s.Kind == FamBad {
			err = nil
		}
		if rec != nil {
			rec.Err = err
			if rec.T == nil && rec.Dirty == "" {
				rec.Err = nil
			}
			recs = append(recs, rec)
		} else if err != nil {
			fail(sub, "family/"+famNames[s.Kind], err)
		}
	}
	return
}

func (s *FamStep) desc(w *World) string {
	d := fmt.Sprintf("%s scope #%d", famNames[s.Kind], s.Node)
	switch s.Kind {
	case FamBad:
		d += fmt.Sprintf(" %q", s.Name)
	case FamDefine:
		d += fmt.Sprintf(" %s %v", s.Name, yType(s.T))
	case FamSet:
		d += " $" + s.Name
	case FamExec:
		d += fmt.Sprintf(" %q %s", s.Tm.Text(), s.Val.desc(w))
	case FamRerun:
		d += fmt.Sprintf(" #%d %s", s.Pick, s.Val.desc(w))
	}
	return strings.TrimSpace(d + faultDesc(s.Faults, FNone))
}

// addYs adds the values of the scope's variables.
func (r *Rec) addYs(v map[string]interface{}) (names []string) {
	for _, n := range append(append([]string{}, yNames...), zNames...) {
		if t, ok := r.Ys[n]; ok {
			v[n] = yValue(n, t, r.Val.Seed)
			names = append(names, n)
		}
	}
	return
}
