package main

import (
	"fmt"
	"os"
	"runtime"
	"sort"
	"strings"

	"github.com/viant/velty/ast/expr"
)

// compileEvent is the compilation of a dynamic template, seen through the
// result typer of $fx.
type compileEvent struct {
	id string
}

func init() {
	typerHook = func(call *expr.Call) {
		c := ctx()
		if c == nil || len(call.Args) == 0 {
			return
		}
		if l, ok := call.Args[0].(*expr.Literal); ok {
			c.compiled = append(c.compiled, compileEvent{l.Value})
		}
	}
}

// markStmt prints $fx(id) and so shows both compilation and evaluation.
func (g *Gen) markStmt(id string) *Stmt {
	s := g.stmt(fmt.Sprintf("$fx(%q);", id), func(e *Env, s *Stmt) { e.print(TStr, fnX(id)); e.out.WriteString(";") })
	s.Keep = true
	return s
}

// evalTmpl is a template that evaluates tpl1 and possibly tpl2.
func (w *World) evalTmpl(r *Rand, vars []string, simple bool) *Tmpl {
	g := w.gen(r, vars, TNone, "t"+letters(len(w.Tmpls))+"q")
	g.eval = true
	t := &Tmpl{drop: map[int]bool{}}
	ev := func(v string) *Stmt {
		s := g.stmt("#evaluate($"+v+");", func(e *Env, s *Stmt) { e.evaluate(e.v[v].(string)); e.out.WriteString(";") })
		s.Keep = simple
		return s
	}
	if simple {
		t.Body = []*Stmt{ev("tpl1")}
		return w.addTmpl(t)
	}
	for i := r.In(1, 3); i > 0; i-- {
		switch r.N(4) {
		case 0, 1:
			t.Body = append(t.Body, ev(pick(r, "tpl1", "tpl1", "tpl2")))
		case 2:
			n := "q" + letters(g.nextID)
			s := g.stmt("#foreach($"+n+" in $strs)", nil)
			s.Tail = "#end;"
			s.Body = []*Stmt{ev(pick(r, "tpl1", "tpl2"))}
			s.Run = func(e *Env, s *Stmt) {
				for range e.v["strs"].([]string) {
					t.run(e, s.Body)
				}
				e.out.WriteString(";")
			}
			t.Body = append(t.Body, s)
		default:
			s := g.stmt("$s1;", func(e *Env, s *Stmt) { e.str(e.v["s1"].(string)); e.out.WriteString(";") })
			t.Body = append(t.Body, s)
		}
	}
	return w.addTmpl(t)
}

// genCacheWorld: histories of dynamic evaluations against small caches.
func genCacheWorld(r *Rand, w *World) *World {
	vars := someVars(r, "i1", "s1", "strs", "tpl1", "tpl2")
	size := pick(r, -1, 0, 1, 1, 2, 2, 3, 4, 5, 8)
	for i := r.In(1, 2); i > 0; i-- {
		o := defOpts(r)
		o.Cache = size
		if i > 1 {
			o.Cache = pick(r, -1, 0, 1, 2, 3, 4, 8)
		}
		s := &ScopeSpec{Planner: len(w.Planners), Parent: -1, X: TNone, xT: TNone}
		w.Planners = append(w.Planners, &PlannerSpec{Opts: o, Vars: vars})
		w.Scopes = append(w.Scopes, s)
	}
	for i := r.N(3); i > 0; i-- {
		p := r.N(len(w.Scopes))
		s := &ScopeSpec{Planner: w.Scopes[p].Planner, Parent: p, X: TNone, xT: w.Scopes[p].xT}
		if s.xT == TNone && r.P(50) {
			s.X = pick(r, TInt, TStr, TFloat)
			s.xT = s.X
		}
		w.Scopes = append(w.Scopes, s)
	}
	if r.P(3) {
		o := &OpSpec{ID: w.opID(), Kind: OpChurn, Plan: 0, Slot: -1, Pool: -1, Val: ValSpec{Seed: r.U(), Shared: -1, Tpl: [2]int{-1, -1}}}
		o.Take = pick(r, 0, 1, 2, 3, 4)
		w.Planners[0].Opts.Cache = pick(r, -1, 0, 1, 2)
		w.Plans = append(w.Plans, &PlanSpec{Scope: 0, T: w.evalTmpl(r.Fork(), vars, true), xT: TNone})
		w.Tasks = [][]*OpSpec{{o}}
		return w
	}
	nd := r.In(1, 9)
	if size > 0 && r.P(55) { // fits, as long as one scope is used
		nd = r.In(1, size)
	}
	tw := r.Fork()
	twinned, pair := tw.P(15), tw.N(len(twins))
	var twSeed uint64
	for i := 0; i < nd; i++ {
		gr, id, name := r.Fork(), "c"+letters(i), i
		if twinned && i%2 == 0 {
			twSeed = tw.U()
		}
		if twinned {
			tn := twins[(pair+i/2*2)%len(twins)] // neighbours share words
			id = tn.a
			if i%2 == 1 {
				id = tn.b
			}
			gr, name = NewRand(twSeed), i&^1
		}
		g := w.gen(gr, vars, TNone, "d"+letters(name)+"q")
		g.maxSt, g.fx, g.dyn = 3, 0, true
		t := &Tmpl{drop: map[int]bool{}}
		if gr.P(40) {
			t = g.Template(gr.In(1, 2))
		}
		m := g.markStmt(id)
		if gr.P(50) {
			t.Body = append([]*Stmt{m}, t.Body...)
		} else {
			t.Body = append(t.Body, m)
		}
		w.Dyn = append(w.Dyn, w.addTmpl(t))
	}
	simple := map[int]int{}
	for s := range w.Scopes {
		if s > 0 && r.P(30) {
			continue
		}
		simple[s] = len(w.Plans)
		w.Plans = append(w.Plans, &PlanSpec{Scope: s, xT: w.Scopes[s].xT, T: w.evalTmpl(r.Fork(), vars, true)})
	}
	for i := r.N(3); i > 0; i-- {
		s := r.N(len(w.Scopes))
		w.Plans = append(w.Plans, &PlanSpec{Scope: s, xT: w.Scopes[s].xT, T: w.evalTmpl(r.Fork(), vars, false)})
	}
	if r.P(30) {
		w.Pools = append(w.Pools, &PoolSpec{Plan: r.N(len(w.Plans)), Size: r.In(1, 3)})
	}
	nt, ops := 1, [2]int{2, 16}
	if r.P(40) {
		nt, ops = r.In(2, 4), [2]int{1, 6}
	}
	onePlan := r.P(40)
	type use struct{ scope, dyn int }
	var uses []use
	work := r.Fork()
	set := []int{0}
	redraw := func() {
		set = set[:0]
		for i := work.In(1, 4); i > 0; i-- {
			set = append(set, work.N(nd))
		}
	}
	redraw()
	val := func(scope int) ValSpec {
		v := ValSpec{Seed: r.U(), Shared: -1}
		for i := range v.Tpl {
			v.Tpl[i] = set[work.N(len(set))]
			if i == 1 && work.P(40) {
				v.Tpl[i] = v.Tpl[0]
			}
			uses = append(uses, use{scope, v.Tpl[i]})
		}
		if r.P(4) {
			v.Tpl[1] = -2 - r.N(len(badTexts))
		}
		return v
	}
	scopeOps := r.P(25)
	for t := 0; t < nt; t++ {
		var l []*OpSpec
		for i := r.In(ops[0], ops[1]); i > 0; i-- {
			if work.P(20) {
				redraw()
			}
			o := &OpSpec{ID: w.opID(), Slot: -1, Pool: -1}
			if scopeOps && r.P(25) {
				o.Kind, o.Scope = OpScope, r.N(len(w.Scopes))
				for k := r.In(1, 3); k > 0; k-- {
					xT := w.Scopes[o.Scope].xT
					o.Steps = append(o.Steps, &Step{Kind: StExec, T: w.evalTmpl(r.Fork(), vars, true), xT: xT, Val: val(-1)})
				}
				l = append(l, o)
				continue
			}
			o.Plan = r.N(len(w.Plans))
			if onePlan {
				o.Plan = 0
			}
			if len(w.Pools) > 0 && r.P(30) {
				o.Pool, o.Plan = 0, w.Pools[0].Plan
			} else if r.P(30) {
				o.Slot = o.Plan
			}
			o.Val = val(w.Plans[o.Plan].Scope)
			if r.P(15) {
				o.Faults = []Fault{{At: r.In(1, 3), Kind: pick(r, FErr, FPanicErr, FPanicStr, FGC)}}
			}
			if r.P(1) {
				o.Typer = FPanicStr
			}
			l = append(l, o)
		}
		w.Tasks = append(w.Tasks, l)
	}
	// probes, the most recently used first
	seen := map[use]bool{}
	if nt > 1 { // roughly
		u := uses
		uses = nil
		for len(u) > 0 {
			k := r.N(len(u))
			uses = append(uses, u[k])
			u = append(u[:k], u[k+1:]...)
		}
	}
	for i := len(uses) - 1; i >= 0; i-- {
		u := uses[i]
		p, ok := simple[u.scope]
		if seen[u] || !ok {
			continue
		}
		seen[u] = true
		w.Post = append(w.Post, &OpSpec{ID: w.opID(), Kind: OpExec, Plan: p, Slot: -1, Pool: -1, Val: ValSpec{Seed: r.U(), Shared: -1, Tpl: [2]int{u.dyn, u.dyn}}})
	}
	return w
}

// unitCompiles is the number of type callbacks one compilation makes.
var unitCompiles = 0

func calibrate() {
	if unitCompiles > 0 {
		return
	}
	c := &Ctx{}
	prev := modelCtx
	modelCtx = c
	defer func() { modelCtx = prev }()
	p := newPlanner(Opts{Buf: -1, Cache: -1}, []string{"i1"})
	_, _, err := p.Compile([]byte(`$fx("cal");`))
	must(err)
	unitCompiles = len(c.compiled)
	if unitCompiles == 0 {
		panic(setupErr{fmt.Errorf("no type callback while compiling")})
	}
}

type cacheKeyT struct {
	scope string
	id    string
}

type cacheUse struct {
	key        cacheKeyT
	start, end int
	compiles   int // of this key by this record
	evals      int
	post       bool
	clean      bool // neither error nor panic
	at         int  // order
}

// checkCache decides C04 on the recorded history.
func (w *World) checkCache(out *Outcome) {
	if w.Prop != "C04" {
		return
	}
	calibrate()
	bad := func(r *Rec, f string, a ...interface{}) {
		out.Viols = append(out.Viols, Violation{Kind: "cache", Msg: fmt.Sprintf("op %d.%d (%s): ", r.Op, r.Sub, r.What) + fmt.Sprintf(f, a...), Op: r.Op, Sub: r.Sub})
	}
	size := func(p int) int {
		if n := w.opts(w.Planners[p].Opts).Cache; n > 0 {
			return n
		}
		return 0
	}
	seq := len(w.Tasks) == 1
	for p := range w.Planners {
		var uses []*cacheUse
		recOf := map[*cacheUse]*Rec{}
		lastKey := cacheKeyT{}
		lastOK := false
		distinct := map[cacheKeyT]bool{}
		for ri, r := range w.records() {
			if r.Ctx == nil || r.Res == nil {
				continue
			}
			sc, pl := w.recScope(r)
			if pl != p {
				continue
			}
			by := map[string]*cacheUse{}
			var order []string
			get := func(id string) *cacheUse {
				u := by[id]
				if u == nil {
					u = &cacheUse{key: cacheKeyT{sc, id}, start: r.Start, end: r.End, at: ri}
					u.clean = !r.Res.Panicked && r.Res.Err == nil
					by[id] = u
					order = append(order, id)
					distinct[u.key] = true
				}
				return u
			}
			for _, e := range r.Ctx.compiled {
				u := get(e.id)
				u.compiles++
			}
			var evalOrder []string
			for _, cl := range r.Res.Calls {
				if strings.HasPrefix(cl, "fx(c") {
					id := strings.TrimSuffix(cl[3:], ")")
					get(id).evals++
					evalOrder = append(evalOrder, id)
				}
			}
			if len(order) == 0 {
				if !seq || r.Err != nil {
					lastOK = false
				}
				continue
			}
			// the same text twice in a row
			if seq && size(p) > 0 && len(order) == 1 {
				u := by[order[0]]
				if lastOK && lastKey == u.key && u.compiles > 0 {
					bad(r, "text %s was compiled again although nothing else has been evaluated since its last evaluation", u.key.id)
				}
				if u.compiles > unitCompiles && u.clean {
					bad(r, "text %s, the only one evaluated, was compiled %d times", u.key.id, u.compiles/unitCompiles)
				}
			}
			if len(evalOrder) > 0 {
				lastKey = cacheKeyT{sc, evalOrder[len(evalOrder)-1]}
				lastOK = r.Res != nil && !r.Res.Panicked && r.Res.Err == nil
			} else {
				lastOK = false
			}
			if size(p) == 0 {
				for _, id := range order {
					if u := by[id]; u.clean && u.compiles < u.evals*unitCompiles {
						bad(r, "text %s was evaluated %d times but compiled %d times: it is retained without a cache", id, u.evals, u.compiles/unitCompiles)
					}
				}
			}
			for _, id := range order {
				uses = append(uses, by[id])
				recOf[by[id]] = r
			}
		}
		w.probe("cache-uses", len(uses))
		if size(p) == 0 {
			continue
		}
		if len(distinct) <= size(p) {
			w.probe("cache-fitting-runs", 1)
			first := map[cacheKeyT]int{} // end of the first complete evaluation
			for _, u := range uses {
				// whether or not a function failed later on
				if u.evals > 0 && !recOf[u].Ctx.typerPanicked {
					if e, ok := first[u.key]; !ok || u.end < e {
						first[u.key] = u.end
					}
				}
			}
			for _, u := range uses {
				if u.clean && u.compiles > unitCompiles {
					bad(recOf[u], "text %s was compiled %d times in one execution although all %d texts fit in the cache of %d", u.key.id, u.compiles/unitCompiles, len(distinct), size(p))
				}
				if e, ok := first[u.key]; ok && u.start > e && u.compiles > 0 {
					bad(recOf[u], "text %s was compiled again although all %d texts fit in the cache of %d", u.key.id, len(distinct), size(p))
				}
			}
		}
		// retention: a text used without being compiled by anybody since an
		// earlier use was retained in between
		type span struct {
			from, to int
			key      cacheKeyT
			r        *Rec
		}
		var spans []span
		last := map[cacheKeyT]*cacheUse{}
		sort.SliceStable(uses, func(i, j int) bool { return uses[i].end < uses[j].end })
		for _, u := range uses {
			if u.compiles == 0 && u.evals > 0 {
				// find the latest earlier use ending before this one starts
				var prev *cacheUse
				for _, v := range uses {
					if v.key == u.key && v != u && v.end < u.start && (prev == nil || v.end > prev.end) {
						prev = v
					}
				}
				if prev != nil {
					ok := true
					for _, v := range uses {
						// it may have been stored again any time until the
						// execution that compiled it ended
						if v.key == u.key && v.compiles > 0 && v.end > prev.end && v.start < u.end {
							ok = false
						}
					}
					if ok {
						spans = append(spans, span{prev.end, u.start, u.key, recOf[u]})
						w.probe("cache-hits", 1)
					}
				}
			}
			last[u.key] = u
		}
		for _, s := range spans {
			keys := map[cacheKeyT]bool{}
			for _, q := range spans {
				if q.from <= s.from && s.from < q.to {
					keys[q.key] = true
				}
			}
			if len(keys) > size(p) {
				bad(s.r, "%d compiled texts were retained at once (step %d), the cache size is %d", len(keys), s.from, size(p))
				break
			}
			if len(keys) == size(p) {
				w.probe("cache-full", 1)
			}
		}
	}
}

func (w *World) probe(name string, n int) {
	if w.stats.Probes == nil {
		w.stats.Probes = map[string]int{}
	}
	w.stats.Probes[name] += n
}

// recScope names the scope of a record and gives its planner.
func (w *World) recScope(r *Rec) (string, int) {
	res, pl := "", -1
	w.eachOp(func(o *OpSpec) {
		if o.ID != r.Op {
			return
		}
		switch o.Kind {
		case OpExec:
			s := w.Plans[o.Plan].Scope
			res, pl = fmt.Sprint("s", s), w.Scopes[s].Planner
		case OpScope:
			res, pl = fmt.Sprint("op", o.ID), w.Scopes[o.Scope].Planner
		}
	})
	return res, pl
}

// runChurn evaluates many different texts and measures the live heap.
func (w *World) runChurn(task int, o *OpSpec) *Rec {
	c := w.newCtx(o.ID, nil, FNone)
	r := &Rec{Task: task, Op: o.ID, What: "churn", Ctx: c, Res: &Result{}}
	pl := w.Planners[0]
	b := w.plans[o.Plan]
	if b.err != nil {
		r.Err = b.err
		return r
	}
	cache := w.opts(pl.Opts).Cache
	if cache < 0 {
		cache = 0
	}
	v, set := w.values(o.Val, pl.Vars, TNone)
	set["tpl1"], set["tpl2"] = true, true
	st := b.ns()
	one := func(i int) {
		fill := strings.Repeat("z", 100)
		var text, want string
		switch o.Take {
		case 0: // plain
			text = fmt.Sprintf("%s%d;$i1;", fill, i)
			want = fmt.Sprintf("%s%d;%d;;", fill, i, v["i1"])
		case 1: // does not compile
			text = fmt.Sprintf("%s%d;#if($i1 == 12)", fill, i)
			want = ";"
		case 2: // variables and calls
			text = fmt.Sprintf("#set($loc = $i1);$loc %s%d;$fi($i1);", fill, i)
			want = fmt.Sprintf(";%d %s%d;i%d;;", v["i1"], fill, i, v["i1"])
		case 3: // nested
			text = fmt.Sprintf("#evaluate($tpl2);%d", i)
			want = fmt.Sprintf("%s%d.;%d;", fill, i, i)
		default: // loops and conditions
			text = fmt.Sprintf("#foreach($q in $strs)%d#end;#if($i1 == 77777)a#else b#end;%s%d;", i, fill, i)
			want = strings.Repeat(fmt.Sprint(i), len(v["strs"].([]string))) + fmt.Sprintf(";%s;%s%d;;", map[bool]string{true: "a", false: " b"}[v["i1"] == 77777], fill, i)
		}
		if i%2 == 0 {
			st = b.ns()
		} else {
			st.Reset()
		}
		v["tpl1"], v["tpl2"] = text, fmt.Sprintf("%s%d.", fill, i)
		applyValues(st, pl.Vars, v, set, 1)
		c.active = true
		err := b.ex.Exec(st)
		c.active = false
		c.calls, c.typer, c.compiled = nil, nil, nil
		if err != nil && r.Err == nil {
			r.Err = fmt.Errorf("text %q: %v", text, err)
		}
		if got := st.Buffer.String(); got != want && r.Err == nil {
			r.Err = fmt.Errorf("text %q: want %q, got %q", text, want, got)
		}
	}
	heap := func() int {
		st = nil
		runtime.GC()
		runtime.GC()
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		return int(m.HeapAlloc)
	}
	i := 0
	for ; i < 2*cache+30; i++ {
		one(i)
	}
	const n = 301
	h0, h1 := 0, heap()
	for round := 0; round < 2; round++ { // the second one counts
		h0 = h1
		for k := 0; k < n; k++ {
			if st == nil {
				st = b.ns()
			}
			one(i)
			i++
		}
		h1 = heap()
	}
	limit := 24<<10 + cache*24<<10
	w.probe("churned-texts", n)
	if churnDebug {
		fmt.Println("churn", o.Take, cache, h1-h0, limit)
	}
	if h1-h0 > limit {
		r.Dirty = fmt.Sprintf("evaluating %d further texts with a cache of %d left more than %d bytes behind", n, cache, limit)
	}
	return r
}

var churnDebug = os.Getenv("CHURN") != ""
