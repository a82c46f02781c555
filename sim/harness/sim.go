package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/viant/velty"
	"github.com/viant/velty/est"

	"verifsim/simrt"
)

// A World is one simulated deployment: planners, scopes, plans and pools built
// in a setup phase, tasks (goroutines) working on them concurrently, and a
// final phase that uses everything once more. It is a function of
// (property, seed) alone.
type World struct {
	Prop     string
	Seed     uint64
	Cfg      WP
	Planners []*PlannerSpec
	Scopes   []*ScopeSpec
	Plans    []*PlanSpec
	Pools    []*PoolSpec
	Dyn      []*Tmpl // dynamic templates
	Shared   []ValSpec
	Tasks    [][]*OpSpec
	Post     []*OpSpec
	Tmpls    []*Tmpl
	nextOp   int
	stormy   bool
	Asg      []*aPlan

	// real objects
	planners []*velty.Planner
	scopes   []*velty.Planner
	plans    []*builtPlan
	pools    []*velty.Pool
	shared   []map[string]interface{}
	dynBy    map[string]*Tmpl

	recs   [64][]*Rec
	posts  []*Rec
	setup  *Ctx
	viols  []Violation
	slots  []map[int]*est.State
	held   map[*est.State]int
	extras [64]int
	fvers  []*int // versions of rv, per planner
	stats  RunStats

	mode RunMode
	drop map[int]bool
}

// RunMode varies how a world is run.
type RunMode struct {
	Solo     bool // run one operation alone: no environment faults, fresh state
	OnlyOp   int
	OnlySub  int
	NoEnv    bool // the recorded schedule without environment faults
	BuildAll bool
	Root     bool // run steps in a new root planner
	NoClock  bool // the clock stands still
	KeepBuf  bool // do not overwrite template buffers
	Filled   bool // no missing data
	Opts     func(Opts) Opts
	Replay   *Replay
	Strategy int // -1: from the seed
	SchedVar uint64
}

type PlannerSpec struct {
	Opts Opts
	Vars []string
}

type ScopeSpec struct {
	Planner, Parent int
	X               Ty // type of x defined in this scope (TNone: not)
	xT              Ty // effective type of x
}

type PlanSpec struct {
	Scope int
	T     *Tmpl
	xT    Ty
}

type builtPlan struct {
	ex  *est.Execution
	ns  func() *est.State
	err error
	fv  int // version of rv when it was compiled
}

type PoolSpec struct {
	Plan, Size int
}

type ValSpec struct {
	Seed   uint64
	Prof   Profile
	Tpl    [2]int
	Shared int // index of a shared value set, -1: own values
}

const (
	OpExec = iota
	OpScope
	OpPlanner
	OpExtend
	OpAbandon
	OpChurn
	OpFamily
	OpAssign
)

var opNames = []string{"exec", "scope", "planner", "extend", "abandon", "churn", "family", "assign"}

type OpSpec struct {
	ID     int
	Kind   int
	Plan   int
	Slot   int // own state to use, -1: a new one
	Pool   int // pool to take the state from, -1: none
	Append bool
	Keep   bool // pool: never put back
	Val    ValSpec
	Faults []Fault
	Typer  int // fault in type callbacks
	Storm  int // executions before this one, all of which fail in the same way
	StormF Fault
	Scope  int
	P      *PlannerSpec
	Steps  []*Step
	Take   int
	Fam    []*FamStep
	Asg    []*AsgStep
}

const (
	StDefine = iota
	StExtra
	StExec
	StBad
	StChild
	StRerun
	StRegister
)

var stepNames = []string{"define x", "define extra", "compile+exec", "compile bad", "child scope", "rerun", "register function"}

type Step struct {
	Kind   int
	X      Ty
	N      int
	T      *Tmpl
	xT     Ty
	Val    ValSpec
	Faults []Fault
	Typer  int
	Text   string
	OldSt  bool // rerun on the state of the first run
}

// Rec is the record of one execution.
type Rec struct {
	Task, Op, Sub int
	What          string
	T             *Tmpl
	Opts          Opts
	Vars          []string
	xT            Ty
	Val           ValSpec
	Ctx           *Ctx
	Res           *Result
	RV            map[string]interface{}
	Prefix        string
	PrevErr       error // reported before on the state, which was not reset
	Clone         string
	Faults        []Fault
	Storm         int
	StormF        Fault
	Typer         int
	Err           error // compile or setup error
	Start, End    int
	Dirty         string
	want          *Result
	Fresh         bool
	Ys            map[string]Ty
	FVer          int
	Asg           string
}

// Violation is a broken property.
type Violation struct {
	Kind string `json:"kind"`
	Msg  string `json:"msg"`
	Op   int    `json:"op"`
	Rel  bool   `json:"rel"` // only a violation if the operation alone behaves differently
	Sub  int    `json:"sub"`
}

// RunStats are measured on a run.
type RunStats struct {
	Execs, Evals, Calls       int
	Fired                     [numFaults]int
	TyperFired                int
	Sim                       simrt.Stats
	Setup                     simrt.Stats
	Ops                       int
	Compiles                  int
	Errors, Panics, ClockRead int
	Reads, ReadFaults         int
	Probes                    map[string]int
}

// WP are the knobs of a world.
type WP struct {
	tasks, ops, planners, scopes, plans, dyns, pools [2]int
	eval, xprint, fx, time, regErr, storm            int
	slot, pool, appendPct, abandon                   int
	opScope, opPlanner, opExtend, opFamily, yprint   int
	fault                                            int
	kinds                                            []int
	typer                                            int
	gc, stack, purge, clock                          uint64
	assign, nilP, unset, shared, nilAlways           int
	opts                                             func(r *Rand) Opts
	maxSt                                            int
	maxSize                                          int
	steps                                            [2]int
	stepKinds                                        []int
	poolSize                                         [2]int
	badDyn                                           int
	twins                                            int // pairs of dynamic templates that are easily taken for each other
	seqPct                                           int // sequential schedules
	callPct                                          int
	bigStack                                         bool
	missPct                                          int
	forceVars                                        []string
	sameTpl                                          bool
	xroot                                            int
	readFaults, readStalls, json                     int
	poolDrop                                         int
	cacheWorld, assignWorld                          bool
	drop                                             int
	common                                           int
	rv                                               int
}

func defOpts(r *Rand) Opts {
	return Opts{Buf: pick(r, -1, 0, 1, 3, 7, 64, 64, 1024), Cache: pick(r, -1, 0, 1, 2, 4, 16), Escape: r.P(25), Panic: r.P(25), Perm: r.N(6)}
}

func baseWP() WP {
	return WP{
		tasks: [2]int{2, 5}, ops: [2]int{1, 4}, planners: [2]int{1, 2}, scopes: [2]int{0, 2}, plans: [2]int{1, 4}, dyns: [2]int{1, 4}, pools: [2]int{0, 1},
		eval: 40, xprint: 8, fx: 4, time: 15, slot: 30, pool: 20, opScope: 10, opPlanner: 3,
		fault: 15, kinds: []int{FErr, FErr, FPanicErr, FPanicStr, FPanicInt, FGC}, typer: 2,
		gc: 30, stack: 60, purge: 200, clock: 0, assign: 30, nilP: 30, unset: 30,
		opts: defOpts, maxSt: 8, maxSize: 6, steps: [2]int{1, 4}, stepKinds: []int{StDefine, StExec, StExec, StExec, StChild, StBad, StExtra, StRerun},
		poolSize: [2]int{1, 3}, badDyn: 5, seqPct: 5, callPct: 35, xroot: 20, poolDrop: 4, common: 20, twins: 12, regErr: 4, storm: 1,
	}
}

var badTexts = []string{"#if($i1 == 12)", "#end", "#if($i1 == )#end", "#foreach($q in $i1)a#end"}

// badText is a text that fails to compile after some of its statements have
// introduced variables that other templates introduce too.
func badText(r *Rand) string {
	var sb strings.Builder
	for i := r.N(4); i > 0; i-- {
		switch k := r.N(4); r.N(4) {
		case 0:
			fmt.Fprintf(&sb, "#set($sh%d%s = %d)", k, letters(int(TInt)), r.N(99))
		case 1:
			fmt.Fprintf(&sb, "#set($sh%d%s = %q)", k, letters(int(TStr)), letters(r.N(9999)))
		case 2:
			fmt.Fprintf(&sb, "#for($sh%d%s = 0; $sh%[1]d%[2]s < 2; $sh%[1]d%[2]s++)a#end", k, letters(int(TInt)))
		case 3:
			fmt.Fprintf(&sb, "#foreach($sh%d%s in $strs)a#end", k, letters(int(TStr)))
		}
	}
	sb.WriteString(pick(r, badTexts[0], badTexts[3], "#set($sh0"+letters(int(TStr))+" = $missing)", "#set($i1 = $missing + 1)", "#foreach($q in $leafs)$q.Nope#end"))
	return sb.String()
}

func (w *World) gen(r *Rand, vars []string, xT Ty, prefix string) *Gen {
	g := NewGen(r, vars)
	g.prefix = prefix
	if xT != TNone && xT <= TBool {
		g.xOn, g.xT = true, xT
	}
	g.assign = r.P(w.Cfg.assign)
	g.fx = pick(r, 0, w.Cfg.fx*2)
	g.xprint = pick(r, 0, w.Cfg.xprint*2)
	g.time = r.P(w.Cfg.time)
	g.regErr = r.P(w.Cfg.regErr)
	g.callPct = w.Cfg.callPct
	g.json = w.Cfg.json
	g.common = r.P(w.Cfg.common)
	g.rv = r.P(w.Cfg.rv)
	if w.Cfg.drop > 0 {
		g.reassign = 60
	}
	g.maxSt = w.Cfg.maxSt
	if r.P(10) {
		g.maxSt *= 3
	}
	return g
}

func letters(n int) string {
	s := ""
	for {
		s = string(rune('a'+n%26)) + s
		n /= 26
		if n == 0 {
			return s
		}
	}
}

func (w *World) addTmpl(t *Tmpl) *Tmpl {
	w.Tmpls = append(w.Tmpls, t)
	return t
}

func (w *World) newTmpl(r *Rand, vars []string, xT Ty, eval bool) *Tmpl {
	g := w.gen(r, vars, xT, "t"+letters(len(w.Tmpls))+"q")
	g.eval = eval
	if eval && w.Cfg.eval >= 90 {
		g.evalPct = 35
	}
	return w.addTmpl(g.Template(r.In(1, w.Cfg.maxSize)))
}

func (w *World) val(r *Rand, unset bool) ValSpec {
	v := ValSpec{Seed: r.U(), Shared: -1, Tpl: [2]int{-1, -1}}
	v.Prof = Profile{ReadFaults: w.Cfg.readFaults, ReadStalls: w.Cfg.readStalls, Unset: unset && r.P(w.Cfg.unset), Long: r.P(15), Big: r.P(20), Drop: r.P(w.Cfg.drop)}
	if r.P(w.Cfg.nilP) {
		v.Prof.NilP = 60
	}
	if w.Cfg.nilAlways > 0 && r.P(w.Cfg.nilAlways) {
		v.Prof.NilP = 100
	}
	for i := range v.Tpl {
		if len(w.Dyn) > 0 {
			v.Tpl[i] = r.N(len(w.Dyn))
			if i == 0 && w.Dyn[v.Tpl[i]].eval { // it evaluates tpl1
				v.Tpl[i] = 0
			}
		}
		if r.P(w.Cfg.badDyn) {
			v.Tpl[i] = -2 - r.N(len(badTexts))
		}
	}
	if len(w.Shared) > 0 && r.P(w.Cfg.shared) {
		v = w.Shared[r.N(len(w.Shared))]
	}
	return v
}

func (w *World) dynText(i int) string {
	if i <= -2 {
		return badTexts[-2-i]
	}
	if i < 0 || i >= len(w.Dyn) {
		return ""
	}
	return w.Dyn[i].Text()
}

func (w *World) faults(r *Rand) []Fault {
	if !r.P(w.Cfg.fault) {
		return nil
	}
	var fs []Fault
	for i := r.In(1, 2); i > 0; i-- {
		fs = append(fs, Fault{At: r.In(1, 5), Kind: w.Cfg.kinds[r.N(len(w.Cfg.kinds))]})
	}
	return fs
}

func (w *World) typerFault(r *Rand) int {
	if !r.P(w.Cfg.typer) {
		return FNone
	}
	return pick(r, FStall, FPanicStr)
}

// genWorld builds the world of a seed.
func genWorld(prop string, seed uint64, cfg WP) *World {
	r := NewRand(seed)
	w := &World{Prop: prop, Seed: seed, Cfg: cfg, dynBy: map[string]*Tmpl{}, held: map[*est.State]int{}, drop: map[int]bool{}}
	w.mode.Strategy = -1
	w.mode.OnlyOp = -1
	if cfg.cacheWorld {
		return genCacheWorld(r, w)
	}
	if cfg.assignWorld {
		return genAssignWorld(r, w)
	}
	np := r.In(cfg.planners[0], cfg.planners[1])
	vars := someVars(r, append([]string{"i1", "s1", "tpl1", "tpl2"}, cfg.forceVars...)...)
	for i := 0; i < np; i++ {
		p := &PlannerSpec{Opts: cfg.opts(r), Vars: vars}
		w.Planners = append(w.Planners, p)
		s := &ScopeSpec{Planner: i, Parent: -1, X: TNone, xT: TNone}
		if r.P(cfg.xroot) {
			s.X = pick(r, TInt, TStr, TFloat, TBool, TStrs)
			s.xT = s.X
		}
		w.Scopes = append(w.Scopes, s)
	}
	for i := r.In(cfg.scopes[0], cfg.scopes[1]); i > 0; i-- {
		p := r.N(len(w.Scopes))
		s := &ScopeSpec{Planner: w.Scopes[p].Planner, Parent: p, X: TNone, xT: w.Scopes[p].xT}
		if s.xT == TNone && r.P(75) {
			s.X = pick(r, TInt, TStr, TFloat, TBool, TStrs)
			s.xT = s.X
		}
		w.Scopes = append(w.Scopes, s)
	}
	tw := r.Fork()
	var twSeed uint64
	var words [2]string
	var last bool
	for i, n := 0, r.In(cfg.dyns[0], cfg.dyns[1]); i < n; i++ {
		gr, twinned, name := r.Fork(), 0, i
		if twSeed != 0 {
			gr, twinned, name = NewRand(twSeed), 2, i-1
			twSeed = 0
		} else if i+1 < n && tw.P(cfg.twins) {
			twSeed, twinned = tw.U()|1, 1
			gr = NewRand(twSeed)
			words, last = twinText(tw)
		}
		g := w.gen(gr, vars, TNone, "d"+letters(name)+"q")
		g.maxSt = 5
		g.dyn, g.common, g.rv = true, false, false
		sr := r
		if twinned > 0 { // the same template, except for a word
			sr = gr
		}
		g.xprint = pick(sr, 0, cfg.xprint*3)
		if cfg.yprint > 0 {
			g.yprint = pick(sr, 0, cfg.yprint)
		}
		if i > 0 && twinned == 0 && r.P(25) {
			g.eval = true
			g.evalOnly = "tpl1"
		}
		t := g.Template(sr.In(1, 4))
		if twinned > 0 {
			m := g.mark(words[twinned-1])
			if last {
				t.Body = append(t.Body, m)
			} else {
				t.Body = append([]*Stmt{m}, t.Body...)
			}
		}
		t.eval, t.ys = g.eval, g.ys
		w.Dyn = append(w.Dyn, w.addTmpl(t))
	}
	for i := 0; i < r.In(0, 2) && cfg.shared > 0; i++ {
		s := w.Cfg.shared
		w.Cfg.shared = 0
		v := w.val(r, false)
		w.Cfg.shared = s
		v.Shared = i
		w.Shared = append(w.Shared, v)
	}
	for i, n := 0, r.In(cfg.plans[0], cfg.plans[1]); i < n; i++ {
		s := r.N(len(w.Scopes))
		w.Plans = append(w.Plans, &PlanSpec{Scope: s, xT: w.Scopes[s].xT, T: w.newTmpl(r.Fork(), vars, w.Scopes[s].xT, r.P(cfg.eval))})
	}
	for i, n := 0, r.In(cfg.pools[0], cfg.pools[1]); i < n; i++ {
		w.Pools = append(w.Pools, &PoolSpec{Plan: r.N(len(w.Plans)), Size: r.In(cfg.poolSize[0], cfg.poolSize[1])})
	}
	nt := r.In(cfg.tasks[0], cfg.tasks[1])
	for t := 0; t < nt; t++ {
		var ops []*OpSpec
		slots := map[int]int{} // slot -> plan
		for i := r.In(cfg.ops[0], cfg.ops[1]); i > 0; i-- {
			ops = append(ops, w.genOp(r, slots, nt))
		}
		w.Tasks = append(w.Tasks, ops)
	}
	for i := range w.Plans {
		w.Post = append(w.Post, &OpSpec{ID: w.opID(), Kind: OpExec, Plan: i, Slot: -1, Pool: -1, Val: w.val(r, true)})
	}
	return w
}

func (w *World) opID() int { w.nextOp++; return w.nextOp }

func (w *World) genOp(r *Rand, slots map[int]int, nt int) *OpSpec {
	c := &w.Cfg
	o := &OpSpec{ID: w.opID(), Slot: -1, Pool: -1, Typer: w.typerFault(r)}
	k := r.N(100)
	if c.opFamily > 0 && r.P(c.opFamily) {
		w.genFamily(r, o, nt == 1)
		return o
	}
	switch {
	case k < c.opScope:
		o.Kind, o.Scope = OpScope, r.N(len(w.Scopes))
		w.genSteps(r, o, w.Scopes[o.Scope].Planner, w.Scopes[o.Scope].xT, false)
	case k < c.opScope+c.opPlanner:
		o.Kind = OpPlanner
		o.P = &PlannerSpec{Opts: c.opts(r), Vars: w.Planners[0].Vars}
		if r.P(70) { // more variables in another order: another layout
			o.P.Vars = someVars(r, w.Planners[0].Vars...)
			for i := range o.P.Vars {
				j := r.N(i + 1)
				o.P.Vars[i], o.P.Vars[j] = o.P.Vars[j], o.P.Vars[i]
			}
		}
		w.genSteps(r, o, -1, TNone, false)
	case k < c.opScope+c.opPlanner+c.opExtend && nt == 1:
		o.Kind, o.Scope = OpExtend, r.N(len(w.Scopes))
		w.genSteps(r, o, w.Scopes[o.Scope].Planner, w.Scopes[o.Scope].xT, true)
	case k < c.opScope+c.opPlanner+c.opExtend+c.abandon && len(w.Pools) > 0:
		o.Kind, o.Pool, o.Take = OpAbandon, r.N(len(w.Pools)), r.In(1, 3)
	default:
		o.Kind, o.Plan = OpExec, r.N(len(w.Plans))
		o.Faults = w.faults(r)
		switch {
		case len(w.Pools) > 0 && r.P(c.pool):
			o.Pool = r.N(len(w.Pools))
			o.Plan = w.Pools[o.Pool].Plan
			o.Keep = r.P(8)
			o.Val = w.val(r, true)
		case r.P(c.slot):
			o.Slot = r.N(2)
			if p, ok := slots[o.Slot]; ok {
				o.Plan = p
				o.Append = r.P(c.appendPct)
			}
			slots[o.Slot] = o.Plan
			o.Val = w.val(r, false)
		default:
			o.Val = w.val(r, true)
		}
		if r.P(c.storm) && !w.stormy {
			w.stormy = true // once
			o.Storm, o.StormF = r.In(70, 300), Fault{At: r.In(1, 5), Kind: pick(r, FNone, FErr, FPanicStr, FPanicErr)}
		}
	}
	return o
}

// genSteps generates what is done in a scope or planner owned by the task.
// For OpExtend, the scope is a shared one of a single-task world.
func (w *World) genSteps(r *Rand, o *OpSpec, planner int, xT Ty, extend bool) {
	c := &w.Cfg
	vars := w.Planners[0].Vars
	if o.P != nil {
		vars = o.P.Vars
		defer func() {
			for _, s := range o.Steps {
				s.Val.Shared = -1
			}
		}()
	}
	var execs []*Step
	extras := 0
	for i := r.In(c.steps[0], c.steps[1]); i > 0; i-- {
		s := &Step{Kind: c.stepKinds[r.N(len(c.stepKinds))]}
		switch s.Kind {
		case StDefine:
			if xT != TNone || extend {
				s.Kind = StExtra
				s.N = r.In(1, 3)
				break
			}
			s.X = pick(r, TInt, TStr, TFloat, TBool, TStrs)
			xT = s.X
			execs = nil // what texts mean has changed
		case StExtra:
			s.N = r.In(1, 3)
			extras += s.N
		case StExec:
			s.T = w.newTmpl(r.Fork(), vars, xT, r.P(c.eval))
			s.Val = w.val(r, true)
			s.Faults = w.faults(r)
			s.xT = xT
			execs = append(execs, s)
		case StBad:
			s.Text = pick(r, badTexts[0], badTexts[1], badTexts[3], "#foreach($q in $leafs)$q.Nope#end;", "#set($i1 = )", "$nosuch.Call(\"a\");#if(", "#set($s1 = $i1 + 12);#set($s1 = $nosuch.Field + 11)", badText(r), badText(r))
		case StChild:
			if extend {
				s.Kind = StBad
				s.Text = badTexts[0]
				break
			}
			execs = nil
		case StRerun:
			if len(execs) == 0 {
				s.Kind = StExtra
				s.N = 1
				break
			}
			e := execs[r.N(len(execs))]
			s.T, s.xT, s.N = e.T, e.xT, -1
			s.Val = w.val(r, false)
			s.OldSt = r.P(50)
		case StRegister:
			s.N = r.N(1000)
		}
		s.Typer = w.typerFault(r)
		o.Steps = append(o.Steps, s)
	}
	if len(execs) == 0 {
		o.Steps = append(o.Steps, &Step{Kind: StExec, T: w.newTmpl(r.Fork(), vars, xT, r.P(c.eval)), Val: w.val(r, true), xT: xT})
	}
}

func xType(t Ty) reflect.Type {
	switch t {
	case TInt:
		return reflect.TypeOf(0)
	case TStr:
		return reflect.TypeOf("")
	case TFloat:
		return reflect.TypeOf(0.0)
	case TBool:
		return reflect.TypeOf(true)
	}
	return reflect.TypeOf([]string{})
}

func xValue(t Ty, seed uint64) interface{} {
	r := NewRand(seed ^ 0x5555)
	switch t {
	case TInt:
		return r.In(-9, 9999)
	case TStr:
		return "x" + letters(r.N(20000))
	case TFloat:
		return float64(r.N(1000)) / 8
	case TBool:
		return r.P(50)
	}
	return []string{"x" + letters(r.N(5000)), "y"}
}

// values builds the values for one execution.
func (w *World) values(v ValSpec, vars []string, xT Ty) (map[string]interface{}, map[string]bool) {
	if w.mode.Filled {
		v.Prof.Unset, v.Prof.NilP = false, 0
	}
	m, set := newValues(v.Seed, vars, v.Prof)
	for i, n := range []string{"tpl1", "tpl2"} {
		m[n] = w.dynText(v.Tpl[i])
		set[n] = true
	}
	if xT != TNone {
		m["x"] = xValue(xT, v.Seed)
		set["x"] = true
	}
	return m, set
}

func withX(vars []string, xT Ty) []string {
	if xT == TNone {
		return vars
	}
	return append(append([]string{}, vars...), "x")
}

func (w *World) opts(o Opts) Opts {
	if w.mode.Opts != nil {
		return w.mode.Opts(o)
	}
	return o
}

// build is the setup phase.
func (w *World) build() {
	for _, t := range w.Dyn {
		w.dynBy[t.Text()] = t
	}
	for _, s := range w.Shared {
		m, _ := w.values(s, w.Planners[0].Vars, TNone)
		w.shared = append(w.shared, m)
	}
	need := w.needed()
	for i, p := range w.Planners {
		w.fvers = append(w.fvers, new(int))
		if !need(0, i) {
			w.planners = append(w.planners, nil)
			continue
		}
		w.planners = append(w.planners, newPlanner(w.opts(p.Opts), p.Vars))
	}
	for i, s := range w.Scopes {
		if !need(1, i) {
			w.scopes = append(w.scopes, nil)
			continue
		}
		var p *velty.Planner
		if w.mode.Root {
			ps := w.Planners[s.Planner]
			p = newPlanner(w.opts(ps.Opts), ps.Vars)
			if s.xT != TNone {
				must(p.DefineVariable("x", xType(s.xT)))
			}
			w.scopes = append(w.scopes, p)
			continue
		}
		if s.Parent < 0 {
			p = w.planners[i]
		} else {
			p = w.scopes[s.Parent].New()
		}
		if s.X != TNone {
			must(p.DefineVariable("x", xType(s.X)))
		}
		w.scopes = append(w.scopes, p)
	}
	for i, p := range w.Plans {
		if !need(2, i) {
			w.plans = append(w.plans, nil)
			continue
		}
		w.plans = append(w.plans, w.compile(w.scopes[p.Scope], p.T.Text()))
	}
	w.buildAssign()
	for _, p := range w.Pools {
		if w.mode.Solo || !need(2, p.Plan) {
			w.pools = append(w.pools, nil)
			continue
		}
		w.pools = append(w.pools, velty.NewPool(p.Size, w.plans[p.Plan].ns))
	}
}

// needed tells which planners (0), scopes (1) and plans (2) the operations that
// are run use; in a full run, all.
func (w *World) needed() func(kind, i int) bool {
	if w.mode.OnlyOp < 0 || w.mode.BuildAll {
		return func(int, int) bool { return true }
	}
	var n [3]map[int]bool
	for i := range n {
		n[i] = map[int]bool{}
	}
	scope := func(i int) {
		for ; i >= 0; i = w.Scopes[i].Parent {
			n[1][i] = true
			n[0][w.Scopes[i].Planner] = true
		}
	}
	w.eachOp(func(o *OpSpec) {
		if o.ID != w.mode.OnlyOp {
			return
		}
		switch o.Kind {
		case OpExec:
			n[2][o.Plan] = true
			scope(w.Plans[o.Plan].Scope)
		case OpScope, OpExtend, OpFamily:
			scope(o.Scope)
		}
	})
	return func(k, i int) bool { return n[k][i] }
}

func (w *World) eachOp(f func(o *OpSpec)) {
	for _, t := range w.Tasks {
		for _, o := range t {
			f(o)
		}
	}
	for _, o := range w.Post {
		f(o)
	}
}

// compile compiles a text; the buffer is overwritten afterwards.
func (w *World) compile(p *velty.Planner, text string) *builtPlan {
	buf := []byte(text)
	b := &builtPlan{}
	b.ex, b.ns, b.err = p.Compile(buf)
	if !w.mode.KeepBuf {
		for i := range buf {
			buf[i] = '#'
		}
	}
	return b
}

func (w *World) newCtx(op int, faults []Fault, typer int) *Ctx {
	c := &Ctx{op: op, faults: faults, atCompile: typer}
	if w.mode.Solo {
		c.noStall = true
	}
	c.noGC = w.mode.Solo || w.mode.NoEnv
	simrt.SetData(c)
	return c
}

func (w *World) dropped(op int) bool {
	if w.drop[op] {
		return true
	}
	return w.mode.OnlyOp >= 0 && w.mode.OnlyOp != op
}

func (w *World) runTask(t int) {
	for _, o := range w.Tasks[t] {
		if w.dropped(o.ID) {
			continue
		}
		simrt.Y(simrt.SiteOp)
		w.recs[t] = append(w.recs[t], w.runOp(t, o)...)
	}
}

func (w *World) runOp(task int, o *OpSpec) (recs []*Rec) {
	switch o.Kind {
	case OpExec:
		return []*Rec{w.runExec(task, o)}
	case OpAbandon:
		c := w.newCtx(o.ID, nil, o.Typer)
		r := &Rec{Task: task, Op: o.ID, What: "abandon", Ctx: c, Res: &Result{}}
		func() {
			defer func() {
				if p := recover(); p != nil {
					r.Err = fmt.Errorf("panic: %v", p)
				}
			}()
			for i := 0; i < o.Take; i++ {
				st := w.take(task, o.ID, o.Pool, r)
				w.scribble(st)
			}
		}()
		return []*Rec{r}
	case OpScope, OpExtend, OpPlanner:
		return w.runSteps(task, o)
	case OpFamily:
		return w.runFamily(task, o)
	case OpAssign:
		return []*Rec{w.runAssign(task, o)}
	case OpChurn:
		return []*Rec{w.runChurn(task, o)}
	}
	return nil
}

// scribble leaves traces in a state.
func (w *World) scribble(st *est.State) {
	st.Buffer.AppendString("scribble")
	st.Errors = append(st.Errors, fmt.Errorf("scribble"))
}

// take gets a state from a pool and checks that it is clean and ours alone.
func (w *World) take(task, op, pool int, r *Rec) *est.State {
	st := w.pools[pool].State()
	if st == nil {
		r.Dirty = "pool returned no state"
		return nil
	}
	if !simrt.RaceEnabled {
		if h, ok := w.held[st]; ok {
			r.Dirty = fmt.Sprintf("state is already held by op %d", h)
		}
		w.held[st] = op
	}
	if d := dirty(st); d != "" && r.Dirty == "" {
		r.Dirty = "state from pool: " + d
	}
	return st
}

func (w *World) put(pool int, st *est.State) {
	if !simrt.RaceEnabled {
		delete(w.held, st)
	}
	w.pools[pool].Put(st)
}

// dirty says how a state differs from a new one.
func dirty(st *est.State) string {
	if s := st.Buffer.String(); s != "" {
		return fmt.Sprintf("has output %q", s)
	}
	if len(st.Errors) > 0 {
		return fmt.Sprintf("has errors %v", st.Errors)
	}
	if v := reflect.ValueOf(st.Mem); v.Kind() == reflect.Ptr && !v.Elem().IsZero() {
		return "has variables set"
	}
	return ""
}

func (w *World) runExec(task int, o *OpSpec) *Rec {
	ps := w.Plans[o.Plan]
	pl := w.Planners[w.Scopes[ps.Scope].Planner]
	c := w.newCtx(o.ID, o.Faults, o.Typer)
	r := &Rec{Task: task, Op: o.ID, What: fmt.Sprintf("exec plan%d", o.Plan), T: ps.T, Opts: w.opts(pl.Opts), Vars: pl.Vars, xT: ps.xT, Val: o.Val, Ctx: c, Faults: o.Faults, Typer: o.Typer, Storm: o.Storm, StormF: o.StormF}
	b := w.plans[o.Plan]
	if b.err != nil {
		r.Err = b.err
		return r
	}
	pool, slot, app := o.Pool, o.Slot, o.Append
	if w.mode.Solo {
		pool, slot, app = -1, -1, false
	}
	var st *est.State
	func() {
		defer func() {
			if p := recover(); p != nil {
				r.Err = fmt.Errorf("panic while getting a state: %v", p)
			}
		}()
		switch {
		case pool >= 0:
			st = w.take(task, o.ID, pool, r)
		case slot >= 0:
			st = w.slots[task][slot]
			if st == nil {
				st = b.ns()
				w.slots[task][slot] = st
			} else if app {
				r.Prefix = strings.Clone(st.Buffer.String())
				if len(st.Errors) > 0 {
					var fe *FaultErr
					if r.PrevErr = textErr(st.Errors[0].Error()); errors.As(st.Errors[0], &fe) {
						r.PrevErr = fe
					}
				}
			} else {
				st.Reset()
				if s := st.Buffer.String(); s != "" {
					r.Dirty = fmt.Sprintf("reset state has output %q", s)
				}
				if len(st.Errors) > 0 {
					r.Dirty = fmt.Sprintf("reset state has errors %v", st.Errors)
				}
			}
		default:
			st = b.ns()
			if d := dirty(st); d != "" {
				r.Dirty = "new state " + d
			}
		}
	}()
	if st == nil || r.Err != nil {
		return r
	}
	func() {
		defer func() {
			if x := recover(); x != nil {
				if se, ok := x.(setupErr); ok {
					r.Err = se.err
					return
				}
				panic(x)
			}
		}()
		w.execOn(r, b, st)
	}()
	if pool >= 0 && !o.Keep {
		func() {
			defer func() {
				if p := recover(); p != nil && r.Err == nil {
					r.Err = fmt.Errorf("panic while returning a state: %v", p)
				}
			}()
			w.put(pool, st)
		}()
	}
	return r
}

// execOn sets the values, executes and records.
func (w *World) execOn(r *Rec, b *builtPlan, st *est.State) {
	vars := withX(r.Vars, r.xT)
	v, set := w.values(r.Val, r.Vars, r.xT)
	ys := r.addYs(v)
	if r.Val.Shared >= 0 && r.Val.Shared < len(w.shared) {
		x := v["x"]
		own := v
		m := map[string]interface{}{}
		for k, e := range w.shared[r.Val.Shared] {
			m[k] = e
		}
		for k := range readerTypes {
			m[k] = own[k]
		}
		if r.xT != TNone {
			m["x"] = x
		}
		v = m
	}
	for _, n := range ys {
		vars = append(vars[:len(vars):len(vars)], n)
		set[n] = true
	}
	applyValues(st, vars, v, set, r.Val.Seed)
	if r.RV = v; r.Val.Prof.Drop && r.Val.Shared < 0 {
		r.RV = nil
	}
	v = nil
	r.FVer = b.fv
	w.storm(r, b)
	r.Start = seqNow()
	r.Res = realExec(r.Ctx, b.ex, st)
	r.End = seqNow()
	r.Clone = strings.Clone(r.Res.Out)
}

// storm executes the plan many times on states of their own, failing.
func (w *World) storm(r *Rec, b *builtPlan) {
	if r.Storm == 0 || w.mode.Solo || r.Val.Shared >= 0 {
		return
	}
	c := w.newCtx(r.Op, []Fault{r.StormF}, FNone)
	c.noGC = true
	for i, limit := 0, simrt.Steps()+150000; i < r.Storm && simrt.Steps() < limit; i++ {
		st := b.ns()
		v, set := w.values(r.Val, r.Vars, r.xT)
		applyValues(st, withX(r.Vars, r.xT), v, set, r.Val.Seed)
		c.n, c.calls, c.failed, c.failedOut, c.outside = 0, nil, 0, 0, nil
		res := realExec(c, b.ex, st)
		if w.stats.Execs++; i > 3 && r.StormF.Kind != FNone && !res.Panicked && res.Err == nil {
			break // it has no such call
		}
		w.probe("storm-executions", 1)
	}
	simrt.SetData(r.Ctx)
}

func (w *World) runSteps(task int, o *OpSpec) (recs []*Rec) {
	c := w.newCtx(o.ID, nil, o.Typer)
	var p *velty.Planner
	var opts Opts
	var vars []string
	fv := new(int)
	if o.Kind != OpPlanner {
		fv = w.fvers[w.Scopes[o.Scope].Planner]
	}
	if w.mode.Root {
		fv = new(int)
	}
	fail := func(what string, err error) {
		recs = append(recs, &Rec{Task: task, Op: o.ID, What: what, Ctx: c, Err: err})
	}
	sub := 0
	type done struct {
		b  *builtPlan
		st *est.State
		t  *Tmpl
	}
	var plans []done
	type extraVar struct {
		name string
		val  interface{}
	}
	var extras []extraVar
	// setExtras gives values to variables defined meanwhile; a state without room for one has to refuse it.
	setExtras := func(r *Rec, st *est.State) {
		for _, x := range extras {
			_, has := reflect.TypeOf(st.Mem).Elem().FieldByName(x.name)
			if err := st.SetValue(x.name, x.val); err == nil && !has && r.Dirty == "" {
				r.Dirty = fmt.Sprintf("a state took a value of %s, which it has no room for", x.name)
			}
		}
	}
	step := func(f func() error) (err error) {
		defer func() {
			if x := recover(); x != nil {
				if se, ok := x.(setupErr); ok {
					err = se.err
					return
				}
				err = fmt.Errorf("panic: %v", x)
			}
		}()
		return f()
	}
	err := step(func() error {
		switch o.Kind {
		case OpPlanner:
			opts, vars = w.opts(o.P.Opts), o.P.Vars
			p = newPlanner(opts, vars)
		case OpScope:
			ps := w.Planners[w.Scopes[o.Scope].Planner]
			opts, vars = w.opts(ps.Opts), ps.Vars
			p = w.scopes[o.Scope].New()
		default:
			ps := w.Planners[w.Scopes[o.Scope].Planner]
			opts, vars = w.opts(ps.Opts), ps.Vars
			p = w.scopes[o.Scope]
		}
		if w.mode.Root {
			p = newPlanner(opts, vars)
		}
		return nil
	})
	if err != nil {
		fail(opNames[o.Kind], err)
		return
	}
	if c.typerPanicked {
		return
	}
	for _, s := range o.Steps {
		s := s
		sub++
		if w.drop[o.ID*1000+sub] {
			continue
		}
		if w.mode.OnlySub > 0 {
			if sub > w.mode.OnlySub {
				break
			}
			if sub < w.mode.OnlySub && s.Kind != StDefine && s.Kind != StChild {
				continue
			}
		}
		c = w.newCtx(o.ID, s.Faults, s.Typer)
		var rec *Rec
		simrt.Y(simrt.SiteOp)
		if w.mode.Root && (s.Kind == StDefine || s.Kind == StChild) {
			continue
		}
		if w.mode.Root && s.xT != TNone && (s.Kind == StExec || s.Kind == StRerun) {
			_ = p.DefineVariable("x", xType(s.xT))
		}
		err := step(func() error {
			switch s.Kind {
			case StDefine:
				return p.DefineVariable("x", xType(s.X))
			case StExtra:
				for i := 0; i < s.N; i++ {
					n := fmt.Sprintf("zz%d", w.extra(task))
					var t reflect.Type
					switch i {
					case 0:
						t = reflect.TypeOf(Leaf{})
					case 1:
						t = reflect.TypeOf(map[string]int{})
					default:
						t = reflect.TypeOf("")
					}
					if err := p.DefineVariable(n, t); err != nil {
						return err
					}
					if o.Kind == OpExtend {
						extras = append(extras, extraVar{n, reflect.Zero(t).Interface()})
					}
				}
				return nil
			case StBad:
				w.compile(p, s.Text)
				return nil
			case StChild:
				p = p.New()
				return nil
			case StRegister:
				if s.N%2 == 0 && (len(w.Tasks) == 1 || o.Kind == OpPlanner) {
					*fv++
					return p.RegisterFunction("rv", fnRV(*fv))
				}
				return p.RegisterFunction(fmt.Sprintf("reg%d_%d", o.ID, s.N), fnS)
			case StExec, StRerun:
				rec = &Rec{Task: task, Op: o.ID, Sub: sub, What: opNames[o.Kind] + "/" + stepNames[s.Kind], T: s.T, Opts: opts, Vars: vars, xT: s.xT, Val: s.Val, Ctx: c, Faults: s.Faults, Typer: s.Typer}
				var b *builtPlan
				var st *est.State
				if s.Kind == StExec {
					b = w.compile(p, s.T.Text())
					if b.err != nil {
						return b.err
					}
					b.fv = *fv
					st = b.ns()
					plans = append(plans, done{b, st, s.T})
				} else {
					for _, d := range plans {
						if d.t == s.T {
							b, st = d.b, d.st
						}
					}
					if b == nil { // the first run is left out
						b = w.compile(p, s.T.Text())
						if b.err != nil {
							return b.err
						}
						b.fv = *fv
						st = b.ns()
					} else if s.OldSt {
						st.Reset()
					} else {
						st = b.ns()
					}
				}
				setExtras(rec, st)
				w.execOn(rec, b, st)
				return nil
			}
			return nil
		})
		if s.Kind == StBad {
			err = nil // whatever it does
		}
		if rec != nil {
			rec.Err = err
			recs = append(recs, rec)
		} else if err != nil {
			fail(stepNames[s.Kind], err)
		}
		if c.typerPanicked {
			return
		}
	}
	return
}

func (w *World) extra(task int) int {
	w.extras[task]++
	return task*1000 + w.extras[task]
}

// model computes what a record should have done.
func (w *World) model(r *Rec) *Result {
	v, _ := w.values(r.Val, r.Vars, r.xT)
	r.addYs(v)
	var errs []error
	e := &Env{v: v, ys: r.Ys, errs: &errs, panicOnErr: r.Opts.Panic, escape: r.Opts.Escape, xT: r.xT, fver: r.FVer, dyn: func(_ int, s string) *Tmpl { return w.dynBy[s] }}
	c := &Ctx{op: r.Op, faults: r.Faults, feed: r.Ctx.feed}
	orig := map[string]interface{}{} // what the caller holds
	for k, x := range v {
		orig[k] = x
	}
	res := modelExec(c, r.T, e)
	res.Out = r.Prefix + res.Out
	res.Values = orig
	r.Ctx.modelSteps = e.steps
	return res
}

// assignable values are compared through these.
func sameValues(r *Rec, want map[string]interface{}) string {
	if r.Val.Shared >= 0 || r.RV == nil {
		return ""
	}
	for _, n := range r.Vars {
		if readerTypes[n] != "" {
			continue
		}
		if !equalVals(r.RV[n], want[n]) {
			return fmt.Sprintf("value of %s: want %s, got %s", n, js(want[n]), js(r.RV[n]))
		}
	}
	return ""
}

func js(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("%#v", v)
	}
	if len(b) > 300 {
		b = b[:300]
	}
	return string(b)
}

// records lists all records in task order.
func (w *World) records() []*Rec {
	var all []*Rec
	for t := range w.Tasks {
		all = append(all, w.recs[t]...)
	}
	return append(all, w.posts...)
}

// history renders the result for the determinism check.
func (w *World) history() string {
	var sb strings.Builder
	recs := w.records()
	sort.SliceStable(recs, func(i, j int) bool { return recs[i].Start < recs[j].Start })
	for _, r := range recs {
		fmt.Fprintf(&sb, "%d/%d/%d %d-%d %s err=%v", r.Task, r.Op, r.Sub, r.Start, r.End, r.What, r.Err)
		if r.Res != nil {
			fmt.Fprintf(&sb, " %s", r.Res)
		}
		sb.WriteString("\n")
	}
	fmt.Fprintf(&sb, "%+v %+v\n", w.stats.Sim, w.stats.Setup)
	return sb.String()
}
