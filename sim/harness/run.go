package main

import (
	"fmt"
	"runtime/debug"

	"verifsim/simrt"

	"github.com/viant/velty/est"
)

// Replay holds the recorded decisions of a run, per phase.
type Replay struct {
	Setup []simrt.Action `json:"setup"`
	Main  []simrt.Action `json:"main"`
	Post  []simrt.Action `json:"post"`
}

func (w *World) simCfg(r *Rand, phase int) simrt.Config {
	c := simrt.Config{Seed: r.U(), SoftLimit: 300000, HardLimit: 3000000}
	wc := &w.Cfg
	c.Strategy = 1 + r.N(simrt.NumStrategies-1)
	if r.P(wc.seqPct) {
		c.Strategy = simrt.StratSequential
	}
	c.Rate = uint64(pick(r, 16, 60, 200, 600, 3000, 16000))
	c.HotRate = uint64(pick(r, 1000, 8000, 24000, 40000))
	c.Sites = uint64(pick(r, 5, 20, 60, 200))
	c.Depth = r.In(1, 8)
	c.Horizon = pick(r, 500, 2000, 8000, 30000)
	c.ClockUnit = pick(r, 1, 20, 700, 1000000, 1000000, 60000000)
	c.PoolDrop = pick(r, 0, 0, wc.poolDrop, wc.poolDrop*2)
	if !w.mode.Solo {
		swarm := func(rate uint64) uint64 { return rate * uint64(pick(r, 0, 0, 1, 1, 4)) }
		c.GCRate, c.StackRate, c.PurgeRate, c.ClockRate = swarm(wc.gc), swarm(wc.stack), swarm(wc.purge), swarm(wc.clock)
		c.ClockMax = pick(r, 50, 5000, 86400000)
	} else {
		c.Strategy = simrt.StratSequential
		c.PoolDrop = 0
	}
	if wc.poolDrop == 0 {
		c.PoolDrop = 0
	}
	if w.mode.NoEnv {
		c.GCRate, c.StackRate, c.PurgeRate, c.ClockRate = 0, 0, 0, 0
	}
	if w.mode.SchedVar != 0 {
		c.Seed ^= w.mode.SchedVar * 0x9e3779b97f4a7c15
	}
	if phase != 1 {
		// only one task: fewer faults
		c.Strategy = simrt.StratSequential
	}
	if rp := w.mode.Replay; rp != nil {
		c.IsReplay = true
		c.Replay = [][]simrt.Action{rp.Setup, rp.Main, rp.Post}[phase]
		if w.mode.NoEnv {
			c.Replay = noEnv(c.Replay)
		}
	}
	c.FrozenClock = w.mode.NoClock
	return c
}

// Outcome of a run.
type Outcome struct {
	Viols  []Violation
	Replay Replay
	Stats  RunStats
	W      *World
}

// abortHandler reports a run that cannot continue; it does not return.
var abortHandler func(kind, detail string)

func init() {
	simrt.Abort = func(kind, detail string) { abortHandler(kind, detail) }
}

// noEnv drops the environment faults of a schedule.
func noEnv(l []simrt.Action) (res []simrt.Action) {
	for _, a := range l {
		switch a.Kind {
		case simrt.ActGC, simrt.ActStack, simrt.ActPurge, simrt.ActClock:
		default:
			res = append(res, a)
		}
	}
	return
}

func copyActs(a []simrt.Action) []simrt.Action { return append([]simrt.Action{}, a...) }

// partial is the replay of the phases run so far, for aborts.
var partial Replay
var phaseNow int

// seqNow orders events over all phases of a run.
func seqNow() int { return phaseNow<<40 + simrt.Seq() }

func partialReplay() Replay {
	p := partial
	switch phaseNow {
	case 0:
		p.Setup = copyActs(simrt.LastActs)
	case 1:
		p.Main = copyActs(simrt.LastActs)
	case 2:
		p.Post = copyActs(simrt.LastActs)
	}
	return p
}

// run executes the world and checks it.
func (w *World) run() (out *Outcome) {
	out = &Outcome{W: w}
	r := NewRand(w.Seed ^ 0xfeedface)
	partial, phaseNow = Replay{}, 0
	w.setup = &Ctx{op: 0}
	if w.mode.Solo {
		w.setup.noStall = true
	}
	var setupErrs string
	w.slots = make([]map[int]*est.State, len(w.Tasks)+1)
	for i := range w.slots {
		w.slots[i] = map[int]*est.State{}
	}
	races := simrt.RaceErrors()
	guard := func(f func()) func() {
		return func() {
			defer func() {
				if p := recover(); p != nil {
					if setupErrs == "" {
						setupErrs = fmt.Sprint(p)
						if debugStacks {
							debug.PrintStack()
						}
					}
				}
			}()
			f()
		}
	}
	w.stats.Setup = simrt.Run(w.simCfg(r.Fork(), 0), []func(){guard(w.build)}, []interface{}{w.setup})
	out.Replay.Setup = copyActs(simrt.LastActs)
	partial = out.Replay
	if setupErrs != "" {
		out.Viols = append(out.Viols, Violation{Kind: "setup", Msg: "setup failed: " + setupErrs, Rel: true})
		return out
	}
	phaseNow = 1
	var fns []func()
	var datas []interface{}
	for t := range w.Tasks {
		t := t
		live := false
		for _, o := range w.Tasks[t] {
			if !w.dropped(o.ID) {
				live = true
			}
		}
		if w.mode.OnlyOp >= 0 && !live {
			continue
		}
		fns = append(fns, guard(func() { w.runTask(t) }))
		datas = append(datas, &Ctx{})
	}
	cfg := w.simCfg(r.Fork(), 1)
	if len(fns) > 0 {
		w.stats.Sim = simrt.Run(cfg, fns, datas)
		out.Replay.Main = copyActs(simrt.LastActs)
		partial = out.Replay
	}
	phaseNow = 2
	post := false
	for _, o := range w.Post {
		if !w.dropped(o.ID) {
			post = true
		}
	}
	if post && setupErrs == "" {
		simrt.Run(w.simCfg(r.Fork(), 2), []func(){guard(func() {
			for _, o := range w.Post {
				if !w.dropped(o.ID) {
					w.posts = append(w.posts, w.runOp(len(w.Tasks), o)...)
				}
			}
		})}, []interface{}{&Ctx{}})
		out.Replay.Post = copyActs(simrt.LastActs)
	}
	if setupErrs != "" {
		out.Viols = append(out.Viols, Violation{Kind: "setup", Msg: "harness failed: " + setupErrs, Rel: true})
		return out
	}
	if n := simrt.RaceErrors(); n > races {
		out.Viols = append(out.Viols, Violation{Kind: "race", Msg: fmt.Sprintf("%d data race(s)", n-races)})
	}
	w.checkAll(out)
	out.Stats = w.stats
	return out
}

var debugStacks bool

// checkAll compares every record with the model.
func (w *World) checkAll(out *Outcome) {
	add := func(r *Rec, kind, msg string, rel bool) {
		out.Viols = append(out.Viols, Violation{Kind: kind, Msg: fmt.Sprintf("task %d op %d.%d (%s): %s", r.Task, r.Op, r.Sub, r.What, msg), Op: r.Op, Sub: r.Sub, Rel: rel})
	}
	st := &w.stats
	addCtx := func(c *Ctx) {
		for i, n := range c.fired {
			st.Fired[i] += n
		}
		st.Calls += len(c.calls)
		st.Compiles += c.compiles
		st.ClockRead += len(c.feed)
		st.Reads += c.reads
		st.ReadFaults += c.readFaults
		c.reads, c.readFaults = 0, 0
		c.fired = [numFaults]int{}
	}
	addCtx(w.setup)
	if len(w.setup.calls) > 0 || len(w.setup.outside) > 0 {
		out.Viols = append(out.Viols, Violation{Kind: "outside", Msg: fmt.Sprintf("calls while compiling: %v", w.setup.calls)})
	}
	for _, r := range w.records() {
		st.Ops++
		if r.Ctx != nil {
			if r.Ctx.typerPanicked {
				st.TyperFired++
			}
			addCtx(r.Ctx)
			if len(r.Ctx.outside) > 0 {
				add(r, "outside", fmt.Sprintf("calls outside of any execution: %v", r.Ctx.outside), false)
			}
		}
		if r.Dirty != "" {
			add(r, "dirty", r.Dirty, false)
		}
		if r.Asg != "" {
			add(r, "assign", r.Asg, false)
		}
		if r.Ctx != nil {
			if d := r.Ctx.changed(); d != "" {
				add(r, "kept", d, false)
			}
		}
		if r.Ctx != nil && r.Ctx.typerPanicked {
			if r.Res != nil && r.T != nil {
				if r.Opts.Panic && r.Res.Err != nil {
					continue
				}
				if !r.Res.Panicked || fmt.Sprint(r.Res.Panic) != fmt.Sprintf("fault op%d typer", r.Op) {
					add(r, "panic", fmt.Sprintf("panic of a type callback does not reach the caller: %v", r.Res), false)
				}
			}
			continue
		}
		if r.Err != nil {
			add(r, "failed", r.Err.Error(), true)
			continue
		}
		if r.T == nil || r.Res == nil {
			continue
		}
		st.Execs++
		want := w.model(r)
		r.want = want
		if want.Err != nil {
			st.Errors++
		}
		if want.Panicked {
			st.Panics++
		}
		if want.Panicked != r.Res.Panicked || want.Panicked && !samePanic(want.Panic, r.Res.Panic) {
			add(r, "panic", diff(want, r.Res), !want.Panicked)
		} else if want.PanicErr && !sameErr(want.Err, r.Res.Err) {
			add(r, "panic", "a panic of an error is not what Exec returns: "+diff(want, r.Res), false)
		} else if r.PrevErr != nil && !want.Panicked {
			if !sameErr(r.PrevErr, r.Res.Err) && (want.Err == nil || !sameErr(want.Err, r.Res.Err)) {
				add(r, "error", fmt.Sprintf("error: want %v or that of the execution before, %v, got %v", want.Err, r.PrevErr, r.Res.Err), true)
			}
		} else if !sameErr(want.Err, r.Res.Err) {
			add(r, "error", diff(want, r.Res), true)
		} else {
			if d := diffCalls(want.Calls, r.Res.Calls); d != "" {
				add(r, "calls", d, true)
			}
			if want.Out != r.Res.Out {
				add(r, "output", diff(want, r.Res), true)
			}
		}
		if r.Opts.Panic && r.Res.GoesOn != "" {
			add(r, "stop", r.Res.GoesOn, false)
		}
		if d := sameValues(r, want.Values); d != "" && !want.Panicked {
			add(r, "values", d, true)
		}
		if r.Res.Out != r.Clone {
			add(r, "string", fmt.Sprintf("string obtained from a state changed from %q to %q", clip(r.Clone, r.Res.Out), clip(r.Res.Out, r.Clone)), false)
		}
	}
	w.checkCache(out)
	for i, s := range w.Shared {
		m, _ := w.values(s, w.Planners[0].Vars, TNone)
		if d := sameValues(&Rec{Vars: w.Planners[0].Vars, Val: ValSpec{Shared: -1}, RV: w.shared[i]}, m); d != "" {
			out.Viols = append(out.Viols, Violation{Kind: "values", Msg: "shared values: " + d})
		}
	}
}
