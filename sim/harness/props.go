package main

// How a violation kind counts for a property.
const (
	ignore   = iota
	absolute // the history itself breaks the property
	relative // only if the baseline run does not show the same
)

// PropCfg says how one property is decided.
type PropCfg struct {
	WP       WP
	Race     int // percent of the seeds run in the race-detector build
	Base     string
	Kinds    map[string]int
	Quick    int // seeds
	Thorough int
	Chunk    int
	RaceSeed int
	Env      []string
	Title    string
}

// Counts classifies a violation.
func (c *PropCfg) Counts(w *World, v *Violation) int {
	switch v.Kind {
	case "deadlock", "blocked-by-stall", "livelock", "race":
		return absolute
	case "setup":
		return relative
	}
	if k, ok := c.Kinds[v.Kind]; ok {
		if k == absolute && v.Rel && v.Kind == "panic" {
			return relative // an unexpected panic
		}
		return k
	}
	return ignore
}

// renderKinds are the ways in which an execution can differ from the model.
func renderKinds(k int, more map[string]int) map[string]int {
	m := map[string]int{"output": k, "error": k, "calls": k, "panic": k, "failed": relative}
	for a, b := range more {
		m[a] = b
	}
	return m
}

var props = map[string]*PropCfg{}

func init() {
	add := func(id, base string, kinds map[string]int, f func(w *WP, c *PropCfg)) {
		c := &PropCfg{WP: baseWP(), Base: base, Kinds: kinds, Quick: 48000, Thorough: 1000000, Chunk: 40}
		if f != nil {
			f(&c.WP, c)
		}
		props[id] = c
	}
	add("C01", "solo", renderKinds(relative, nil), func(w *WP, c *PropCfg) {
		w.plans = [2]int{1, 2}
		w.tasks = [2]int{2, 6}
		w.gc = 10
	})
	add("C02", "solo", map[string]int{"panic": relative, "failed": relative}, func(w *WP, c *PropCfg) {
		w.gc, w.stack = 5, 20
		w.opScope, w.opPlanner = 30, 15
		w.opFamily, w.yprint = 10, 20
		w.eval = 60
		w.pools = [2]int{0, 2}
		w.ops = [2]int{1, 3}
		w.maxSize = 4
		w.poolDrop = 0
		c.Race, c.RaceSeed = 1, 9000
		c.Quick = 24000
	})
	add("C03", "nocache", renderKinds(relative, nil), func(w *WP, c *PropCfg) {
		w.eval = 95
		w.dyns, w.twins = [2]int{2, 6}, 25
		w.opFamily, w.yprint = 25, 25
		w.opScope = 25
		w.xprint = 25
		w.gc = 10
		w.opts = func(r *Rand) Opts {
			o := defOpts(r)
			o.Cache = pick(r, 0, 1, 1, 2, 2, 3, 4, 16)
			return o
		}
	})
	add("C04", "solo", map[string]int{"cache": absolute, "dirty": absolute, "failed": relative}, func(w *WP, c *PropCfg) {
		w.cacheWorld = true
		w.gc, w.stack = 5, 20
	})
	add("C05", "solo", renderKinds(relative, map[string]int{"dirty": absolute}), func(w *WP, c *PropCfg) {
		w.pools = [2]int{1, 2}
		w.pool = 80
		w.abandon = 10
		w.purge = 800
		w.fault = 25
		w.maxSize = 4
		w.gc = 20
		w.opScope, w.opPlanner = 2, 2
		w.tasks, w.ops = [2]int{1, 5}, [2]int{2, 6}
		w.opExtend = 15
	})
	add("C06", "solo", renderKinds(relative, nil), func(w *WP, c *PropCfg) {
		w.fault = 40
		w.kinds = []int{FStall, FStall, FStall, FPanicStr, FPanicErr, FErr}
		w.typer = 25
		w.fx = 15
		w.eval = 70
		w.opScope, w.opPlanner = 25, 10
		w.pools = [2]int{1, 2}
		w.pool = 35
		w.abandon = 10
		w.gc = 5
		w.json, w.readFaults, w.readStalls = 8, 20, 10
		w.forceVars = []string{"r1", "r2"}
	})
	add("C07", "solo", map[string]int{"error": absolute, "stop": absolute, "failed": relative}, func(w *WP, c *PropCfg) {
		w.fault = 70
		w.kinds = []int{FErr}
		w.regErr = 20
		w.storm = 2
		w.slot, w.appendPct = 50, 40
		w.callPct = 60
		w.eval = 60
		w.opScope = 20
		w.gc = 5
		w.opts = func(r *Rand) Opts { o := defOpts(r); o.Panic = r.P(50); return o }
	})
	add("C08", "solo", map[string]int{"calls": absolute, "outside": absolute, "failed": relative}, func(w *WP, c *PropCfg) {
		w.callPct = 70
		w.fault = 30
		w.eval = 60
		w.gc = 10
		w.fx = 8
	})
	add("C09", "solo", renderKinds(relative, map[string]int{"panic": absolute, "dirty": absolute}), func(w *WP, c *PropCfg) {
		w.fault = 60
		w.storm = 4
		w.kinds = []int{FPanicErr, FPanicStr, FPanicInt}
		w.typer = 8
		w.fx = 10
		w.eval = 60
		w.callPct = 60
		w.gc = 10
		w.pools = [2]int{0, 2}
		w.slot = 50
	})
	add("C10", "solo", renderKinds(relative, map[string]int{"dirty": absolute, "string": absolute}), func(w *WP, c *PropCfg) {
		w.slot = 95
		w.appendPct = 25
		w.ops = [2]int{2, 8}
		w.tasks = [2]int{1, 3}
		w.plans = [2]int{1, 2}
		w.fault = 35
		w.pool = 0
		w.opScope, w.opPlanner = 5, 0
		w.gc = 20
	})
	add("C11", "solo", renderKinds(absolute, map[string]int{"dirty": absolute}), func(w *WP, c *PropCfg) {
		w.json = 30
		w.forceVars = []string{"r1", "r2", "r3"}
		w.readFaults = 45
		w.callPct = 5
		w.fault = 5
		w.slot = 50
		w.gc = 20
		w.opScope, w.opPlanner = 15, 3
		w.planners = [2]int{1, 1}
	})
	add("C12", "clock", map[string]int{"calls": absolute, "output": relative, "outside": absolute}, func(w *WP, c *PropCfg) {
		w.time = 100
		w.clock = 20000
		w.eval = 60
		w.callPct = 50
		w.gc = 5
		w.fault = 10
	})
	add("C13", "root", renderKinds(relative, map[string]int{"dirty": absolute}), func(w *WP, c *PropCfg) {
		w.scopes = [2]int{1, 5}
		w.opScope = 60
		w.eval = 60
		w.xprint = 30
		w.gc = 5
		w.steps = [2]int{1, 6}
		w.opFamily, w.yprint = 45, 30
	})
	add("C14", "filled", renderKinds(absolute, nil), func(w *WP, c *PropCfg) {
		w.nilP, w.unset = 80, 70
		w.nilAlways = 40
		w.assign = 80
		w.planners = [2]int{1, 3}
		w.opPlanner = 10
		w.eval = 60
		w.forceVars = []string{"p", "mp", "n"}
		w.gc = 5
	})
	add("C15", "noenv", renderKinds(absolute, map[string]int{"string": absolute, "values": absolute}), func(w *WP, c *PropCfg) {
		w.gc, w.stack = 1200, 1200
		w.drop = 50
		w.forceVars = []string{"strs", "strs2", "leafs", "leafs2"}
		w.tasks = [2]int{1, 3}
		w.ops = [2]int{1, 3}
		w.maxSize = 5
		w.assign = 50
		w.slot = 50
		c.Env = []string{"GODEBUG=clobberfree=1"}
		c.Chunk = 20
		c.Quick = 12000
	})
	add("C16", "opts", renderKinds(relative, nil), func(w *WP, c *PropCfg) {
		w.gc = 5
		w.opts = func(r *Rand) Opts {
			return Opts{Buf: pick(r, -1, 0, 1, 2, 3, 5, 7, 8, 13, 64, 1024, 1<<20), Cache: pick(r, -1, 0, 1, 2, 3, 7, 64), Panic: r.P(50), Escape: r.P(20), Perm: r.N(12)}
		}
		w.regErr = 0
		w.fault = 0
	})
	add("C17", "keepbuf", renderKinds(relative, map[string]int{"values": absolute}), func(w *WP, c *PropCfg) {
		w.shared = 50
		w.assign = 0
		w.gc = 10
	})
	add("C24", "solo", map[string]int{"assign": absolute, "kept": absolute, "failed": relative}, func(w *WP, c *PropCfg) {
		w.assignWorld = true
		w.gc, w.stack = 60, 100
		c.Env = []string{"GODEBUG=clobberfree=1"}
	})
	add("C18", "solo", renderKinds(relative, map[string]int{"dirty": absolute}), func(w *WP, c *PropCfg) {
		w.tasks = [2]int{1, 1}
		w.ops = [2]int{2, 5}
		w.opExtend = 60
		w.common, w.rv = 60, 40
		w.opFamily, w.yprint = 15, 20
		w.opScope, w.opPlanner = 15, 10
		w.steps = [2]int{2, 8}
		w.stepKinds = []int{StDefine, StExec, StExec, StBad, StBad, StExtra, StExtra, StRerun, StRerun, StRerun, StRegister}
		w.gc = 100
		c.Chunk = 20
		c.Quick = 20000
		c.Env = []string{"GODEBUG=clobberfree=1"}
	})
}
