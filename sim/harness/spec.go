package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"

	"verifsim/simrt"
)

// Spec describes one simulated run completely: with the code under test it
// determines the execution. Replay files contain one.
type Spec struct {
	Property string        `json:"property"`
	Seed     uint64        `json:"seed"`
	Prefix   []uint64      `json:"prefix_seeds,omitempty"` // runs made earlier in the same process
	DropOps  []int         `json:"dropped_operations,omitempty"`
	DropStm  map[int][]int `json:"dropped_statements,omitempty"` // template -> statements
	NoFault  []int         `json:"dropped_faults,omitempty"`
	Acts     *Replay       `json:"schedule,omitempty"` // recorded decisions; without them, drawn from the seed
	SchedVar uint64        `json:"schedule_variant,omitempty"`
	Vars     uint64        `json:"-"` // try that many schedule variants
	Race     bool          `json:"race_build,omitempty"`
	Mode     string        `json:"mode,omitempty"` // baseline mode
	Op       int           `json:"op,omitempty"`
	Sub      int           `json:"sub,omitempty"`
	Kind     string        `json:"kind,omitempty"`
	MaxVars  uint64        `json:"max_vars,omitempty"`
	History  bool          `json:"want_history,omitempty"`
}

// AbortInfo tells why a run could not continue.
type AbortInfo struct {
	Kind   string `json:"kind"`
	Detail string `json:"detail"`
	Seed   uint64 `json:"seed"`
}

// Found is a violation with its origin.
type Found struct {
	Seed uint64 `json:"seed"`
	Violation
	Replay *Replay `json:"replay,omitempty"`
	Abort  bool    `json:"abort"`
	Race   bool    `json:"race"`
	Chunk  uint64  `json:"chunk_start"`
}

// TrialResult is what a spec process reports.
type TrialResult struct {
	Viols    []Violation `json:"viols"`
	Abort    *AbortInfo  `json:"abort,omitempty"`
	Replay   *Replay     `json:"replay"`
	SchedVar uint64      `json:"sched_var"`
	Describe string      `json:"describe"`
	History  string      `json:"history,omitempty"`
	Ops      []int       `json:"ops"`
	Stats    RunStats    `json:"stats"`
}

func writeJSON(path string, v interface{}) {
	b, err := json.Marshal(v)
	if err == nil {
		err = os.WriteFile(path+".tmp", b, 0o644)
	}
	if err == nil {
		err = os.Rename(path+".tmp", path)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "cannot write", path, err)
		os.Exit(4)
	}
}

func readJSON(path string, v interface{}) error {
	b, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	return json.Unmarshal(b, v)
}

// apply restricts the world to what the spec keeps.
func (w *World) apply(s *Spec) {
	for _, id := range s.DropOps {
		w.drop[id] = true
	}
	for t, ids := range s.DropStm {
		if t < len(w.Tmpls) {
			for _, id := range ids {
				w.Tmpls[t].drop[id] = true
			}
			w.Tmpls[t].text = ""
		}
	}
	nf := map[int]bool{}
	for _, id := range s.NoFault {
		nf[id] = true
	}
	w.eachOp(func(o *OpSpec) {
		if nf[o.ID*1000] {
			o.Faults, o.Typer, o.Storm = nil, FNone, 0
		}
		for i, st := range o.Steps {
			if nf[o.ID*1000+i+1] {
				st.Faults, st.Typer = nil, FNone
			}
		}
		for i, st := range o.Asg {
			if nf[o.ID*1000+i+1] {
				st.Faults = nil
			}
		}
		for i, st := range o.Fam {
			if nf[o.ID*1000+i+1] {
				st.Faults = nil
			}
		}
	})
	w.mode.Replay = s.Acts
	w.mode.SchedVar = s.SchedVar
	w.mode.baseline(s)
}

func (m *RunMode) baseline(s *Spec) {
	if s.Mode == "" {
		return
	}
	switch s.Mode {
	case "noenv":
		m.NoEnv = true
		if s.Op == 0 && s.Kind == "setup" {
			m.OnlyOp = 0
		}
		return
	case "setup":
		m.Solo, m.OnlyOp, m.BuildAll = true, 0, true
		return
	}
	m.Solo, m.OnlyOp, m.OnlySub = true, s.Op, s.Sub
	switch s.Mode {
	case "solo":
	case "nocache":
		m.Opts = func(o Opts) Opts { o.Cache = -1; return o }
	case "filled":
		m.Filled = true
	case "root":
		m.Root = true
	case "opts":
		m.Opts = func(o Opts) Opts { o.Buf, o.Cache, o.Panic, o.Perm = -1, -1, false, 0; return o }
	case "keepbuf":
		m.KeepBuf = true
	case "clock":
		m.NoClock = true
	default:
		panic("unknown mode " + s.Mode)
	}
}

// specMain runs a spec in this process and writes the result.
func specMain(in, out string) {
	var s Spec
	if err := readJSON(in, &s); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
	processInit()
	res := &TrialResult{}
	seed := s.Seed
	abortHandler = func(k, d string) {
		res.Abort = &AbortInfo{Kind: k, Detail: d, Seed: seed}
		rp := partialReplay()
		res.Replay = &rp
		writeJSON(out, res)
		os.Exit(0)
	}
	if s.Mode == "noenv" && s.Acts == nil {
		s.MaxVars = 0
	}
	cfg := props[s.Property]
	for _, p := range s.Prefix {
		seed = p
		w := genWorld(s.Property, p, cfg.WP)
		w.run()
		afterSeed()
	}
	seed = s.Seed
	for v := uint64(0); ; v++ {
		w := genWorld(s.Property, s.Seed, cfg.WP)
		if v > 0 {
			s.SchedVar = v
		}
		w.apply(&s)
		res.Describe = w.describe()
		res.SchedVar = s.SchedVar
		o := w.run()
		res.Viols, res.Replay, res.Stats = o.Viols, &o.Replay, o.Stats
		hit := len(o.Viols) == 0
		for _, x := range o.Viols {
			if x.Kind == s.Kind || s.Kind == "" {
				hit = true
			}
		}
		if len(o.Viols) == 0 {
			hit = false
		}
		if s.History {
			res.History = w.history()
		}
		if hit || v >= s.MaxVars {
			w.eachOp(func(o *OpSpec) { res.Ops = append(res.Ops, o.ID) })
			break
		}
	}
	writeJSON(out, res)
}

// processInit sets the process up for deterministic runs.
func processInit() {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	if simrt.RaceEnabled {
		debug.SetGCPercent(400)
	}
}

var seedsSinceGC int

func afterSeed() {
	seedsSinceGC++
	if seedsSinceGC%8 == 0 {
		runtime.GC()
	}
}

// ChunkResult is what a worker reports for a range of seeds.
type ChunkResult struct {
	From, Next uint64
	Seeds      int
	Found      []Found
	Stats      RunStats
	SimTimeMs  int64
	Hashes     []uint64 // schedule hashes of runs with a switch or a fault
	Abort      *AbortInfo
	Samples    []string
	Hist       []string
	Probes     map[string]int
}

func (a *RunStats) add(b *RunStats) {
	a.Execs += b.Execs
	a.Evals += b.Evals
	a.Calls += b.Calls
	for i := range a.Fired {
		a.Fired[i] += b.Fired[i]
	}
	a.TyperFired += b.TyperFired
	a.Ops += b.Ops
	a.Compiles += b.Compiles
	a.Errors += b.Errors
	a.Panics += b.Panics
	a.ClockRead += b.ClockRead
	a.Reads += b.Reads
	a.ReadFaults += b.ReadFaults
	for k, v := range b.Probes {
		if a.Probes == nil {
			a.Probes = map[string]int{}
		}
		a.Probes[k] += v
	}
	addSim(&a.Sim, &b.Sim)
	addSim(&a.Setup, &b.Setup)
}

func addSim(a, b *simrt.Stats) {
	a.Steps += b.Steps
	a.Switches += b.Switches
	a.GCs += b.GCs
	a.Stacks += b.Stacks
	a.Purges += b.Purges
	a.Clocks += b.Clocks
	a.Choices += b.Choices
	a.Blocks += b.Blocks
	a.Stalls += b.Stalls
	a.PoolNew += b.PoolNew
	a.PoolReuse += b.PoolReuse
	a.SimTimeMs += b.SimTimeMs
}

const maxFoundPerChunk = 6

// workerMain runs seeds [from, from+n) and stops at the first absolute
// violation, or when enough candidates have been found.
func workerMain(prop string, from uint64, n int, out string, hist bool) {
	processInit()
	cfg, ok := props[prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "no such property")
		os.Exit(4)
	}
	res := &ChunkResult{From: from, Next: from}
	state, err := os.OpenFile(out+".state", os.O_CREATE|os.O_WRONLY, 0o644)
	if err != nil {
		os.Exit(4)
	}
	seed := from
	finish := func() {
		b := make([]byte, len(simrt.SiteHits)/8, len(simrt.SiteHits)/8+len(simrt.Pairs)*8)
		for i, x := range simrt.SiteHits {
			if x > 0 {
				b[i/8] |= 1 << (i % 8)
			}
		}
		for _, x := range simrt.Pairs {
			b = binary.LittleEndian.AppendUint64(b, x)
		}
		os.WriteFile(out+".pairs", b, 0o644)
		writeJSON(out, res)
		os.Exit(0)
	}
	abortHandler = func(k, d string) {
		rp := partialReplay()
		if cfg.Counts(nil, &Violation{Kind: k}) != ignore {
			res.Found = append(res.Found, Found{Seed: seed, Violation: Violation{Kind: k, Msg: "run cannot continue: " + k, Op: -1}, Replay: &rp, Abort: true, Race: simrt.RaceEnabled, Chunk: from})
		}
		res.Abort = &AbortInfo{k, d, seed}
		res.Next = seed + 1
		finish()
	}
	for ; seed < from+uint64(n); seed++ {
		state.WriteAt([]byte(fmt.Sprintf("%020d", seed)), 0)
		w := genWorld(prop, seed, cfg.WP)
		o := w.run()
		res.Seeds++
		res.Next = seed + 1
		res.Stats.add(&o.Stats)
		st := &o.Stats
		fired := st.TyperFired + st.Sim.GCs + st.Sim.Stacks + st.Sim.Purges + st.Sim.Clocks + st.Setup.GCs + st.ReadFaults
		for _, f := range st.Fired {
			fired += f
		}
		if st.Sim.Switches+fired > 0 && st.Ops > 0 {
			h := st.Sim.Hash ^ seed*0x9e3779b97f4a7c15
			res.Hashes = append(res.Hashes, h)
		}
		if hist {
			res.Hist = append(res.Hist, w.history())
		}
		if seed == from {
			res.Samples = append(res.Samples, w.describe()+"scheduler "+fmt.Sprintf("%+v", st.Sim))
		}
		abs := false
		k := 0
		for _, v := range o.Viols {
			c := cfg.Counts(w, &v)
			if c == ignore || k >= 3 {
				continue
			}
			k++
			v.Rel = c == relative
			abs = abs || c == absolute
			rp := o.Replay
			res.Found = append(res.Found, Found{Seed: seed, Violation: v, Replay: &rp, Race: simrt.RaceEnabled, Chunk: from})
		}
		if abs || len(res.Found) >= maxFoundPerChunk {
			break
		}
		afterSeed()
	}
	finish()
}

func sortedKeys(m map[string]int) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}
