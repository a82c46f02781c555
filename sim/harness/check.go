package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/bits"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
	"verifsim/simrt"
)

// checker runs one property's check.
type checker struct {
	prop    string
	cfg     *PropCfg
	tier    string
	seed    uint64
	dir     string // scratch
	start   time.Time
	mu      sync.Mutex
	stats   RunStats
	seeds   int
	hashes  map[uint64]bool
	pairs   []uint64
	samples []string
	trials  int
	unattr  []string
	notes   []string
	raceRun int
	nspec   int
}

const workers = 8

func fatal(f string, a ...interface{}) {
	fmt.Printf("ERROR "+f+"\n", a...)
	os.Exit(2)
}

func (c *checker) bin(race bool) string {
	if race {
		return filepath.Join(*fBin, "hr")
	}
	return filepath.Join(*fBin, "h")
}

// proc runs a child with limits; the state is "ok", "crash", "timeout" or "oom".
func (c *checker) proc(race bool, timeout time.Duration, errPath string, args ...string) string {
	lim := "ulimit -v 6000000; "
	if race {
		lim = ""
	}
	cmd := exec.Command("/bin/sh", append([]string{"-c", lim + `exec "$0" "$@"`, c.bin(race)}, args...)...)
	cmd.Env = append(os.Environ(), c.cfg.Env...)
	cmd.Env = append(cmd.Env, "GORACE=halt_on_error=0 exitcode=0 history_size=3", "GOMAXPROCS=1", "GOTRACEBACK=all")
	f, err := os.Create(errPath)
	if err != nil {
		fatal("%v", err)
	}
	defer f.Close()
	cmd.Stderr = f
	if err := cmd.Start(); err != nil {
		fatal("cannot start worker: %v", err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err = <-done:
	case <-time.After(timeout):
		cmd.Process.Kill()
		<-done
		return "timeout"
	}
	if err == nil {
		return "ok"
	}
	if ee, ok := err.(*exec.ExitError); ok && (ee.ExitCode() == 4 || ee.ExitCode() == 3) {
		return "broken"
	}
	b, _ := os.ReadFile(errPath)
	if strings.Contains(string(b), "out of memory") || strings.Contains(string(b), "cannot allocate memory") {
		return "oom"
	}
	return "crash"
}

type chunk struct {
	from uint64
	n    int
	race bool
	res  *ChunkResult
	hist []string
	err  string
}

func (c *checker) runChunk(k *chunk) {
	from, end := k.from, k.from+uint64(k.n)
	var all ChunkResult
	all.From = from
	out := filepath.Join(c.dir, fmt.Sprintf("c%d-%v", k.from, k.race))
	defer func() {
		for _, s := range []string{"", ".state", ".pairs", ".err", ".tmp"} {
			os.Remove(out + s)
		}
	}()
	st := c.proc(k.race, 240*time.Second, out+".err", "-mode", "worker", "-prop", c.prop, "-start", fmt.Sprint(from), "-n", fmt.Sprint(end-from), "-out", out)
	var r ChunkResult
	if st == "ok" {
		if err := readJSON(out, &r); err != nil {
			k.err = "no result: " + err.Error()
			return
		}
		c.merge(&r, out+".pairs")
		if k.race {
			b, _ := os.ReadFile(out + ".err")
			for i := range r.Found {
				if r.Found[i].Kind == "race" {
					r.Found[i].Msg += "\n" + firstRace(string(b))
				}
			}
		}
		k.res = &r
		return
	}
	if st == "broken" || st == "timeout" {
		b, _ := os.ReadFile(out + ".err")
		k.err = st + ": " + tail(string(b), 2000)
		return
	}
	// crashed
	b, _ := os.ReadFile(out + ".state")
	seed, err := strconv.ParseUint(strings.TrimLeft(string(b), "0"), 10, 64)
	if err != nil {
		k.err = "crash before the first seed"
		return
	}
	e, _ := os.ReadFile(out + ".err")
	r.From, r.Next = from, seed+1
	r.Found = append(r.Found, Found{Seed: seed, Violation: Violation{Kind: "crash", Msg: "process crashed (" + st + "): " + head(string(e), 600), Op: -1}, Race: k.race, Chunk: from, Abort: true})
	k.res = &r
	c.mu.Lock()
	c.seeds += int(seed - from)
	c.mu.Unlock()
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

func firstRace(s string) string {
	i := strings.Index(s, "WARNING: DATA RACE")
	if i < 0 {
		return ""
	}
	s = s[i:]
	if j := strings.Index(s[10:], "=================="); j > 0 {
		s = s[:j+10]
	}
	return head(s, 3000)
}

func (c *checker) merge(r *ChunkResult, pairs string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.seeds += r.Seeds
	c.stats.add(&r.Stats)
	for _, h := range r.Hashes {
		c.hashes[h] = true
	}
	if len(c.samples) < 2 {
		c.samples = append(c.samples, r.Samples...)
	}
	b, err := os.ReadFile(pairs)
	if err == nil {
		if c.pairs == nil {
			c.pairs = make([]uint64, len(b)/8)
		}
		for i := 0; i+8 <= len(b); i += 8 {
			c.pairs[i/8] |= binary.LittleEndian.Uint64(b[i:])
		}
	}
}

// trial runs a spec in a fresh process.
func (c *checker) trial(s *Spec) (*TrialResult, string) {
	c.mu.Lock()
	c.nspec++
	base := filepath.Join(c.dir, fmt.Sprintf("s%d", c.nspec))
	c.mu.Unlock()
	writeJSON(base+".in", s)
	defer func() {
		for _, x := range []string{".in", ".out", ".err"} {
			os.Remove(base + x)
		}
	}()
	to := 60 * time.Second
	if s.Race {
		to = 120 * time.Second
	}
	st := c.proc(s.Race, to, base+".err", "-mode", "spec", "-in", base+".in", "-out", base+".out")
	if st == "broken" {
		b, _ := os.ReadFile(base + ".err")
		fatal("spec run failed: %s", tail(string(b), 2000))
	}
	if st != "ok" {
		b, _ := os.ReadFile(base + ".err")
		if st == "oom" {
			st = "crash"
		}
		return &TrialResult{Viols: []Violation{{Kind: st, Msg: "process " + st + ": " + head(string(b), 800), Op: -1}}}, st
	}
	var r TrialResult
	if err := readJSON(base+".out", &r); err != nil {
		fatal("spec run left no result: %v", err)
	}
	if r.Abort != nil {
		r.Viols = append(r.Viols, Violation{Kind: r.Abort.Kind, Msg: "run cannot continue: " + r.Abort.Kind, Op: -1})
	}
	if s.Race {
		b, _ := os.ReadFile(base + ".err")
		for i := range r.Viols {
			if r.Viols[i].Kind == "race" {
				r.Viols[i].Msg += "\n" + firstRace(string(b))
			}
		}
	}
	return &r, "ok"
}

// same finds a violation of that kind.
func same(r *TrialResult, f *Found, exact bool) *Violation {
	for i := range r.Viols {
		v := &r.Viols[i]
		if v.Kind == f.Kind && (!exact || v.Op == f.Op && v.Sub == f.Sub) {
			return v
		}
	}
	return nil
}

// confirm decides whether a candidate is a violation of the property; if so
// it returns the spec that reproduces it.
func (c *checker) confirm(f *Found) (*Spec, string) {
	s := &Spec{Property: c.prop, Seed: f.Seed, Acts: f.Replay, Race: f.Race, Kind: f.Kind}
	if f.Abort {
		s.Acts = nil
	}
	r, _ := c.trial(s)
	if same(r, f, true) == nil {
		s.Prefix = nil
		s.Acts = nil
		for x := f.Chunk; x < f.Seed; x++ {
			s.Prefix = append(s.Prefix, x)
		}
		r, _ = c.trial(s)
		for i := 0; i < 3 && same(r, f, true) == nil; i++ {
			// code that depends on something outside the simulation may need
			// several attempts, with the run alone or behind its prefix
			if i%2 == 0 {
				p := s.Prefix
				s.Prefix = nil
				if r, _ = c.trial(s); same(r, f, true) != nil {
					break
				}
				s.Prefix = p
			}
			r, _ = c.trial(s)
		}
		if same(r, f, true) == nil {
			return nil, "not-reproduced"
		}
	}
	if f.Rel || c.cfg.Base == "noenv" || f.Kind == "livelock" {
		b := &Spec{Property: c.prop, Seed: f.Seed, Mode: c.cfg.Base, Op: f.Op, Sub: f.Sub, Kind: f.Kind}
		if f.Kind == "setup" {
			b.Mode = "setup"
		}
		if f.Kind == "livelock" {
			b.Mode = "noenv"
			b.Acts = &Replay{}
		}
		if b.Mode == "noenv" && b.Acts == nil {
			b.Acts = f.Replay
			b.Race = f.Race
			b.Prefix = s.Prefix
		}
		r, _ := c.trial(b)
		ex := b.Mode != "noenv" && b.Mode != "setup"
		if same(r, f, ex) != nil {
			return nil, "baseline"
		}
	}
	return s, ""
}

// checkMain is the check of one property.
func checkMain(prop, tier string) {
	cfg := props[prop]
	if cfg == nil {
		fatal("no property %q", prop)
	}
	c := &checker{prop: prop, cfg: cfg, tier: tier, start: time.Now(), hashes: map[uint64]bool{}}
	c.seed = 1
	if s := os.Getenv("VERIF_SEED"); s != "" {
		v, err := strconv.ParseUint(s, 10, 64)
		if err != nil {
			iv, err2 := strconv.ParseInt(s, 10, 64)
			if err2 != nil {
				fatal("VERIF_SEED %q is not a number", s)
			}
			v = uint64(iv)
		}
		c.seed = v
	}
	fmt.Printf("property %s tier %s VERIF_SEED %d\n", prop, tier, c.seed)
	dir, err := os.MkdirTemp(*fBin, "run")
	if err != nil {
		fatal("%v", err)
	}
	c.dir = dir
	total := cfg.Quick
	guard := 420 * time.Second
	if tier == "thorough" {
		total = cfg.Thorough
		guard = 3 * time.Hour
	}
	base := c.seed * 0x100000000
	var chunks []*chunk
	rt := total * cfg.Race / 100
	if cfg.Race > 0 && cfg.RaceSeed > 0 {
		rt = cfg.RaceSeed
		if tier == "thorough" {
			rt = rt * cfg.Thorough / cfg.Quick
		}
	}
	add := func(from uint64, n int, race bool, size int) {
		for i := 0; i < n; i += size {
			k := size
			if i+k > n {
				k = n - i
			}
			chunks = append(chunks, &chunk{from: from + uint64(i), n: k, race: race})
		}
	}
	add(base, total, false, cfg.Chunk)
	add(base+1<<31, rt, true, cfg.Chunk)
	if rt > 0 { // mix
		var m []*chunk
		a, b := chunks[:len(chunks)-(rt+cfg.Chunk-1)/cfg.Chunk], chunks[len(chunks)-(rt+cfg.Chunk-1)/cfg.Chunk:]
		for len(a)+len(b) > 0 {
			if len(b)*len(m) > 0 && len(b) > 0 && (len(a) == 0 || len(m)%2 == 0) || len(a) == 0 {
				m, b = append(m, b[0]), b[1:]
			} else {
				m, a = append(m, a[0]), a[1:]
			}
		}
		chunks = m
	}
	c.selfTest(chunks[0])

	done := make([]chan struct{}, len(chunks))
	for i := range done {
		done[i] = make(chan struct{})
	}
	next, stop := 0, false
	var mu sync.Mutex
	for i := 0; i < workers; i++ {
		go func() {
			for {
				mu.Lock()
				if stop || next >= len(chunks) {
					mu.Unlock()
					return
				}
				k := next
				next++
				mu.Unlock()
				c.runChunk(chunks[k])
				close(done[k])
			}
		}()
	}
	unattr := 0
	var flaky, known []string
	for i := 0; i < len(chunks) && len(flaky) < 8; i++ {
		if time.Since(c.start) > guard {
			c.notes = append(c.notes, fmt.Sprintf("stopped by the time guard after %d of %d chunks", i, len(chunks)))
			break
		}
		<-done[i]
		k := chunks[i]
		if k.err != "" {
			fatal("worker for seeds from %d: %s", k.from, k.err)
		}
		restart := false
		for n := range k.res.Found {
			f := &k.res.Found[n]
			if unattr > 300 {
				c.notes = append(c.notes, "too many differences that the baseline shows too; the rest were not confirmed one by one")
				break
			}
			spec, why := c.confirm(f)
			if spec == nil {
				if why == "not-reproduced" {
					flaky = append(flaky, fmt.Sprintf("seed %d: %s %s", f.Seed, f.Kind, head(f.Msg, 1000)))
					restart = true
					continue
				}
				unattr++
				c.unattr = append(c.unattr, fmt.Sprintf("seed %d: %s: %s", f.Seed, f.Kind, head(f.Msg, 200)))
				restart = true
				continue
			}
			if k := knownFinding(c.prop, f); k != "" {
				dup := false
				for _, x := range known {
					dup = dup || x == k
				}
				if !dup {
					known = append(known, k)
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.prop, k)
				}
				restart = true
				continue
			}
			mu.Lock()
			stop = true
			mu.Unlock()
			path := c.report(f, spec)
			c.evidence(1)
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, path)
			os.Exit(1)
		}
		end := k.from + uint64(k.n)
		if k.res.Next < end && (restart || k.res.Abort != nil || len(k.res.Found) > 0) && unattr <= 300 {
			// go on behind the candidates that were none
			nk := &chunk{from: k.res.Next, n: int(end - k.res.Next), race: k.race}
			c.runChunk(nk)
			chunks[i] = nk
			done[i] = make(chan struct{})
			close(done[i])
			i--
		}
	}
	c.evidence(0)
	if len(flaky) > 0 {
		fatal("not reproducible: %s", strings.Join(flaky, "; "))
	}
	if len(c.unattr) > 0 {
		fmt.Printf("note: %d differences from the model show without the property's cause too, the first: %s\n", len(c.unattr), c.unattr[0])
	}
	for _, n := range c.notes {
		fmt.Println("note:", n)
	}
	fmt.Printf("OK property=%s runs=%d executions=%d steps=%d switches=%d in %.1fs\n", prop, c.seeds, c.stats.Execs, c.stats.Sim.Steps, c.stats.Sim.Switches, time.Since(c.start).Seconds())
}

// selfTest runs the first seeds twice and compares the histories.
func (c *checker) selfTest(k *chunk) {
	n := 16
	if n > k.n {
		n = k.n
	}
	var h [2]ChunkResult
	var wg sync.WaitGroup
	for i := 0; i < 2; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			out := filepath.Join(c.dir, fmt.Sprintf("self%d", i))
			c.proc(k.race, 120*time.Second, out+".err", "-mode", "worker", "-prop", c.prop, "-start", fmt.Sprint(k.from), "-n", fmt.Sprint(n), "-out", out, "-hist")
			readJSON(out, &h[i])
		}()
	}
	wg.Wait()
	same := 0
	for i := range h[0].Hist {
		if i < len(h[1].Hist) && h[0].Hist[i] == h[1].Hist[i] {
			same++
		} else {
			c.notes = append(c.notes, fmt.Sprintf("WARNING: seed %d gave two different histories", k.from+uint64(i)))
			if os.Getenv("VERIF_SELFTEST") != "" && i < len(h[1].Hist) {
				os.WriteFile("/tmp/hist0", []byte(h[0].Hist[i]), 0o644)
				os.WriteFile("/tmp/hist1", []byte(h[1].Hist[i]), 0o644)
			}
		}
	}
	c.notes = append(c.notes, fmt.Sprintf("determinism: %d of %d seeds gave the same history in two processes", same, n))
}

// evidence writes the evidence file.
func (c *checker) evidence(violations int) {
	wall := time.Since(c.start).Seconds()
	n := 0
	hits := make([]uint64, len(simrt.SiteHits)/64)
	copy(hits, c.pairs)
	for _, x := range c.pairs[min(len(hits), len(c.pairs)):] {
		n += bits.OnesCount64(x)
	}
	faults := map[string]int{}
	for i, x := range c.stats.Fired {
		if x > 0 {
			faults[faultNames[i]] = x
		}
	}
	s := &c.stats
	put := func(k string, v int) {
		if v > 0 {
			faults[k] = v
		}
	}
	put("garbage-collection", s.Sim.GCs+s.Setup.GCs)
	put("stack-move", s.Sim.Stacks+s.Setup.Stacks)
	put("pool-purge", s.Sim.Purges)
	put("clock-jump", s.Sim.Clocks)
	put("type-callback-panic", s.TyperFired)
	put("pool-state-not-reused", s.Sim.PoolNew)
	put("reader-fault", s.ReadFaults)
	put("stall-in-callback", s.Sim.Stalls)
	cov := map[string]interface{}{
		"evaluations":         c.seeds,
		"distinct_nontrivial": len(c.hashes),
		"rule":                "one evaluation is one simulated run: a world (planners, scopes, plans, pools, templates, values, tasks, faults) generated from one seed and executed under a seeded scheduler; every execution in it is compared with the reference model. Non-trivial: at least one operation ran and at least one preemptive task switch or injected fault took place; distinct by the hash of the sequence of task switches combined with the world's seed.",
		"samples":             c.samples,
		"executions_checked":  s.Execs,
		"operations":          s.Ops,
		"user_callbacks":      s.Calls,
		"type_callbacks":      s.Compiles,
		"runs_per_hour":       int(float64(c.seeds) / wall * 3600),
		"seeds":               fmt.Sprintf("%d runs, seeds from %d", c.seeds, c.seed*0x100000000),
		"simulated_steps":     s.Sim.Steps + s.Setup.Steps,
		"simulated_time_s":    (s.Sim.SimTimeMs + s.Setup.SimTimeMs) / 1000,
		"task_switches":       s.Sim.Switches,
		"blocked_on_lock":     s.Sim.Blocks,
		"faults_injected":     faults,
		"expected_errors":     s.Errors,
		"expected_panics":     s.Panics,
		"clock_readings":      s.ClockRead,
		"reader_calls":        s.Reads,
		"probes":              s.Probes,
		"distinct_preemption_pairs": map[string]interface{}{
			"count": n, "measure": "distinct (instrumented statement preempted, statement resumed) pairs, hashed into a 2^22 bitmap over all runs",
		},
		"statements_reached": c.reached(hits),
		"real_components":    "all packages of viant/velty and its dependencies (compiled from the working tree, statements instrumented with yield points), the Go runtime, allocator and garbage collector",
		"stub_components":    "goroutine scheduler (one task at a time, seeded), sync.Mutex/RWMutex/Once/Pool/Map and atomics (simulated), clock, user functions, type parser and readers (fault-injecting)",
		"notes":              c.notes,
		"unattributed":       len(c.unattr),
		"minimiser_trials":   c.trials,
		"race_build_share%":  c.cfg.Race,
	}
	sd := int64(c.seed)
	if sd < 0 {
		sd = -sd
	}
	ev := map[string]interface{}{
		"property": c.prop, "tier": c.tier, "seed": sd, "level": "exploration", "coverage": cov, "wall_s": wall, "violations": violations,
		"assumptions": []string{
			"pre-emption happens at statement boundaries of the instrumented code and at synchronisation operations; finer interleavings are covered only by the race detector build",
			"the reference model and the workload generator in /verif/sim/harness are right about the template language subset they use",
			"a seeded sample, not an enumeration: no violation found is evidence, not proof",
		},
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fatal("%v", err)
	}
	os.MkdirAll(filepath.Join(*fVerif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(*fVerif, "evidence", c.prop+".json"), b, 0o644); err != nil {
		fatal("%v", err)
	}
}

// reached tells how many of the instrumented statements were executed by the
// simulated tasks, per package; VERIF_UNREACHED names a file for the others.
func (c *checker) reached(hits []uint64) map[string]interface{} {
	var list []struct {
		Site int    `json:"site"`
		Pos  string `json:"pos"`
		Func string `json:"func"`
	}
	b, err := os.ReadFile(filepath.Join(*fBin, "sites.json"))
	if err != nil || json.Unmarshal(b, &list) != nil {
		return nil
	}
	n, of := map[string]int{}, map[string]int{}
	var rest strings.Builder
	all := 0
	for _, s := range list {
		pkg := filepath.Dir(s.Pos)
		of[pkg]++
		if s.Site/64 < len(hits) && hits[s.Site/64]>>(s.Site%64)&1 == 1 {
			n[pkg]++
			all++
		} else {
			fmt.Fprintf(&rest, "%s %s\n", s.Pos, s.Func)
		}
	}
	if f := os.Getenv("VERIF_UNREACHED"); f != "" {
		os.WriteFile(f, []byte(rest.String()), 0o644)
	}
	m := map[string]interface{}{"all": fmt.Sprintf("%d of %d", all, len(list))}
	for p, k := range of {
		m[p] = fmt.Sprintf("%d of %d", n[p], k)
	}
	return m
}

// knownFinding returns the description of a listed finding that f matches.
func knownFinding(prop string, f *Found) string {
	b, err := os.ReadFile(filepath.Join(*fVerif, "known-findings.txt"))
	if err != nil {
		return ""
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: property="+prop+" ") {
			continue
		}
		// finding: property=ID match="text" description
		i := strings.Index(l, `match="`)
		if i < 0 {
			continue
		}
		m := l[i+7:]
		j := strings.Index(m, `"`)
		if j > 0 && strings.Contains(f.Msg, m[:j]) {
			return m[j+1:]
		}
	}
	return ""
}

// ReplayFile is what a violation is reported as.
type ReplayFile struct {
	Property  string      `json:"property"`
	Violation Violation   `json:"violation"`
	Seed      uint64      `json:"seed"`
	VerifSeed uint64      `json:"verif_seed"`
	Spec      *Spec       `json:"spec"`
	World     []string    `json:"world"`
	Schedule  []string    `json:"schedule"`
	All       []Violation `json:"all_violations_of_the_run"`
	Note      string      `json:"note"`
}

// report minimises, writes the replay file and checks that it reproduces.
func (c *checker) report(f *Found, s *Spec) string {
	m := &minimiser{c: c, f: f, best: s, deadline: time.Now().Add(60 * time.Second)}
	m.run()
	c.trials = m.trials
	best := m.best
	r, _ := c.trial(best)
	v := same(r, f, false)
	note := "replay with: bash /verif/replay.sh <this file>"
	if v == nil {
		best = s
		for i := 0; i < 5 && v == nil; i++ {
			r, _ = c.trial(best)
			v = same(r, f, false)
		}
		note += " (not minimised)"
		if v == nil {
			fatal("violation of seed %d does not replay", f.Seed)
		}
	}
	rf := &ReplayFile{Property: c.prop, Violation: *v, Seed: f.Seed, VerifSeed: c.seed, Spec: best, All: r.Viols, Note: note}
	rf.World = strings.Split(r.Describe, "\n")
	if best.Acts != nil {
		rf.Schedule = describeActs(best.Acts)
	}
	dir := filepath.Join(*fVerif, "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", c.prop, f.Seed))
	b, _ := json.MarshalIndent(rf, "", " ")
	if err := os.WriteFile(path, b, 0o644); err != nil {
		fatal("%v", err)
	}
	fmt.Printf("seed %d: %s: %s\n", f.Seed, v.Kind, head(v.Msg, 1500))
	fmt.Println(head(r.Describe, 4000))
	return path
}

// replayMain re-runs a replay file.
func replayMain(path string) {
	var rf ReplayFile
	if err := readJSON(path, &rf); err != nil {
		fatal("%v", err)
	}
	cfg := props[rf.Property]
	if cfg == nil {
		fatal("no property %q", rf.Property)
	}
	dir, err := os.MkdirTemp(*fBin, "replay")
	if err != nil {
		fatal("%v", err)
	}
	c := &checker{prop: rf.Property, cfg: cfg, dir: dir}
	r, _ := c.trial(rf.Spec)
	if v := same(r, &Found{Violation: rf.Violation}, false); v != nil {
		fmt.Printf("%s: %s\n", v.Kind, v.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, path)
		os.Exit(1)
	}
	fmt.Println("not reproduced")
}

func describeActs(r *Replay) (l []string) {
	names := map[int]string{1: "switch to task", 2: "garbage collection", 3: "stack move, depth", 4: "pool purge", 5: "clock jump (clock units)", 6: "choice", 7: "start with task", 8: "finished, next task"}
	for i, p := range []string{"setup", "main", "finally"} {
		for _, a := range [][]Action{r.Setup, r.Main, r.Post}[i] {
			l = append(l, fmt.Sprintf("%s: task %d step %d: %s %d", p, a.Task, a.Step, names[a.Kind], a.Arg))
		}
	}
	return
}

func sortInts(l []int) []int { sort.Ints(l); return l }
