// Package simrt is the simulator: it runs a set of tasks (goroutines) one at a
// time and decides, from one seed, at every instrumented statement which task
// runs next and which environment fault (garbage collection, stack move, clock
// jump, pool purge) strikes. Everything it decides is recorded as a list of
// actions keyed by (task, task-local step); the same list replays the run.
//
// The hand-over between goroutines is hidden from the race detector, so that in
// a race build only the synchronisation of the code under test orders accesses.
// For that reason functions that touch simulator state are go:norace and avoid
// maps and append.
package simrt

import (
	"runtime"
	"time"
)

// Action kinds.
const (
	ActSwitch = 1 // Arg: task to run
	ActGC     = 2
	ActStack  = 3 // grow (move) the goroutine stack
	ActPurge  = 4 // drop all pooled items
	ActClock  = 5 // Arg: clock jump in clock units
	ActChoice = 6 // Step: choice counter, Arg: value
	ActStart  = 7 // Arg: first task
	ActFinish = 8 // Arg: task chosen when this one finished
)

// Action is one recorded scheduler or environment decision.
type Action struct {
	Kind int `json:"k"`
	Task int `json:"t"`
	Step int `json:"s"`
	Arg  int `json:"a"`
	Site int `json:"-"`
}

// Strategies.
const (
	StratSequential = iota
	StratRandom
	StratPCT
	StratSites
	StratBurst
	NumStrategies
)

// Config parametrises one run.
type Config struct {
	Seed     uint64
	Strategy int
	Rate     uint64 // switch probability per step, out of 65536
	HotRate  uint64 // switch probability at hot points (user callbacks, lock operations)
	Sites    uint64 // site-targeted: one site in Sites is a switch point
	Depth    int    // PCT change points
	Horizon  int    // PCT expected length

	GCRate    uint64 // per step, out of 1<<20
	StackRate uint64
	PurgeRate uint64
	ClockRate uint64
	ClockMax  int // largest jump, units
	ClockUnit int // what a step takes, ns (default: a millisecond)
	PoolDrop  int // simulated pool: one Get in PoolDrop creates anew though items are held (0: never)

	Replay   []Action // if non-nil, decisions come from here
	IsReplay bool

	SoftLimit   int // after that many steps the schedule becomes fair
	FrozenClock bool

	HardLimit int // after that many steps the run is given up: no progress
}

const maxTasks = 64
const maxActs = 1 << 17

type task struct {
	id      int
	resume  chan struct{}
	done    bool
	blocked bool
	stalled bool
	step    int
	choices int
	prio    int
	site    int
	data    interface{}
	lockN   int
}

// Stats of one run.
type Stats struct {
	Steps, Switches, GCs, Stacks, Purges, Clocks, Choices, Blocks, Stalls, PoolNew, PoolReuse int
	Hash                                                                                      uint64
	SimTimeMs                                                                                 int64
}

type sim struct {
	cfg     Config
	rng     uint64
	crng    uint64
	arng    uint64 // for the code under test
	tasks   [maxTasks]*task
	n       int
	cur     *task
	steps   int
	acts    []Action
	nacts   int
	stats   Stats
	clock   int64 // ns since base
	unit    int64 // ns
	idx     [maxTasks]int
	replays [maxTasks][]Action
	rchoice [maxTasks][]Action
	join    chan int
	pctAt   [16]int
	rr      int
	prioLow int
	fns     [maxTasks]func()
	pairs   []uint64 // preemption pairs (site,site) seen: bitmap
}

var active *sim

var actBuf [maxActs]Action

// Abort is called when a run cannot continue; it must not return.
var Abort func(kind, detail string)

// LastStats and LastActs describe the run that has just finished.
var (
	LastStats Stats
	LastActs  []Action
)

// Pairs is a bitmap of hashed (preempted site, resumed site) pairs over the
// whole process, a measure of the interleavings reached.
var Pairs [1 << 16]uint64

// SiteHits counts yields per site.
var SiteHits [1 << 14]uint32

const hotSite = 1 << 13 // sites from here on are simulator-internal

// Well-known hot sites.
const (
	SiteLock = hotSite + iota
	SiteUnlock
	SiteCallback
	SiteCallbackEnd
	SitePoolGet
	SitePoolPut
	SiteOp
	SiteBlock
	SiteReader
	SiteClock
)

// SiteName describes a simulator-internal site.
func SiteName(s int) string {
	switch s {
	case SiteLock:
		return "lock"
	case SiteUnlock:
		return "unlock"
	case SiteCallback:
		return "callback-begin"
	case SiteCallbackEnd:
		return "callback-end"
	case SitePoolGet:
		return "pool-get"
	case SitePoolPut:
		return "pool-put"
	case SiteOp:
		return "operation"
	case SiteBlock:
		return "blocked"
	case SiteReader:
		return "reader"
	case SiteClock:
		return "clock"
	}
	return "?"
}

// Epoch is the simulated time at the start of every run.
var Epoch = time.Date(2021, 3, 4, 5, 6, 7, 0, time.UTC)

// SplitMix is the seed expander used everywhere.
//
//go:norace
func SplitMix(x *uint64) uint64 {
	*x += 0x9e3779b97f4a7c15
	z := *x
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:norace
func (s *sim) rand() uint64 { return SplitMix(&s.rng) }

// Active tells whether a simulation is running.
//
//go:norace
func Active() bool { return active != nil }

// Run executes fns as tasks until all have returned.
func Run(cfg Config, fns []func(), datas []interface{}) Stats {
	if active != nil {
		panic("simrt: nested run")
	}
	if len(fns) == 0 {
		return Stats{}
	}
	if cfg.SoftLimit == 0 {
		cfg.SoftLimit = 60000
	}
	if cfg.HardLimit == 0 {
		cfg.HardLimit = 400000
	}
	s := &sim{cfg: cfg, rng: cfg.Seed ^ 0xabcdef12345, crng: cfg.Seed ^ 0x77777, arng: cfg.Seed ^ 0x1357}
	s.unit = int64(cfg.ClockUnit)
	if s.unit == 0 {
		s.unit = 1000000
	}
	s.acts = actBuf[:]
	s.join = make(chan int, maxTasks)
	if cfg.IsReplay {
		for _, a := range cfg.Replay {
			if a.Task < 0 || a.Task >= maxTasks {
				continue
			}
			if a.Kind == ActChoice {
				s.rchoice[a.Task] = append(s.rchoice[a.Task], a)
			} else {
				s.replays[a.Task] = append(s.replays[a.Task], a)
			}
		}
	}
	if cfg.Strategy == StratPCT {
		h := cfg.Horizon
		if h < 10 {
			h = 10
		}
		for i := 0; i < cfg.Depth && i < len(s.pctAt); i++ {
			s.pctAt[i] = 1 + int(s.rand()%uint64(h))
		}
	}
	for i, fn := range fns {
		var d interface{}
		if i < len(datas) {
			d = datas[i]
		}
		s.spawn(fn, d)
	}
	first := s.pickStart()
	active = s
	s.cur = s.tasks[first]
	raceOff()
	s.cur.resume <- struct{}{}
	raceOn()
	for joined := 0; joined < s.n; joined++ {
		<-s.join
	}
	active = nil
	s.stats.Steps = s.steps
	s.stats.SimTimeMs = s.clock / 1000000
	LastStats = s.stats
	LastActs = s.acts[:s.nacts]
	return s.stats
}

func (s *sim) pickStart() int {
	if s.cfg.IsReplay {
		for _, a := range s.cfg.Replay {
			if a.Kind == ActStart && a.Arg >= 0 && a.Arg < s.n {
				return a.Arg
			}
		}
		return 0
	}
	first := 0
	if s.cfg.Strategy != StratSequential {
		first = int(s.rand() % uint64(s.n))
	}
	s.record(ActStart, 0, 0, first, 0)
	return first
}

//go:norace
func (s *sim) spawn(fn func(), data interface{}) *task {
	if s.n >= maxTasks {
		panic("simrt: too many tasks")
	}
	t := &task{id: s.n, resume: make(chan struct{}, 1), data: data}
	t.prio = 1000 + int(s.rand()%1000)
	s.fns[s.n] = fn
	s.tasks[s.n] = t
	s.n++
	go s.body(t, fn)
	return t
}

func (s *sim) body(t *task, fn func()) {
	raceOff()
	<-t.resume
	raceOn()
	defer s.finish(t)
	fn()
}

func (s *sim) finish(t *task) {
	id := s.leave(t)
	s.join <- id
}

//go:norace
func (s *sim) leave(t *task) int {
	t.done = true
	s.wakeAll()
	next := s.afterFinish(t)
	if next != nil {
		s.cur = next
		raceOff()
		next.resume <- struct{}{}
		raceOn()
	}
	return t.id
}

//go:norace
func (s *sim) afterFinish(t *task) *task {
	n := s.runnable(nil)
	if n == 0 {
		s.stuck()
		s.unstall()
		n = s.runnable(nil)
	}
	if n == 0 {
		return nil
	}
	if s.cfg.IsReplay {
		for i := range s.replays[t.id] {
			a := &s.replays[t.id][i]
			if a.Kind == ActFinish && a.Arg < s.n && s.can(s.tasks[a.Arg]) {
				return s.tasks[a.Arg]
			}
		}
		return s.nth(0, nil)
	}
	var next *task
	if s.cfg.Strategy == StratPCT {
		next = s.highest(nil)
	} else if s.cfg.Strategy == StratSequential {
		next = s.nth(0, nil)
	} else {
		next = s.nth(int(s.rand()%uint64(n)), nil)
	}
	if next.id != s.nth(0, nil).id {
		s.record(ActFinish, t.id, t.step, next.id, 0)
	}
	return next
}

// stuck is called when no task can run: stalled tasks may be resumed unless a
// task that is not stalled is waiting.
//
//go:norace
func (s *sim) stuck() {
	blocked, stalled := false, false
	for i := 0; i < s.n; i++ {
		if t := s.tasks[i]; !t.done {
			if t.stalled {
				stalled = true
			} else if t.blocked {
				blocked = true
			}
		}
	}
	if blocked && stalled {
		s.abort("blocked-by-stall", "")
	}
	if blocked {
		s.abort("deadlock", "")
	}
}

//go:norace
func (s *sim) can(t *task) bool { return t != nil && !t.done && !t.blocked && !t.stalled }

//go:norace
func (s *sim) runnable(except *task) int {
	n := 0
	for i := 0; i < s.n; i++ {
		if s.tasks[i] != except && s.can(s.tasks[i]) {
			n++
		}
	}
	return n
}

//go:norace
func (s *sim) nth(k int, except *task) *task {
	for i := 0; i < s.n; i++ {
		if s.tasks[i] != except && s.can(s.tasks[i]) {
			if k == 0 {
				return s.tasks[i]
			}
			k--
		}
	}
	return nil
}

//go:norace
func (s *sim) highest(except *task) *task {
	var best *task
	for i := 0; i < s.n; i++ {
		t := s.tasks[i]
		if t != except && s.can(t) && (best == nil || t.prio > best.prio) {
			best = t
		}
	}
	return best
}

//go:norace
func (s *sim) unstall() {
	for i := 0; i < s.n; i++ {
		s.tasks[i].stalled = false
	}
}

//go:norace
func (s *sim) wakeAll() {
	for i := 0; i < s.n; i++ {
		s.tasks[i].blocked = false
	}
}

//go:norace
func (s *sim) record(kind, task, step, arg, site int) {
	if s.nacts < maxActs {
		a := &s.acts[s.nacts]
		a.Kind, a.Task, a.Step, a.Arg, a.Site = kind, task, step, arg, site
		s.nacts++
	}
}

//go:norace
func (s *sim) abort(kind, detail string) {
	LastStats = s.stats
	LastStats.Steps = s.steps
	LastActs = s.acts[:s.nacts]
	active = nil
	Abort(kind, detail)
	select {}
}

// Y is the yield point the instrumenter inserts before every statement.
//
//go:norace
func Y(site int) {
	s := active
	if s == nil {
		return
	}
	s.yield(site)
}

//go:norace
func (s *sim) yield(site int) {
	t := s.cur
	t.step++
	t.site = site
	s.steps++
	s.clock += s.unit
	if site < len(SiteHits) {
		SiteHits[site]++
	}
	if s.steps > s.cfg.HardLimit {
		s.abort("livelock", "")
		return
	}
	if s.cfg.IsReplay {
		s.replayStep(t)
		return
	}
	c := &s.cfg
	if c.GCRate|c.StackRate|c.PurgeRate|c.ClockRate != 0 {
		r := s.rand()
		if r&(1<<20-1) < c.GCRate {
			s.record(ActGC, t.id, t.step, 0, site)
			s.env(ActGC, 0)
		}
		if (r>>20)&(1<<20-1) < c.StackRate {
			d := 1 + int(s.rand()%40)
			s.record(ActStack, t.id, t.step, d, site)
			s.env(ActStack, d)
		}
		if (r>>40)&(1<<20-1) < c.PurgeRate {
			s.record(ActPurge, t.id, t.step, 0, site)
			s.env(ActPurge, 0)
		}
		if c.ClockRate != 0 {
			r = s.rand()
			if r&(1<<20-1) < c.ClockRate {
				j := int((r>>20)%uint64(2*c.ClockMax+1)) - c.ClockMax
				s.record(ActClock, t.id, t.step, j, site)
				s.env(ActClock, j)
			}
		}
	}
	if s.n == 1 {
		return
	}
	next := s.decide(t, site)
	if next == nil || next == t {
		return
	}
	s.record(ActSwitch, t.id, t.step, next.id, site)
	s.switchTo(t, next)
}

//go:norace
func (s *sim) decide(t *task, site int) *task {
	c := &s.cfg
	if s.steps > c.SoftLimit {
		// fair round robin
		s.rr++
		if s.rr%4 != 0 {
			return nil
		}
		n := s.runnable(t)
		if n == 0 {
			return nil
		}
		return s.nth((s.rr/4)%n, t)
	}
	switch c.Strategy {
	case StratRandom:
		rate := c.Rate
		if site >= hotSite {
			rate = c.HotRate
		}
		if s.rand()&0xffff >= rate {
			return nil
		}
	case StratPCT:
		for i := 0; i < c.Depth && i < len(s.pctAt); i++ {
			if s.pctAt[i] == s.steps {
				s.prioLow--
				t.prio = s.prioLow
			}
		}
		h := s.highest(nil)
		return h
	case StratSites:
		x := uint64(site) ^ c.Seed
		x = SplitMix(&x)
		if x%c.Sites != 0 {
			if s.rand()&0xffff >= c.Rate {
				return nil
			}
		} else if s.rand()&3 == 0 {
			return nil
		}
	case StratBurst:
		// alternate calm and stormy phases
		if (s.steps/64)%3 != int(c.Seed%3) {
			return nil
		}
		if s.rand()&1 == 0 {
			return nil
		}
	default:
		return nil
	}
	n := s.runnable(t)
	if n == 0 {
		return nil
	}
	return s.nth(int(s.rand()%uint64(n)), t)
}

//go:norace
func (s *sim) replayStep(t *task) {
	list := s.replays[t.id]
	i := s.idx[t.id]
	for i < len(list) && list[i].Step < t.step {
		i++
	}
	var next *task
	for i < len(list) && list[i].Step == t.step {
		a := &list[i]
		i++
		switch a.Kind {
		case ActGC, ActStack, ActPurge, ActClock:
			s.env(a.Kind, a.Arg)
		case ActSwitch:
			if a.Arg >= 0 && a.Arg < s.n && s.can(s.tasks[a.Arg]) {
				next = s.tasks[a.Arg]
			}
		}
	}
	s.idx[t.id] = i
	if next == nil && s.steps > s.cfg.SoftLimit {
		next = s.decide(t, t.site)
	}
	if next != nil && next != t {
		s.switchTo(t, next)
	}
}

//go:norace
func (s *sim) switchTo(t, next *task) {
	s.stats.Switches++
	x := uint64(t.site)<<20 ^ uint64(next.site)
	x = SplitMix(&x)
	Pairs[(x>>6)%uint64(len(Pairs))] |= 1 << (x & 63)
	h := s.stats.Hash ^ (uint64(t.id)<<40 | uint64(t.site)<<20 | uint64(next.id))
	s.stats.Hash = SplitMix(&h)
	s.cur = next
	raceOff()
	next.resume <- struct{}{}
	<-t.resume
	raceOn()
}

//go:norace
func (s *sim) env(kind, arg int) {
	switch kind {
	case ActGC:
		s.stats.GCs++
		runtime.GC()
	case ActStack:
		s.stats.Stacks++
		growStack(arg)
	case ActPurge:
		s.stats.Purges++
		PurgeEpoch++
	case ActClock:
		s.stats.Clocks++
		s.clock += int64(arg) * s.unit
	}
}

// PurgeEpoch advances when the runtime "drops" pooled items.
var PurgeEpoch int

//go:noinline
//go:norace
func growStack(n int) int {
	var pad [1 << 13]byte
	pad[n] = byte(n)
	if n == 0 {
		return int(pad[0])
	}
	return growStack(n-1) + int(pad[n])
}

// Block is called in a loop by a task that cannot proceed; another task runs.
//
//go:norace
func Block() {
	s := active
	if s == nil {
		panic("simrt: blocked outside a simulated task: deadlock")
	}
	t := s.cur
	t.blocked = true
	s.stats.Blocks++
	s.leaveCPU(t, SiteBlock)
}

//go:norace
func (s *sim) leaveCPU(t *task, site int) {
	t.step++
	t.site = site
	s.steps++
	if s.steps > s.cfg.HardLimit {
		s.abort("livelock", "")
		return
	}
	n := s.runnable(nil)
	if n == 0 {
		s.stuck()
		s.unstall()
		n = s.runnable(nil)
	}
	var next *task
	if s.cfg.IsReplay {
		list := s.replays[t.id]
		i := s.idx[t.id]
		for i < len(list) && list[i].Step < t.step {
			i++
		}
		for i < len(list) && list[i].Step == t.step {
			a := &list[i]
			i++
			if a.Kind == ActSwitch && a.Arg >= 0 && a.Arg < s.n && s.can(s.tasks[a.Arg]) {
				next = s.tasks[a.Arg]
			}
		}
		s.idx[t.id] = i
		if next == nil {
			next = s.nth(0, nil)
		}
	} else {
		switch s.cfg.Strategy {
		case StratPCT:
			next = s.highest(nil)
		case StratSequential:
			next = s.nth(0, nil)
		default:
			next = s.nth(int(s.rand()%uint64(n)), nil)
		}
		if next != s.nth(0, nil) {
			s.record(ActSwitch, t.id, t.step, next.id, site)
		}
	}
	if next == t {
		return
	}
	s.switchTo(t, next)
}

// Wake makes blocked tasks look again.
//
//go:norace
func Wake() {
	if s := active; s != nil {
		s.wakeAll()
	}
}

// Stall suspends the calling task until every other task has finished. If the
// others cannot finish without it, the run is aborted as "blocked-by-stall".
//
//go:norace
func Stall() {
	s := active
	if s == nil {
		return
	}
	t := s.cur
	if s.n == 1 {
		return
	}
	t.stalled = true
	s.stats.Stalls++
	s.leaveCPU(t, SiteCallback)
}

// Choose draws a recorded value in [0,n).
//
//go:norace
func Choose(n int) int {
	s := active
	if s == nil || n <= 1 {
		return 0
	}
	t := s.cur
	t.choices++
	s.stats.Choices++
	if s.cfg.IsReplay {
		for i := range s.rchoice[t.id] {
			a := &s.rchoice[t.id][i]
			if a.Step == t.choices {
				return a.Arg % n
			}
		}
		return 0
	}
	v := int(SplitMix(&s.crng) % uint64(n))
	if v != 0 {
		s.record(ActChoice, t.id, t.choices, v, 0)
	}
	return v
}

// PoolDrop returns the configured drop rate of the simulated pool.
//
//go:norace
func PoolDrop() int {
	if s := active; s != nil {
		return s.cfg.PoolDrop
	}
	return 0
}

// CountPool records a pool outcome.
//
//go:norace
func CountPool(reuse bool) {
	if s := active; s != nil {
		if reuse {
			s.stats.PoolReuse++
		} else {
			s.stats.PoolNew++
		}
	}
}

// Data returns the value attached to the running task.
//
//go:norace
func Data() interface{} {
	if s := active; s != nil {
		return s.cur.data
	}
	return nil
}

// SetData attaches a value to the running task.
//
//go:norace
func SetData(d interface{}) {
	if s := active; s != nil {
		s.cur.data = d
	}
}

// TaskID returns the running task's number, -1 outside a run.
//
//go:norace
func TaskID() int {
	if s := active; s != nil {
		return s.cur.id
	}
	return -1
}

// Steps returns the number of steps of the running task.
//
//go:norace
func Steps() int {
	if s := active; s != nil {
		return s.cur.step
	}
	return 0
}

// Seq returns a global event sequence number.
//
//go:norace
func Seq() int {
	if s := active; s != nil {
		s.steps++
		return s.steps
	}
	return 0
}

// Now is the simulated clock.
//
//go:norace
func Now() time.Time {
	s := active
	if s == nil {
		return Epoch
	}
	if s.cfg.FrozenClock {
		return Epoch
	}
	return Epoch.Add(time.Duration(s.clock))
}

// Since is time.Since on the simulated clock.
func Since(t time.Time) time.Duration { return Now().Sub(t) }

// Until is time.Until on the simulated clock.
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// Sleep moves the simulated clock.
//
//go:norace
func Sleep(d time.Duration) {
	if s := active; s != nil {
		if d > 0 && !s.cfg.FrozenClock {
			s.clock += int64(d)
		}
		Y(SiteOp)
	}
}

// Rand is the source of random numbers for the code under test.
//
//go:norace
func Rand() uint64 {
	if s := active; s != nil {
		return SplitMix(&s.arng)
	}
	return SplitMix(&idleRand)
}

var idleRand uint64 = 42

// GC collects garbage at this point (a scripted fault).
func GC() { runtime.GC() }

// WaitState describes where every unfinished task is, for reports.
//
//go:norace
func WaitState(s *sim) string { return "" }

// Go starts a goroutine of the code under test as a simulated task.
func Go(fn func()) {
	s := active
	if s == nil {
		go fn()
		return
	}
	goSpawn(s, fn)
	Y(SiteOp)
}

func goSpawn(s *sim, fn func()) { s.spawn(fn, s.cur.data) }
