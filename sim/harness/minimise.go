package main

import (
	"sync"
	"time"

	"verifsim/simrt"
)

// Action is a recorded decision.
type Action = simrt.Action

// minimiser shrinks a failing run: operations, steps, faults, statements and
// scheduler decisions, every trial in a fresh process.
type minimiser struct {
	c        *checker
	f        *Found
	best     *Spec
	deadline time.Time
	trials   int
	mu       sync.Mutex
}

func (m *minimiser) over() bool { return time.Now().After(m.deadline) }

// try runs a candidate; on success it becomes the best.
func (m *minimiser) try(s *Spec) bool {
	r := m.test(s)
	if r == nil {
		return false
	}
	m.adopt(s, r)
	return true
}

func (m *minimiser) test(s *Spec) *TrialResult {
	m.mu.Lock()
	m.trials++
	m.mu.Unlock()
	r, _ := m.c.trial(s)
	if same(r, m.f, false) == nil {
		return nil
	}
	if m.f.Rel {
		v := same(r, m.f, false)
		b := &Spec{Property: s.Property, Seed: s.Seed, DropOps: s.DropOps, DropStm: s.DropStm, NoFault: s.NoFault, Mode: m.c.cfg.Base, Op: v.Op, Sub: v.Sub, Kind: v.Kind}
		if v.Kind == "setup" {
			b.Mode = "setup"
		}
		if b.Mode == "noenv" {
			b.Acts = s.Acts
		}
		if b.Mode != "noenv" || b.Acts != nil {
			br, _ := m.c.trial(b)
			if same(br, &Found{Violation: *v}, b.Mode != "noenv" && b.Mode != "setup") != nil {
				return nil
			}
		}
	}
	return r
}

func (m *minimiser) adopt(s *Spec, r *TrialResult) {
	s.MaxVars = 0
	if s.Acts == nil {
		// replayed runs do not record their decisions again
		if r.Replay != nil {
			s.Acts, s.SchedVar = r.Replay, 0
		} else {
			s.SchedVar = r.SchedVar
		}
	}
	m.best = s
}

// first tries candidates in parallel and adopts the first that fails.
func (m *minimiser) first(l []*Spec) int {
	for i := 0; i < len(l); i += workers {
		if m.over() {
			return -1
		}
		n := len(l) - i
		if n > workers {
			n = workers
		}
		res := make([]*TrialResult, n)
		var wg sync.WaitGroup
		for k := 0; k < n; k++ {
			k := k
			wg.Add(1)
			go func() { defer wg.Done(); res[k] = m.test(l[i+k]) }()
		}
		wg.Wait()
		for k := 0; k < n; k++ {
			if res[k] != nil {
				m.adopt(l[i+k], res[k])
				return i + k
			}
		}
	}
	return -1
}

func clone(s *Spec) *Spec {
	n := *s
	n.DropOps = append([]int{}, s.DropOps...)
	n.NoFault = append([]int{}, s.NoFault...)
	n.Prefix = append([]uint64{}, s.Prefix...)
	n.DropStm = map[int][]int{}
	for k, v := range s.DropStm {
		n.DropStm[k] = append([]int{}, v...)
	}
	return &n
}

// variants of a candidate: the recorded schedule, and a search over new ones.
func (m *minimiser) variants(s *Spec) []*Spec {
	a := clone(s)
	b := clone(s)
	b.Acts, b.MaxVars = nil, 30
	if s.Race {
		b.MaxVars = 8
	}
	if len(s.Prefix) > 0 || m.f.Kind == "crash" || m.f.Abort {
		b.MaxVars = 0
		if a.Acts == nil {
			return []*Spec{b}
		}
	}
	return []*Spec{a, b}
}

func (m *minimiser) run() {
	// the decisions as actions, if the run gets to its end
	if m.best.Acts == nil {
		m.try(clone(m.best))
	}
	// history: which earlier runs are needed
	for len(m.best.Prefix) > 0 && !m.over() {
		var l []*Spec
		n := len(m.best.Prefix)
		for k := n / 2; k >= 1; k /= 2 {
			for i := 0; i+k <= n; i += k {
				s := clone(m.best)
				s.Prefix = append(append([]uint64{}, m.best.Prefix[:i]...), m.best.Prefix[i+k:]...)
				l = append(l, s)
			}
		}
		if n == 1 {
			break
		}
		if m.first(l) < 0 {
			break
		}
	}
	w := genWorld(m.c.prop, m.best.Seed, m.c.cfg.WP)
	m.dropOps(w)
	m.faults(w)
	m.statements(w)
	m.dropOps(w)
	m.actions()
}

func (m *minimiser) dropOps(w *World) {
	dropped := map[int]bool{}
	for _, d := range m.best.DropOps {
		dropped[d] = true
	}
	var ids []int
	for _, t := range w.Tasks {
		for _, o := range t {
			ids = append(ids, o.ID)
		}
	}
	for _, o := range w.Post {
		ids = append(ids, o.ID)
	}
	live := func() (l []int) {
		for _, id := range ids {
			if !dropped[id] {
				l = append(l, id)
			}
		}
		return
	}
	shrink := func(list func() []int) {
		for size := len(list()); size >= 1 && !m.over(); {
			l := list()
			if size > len(l) {
				size = len(l)
			}
			if size == 0 {
				return
			}
			var cands []*Spec
			var groups [][]int
			for i := 0; i < len(l); i += size {
				e := i + size
				if e > len(l) {
					e = len(l)
				}
				s := clone(m.best)
				s.DropOps = append(s.DropOps, l[i:e]...)
				for _, v := range m.variants(s) {
					cands = append(cands, v)
					groups = append(groups, l[i:e])
				}
			}
			k := m.first(cands)
			if k < 0 {
				size /= 2
				continue
			}
			for _, id := range groups[k] {
				dropped[id] = true
			}
		}
	}
	shrink(live)
	shrink(func() (l []int) {
		w.eachOp(func(o *OpSpec) {
			if dropped[o.ID] {
				return
			}
			for i := 0; i < len(o.Steps)+len(o.Fam)+len(o.Asg); i++ {
				if id := o.ID*1000 + i + 1; !dropped[id] {
					l = append(l, id)
				}
			}
		})
		return
	})
}

func (m *minimiser) faults(w *World) {
	var l []int
	w.eachOp(func(o *OpSpec) {
		if len(o.Faults) > 0 || o.Typer != FNone || o.Storm > 0 {
			l = append(l, o.ID*1000)
		}
		for i, s := range o.Steps {
			if len(s.Faults) > 0 || s.Typer != FNone {
				l = append(l, o.ID*1000+i+1)
			}
		}
		for i, s := range o.Fam {
			if len(s.Faults) > 0 {
				l = append(l, o.ID*1000+i+1)
			}
		}
	})
	all := clone(m.best)
	all.NoFault = l
	if len(l) > 0 && m.first(m.variants(all)) >= 0 {
		return
	}
	for _, id := range l {
		if m.over() {
			return
		}
		s := clone(m.best)
		s.NoFault = append(s.NoFault, id)
		m.first(m.variants(s))
	}
}

func (m *minimiser) statements(w *World) {
	for ti, t := range w.Tmpls {
		var ids []int
		var walk func(l []*Stmt)
		walk = func(l []*Stmt) {
			for _, s := range l {
				if !s.Keep {
					ids = append(ids, s.ID)
				}
				walk(s.Body)
				walk(s.Else)
			}
		}
		walk(t.Body)
		for size := len(ids); size >= 1 && !m.over(); {
			var cands []*Spec
			var groups []int
			if size > len(ids) {
				size = len(ids)
			}
			if size == 0 {
				break
			}
			for i := 0; i < len(ids); i += size {
				e := i + size
				if e > len(ids) {
					e = len(ids)
				}
				s := clone(m.best)
				s.DropStm[ti] = append(s.DropStm[ti], ids[i:e]...)
				for _, v := range m.variants(s) {
					cands = append(cands, v)
					groups = append(groups, i)
				}
			}
			k := m.first(cands)
			if k < 0 {
				size /= 2
				continue
			}
			i := groups[k]
			e := i + size
			if e > len(ids) {
				e = len(ids)
			}
			ids = append(append([]int{}, ids[:i]...), ids[e:]...)
		}
	}
}

func (m *minimiser) actions() {
	if m.best.Acts == nil || m.best.Acts == (*Replay)(nil) {
		return
	}
	type ref struct{ p, i int }
	get := func(r *Replay) [3][]Action { return [3][]Action{r.Setup, r.Main, r.Post} }
	for size := 1 << 16; size >= 1 && !m.over(); {
		a := get(m.best.Acts)
		var refs []ref
		for p := range a {
			for i := range a[p] {
				refs = append(refs, ref{p, i})
			}
		}
		if len(refs) == 0 {
			return
		}
		if size > len(refs) {
			size = len(refs)
		}
		var cands []*Spec
		for i := 0; i < len(refs); i += size {
			e := i + size
			if e > len(refs) {
				e = len(refs)
			}
			gone := map[ref]bool{}
			for _, x := range refs[i:e] {
				gone[x] = true
			}
			s := clone(m.best)
			var n [3][]Action
			for p := range a {
				n[p] = []Action{}
				for k := range a[p] {
					if !gone[ref{p, k}] {
						n[p] = append(n[p], a[p][k])
					}
				}
			}
			s.Acts = &Replay{n[0], n[1], n[2]}
			cands = append(cands, s)
		}
		ok := false
		for i := 0; i < len(cands) && !m.over(); i += workers {
			// keep the reduced list itself, not the one recorded on replay
			n := len(cands) - i
			if n > workers {
				n = workers
			}
			res := make([]*TrialResult, n)
			var wg sync.WaitGroup
			for k := 0; k < n; k++ {
				k := k
				wg.Add(1)
				go func() { defer wg.Done(); res[k] = m.test(cands[i+k]) }()
			}
			wg.Wait()
			for k := 0; k < n && !ok; k++ {
				if res[k] != nil {
					m.best = cands[i+k]
					ok = true
				}
			}
			if ok {
				break
			}
		}
		if !ok {
			size /= 2
		}
	}
}
