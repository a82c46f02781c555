package main

import (
	"fmt"
	"runtime/debug"
	"strings"
)

// allVars draws a subset of the variables.
func someVars(r *Rand, always ...string) []string {
	in := map[string]bool{}
	for _, a := range always {
		in[a] = true
	}
	var res []string
	p := r.In(30, 100)
	for _, d := range varDefs {
		if in[d.Name] || (d.Name[:1] != "r" && !strings.HasPrefix(d.Name, "tpl") && r.P(p)) {
			res = append(res, d.Name)
		}
	}
	return res
}

// fuzzOne compares one random template, alone, with the model.
func fuzzOne(seed uint64, verbose bool) (msg string) {
	r := NewRand(seed)
	vars := someVars(r, "i1", "s1")
	evals := r.P(40)
	if evals {
		vars = someVars(r, "i1", "s1", "tpl1", "tpl2")
	}
	prof := Profile{Unset: r.P(50), Long: r.P(30), Big: r.P(30), NilP: pick(r, 0, 0, 50)}
	g := NewGen(r.Fork(), vars)
	g.eval, g.assign, g.pnil = evals, r.P(50), prof.NilP > 0
	g.time, g.regErr = r.P(30), r.P(20)
	g.xprint, g.fx = pick(r, 0, 10), pick(r, 0, 10)
	if r.P(20) {
		g.maxSt = 40
	}
	t := g.Template(r.In(3, 16))
	dyn := map[string]*Tmpl{}
	var dl []string
	if evals {
		for i := 0; i < 2; i++ {
			g2 := NewGen(r.Fork(), vars)
			g2.time = g.time
			if i == 1 && r.P(50) {
				g2.eval, g2.evalOnly = true, "tpl1"
			}
			g2.assign, g2.pnil, g2.prefix = g.assign, g.pnil, pick2(i, "d", "e")
			d := g2.Template(r.In(1, 6))
			dyn[d.Text()] = d
			dl = append(dl, d.Text())
		}
	}
	o := Opts{Buf: pick(r, -1, 0, 1, 7, 64, 1024), Cache: pick(r, -1, 0, 1, 4), Escape: r.P(20), Panic: r.P(30)}
	vs := r.U()
	var faults []Fault
	if r.P(30) {
		for i := r.In(1, 2); i > 0; i-- {
			faults = append(faults, Fault{At: r.In(1, 6), Kind: pick(r, FErr, FErr, FPanicErr, FPanicStr, FPanicInt)})
		}
	}
	defer func() {
		if p := recover(); p != nil {
			if verbose {
				debug.PrintStack()
			}
			msg = fmt.Sprintf("seed %d: PANIC %v\nvars=%v opts=%v\n%s", seed, p, vars, o, t.Text())
			for k := range dyn {
				msg += "\nDYN " + k
			}
		}
	}()
	c := &Ctx{faults: faults}
	modelCtx = c
	p := newPlanner(o, vars)
	ex, ns, err := p.Compile([]byte(t.Text()))
	if err != nil {
		return fmt.Sprintf("seed %d: compile %v\n%s", seed, err, t.Text())
	}
	rv, rs := newValues(vs, vars, prof)
	mv, _ := newValues(vs, vars, prof)
	if evals {
		for i, n := range []string{"tpl1", "tpl2"} {
			rv[n], mv[n] = dl[i], dl[i]
			rs[n] = true
		}
	}
	st := ns()
	applyValues(st, vars, rv, rs, vs)
	got := realExec(c, ex, st)
	var errs []error
	orig := map[string]interface{}{}
	for k, v := range mv {
		orig[k] = v
	}
	e := &Env{v: mv, xT: TNone, errs: &errs, panicOnErr: o.Panic, escape: o.Escape, dyn: func(_ int, s string) *Tmpl { return dyn[s] }}
	want := modelExec(&Ctx{faults: faults, feed: c.feed}, t, e)
	d := diff(want, got)
	if d == "" {
		d = c.changed()
	}
	if d == "" {
		for _, n := range vars {
			if !equalVals(rv[n], orig[n]) {
				d = fmt.Sprintf("value %s: want %#v got %#v", n, orig[n], rv[n])
			}
		}
	}
	if d != "" || verbose {
		s := fmt.Sprintf("seed %d: %s\nvars=%v opts=%v faults=%v prof=%v\nTEMPLATE %s", seed, d, vars, o, faults, prof, t.Text())
		for k := range dyn {
			s += "\nDYN " + k
		}
		s += fmt.Sprintf("\nwant %v\ngot  %v", want, got)
		if d == "" {
			fmt.Println(s)
			return ""
		}
		return s
	}
	return ""
}

func pick2(i int, a, b string) string {
	if i == 0 {
		return a
	}
	return b
}
