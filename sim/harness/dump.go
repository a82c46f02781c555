package main

import (
	"fmt"
	"strings"
)

// describe renders a world for a reader.
func (w *World) describe() string {
	var sb strings.Builder
	p := func(f string, a ...interface{}) { fmt.Fprintf(&sb, f+"\n", a...) }
	p("seed %d", w.Seed)
	for i, x := range w.Planners {
		p("planner%d %v vars %v", i, x.Opts, strings.Join(x.Vars, " "))
	}
	for i, s := range w.Scopes {
		p("scope%d of planner%d parent %d defines x:%v", i, s.Planner, s.Parent, tyName(s.X))
	}
	for i, d := range w.Dyn {
		p("dynamic%d %q", i, d.Text())
	}
	for i, s := range w.Plans {
		p("plan%d in scope%d %q", i, s.Scope, s.T.Text())
	}
	for i, s := range w.Pools {
		p("pool%d of plan%d size %d", i, s.Plan, s.Size)
	}
	ops := func(l []*OpSpec) {
		for _, o := range l {
			if w.dropped(o.ID) {
				continue
			}
			switch o.Kind {
			case OpExec:
				s := fmt.Sprintf("  op%d exec plan%d", o.ID, o.Plan)
				if o.Pool >= 0 {
					s += fmt.Sprintf(" on a state of pool%d", o.Pool)
					if o.Keep {
						s += " (never returned)"
					}
				} else if o.Slot >= 0 {
					s += fmt.Sprintf(" on own state %d", o.Slot)
					if o.Append {
						s += " without reset"
					}
				}
				if o.Storm > 0 {
					p("  before op%d: plan%d is executed %d times on states of their own%s", o.ID, o.Plan, o.Storm, faultDesc([]Fault{o.StormF}, FNone))
				}
				p("%s %s%s", s, o.Val.desc(w), faultDesc(o.Faults, o.Typer))
			case OpChurn:
				p("  op%d evaluate many texts of kind %d", o.ID, o.Take)
			case OpAssign:
				pl := w.Asg[o.Plan]
				p("  op%d assignments of plan%d %v: %s", o.ID, o.Plan, pl.opts, pl.text())
				for i, st := range o.Asg {
					if w.drop[o.ID*1000+i+1] {
						continue
					}
					d := ""
					for _, k := range st.Set {
						d += " " + pl.vars[k].name
					}
					if d != "" {
						d = " after setting" + d
					}
					if st.New {
						d += " (a new one)"
					}
					p("    %d state %d, sel=%d%s%s", i+1, st.St, st.Sel, d, faultDesc(st.Faults, FNone))
				}
			case OpFamily:
				if o.P != nil {
					p("  op%d family of scopes of an own planner %v", o.ID, o.P.Opts)
				} else {
					p("  op%d family of scopes below scope%d", o.ID, o.Scope)
				}
				for i, st := range o.Fam {
					if !w.drop[o.ID*1000+i+1] {
						p("    %d %s", i+1, st.desc(w))
					}
				}
			case OpAbandon:
				p("  op%d take %d states of pool%d and keep them", o.ID, o.Take, o.Pool)
			default:
				s := opNames[o.Kind]
				if o.Kind == OpPlanner {
					s += fmt.Sprintf(" %v", o.P.Opts)
				} else {
					s += fmt.Sprintf(" scope%d", o.Scope)
				}
				p("  op%d %s%s", o.ID, s, faultDesc(nil, o.Typer))
				for i, st := range o.Steps {
					if w.drop[o.ID*1000+i+1] {
						continue
					}
					d := stepNames[st.Kind]
					switch st.Kind {
					case StDefine:
						d += ":" + tyName(st.X)
					case StBad:
						d += fmt.Sprintf(" %q", st.Text)
					case StExec, StRerun:
						d += fmt.Sprintf(" %q %s", st.T.Text(), st.Val.desc(w))
						if st.OldSt {
							d += " on its old state"
						}
					}
					p("    %d %s%s", i+1, d, faultDesc(st.Faults, st.Typer))
				}
			}
		}
	}
	for i, t := range w.Tasks {
		p("task%d", i)
		ops(t)
	}
	p("finally")
	ops(w.Post)
	return sb.String()
}

func (v ValSpec) desc(w *World) string {
	s := fmt.Sprintf("values#%x tpl1=dyn%d tpl2=dyn%d", v.Seed&0xffff, v.Tpl[0], v.Tpl[1])
	if v.Shared >= 0 {
		s += fmt.Sprintf(" (shared set %d)", v.Shared)
	}
	return s
}

func faultDesc(f []Fault, typer int) string {
	s := ""
	for _, x := range f {
		s += fmt.Sprintf(" [%s at call %d]", faultNames[x.Kind], x.At)
	}
	if typer != FNone {
		s += fmt.Sprintf(" [%s in type callbacks]", faultNames[typer])
	}
	return s
}

func tyName(t Ty) string {
	switch t {
	case TInt:
		return "int"
	case TStr:
		return "string"
	case TFloat:
		return "float64"
	case TBool:
		return "bool"
	case TStrs:
		return "[]string"
	case TNone:
		return "none"
	}
	return fmt.Sprint(int(t))
}
