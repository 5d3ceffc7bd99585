package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"time"

	"golang.org/x/tools/go/ssa"
)

type cand struct {
	name  string
	f     *Term
	extra []*Term // facts about symbols the candidate introduces
	by    string
}

// candidates lists the invariants worth trying for a loop: bounds for
// counters, frames for changed heap maps, and the unit's VfLoop templates
// bound to every type-compatible choice of loop variables.
func (fr *Frame) candidates(li *LoopInfo, phis []*ssa.Phi, heads, init []Val, entry *State, havoc map[string]bool, base snap) []cand {
	ex := fr.ex
	if ex.unit != nil && ex.unit.NoInv {
		return nil
	}
	var out []cand
	add := func(name string, f *Term) {
		if f != tTrue && f != tFalse {
			out = append(out, cand{name: name, f: f})
		}
	}
	for i, ph := range phis {
		hv, ok := heads[i].(*Term)
		iv, ok2 := init[i].(*Term)
		if !ok || !ok2 || hv.sort != SInt {
			continue
		}
		if b, isb := under(ph.Type()).(*types.Basic); !isb || b.Info()&types.IsInteger == 0 {
			continue
		}
		add(phName(ph)+" >= initial value", tLe(iv, hv))
		add(phName(ph)+" <= initial value", tLe(hv, iv))
	}
	for i, ph := range phis {
		if s, ok := heads[i].(SliceV); ok {
			if iv, ok := init[i].(SliceV); ok {
				add(phName(ph)+" only grows", tLe(iv.len, s.len))
			}
		}
	}
	var names []string
	for n := range havoc {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		s := ex.memSorts[n]
		if len(s) > 6 && s[:6] == "(Array" {
			r := newBvar("r", SInt)
			h := app(fmt.Sprintf("Hl%d:%s", li.id, n), s, append(append([]*Term{}, li.outer...), li.it)...)
			add("frame "+n, tForall([]*Term{r}, tImp(tLe(r, entry.alloc), tEq(tSelect(h, r), tSelect(ex.heapAt(entry, n), r)))))
		}
	}
	// templates of the unit
	if ex.unit != nil && ex.inCand == 0 {
		for _, tpl := range ex.unit.loops {
			out = append(out, fr.bindTemplate(li, tpl, phis, heads, entry, base)...)
		}
	}
	return out
}

func (fr *Frame) bindTemplate(li *LoopInfo, tpl *ssa.Function, phis []*ssa.Phi, heads []Val, entry *State, base snap) []cand {
	ex := fr.ex
	type choice struct {
		name string
		v    Val
	}
	var opts [][]choice
	for _, p := range tpl.Params {
		var cs []choice
		if v, ok := ex.rootEnv[p.Name()]; ok && types.Identical(ex.rootTyp[p.Name()], p.Type()) {
			cs = append(cs, choice{p.Name(), v})
		} else {
			for i, ph := range phis {
				if types.Identical(ph.Type(), p.Type()) {
					if phName(ph) == p.Name() {
						cs = append([]choice{{phName(ph), heads[i]}}, cs...)
					} else {
						cs = append(cs, choice{phName(ph), heads[i]})
					}
				}
			}
			// enclosing function's parameters and earlier values of the same name
			for v, val := range fr.env {
				if pr, ok := v.(*ssa.Parameter); ok && pr.Name() == p.Name() && types.Identical(pr.Type(), p.Type()) {
					cs = append([]choice{{p.Name(), val}}, cs...)
				}
			}
			if p.Name() == "iter" && types.Identical(p.Type(), types.Typ[types.Int]) {
				cs = []choice{{"iter", li.it}}
			}
		}
		if len(cs) == 0 && len(phis) > 0 {
			// call results and merged values computed before the loop, latest first
			for d := phis[0].Block(); d != nil; d = d.Idom() {
				for k := len(d.Instrs) - 1; k >= 0 && d != phis[0].Block(); k-- {
					switch v := d.Instrs[k].(type) {
					case *ssa.Call, *ssa.MakeMap, *ssa.Alloc:
						v2 := v.(ssa.Value)
						if val, ok := fr.env[v2]; ok && types.Identical(v2.Type(), p.Type()) {
							cs = append(cs, choice{v2.Name(), val})
						}
					case *ssa.Phi:
						if val, ok := fr.env[v]; ok && types.Identical(v.Type(), p.Type()) {
							cs = append(cs, choice{phName(v), val})
						}
					}
				}
			}
		}
		if len(cs) == 0 {
			return nil
		}
		if len(cs) > 4 {
			cs = cs[:4]
		}
		opts = append(opts, cs)
	}
	var out []cand
	var rec func(i int, args []Val, label string)
	rec = func(i int, args []Val, label string) {
		if len(out) > 64 {
			return
		}
		if i < len(opts) {
			for _, c := range opts[i] {
				rec(i+1, append(append([]Val{}, args...), c.v), label+" "+c.name)
			}
			return
		}
		var got []cand
		oc, om, ost, oits, on, opfx := ex.collect, ex.mode, ex.st, ex.its, ex.nfresh, ex.prefix
		n0 := len(ex.assumps)
		ex.collect = &got
		ex.prefix = fmt.Sprintf("inv%d_%d_", li.id, ex.candN)
		ex.candN++
		ex.inCand++
		ex.trial++
		ex.st = &State{pc: tTrue, heap: ex.headSt.heap, alloc: ex.headSt.alloc}
		ex.its = append(append([]*Term{}, li.outer...), li.it)
		ex.runSpec(tpl, args, "collect", "", token.NoPos)
		ex.trial--
		ex.inCand--
		var extra []*Term
		for _, a := range ex.assumps[n0:] {
			extra = append(extra, a.f)
		}
		ex.assumps = ex.assumps[:n0]
		ex.collect, ex.mode, ex.st, ex.its, ex.nfresh, ex.prefix = oc, om, ost, oits, on, opfx
		for _, c := range got {
			if c.f == tTrue {
				continue
			}
			out = append(out, cand{name: tpl.Name()[7:] + ": " + c.name + " [" + label + " ]", f: c.f, extra: extra})
		}
	}
	rec(0, nil, "")
	return out
}

// houdini keeps the largest inductive subset of the candidates.
func (fr *Frame) houdini(li *LoopInfo, cands []cand, base snap, mkHeader func() *State, order []*ssa.BasicBlock, L *natLoop, step *Term) []cand {
	ex := fr.ex
	if len(cands) == 0 {
		return nil
	}
	fr.restore(base)
	st := mkHeader()
	ex.st = st
	its := ex.its
	ex.its = its[:len(its)-1]
	entryPC := base.st.pc
	_ = entryPC
	it := li.it
	pc := fr.entryPC(L, st)
	tmo := 3 * time.Second
	if ex.unit != nil && ex.unit.InvTimeout > 0 {
		tmo = ex.unit.InvTimeout
	}
	asm := append([]Assump{}, ex.assumps...)
	var extra []*Term
	for _, c := range cands {
		extra = append(extra, c.extra...)
	}
	// initially
	var live []cand
	type job struct {
		i  int
		ok bool
		by string
	}
	par := func(n int, f func(i int) (bool, string)) []job {
		res := make([]job, n)
		ch := make(chan job, n)
		sem := make(chan bool, 3)
		for i := 0; i < n; i++ {
			go func(i int) {
				sem <- true
				ok, by := f(i)
				<-sem
				ch <- job{i, ok, by}
			}(i)
		}
		for i := 0; i < n; i++ {
			j := <-ch
			res[j.i] = j
		}
		return res
	}
	// terms must be built sequentially: prepare queries first
	type q struct{ goal *Term }
	var qs []q
	for _, c := range cands {
		qs = append(qs, q{tImp(tAnd(pc, tEq(it, tInt(0))), c.f)})
	}
	texts := make([][]string, len(qs))
	prep := func(asm []Assump, ext []*Term, goal *Term) []string {
		return ex.stages(asm, ext, tNot(goal), nil)
	}
	runTexts := func(name string, ts []string) (bool, string) {
		for _, t := range ts {
			dumpQuery(name, t)
			proveMu.Lock()
			c, ok := proveCache[t]
			proveMu.Unlock()
			if !ok {
				c = portfolio(t, tmo, solvers[:2])
				proveMu.Lock()
				proveCache[t] = c
				proveMu.Unlock()
			}
			if c.status == "unsat" {
				return true, c.solver
			}
		}
		return false, ""
	}
	for i := range qs {
		if qs[i].goal == tTrue {
			continue
		}
		texts[i] = prep(asm, extra, qs[i].goal)
	}
	rs := par(len(cands), func(i int) (bool, string) {
		if qs[i].goal == tTrue {
			return true, "simplifier"
		}
		return runTexts("inv-init", texts[i])
	})
	for i, r := range rs {
		if r.ok {
			live = append(live, cands[i])
		}
	}
	// preservation
	next := map[*Term]*Term{it: tAdd(it, tInt(1))}
	var facts []Assump
	for _, f := range li.facts {
		facts = append(facts, Assump{f: f})
	}
	prevM := map[*Term]*Term{it: tSub(it, tInt(1))}
	hist := []*Term{subst(step, prevM)}
	for _, f := range li.facts {
		hist = append(hist, subst(f, prevM))
	}
	facts = append(facts, Assump{f: tImp(tAnd(pc, tGt(it, tInt(0))), tAnd(hist...))})
	j := newBvar("j", SInt)
	mj := map[*Term]*Term{it: j}
	hj := []*Term{subst(step, mj)}
	for _, f := range li.facts {
		hj = append(hj, subst(f, mj))
	}
	facts = append(facts, Assump{f: tImp(pc, tForall([]*Term{j}, tImp(tAnd(tLe(tInt(0), j), tLt(j, it)), tAnd(hj...)))), quant: true})
	var extraNext []*Term
	for _, e := range extra {
		extraNext = append(extraNext, subst(e, next))
	}
	for len(live) > 0 {
		a2 := append(append([]Assump{}, asm...), facts...)
		for _, c := range live {
			a2 = append(a2, Assump{f: c.f})
		}
		a2 = append(a2, Assump{f: step})
		texts = make([][]string, len(live))
		goals := make([]*Term, len(live))
		for i, c := range live {
			goals[i] = subst(c.f, next)
			if goals[i] != tTrue {
				texts[i] = prep(a2, append(append([]*Term{}, extra...), extraNext...), goals[i])
			}
		}
		rs := par(len(live), func(i int) (bool, string) {
			if goals[i] == tTrue {
				return true, "simplifier"
			}
			return runTexts("inv-step", texts[i])
		})
		var keep []cand
		for i, r := range rs {
			if r.ok {
				c := live[i]
				c.by = r.by
				keep = append(keep, c)
			}
		}
		if len(keep) == len(live) {
			live = keep
			break
		}
		live = keep
	}
	return live
}

func (fr *Frame) entryPC(L *natLoop, st *State) *Term { return st.pc }
