package main

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- structure

type natLoop struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

type loopForest struct {
	order []*ssa.BasicBlock // topological order ignoring back edges
	head  map[*ssa.BasicBlock]*natLoop
}

func findLoops(fn *ssa.Function) *loopForest {
	lf := &loopForest{head: map[*ssa.BasicBlock]*natLoop{}}
	isBack := func(from, to *ssa.BasicBlock) bool { return to.Dominates(from) }
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if isBack(b, s) {
				L := lf.head[s]
				if L == nil {
					L = &natLoop{head: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					lf.head[s] = L
				}
				var work []*ssa.BasicBlock
				if !L.blocks[b] {
					L.blocks[b] = true
					work = append(work, b)
				}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					for _, p := range x.Preds {
						if !L.blocks[p] {
							L.blocks[p] = true
							work = append(work, p)
						}
					}
				}
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		// visit loop exits before the loop body so that the body comes first in the final order
		for i := len(b.Succs) - 1; i >= 0; i-- {
			s := b.Succs[i]
			if !isBack(b, s) {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	if len(fn.Blocks) > 0 {
		dfs(fn.Blocks[0])
	}
	for i := len(post) - 1; i >= 0; i-- {
		lf.order = append(lf.order, post[i])
	}
	return lf
}

// ---------------------------------------------------------------- loop state

type LoopInfo struct {
	id    int
	it    *Term
	outer []*Term
	pos   string
	enum  *EnumDef
	fn    *ssa.Function
	// body facts (from the last trial), in terms of it
	facts []*Term
	cond  *Term
	guard *Term // the branch condition at the loop head
}

type SumDef struct {
	sym   string
	loop  *LoopInfo
	delta *Term
	rel   []*Term
	nrel  int
}

type EnumDef struct {
	sym, idx string
	n        *Term
	dom      *Term
	outer    []*Term
	ks       Sort
	loop     *LoopInfo
}

func (d *EnumDef) key(outer []*Term, it *Term) *Term {
	return app(d.sym, d.ks, append(append([]*Term{}, outer...), it)...)
}
func (d *EnumDef) index(outer []*Term, k *Term) *Term {
	return app(d.idx, SInt, append(append([]*Term{}, outer...), k)...)
}

type snap struct {
	nfresh, assumps, obls, rets, loops int
	env                                map[ssa.Value]Val
	in                                 map[edge]*State
	back                               map[*ssa.BasicBlock][]backEdge
	callSeq                            map[string]int
	st                                 *State
	defers                             int
	pending                            map[*Term]*pendArr
	provOf                             map[*Term]*Prov
	globals                            map[string]Val
	galloc                             *Term
}

func (fr *Frame) snapshot() snap {
	ex := fr.ex
	s := snap{nfresh: ex.nfresh, assumps: len(ex.assumps), obls: len(ex.obls), rets: len(fr.rets), loops: len(ex.loops), st: ex.st, defers: len(fr.defers)}
	s.env = make(map[ssa.Value]Val, len(fr.env))
	for k, v := range fr.env {
		s.env[k] = v
	}
	s.in = make(map[edge]*State, len(fr.in))
	for k, v := range fr.in {
		s.in[k] = v
	}
	s.back = make(map[*ssa.BasicBlock][]backEdge, len(fr.back))
	for k, v := range fr.back {
		s.back[k] = v
	}
	s.callSeq = map[string]int{}
	for k, v := range ex.callSeq {
		s.callSeq[k] = v
	}
	s.pending = map[*Term]*pendArr{}
	for k, v := range ex.pending {
		c := *v
		c.elems = append([]Val{}, v.elems...)
		s.pending[k] = &c
	}
	s.provOf = map[*Term]*Prov{}
	for k, v := range ex.provOf1 {
		s.provOf[k] = v
	}
	s.globals = map[string]Val{}
	for k, v := range ex.globals {
		s.globals[k] = v
	}
	s.galloc = ex.galloc
	return s
}

func (fr *Frame) restore(s snap) {
	ex := fr.ex
	ex.nfresh = s.nfresh
	ex.assumps = ex.assumps[:s.assumps:s.assumps]
	ex.obls = ex.obls[:s.obls:s.obls]
	fr.rets = fr.rets[:s.rets:s.rets]
	ex.loops = ex.loops[:s.loops:s.loops]
	fr.env = map[ssa.Value]Val{}
	for k, v := range s.env {
		fr.env[k] = v
	}
	fr.in = map[edge]*State{}
	for k, v := range s.in {
		fr.in[k] = v
	}
	fr.back = map[*ssa.BasicBlock][]backEdge{}
	for k, v := range s.back {
		fr.back[k] = v
	}
	ex.callSeq = map[string]int{}
	for k, v := range s.callSeq {
		ex.callSeq[k] = v
	}
	ex.st = s.st
	fr.defers = fr.defers[:s.defers:s.defers]
	ex.pending = map[*Term]*pendArr{}
	for k, v := range s.pending {
		c := *v
		c.elems = append([]Val{}, v.elems...)
		ex.pending[k] = &c
	}
	ex.provOf1 = map[*Term]*Prov{}
	for k, v := range s.provOf {
		ex.provOf1[k] = v
	}
	ex.globals = map[string]Val{}
	for k, v := range s.globals {
		ex.globals[k] = v
	}
	ex.galloc = s.galloc
}

// enterLoop handles arrival at a loop header: it finds what the body
// changes, derives exact summaries for counters and accumulators, keeps the
// invariants that are inductive, and leaves ex.st (and the phi values) at
// "the header at an arbitrary iteration it".
func (fr *Frame) enterLoop(L *natLoop, sts []*State, ins []edge) {
	ex := fr.ex
	var entry *State
	phis := phisOf(L.head)
	init := make([]Val, len(phis))
	if ins == nil {
		entry = sts[0]
		for i, ph := range phis {
			init[i] = ex.zeroVal(ph.Type())
		}
	} else {
		for i, ph := range phis {
			vs := make([]Val, len(ins))
			for j, e := range ins {
				vs[j] = fr.val(ph.Edges[e.idx])
			}
			init[i] = ex.mergeVals(sts, vs, ph.Type())
		}
		entry = ex.mergeStates(sts, nil)
	}
	if entry.pc == tFalse {
		ex.st = entry
		return
	}
	var order []*ssa.BasicBlock
	for _, b := range fr.lf.order {
		if L.blocks[b] {
			order = append(order, b)
		}
	}
	ex.nfresh++
	id := ex.nfresh
	itName := fmt.Sprintf("it_%d_%d", id, len(ex.its))
	// the counter is a plain constant; symbols born in the body take it as an argument
	it := app(itName, SInt, ex.its...)
	li := &LoopInfo{id: id, it: it, outer: append([]*Term{}, ex.its...), fn: fr.fn}
	if p := L.head.Instrs[0].Pos(); p.IsValid() {
		li.pos = ex.L.fset.Position(p).String()
	}
	savedIts := ex.its
	ex.st = entry
	ex.assumeTop(tLe(tInt(0), it))

	type leafKey struct{ phi, leaf int }
	closed := map[leafKey]*Term{}
	sums := map[leafKey]*SumDef{}
	havoc := map[string]bool{}
	useSums := false
	var heads []Val // phi values at the header
	var trialHeads []Val

	mkHeader := func() *State {
		ex.its = append(append([]*Term{}, savedIts...), it)
		st := entry.clone()
		a := app(fmt.Sprintf("alloc_l%d", id), SInt, ex.its...)
		ex.assumeTop(tLe(entry.alloc, a))
		st.alloc = a
		ex.st = st
		var names []string
		for n := range havoc {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			st.heap[n] = app(fmt.Sprintf("Hl%d:%s", id, n), ex.memSorts[n], ex.its...)
		}
		heads = nil
		for i, ph := range phis {
			ls := leaves(ph.Type())
			iv := init[i]
			switch x := iv.(type) {
			case *ClosV, *LocV, IterV, OpaqueV:
				heads = append(heads, x)
				fr.env[ph] = x
				continue
			}
			il := ex.toLeaves(iv, ph.Type())
			ts := make([]*Term, len(ls))
			for j, lf := range ls {
				if c, ok := closed[leafKey{i, j}]; ok {
					ts[j] = c
				} else if sd, ok := sums[leafKey{i, j}]; ok {
					ts[j] = tAdd(il[j], app(sd.sym, SInt, append(append([]*Term{}, li.outer...), it)...))
				} else {
					ts[j] = app(fmt.Sprintf("%s_l%d_%d%s", sane(phName(ph)), id, i, lf.path), lf.sort, ex.its...)
					// at iteration 0 it has its initial value
					ex.assumeTop(tImp(tAnd(entry.pc, tEq(it, tInt(0))), tEq(ts[j], il[j])))
				}
			}
			v := ex.fromLeaves(ph.Type(), ts)
			ex.typeFacts(v, ph.Type())
			if s, ok := v.(SliceV); ok {
				s.prov = &Prov{kind: "phi", loop: li, init: ex.provOf(iv.(SliceV)), memo: map[*Term]*Term{}, base: s.base, off: s.off, len: s.len, id: i}
				v = s
			}
			heads = append(heads, v)
			fr.env[ph] = v
		}
		for _, n := range names {
			ex.assumeTop(tImp(tAnd(entry.pc, tEq(it, tInt(0))), tEq(st.heap[n], ex.heapAt(entry, n))))
		}
		return st
	}
	base := fr.snapshot()
	var backVals [][]*Term // per phi leaf
	var backCond *Term
	var backSt *State
	var backV []Val
	var facts []*Term
	runTrial := func() {
		st := mkHeader()
		n0 := len(ex.assumps)
		ex.trial++
		fr.back[L.head] = nil
		fr.active[L] = li
		fr.runBlocks(order, L0(L), st)
		delete(fr.active, L)
		ex.trial--
		trialHeads = heads
		bes := fr.back[L.head]
		backVals, backV, backCond, backSt = nil, nil, tFalse, nil
		var bst []*State
		for _, b := range bes {
			bst = append(bst, b.st)
		}
		facts = nil
		if len(bst) > 0 {
			for i, ph := range phis {
				vs := make([]Val, len(bes))
				for j := range bes {
					vs[j] = bes[j].vals[i]
				}
				v := ex.mergeVals(bst, vs, ph.Type())
				backV = append(backV, v)
				switch v.(type) {
				case *ClosV, *LocV, IterV, OpaqueV:
					backVals = append(backVals, nil)
				default:
					backVals = append(backVals, ex.toLeaves(v, ph.Type()))
				}
			}
			backSt = ex.mergeStates(bst, nil)
			backCond = backSt.pc
		}
		for _, a := range ex.assumps[n0:] {
			facts = append(facts, a.f)
		}
	}
	for round := 0; ; round++ {
		if round > 12 {
			panic(bail{"loop analysis does not stabilise in " + fr.fn.String()})
		}
		fr.restore(base)
		ex.its = savedIts
		runTrial()
		ex.its = savedIts
		if backSt == nil { // body never repeats
			break
		}
		changed := false
		for n, t := range backSt.heap {
			if havoc[n] {
				continue
			}
			if t != ex.heapAt(entry, n) {
				havoc[n] = true
				changed = true
			}
		}
		for i := range phis {
			if backVals[i] == nil {
				if lv, ok := heads[i].(*LocV); ok {
					if b, ok := backV[i].(*LocV); !ok || *b != *lv {
						ex.unsup("loop-carried address")
					}
				}
				continue
			}
			il := ex.toLeaves(init[i], phis[i].Type())
			hl := ex.toLeaves(heads[i], phis[i].Type())
			for j, t := range backVals[i] {
				k := leafKey{i, j}
				if _, ok := closed[k]; ok {
					continue
				}
				if sd, ok := sums[k]; ok {
					sd.delta = tSub(t, hl[j])
					continue
				}
				if t == hl[j] {
					closed[k] = il[j]
					changed = true
					continue
				}
				if t.sort != SInt {
					continue
				}
				d := tSub(t, hl[j])
				if d.op == "int" {
					closed[k] = tAdd(il[j], tMul(d, it))
					changed = true
					continue
				}
				if useSums && !occurs(d, map[*Term]bool{hl[j]: true}) {
					sd := &SumDef{sym: fmt.Sprintf("sum_l%d_%d_%d", id, i, j), loop: li, delta: d}
					sums[k] = sd
					ex.sums[sd.sym] = sd
					changed = true
				}
			}
		}
		if changed {
			continue
		}
		if !useSums {
			useSums = true
			continue
		}
		break
	}
	// closed forms for slice phis whose base never changes are handled above.
	li.cond = backCond
	if br, ok := L.head.Instrs[len(L.head.Instrs)-1].(*ssa.If); ok {
		li.guard, _ = fr.env[br.Cond].(*Term)
	}
	var relFacts []*Term
	itSet := map[*Term]bool{it: true}
	for _, f := range facts {
		if occurs(f, itSet) && f.op != "forall" {
			relFacts = append(relFacts, f)
		}
	}
	li.facts = relFacts
	// the body step: continue condition, next values of the non-closed phis and heap
	step := []*Term{backCond}
	nextIt := tAdd(it, tInt(1))
	if backSt != nil {
		for i := range phis {
			if backVals[i] == nil {
				continue
			}
			hl := ex.toLeaves(heads[i], phis[i].Type())
			for j, t := range backVals[i] {
				k := leafKey{i, j}
				if _, ok := closed[k]; ok {
					continue
				}
				if _, ok := sums[k]; ok {
					continue
				}
				step = append(step, tEq(subst(hl[j], map[*Term]*Term{it: nextIt}), t))
			}
		}
		for n := range havoc {
			h := app(fmt.Sprintf("Hl%d:%s", id, n), ex.memSorts[n], append(append([]*Term{}, savedIts...), nextIt)...)
			step = append(step, tEq(h, backSt.heap2(ex, n)))
		}
		al := app(fmt.Sprintf("alloc_l%d", id), SInt, append(append([]*Term{}, savedIts...), nextIt)...)
		step = append(step, tEq(al, backSt.alloc))
	}
	stepT := tAnd(step...)
	// invariants: candidates kept by induction
	fr.restore(base)
	ex.its = savedIts
	ex.headSt = mkHeader()
	ex.its = savedIts
	cands := fr.candidates(li, phis, heads, init, entry, havoc, base)
	invs := fr.houdini(li, cands, base, mkHeader, order, L, stepT)

	// the real entry: header at an arbitrary iteration
	fr.restore(base)
	ex.its = savedIts
	st := mkHeader()
	ex.st = st
	hist := func(j *Term) *Term {
		m := map[*Term]*Term{it: j}
		fs := []*Term{subst(stepT, m)}
		for _, f := range relFacts {
			fs = append(fs, subst(f, m))
		}
		return tAnd(fs...)
	}
	if backSt != nil {
		prev := tSub(it, tInt(1))
		ex.assumeTop(tImp(tAnd(entry.pc, tGt(it, tInt(0))), hist(prev)))
		ex.assumps[len(ex.assumps)-1].hist = true
		j := newBvar("j", SInt)
		if !stepT.open {
			ex.assumeRaw(tImp(entry.pc, tForall([]*Term{j}, tImp(tAnd(tLe(tInt(0), j), tLt(j, it)), hist(j)))), true)
		}
		if ex.unit != nil && ex.unit.FirstIter {
			ex.assumeTop(tImp(tAnd(entry.pc, tGt(it, tInt(0))), hist(tInt(0))))
		}
	} else {
		ex.assumeTop(tImp(entry.pc, tEq(it, tInt(0))))
	}
	for _, iv := range invs {
		for _, e := range iv.extra {
			ex.assumeRaw(e, false)
		}
		ex.assumeRaw(tImp(entry.pc, iv.f), false)
		if ex.trial == 0 && ex.spec == 0 {
			// recorded with the obligations: proved by the inductive step
			o := &Obl{Name: fmt.Sprintf("loop invariant %s", iv.name), Kind: "invariant", Pos: li.pos, pc: tFalse, goal: tTrue, n: 0}
			o.Status, o.Solver = "proved", iv.by
			ex.obls = append(ex.obls, o)
		}
	}
	ex.loops = append(ex.loops, li)
	// provenance of slice phis can be folded once the back values are known
	for i, ph := range phis {
		if s, ok := fr.env[ph].(SliceV); ok && s.prov != nil && backV != nil {
			if b, ok := backV[i].(SliceV); ok {
				s.prov.back = relinkProv(b.prov, trialHeads[i].(SliceV).prov, s.prov, map[*Prov]*Prov{})
			}
		}
	}
	ex.st = &State{pc: entry.pc, heap: ex.st.heap, alloc: ex.st.alloc}
	ex.its = savedIts
	fr.active[L] = li
}

// L0 exists so that trial runs can be told apart from real ones.
func L0(L *natLoop) *LoopInfo { return &LoopInfo{} }

func relinkProv(p, from, to *Prov, memo map[*Prov]*Prov) *Prov {
	if p == nil {
		return nil
	}
	if p == from {
		return to
	}
	if r, ok := memo[p]; ok {
		return r
	}
	c := *p
	memo[p] = &c
	c.a = relinkProv(p.a, from, to, memo)
	c.b = relinkProv(p.b, from, to, memo)
	c.init = relinkProv(p.init, from, to, memo)
	return &c
}

func phName(p *ssa.Phi) string {
	if p.Comment != "" {
		return p.Comment
	}
	return p.Name()
}

func (s *State) heap2(ex *Exec, n string) *Term { return ex.heapAt(s, n) }

func (ex *Exec) heapAt(s *State, n string) *Term {
	if t, ok := s.heap[n]; ok {
		return t
	}
	return app("H:"+n, ex.memSorts[n])
}

// ---------------------------------------------------------------- ranges

func (fr *Frame) rangeIter(i *ssa.Range) Val {
	ex := fr.ex
	ex.nfresh++
	switch u := under(i.X.Type()).(type) {
	case *types.Map:
		ref, ok := fr.val(i.X).(*Term)
		if !ok {
			ex.unsup("range over %T", fr.val(i.X))
			return OpaqueV{"range"}
		}
		it := IterV{m: ref, mt: u, id: ex.nfresh, n: ex.mapLen(ref, u), dom: ex.mapDom(ref, u), enum: fmt.Sprintf("enum_%d", ex.nfresh)}
		it.outer = append([]*Term{}, ex.its...)
		return it
	case *types.Basic:
		s, _ := fr.val(i.X).(*Term)
		return IterV{m: s, str: true, id: ex.nfresh, outer: append([]*Term{}, ex.its...)}
	}
	ex.unsup("range over %s", i.X.Type())
	return OpaqueV{"range"}
}

func (fr *Frame) next(i *ssa.Next) Val {
	ex := fr.ex
	iter, ok := fr.val(i.Iter).(IterV)
	if !ok || len(ex.its) <= len(iter.outer) {
		ex.unsup("iterator outside its loop")
		return ex.havocVal("next", i.Type())
	}
	it := ex.its[len(ex.its)-1]
	if len(ex.its) != len(iter.outer)+1 {
		ex.unsup("iterator advanced in an inner loop")
	}
	if iter.str {
		// byte position of the it-th rune; exact for ASCII, bounded otherwise
		ps := fmt.Sprintf("rpos_%d", iter.id)
		pos := app(ps, SInt, ex.its...)
		prev := app(ps, SInt, append(append([]*Term{}, iter.outer...), tAdd(it, tInt(1)))...)
		s := iter.m
		ok := tLt(pos, tLen(s))
		b := tByte(s, pos)
		r := tIte(tLt(b, tInt(128)), b, app("utf8rune", SInt, s, pos))
		w := tIte(tLt(b, tInt(128)), tInt(1), app("utf8width", SInt, s, pos))
		ex.assume(tImp(tEq(it, tInt(0)), tEq(pos, tInt(0))))
		ex.assume(tAnd(tLe(it, pos), tLe(pos, tLen(s))))
		ex.assume(tImp(ok, tAnd(tLe(tInt(0), b), tLe(b, tInt(255)), tEq(prev, tAdd(pos, w)),
			tLe(tInt(1), app("utf8width", SInt, s, pos)), tLe(app("utf8width", SInt, s, pos), tInt(4)), tLe(tAdd(pos, w), tLen(s)),
			tLe(tInt(128), app("utf8rune", SInt, s, pos)), tLe(app("utf8rune", SInt, s, pos), tInt(0x10ffff)))))
		return TupleV{ok, pos, r}
	}
	ks := ex.mapKeyS(iter.mt)
	if _, scalar := ex.mapKeySort(iter.mt); !scalar {
		ex.unsup("range over map with composite keys")
		return ex.havocVal("next", i.Type())
	}
	if ex.mapDom(iter.m, iter.mt) != iter.dom {
		// the map may change during the iteration: any key present now
		ok := ex.fresh("ok", SBool)
		k := ex.fresh("key", ks)
		v, in := ex.mapLookup(iter.m, iter.mt, k)
		ex.assume(tImp(ok, in))
		return TupleV{ok, k, v}
	}
	d := ex.enums[iter.enum]
	if d == nil {
		d = &EnumDef{sym: iter.enum, idx: "idx" + iter.enum, ks: ks}
		ex.enums[iter.enum] = d
	}
	d.n, d.dom, d.outer = iter.n, iter.dom, iter.outer
	k := d.key(iter.outer, it)
	if ks == SInt {
		ex.typeFacts(k, iter.mt.Key())
	}
	ok2 := tLt(it, iter.n)
	ex.assume(tImp(ok2, tAnd(tSelect(iter.dom, k), tEq(d.index(iter.outer, k), it))))
	// completeness and injectivity of the enumeration
	kb := newBvar("k", ks)
	ix := d.index(iter.outer, kb)
	ex.assumeRaw(tImp(ex.st.pc, tForall([]*Term{kb}, tImp(tSelect(iter.dom, kb),
		tAnd(tNe(iter.m, tInt(0)), tLe(tInt(0), ix), tLt(ix, iter.n), tEq(d.key(iter.outer, ix), kb))))), true)
	v, _ := ex.mapLookup(iter.m, iter.mt, k)
	ex.enumByIt[it] = d
	return TupleV{ok2, k, v}
}
