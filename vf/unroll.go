package main

import (
	"golang.org/x/tools/go/ssa"
)

const maxUnroll = 48

// unroll runs a loop whose head condition is a constant on every iteration
// (a loop over a literal table) as straight-line code. It reports false,
// with nothing changed, when the loop is not of that kind.
func (fr *Frame) unroll(L *natLoop, sts []*State, ins []edge) bool {
	ex := fr.ex
	br, ok := L.head.Instrs[len(L.head.Instrs)-1].(*ssa.If)
	if !ok || ex.spec > 0 {
		return false
	}
	if _, ok := br.Cond.(*ssa.Const); ok {
		return false
	}
	phis := phisOf(L.head)
	if len(phis) == 0 {
		return false
	}
	vals := make([]Val, len(phis))
	for i, ph := range phis {
		vs := make([]Val, len(ins))
		for j, e := range ins {
			vs[j] = fr.val(ph.Edges[e.idx])
		}
		vals[i] = ex.mergeVals(sts, vs, ph.Type())
	}
	// cheap test: some loop variable starts as an integer constant
	has := false
	for _, v := range vals {
		if t, ok := v.(*Term); ok && t.op == "int" {
			has = true
		}
	}
	if !has {
		return false
	}
	base := fr.snapshot()
	var order []*ssa.BasicBlock
	for _, b := range fr.lf.order {
		if L.blocks[b] {
			order = append(order, b)
		}
	}
	// the values of the loop that are used behind it
	var outs []ssa.Value
	for _, b := range order {
		for _, in := range b.Instrs {
			v, ok := in.(ssa.Value)
			if !ok || v.Referrers() == nil {
				continue
			}
			for _, r := range *v.Referrers() {
				if !L.blocks[r.Block()] {
					outs = append(outs, v)
					break
				}
			}
		}
	}
	type exit struct {
		e    edge
		st   *State
		vals map[ssa.Value]Val
	}
	var exits []exit
	st := ex.mergeStates(sts, nil)
	clean := func() {
		for e := range fr.in {
			if L.blocks[e.from] {
				delete(fr.in, e)
			}
		}
		fr.back[L.head] = nil
	}
	for iter := 0; ; iter++ {
		clean()
		for i, ph := range phis {
			fr.env[ph] = vals[i]
		}
		nexit := len(exits)
		// the head alone decides
		saved := fr.snapshot()
		ex.st = st
		fr.setIts(L.head)
		fr.runBlock(L.head)
		ex.its = fr.its0
		c, isT := fr.env[br.Cond].(*Term)
		if !isT || (c != tTrue && c != tFalse) || iter >= maxUnroll {
			fr.restore(base)
			return false
		}
		fr.restore(saved)
		fr.runBlocks(order, L0(L), st)
		for _, b := range order {
			for _, s := range b.Succs {
				if L.blocks[s] {
					continue
				}
				for i := range s.Preds {
					e := edge{b, s, i}
					if x, ok := fr.in[e]; ok && x.pc != tFalse {
						m := map[ssa.Value]Val{}
						for _, v := range outs {
							if w, ok := fr.env[v]; ok {
								m[v] = w
							}
						}
						dup := false
						for _, y := range exits[nexit:] {
							dup = dup || y.e == e
						}
						if !dup {
							exits = append(exits, exit{e, x, m})
						}
					}
				}
			}
		}
		bes := fr.back[L.head]
		var bst []*State
		var live []backEdge
		for _, b := range bes {
			if b.st.pc != tFalse {
				bst = append(bst, b.st)
				live = append(live, b)
			}
		}
		if len(bst) == 0 {
			break
		}
		for i, ph := range phis {
			vs := make([]Val, len(live))
			for j := range live {
				vs[j] = live[j].vals[i]
			}
			vals[i] = ex.mergeVals(bst, vs, ph.Type())
		}
		st = ex.mergeStates(bst, nil)
	}
	clean()
	// phis behind the loop take their values per edge; several exits by the
	// same edge (in different iterations) are merged here
	byEdge := map[edge][]exit{}
	var edges []edge
	var all []*State
	for _, x := range exits {
		if byEdge[x.e] == nil {
			edges = append(edges, x.e)
		}
		byEdge[x.e] = append(byEdge[x.e], x)
		all = append(all, x.st)
	}
	for _, v := range outs {
		var ss []*State
		var vs []Val
		for _, x := range exits {
			if w, ok := x.vals[v]; ok {
				ss = append(ss, x.st)
				vs = append(vs, w)
			}
		}
		if len(vs) > 0 {
			fr.env[v] = ex.mergeVals(ss, vs, v.Type())
		}
	}
	for _, e := range edges {
		var ss []*State
		for _, x := range byEdge[e] {
			ss = append(ss, x.st)
		}
		fr.in[e] = ex.mergeStates(ss, nil)
	}
	return true
}
