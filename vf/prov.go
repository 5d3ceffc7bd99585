package main

import (
	"fmt"
	"go/types"
)

func (ex *Exec) provOf(s SliceV) *Prov {
	if s.prov != nil {
		return s.prov
	}
	if s.base.op == "int" && s.base.ival == 0 {
		return &Prov{kind: "nil"}
	}
	if p, ok := ex.provOf1[s.base]; ok && p.off == s.off && p.len == s.len {
		return p
	}
	return &Prov{kind: "opaque", base: s.base, off: s.off, len: s.len}
}

func (ex *Exec) opaqueProv(s SliceV, et types.Type) *Prov {
	return &Prov{kind: "opaque", base: s.base, off: s.off, len: s.len, et: et}
}

// lambda is a predicate on slice elements: a closed term over one bound variable.
type lambda struct {
	e    *Term
	body *Term
	et   types.Type
}

// count is the number of elements of the sequence that satisfy l, computed
// from how the sequence was built.
func (ex *Exec) count(p *Prov, l lambda) *Term {
	switch p.kind {
	case "nil":
		return tInt(0)
	case "lit":
		r := tInt(0)
		for _, v := range p.vals {
			r = tAdd(r, tIte(subst(l.body, map[*Term]*Term{l.e: ex.toLeaves(v, l.et)[0]}), tInt(1), tInt(0)))
		}
		return r
	case "append":
		return tAdd(ex.count(p.a, l), ex.count(p.b, l))
	case "ite":
		return tIte(p.cond, ex.count(p.a, l), ex.count(p.b, l))
	case "phi":
		if p.back != nil {
			if r, ok := p.memo[l.body]; ok {
				return r
			}
			ex.nfresh++
			ph := app(fmt.Sprintf("cntphi_%d", ex.nfresh), SInt)
			p.memo[l.body] = ph
			n0 := len(ex.assumps)
			d := tSub(ex.count(p.back, l), ph)
			delete(p.memo, l.body)
			for _, a := range ex.assumps[n0:] {
				p.loop.facts = append(p.loop.facts, a.f)
			}
			if occurs(d, map[*Term]bool{ph: true}) {
				break
			}
			sd := &SumDef{sym: fmt.Sprintf("cnt_l%d_%d_%d", p.loop.id, p.id, l.body.id), loop: p.loop, delta: d}
			ex.sums[sd.sym] = sd
			r := tAdd(ex.count(p.init, l), app(sd.sym, SInt, append(append([]*Term{}, p.loop.outer...), p.loop.it)...))
			p.memo[l.body] = r
			return r
		}
	}
	arr := tSelect(ex.hget("M|"+typeKey(l.et), arrSort(SInt, arrSort(SInt, l.e.sort))), p.base)
	sym := fmt.Sprintf("cnt:%d", l.body.id)
	if ex.sums[sym] == nil {
		pa, po, it := app(sym+":arr", arr.sort), app(sym+":off", SInt), app(sym+":it", SInt)
		ex.sums[sym] = &SumDef{sym: sym, loop: &LoopInfo{outer: []*Term{pa, po}, it: it},
			delta: tIte(subst(l.body, map[*Term]*Term{l.e: tSelect(pa, tAdd(po, it))}), tInt(1), tInt(0))}
	}
	c := app(sym, SInt, arr, p.off, p.len)
	if !c.open {
		ex.assumeTop(tAnd(tLe(tInt(0), c), tImp(tLe(tInt(0), p.len), tLe(c, p.len)), tImp(tEq(p.len, tInt(0)), tEq(c, tInt(0)))))
	}
	return c
}

func (ex *Exec) appendSlices(s, t SliceV, et types.Type) SliceV {
	ps, pt := ex.provOf(s), ex.provOf(t)
	if pt.kind == "nil" {
		return s
	}
	r := ex.newRef("app")
	out := SliceV{off: s.off, len: tAdd(s.len, t.len), prov: &Prov{kind: "append", a: ps, b: pt}}
	if pt.kind == "lit" {
		out.base = r
	} else {
		out.base = tIte(tEq(t.len, tInt(0)), s.base, r)
	}
	switch under(et).(type) {
	case *types.Struct:
		if pt.kind == "lit" {
			for k, v := range pt.vals {
				sv, ok := v.(StructV)
				if !ok {
					ex.unsup("append of %T", v)
					continue
				}
				ex.initStruct(ex.elemRef(et, r, tAdd(tAdd(s.off, s.len), tInt(int64(k)))), et, sv)
			}
		}
		// earlier elements keep their content
		j := newBvar("j", SInt)
		var eqs []*Term
		var rec func(t types.Type, a, b *Term) bool
		rec = func(t types.Type, a, b *Term) bool {
			u := under(t).(*types.Struct)
			for i := 0; i < u.NumFields(); i++ {
				ft := u.Field(i).Type()
				switch under(ft).(type) {
				case *types.Struct:
					sa, sb := app(subSym(t, u.Field(i).Name()), SInt, a), app(subSym(t, u.Field(i).Name()), SInt, b)
					if !rec(ft, sa, sb) {
						return false
					}
				case *types.Array:
					return false
				default:
					for _, lf := range leaves(ft) {
						h := ex.hget("F|"+typeKey(t)+"."+u.Field(i).Name()+lf.path, arrSort(SInt, lf.sort))
						eqs = append(eqs, tEq(tSelect(h, a), tSelect(h, b)))
					}
				}
			}
			return true
		}
		na := app("elem:"+typeKey(et), SInt, r, tAdd(s.off, j))
		oa := app("elem:"+typeKey(et), SInt, s.base, tAdd(s.off, j))
		if rec(et, na, oa) {
			ex.assumeRaw(tImp(ex.st.pc, tForall([]*Term{j}, tImp(tAnd(tLe(tInt(0), j), tLt(j, s.len)), tAnd(eqs...)))), true)
		}
		return out
	case *types.Array:
		ex.unsup("append of arrays")
		return out
	}
	for li, lf := range leaves(et) {
		n := "M|" + typeKey(et) + lf.path
		as := arrSort(SInt, lf.sort)
		m := ex.hget(n, arrSort(SInt, as))
		if pt.kind == "lit" {
			arr := tSelect(m, s.base)
			for k, v := range pt.vals {
				arr = tStore(arr, tAdd(tAdd(s.off, s.len), tInt(int64(k))), ex.toLeaves(v, et)[li])
			}
			ex.assume(tEq(tSelect(m, r), arr))
			continue
		}
		j := newBvar("j", SInt)
		na := tSelect(m, r)
		ex.assumeRaw(tImp(ex.st.pc, tForall([]*Term{j}, tImp(tAnd(tLe(tInt(0), j), tLt(j, s.len)),
			tEq(tSelect(na, tAdd(s.off, j)), tSelect(tSelect(m, s.base), tAdd(s.off, j)))))), true)
		ex.assumeRaw(tImp(ex.st.pc, tForall([]*Term{j}, tImp(tAnd(tLe(tInt(0), j), tLt(j, t.len)),
			tEq(tSelect(na, tAdd(tAdd(s.off, s.len), j)), tSelect(tSelect(m, t.base), tAdd(t.off, j)))))), true)
	}
	return out
}
