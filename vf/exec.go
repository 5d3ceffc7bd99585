package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type State struct {
	pc    *Term
	heap  map[string]*Term
	alloc *Term
}

func (s *State) clone() *State {
	h := make(map[string]*Term, len(s.heap))
	for k, v := range s.heap {
		h[k] = v
	}
	return &State{pc: s.pc, heap: h, alloc: s.alloc}
}

type Assump struct {
	f     *Term
	quant bool
	ens   bool // an earlier postcondition of the unit
	hist  bool // restates a loop body at the previous iteration
}

type Obl struct {
	Name   string
	Kind   string // "post" "assert" "pre" "invariant" "safety" "frame" "unsupported"
	Pos    string
	pc     *Term
	goal   *Term
	n      int // number of assumptions in force
	Status string
	Solver string
	Ms     int64
	Model  string
}

type Exec struct {
	wits      []*Term
	ends      []retPoint
	allocMemo map[*Term]bool
	L         *Loader
	unit      *Unit
	st        *State
	assumps   []Assump
	obls      []*Obl
	its       []*Term // enclosing loop counters and bound variables
	nfresh    int
	closByID  map[int64]*ClosV
	spec      int // >0: evaluating a specification: no obligations
	depth     int
	stack     []*ssa.Function
	unsups    map[string]bool
	trusted   map[string]bool
	inlined   map[string]bool
	byContr   map[string]bool
	loops     []*LoopInfo
	sums      map[string]*SumDef
	enums     map[string]*EnumDef
	callSeq   map[string]int
	callAlloc *Term // the allocation mark before the call whose contract is being applied
	memSorts  map[string]Sort
	trial     int
	initH     map[string]*Term
	globals   map[string]Val
	specDep   int
	provOf1   map[*Term]*Prov // slice base -> provenance, for slices stored and reloaded
	hashes    map[string]int
	rootEnv   map[string]Val
	rootTyp   map[string]types.Type
	tokens    map[string]int
	noInline  map[string]bool
	pending   map[*Term]*pendArr
	quantFr   []*Term
	recov     bool
	enumByIt  map[*Term]*EnumDef
	prefix    string
	mode      string // what vf.Ensure/Require mean: "oblige" or "assume"
	collect   *[]cand
	inLemma   int
	label     string
	labelPos  token.Pos
	inInv     int
	inCand    int
	candN     int
	headSt    *State
	globMode  int
	galloc    *Term
	invDone   map[string]bool
	steps     int
}

type pendArr struct {
	elems []Val
	et    types.Type
}

type bail struct{ msg string }

func newExec(l *Loader, u *Unit) *Exec {
	ex := &Exec{L: l, unit: u, closByID: map[int64]*ClosV{}, unsups: map[string]bool{}, trusted: map[string]bool{},
		inlined: map[string]bool{}, byContr: map[string]bool{}, sums: map[string]*SumDef{}, enums: map[string]*EnumDef{},
		callSeq: map[string]int{}, memSorts: map[string]Sort{}, initH: map[string]*Term{}, globals: map[string]Val{},
		invDone: map[string]bool{}, provOf1: map[*Term]*Prov{}, enumByIt: map[*Term]*EnumDef{}, tokens: map[string]int{}, pending: map[*Term]*pendArr{}, rootEnv: map[string]Val{}, rootTyp: map[string]types.Type{}}
	a0 := app("alloc0", SInt)
	ex.st = &State{pc: tTrue, heap: map[string]*Term{}, alloc: a0}
	ex.assumps = append(ex.assumps, Assump{f: tLe(tInt(0), a0)})
	return ex
}

func (ex *Exec) unsup(f string, a ...interface{}) {
	msg := fmt.Sprintf(f, a...)
	if ex.spec > 0 {
		msg = "spec: " + msg
	}
	if ex.st != nil && ex.st.pc == tFalse {
		return
	}
	if !ex.unsups[msg] {
		ex.unsups[msg] = true
		if ex.trial == 0 {
			ex.obls = append(ex.obls, &Obl{Name: "unsupported: " + msg, Kind: "unsupported", pc: ex.st.pc, goal: tFalse, n: len(ex.assumps)})
		} else {
			delete(ex.unsups, msg)
		}
	}
}

func (ex *Exec) fresh(hint string, s Sort) *Term {
	ex.nfresh++
	ss := make([]string, len(ex.its))
	for i, a := range ex.its {
		ss[i] = string(a.sort)
	}
	decl := "(" + strings.Join(ss, " ") + ") " + string(s)
	name := fmt.Sprintf("%s%s_%d", ex.prefix, sane(hint), ex.nfresh)
	for funDecls[name] != "" && funDecls[name] != decl {
		name += "'"
	}
	return app(name, s, ex.its...)
}

// assume adds a fact that holds whenever the current path condition does.
func (ex *Exec) assume(f *Term)    { ex.assumeRaw(tImp(ex.st.pc, f), false) }
func (ex *Exec) assumeTop(f *Term) { ex.assumeRaw(f, false) }
func (ex *Exec) assumeRaw(f *Term, quant bool) {
	if f == tTrue {
		return
	}
	f = closeForall(f)
	quant = quant || hasQuant(f)
	ex.assumps = append(ex.assumps, Assump{f: f, quant: quant})
}

// closeForall quantifies the free bound variables of f.
func closeForall(f *Term) *Term {
	if f.open {
		fv := map[*Term]bool{}
		freeB(f, fv, map[*Term]bool{})
		var vs []*Term
		for v := range fv {
			vs = append(vs, v)
		}
		sort.Slice(vs, func(i, j int) bool { return vs[i].id < vs[j].id })
		f = tForall(vs, f)
	}
	return f
}

func (ex *Exec) oblige(kind, name string, pos token.Pos, goal *Term) {
	if ex.spec > 0 || ex.trial > 0 {
		return
	}
	if goal == tTrue && kind == "safety" {
		return
	}
	if ex.st.pc == tFalse && kind == "safety" {
		return
	}
	p := ""
	if pos.IsValid() {
		pp := ex.L.fset.Position(pos)
		p = fmt.Sprintf("%s:%d", strings.TrimPrefix(pp.Filename, ex.L.repo+"/"), pp.Line)
	}
	if goal.open || ex.st.pc.open {
		ex.unsup("obligation under a quantifier")
		return
	}
	ex.obls = append(ex.obls, &Obl{Name: name, Kind: kind, Pos: p, pc: ex.st.pc, goal: goal, n: len(ex.assumps)})
}

// safety obliges cond (no panic here) and continues under it.
func (ex *Exec) safety(what string, pos token.Pos, cond *Term) {
	if ex.unit != nil && !ex.unit.MayPanic {
		ex.oblige("safety", what, pos, cond)
	}
	if ex.spec == 0 {
		ex.st = &State{pc: tAnd(ex.st.pc, cond), heap: ex.st.heap, alloc: ex.st.alloc}
	}
}

// ---------------------------------------------------------------- heap

func (ex *Exec) hget(name string, s Sort) *Term {
	if t, ok := ex.st.heap[name]; ok {
		return t
	}
	ex.memSorts[name] = s
	t := app("H:"+name, s)
	return t
}

func (ex *Exec) hset(name string, s Sort, t *Term) {
	ex.memSorts[name] = s
	h := make(map[string]*Term, len(ex.st.heap)+1)
	for k, v := range ex.st.heap {
		h[k] = v
	}
	h[name] = t
	ex.st = &State{pc: ex.st.pc, heap: h, alloc: ex.st.alloc}
}

// retPoint is a return of a function executed symbolically.
type retPoint struct {
	at string
	pc *Term
}

// newRef allocates a reference distinct from every earlier one.
func (ex *Exec) newRef(hint string) *Term {
	r := ex.fresh("ref_"+hint, SInt)
	a := ex.fresh("alloc", SInt)
	ex.assumeTop(tAnd(tNot(opT("<=", SBool, r, app("alloc0", SInt))), tNot(opT("<=", SBool, r, ex.st.alloc)), tLe(r, a)))
	ex.st = &State{pc: ex.st.pc, heap: ex.st.heap, alloc: a}
	return r
}

func subSym(t types.Type, f string) string { return "sub:" + typeKey(t) + "." + f }

// subRef is the reference of the struct-typed field f of the T at ref.
func (ex *Exec) subRef(t types.Type, f string, ref *Term) *Term {
	s := app(subSym(t, f), SInt, ref)
	inv := app("inv"+subSym(t, f), SInt, s)
	ex.assumeTop(tAnd(tEq(inv, ref), tGt(s, tInt(0)), tImp(tLe(ref, ex.st.alloc), tLe(s, ex.st.alloc))))
	return s
}

func (ex *Exec) elemRef(t types.Type, base, idx *Term) *Term {
	n := "elem:" + typeKey(t)
	s := app(n, SInt, base, idx)
	ex.assumeTop(tAnd(tEq(app(n+".b", SInt, s), base), tEq(app(n+".i", SInt, s), idx), tGt(s, tInt(0)),
		tImp(tLe(base, ex.st.alloc), tLe(s, ex.st.alloc))))
	return s
}

func (ex *Exec) deref(p Val, t types.Type, pos token.Pos, what string) {
	if r, ok := p.(*Term); ok {
		ex.safety("nil dereference ("+what+")", pos, tNe(r, tInt(0)))
	}
}

// load reads a T through pointer p.
func (ex *Exec) load(p Val, t types.Type) Val {
	switch l := p.(type) {
	case *LocV:
		ls := leaves(t)
		ts := make([]*Term, len(ls))
		for i, lf := range ls {
			switch l.kind {
			case "field":
				ts[i] = tSelect(ex.hget(l.name+lf.path, arrSort(SInt, lf.sort)), l.ref)
			case "elem":
				ts[i] = tSelect(tSelect(ex.hget(l.name+lf.path, arrSort(SInt, arrSort(SInt, lf.sort))), l.ref), l.idx)
			case "global":
				ts[i] = ex.hget(l.name+lf.path, lf.sort)
			}
		}
		return ex.loaded(ex.fromLeaves(t, ts), t)
	case *Term:
		if u, ok := under(t).(*types.Struct); ok {
			s := StructV{t: t}
			for i := 0; i < u.NumFields(); i++ {
				s.f = append(s.f, ex.load(ex.fieldAddr(l, t, i), u.Field(i).Type()))
			}
			return s
		}
		if u, ok := under(t).(*types.Array); ok {
			s := StructV{t: t}
			if u.Len() > 8 {
				ex.unsup("array value of length %d", u.Len())
				return ex.havocVal("arr", t)
			}
			for i := int64(0); i < u.Len(); i++ {
				s.f = append(s.f, ex.load(ex.elemAddr(u.Elem(), l, tInt(i)), u.Elem()))
			}
			return s
		}
		ls := leaves(t)
		ts := make([]*Term, len(ls))
		for i, lf := range ls {
			ts[i] = tSelect(ex.hget("C|"+typeKey(t)+lf.path, arrSort(SInt, lf.sort)), l)
		}
		return ex.loaded(ex.fromLeaves(t, ts), t)
	}
	ex.unsup("load through %T", p)
	return ex.havocVal("load", t)
}

// loaded assumes type facts for a value read from the heap.
func (ex *Exec) loaded(v Val, t types.Type) Val {
	if s, ok := v.(SliceV); ok {
		if p, ok := ex.provOf1[s.base]; ok && p.off == s.off && p.len == s.len {
			s.prov = p
			v = s
		}
	}
	n := len(ex.assumps)
	ex.typeFacts(v, t)
	for i := n; i < len(ex.assumps); i++ {
		if ex.assumps[i].f.op != "forall" {
			if ex.st.pc.open {
				ex.assumps[i].f = tTrue
				continue
			}
			ex.assumps[i].f = closeForall(tImp(ex.st.pc, ex.assumps[i].f))
		}
	}
	ex.invFacts(v, t)
	return v
}

func (ex *Exec) store(p Val, t types.Type, v Val) {
	switch l := p.(type) {
	case *LocV:
		ls := leaves(t)
		ts := ex.toLeaves(v, t)
		ex.noteProv(v)
		for i, lf := range ls {
			switch l.kind {
			case "field":
				s := arrSort(SInt, lf.sort)
				n := l.name + lf.path
				ex.hset(n, s, tStore(ex.hget(n, s), l.ref, ts[i]))
			case "elem":
				s := arrSort(SInt, arrSort(SInt, lf.sort))
				n := l.name + lf.path
				m := ex.hget(n, s)
				ex.hset(n, s, tStore(m, l.ref, tStore(tSelect(m, l.ref), l.idx, ts[i])))
			case "global":
				ex.hset(l.name+lf.path, lf.sort, ts[i])
			}
		}
		return
	case *Term:
		if u, ok := under(t).(*types.Struct); ok {
			s, ok := v.(StructV)
			if !ok {
				ex.unsup("store of %T as struct", v)
				return
			}
			for i := 0; i < u.NumFields(); i++ {
				ex.store(ex.fieldAddr(l, t, i), u.Field(i).Type(), s.f[i])
			}
			return
		}
		if u, ok := under(t).(*types.Array); ok {
			s, ok := v.(StructV)
			if !ok {
				ex.unsup("store of %T as array", v)
				return
			}
			for i := range s.f {
				ex.store(ex.elemAddr(u.Elem(), l, tInt(int64(i))), u.Elem(), s.f[i])
			}
			return
		}
		ls := leaves(t)
		ts := ex.toLeaves(v, t)
		ex.noteProv(v)
		for i, lf := range ls {
			n := "C|" + typeKey(t) + lf.path
			s := arrSort(SInt, lf.sort)
			ex.hset(n, s, tStore(ex.hget(n, s), l, ts[i]))
		}
		return
	}
	ex.unsup("store through %T", p)
}

func (ex *Exec) noteProv(v Val) {
	if s, ok := v.(SliceV); ok && s.prov != nil && s.base.op == "app" {
		if _, ok := ex.provOf1[s.base]; !ok {
			c := *s.prov
			c.off, c.len = s.off, s.len
			if c.kind == "opaque" || c.kind == "phi" {
				return
			}
			ex.provOf1[s.base] = &c
		}
	}
}

func (ex *Exec) fieldAddr(ref *Term, t types.Type, i int) Val {
	u := under(t).(*types.Struct)
	f := u.Field(i)
	switch under(f.Type()).(type) {
	case *types.Struct, *types.Array:
		return ex.subRef(t, f.Name(), ref)
	}
	return &LocV{kind: "field", name: "F|" + typeKey(t) + "." + f.Name(), ref: ref, t: f.Type()}
}

func (ex *Exec) elemAddr(et types.Type, base, idx *Term) Val {
	switch under(et).(type) {
	case *types.Struct, *types.Array:
		return ex.elemRef(et, base, idx)
	}
	return &LocV{kind: "elem", name: "M|" + typeKey(et), ref: base, idx: idx, t: et}
}

// zeroInit assumes that a freshly allocated T at ref holds zero values
// (its memory has never been written, so its content is unconstrained).
func (ex *Exec) zeroInit(ref *Term, t types.Type, skip map[int]bool) {
	switch u := under(t).(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if skip[i] {
				continue
			}
			switch under(u.Field(i).Type()).(type) {
			case *types.Struct, *types.Array:
				ex.zeroInit(ex.subRef(t, u.Field(i).Name(), ref), u.Field(i).Type(), nil)
			default:
				ex.initField(ref, t, i, ex.zeroVal(u.Field(i).Type()))
			}
		}
	case *types.Array:
		switch under(u.Elem()).(type) {
		case *types.Struct, *types.Array:
			if u.Len() <= 8 {
				for i := int64(0); i < u.Len(); i++ {
					ex.zeroInit(ex.elemRef(u.Elem(), ref, tInt(i)), u.Elem(), nil)
				}
			}
		default:
			for _, lf := range leaves(u.Elem()) {
				n := "M|" + typeKey(u.Elem()) + lf.path
				s := arrSort(SInt, lf.sort)
				ex.assume(tEq(tSelect(ex.hget(n, arrSort(SInt, s)), ref), constArr(s, zeroTerm(lf.sort))))
			}
		}
	default:
		for _, lf := range leaves(t) {
			n := "C|" + typeKey(t) + lf.path
			ex.assume(tEq(tSelect(ex.hget(n, arrSort(SInt, lf.sort)), ref), zeroTerm(lf.sort)))
		}
	}
}

func (ex *Exec) initField(ref *Term, t types.Type, i int, v Val) {
	ft := under(t).(*types.Struct).Field(i).Type()
	ts := ex.toLeaves(v, ft)
	ex.noteProv(v)
	for j, lf := range leaves(ft) {
		n := "F|" + typeKey(t) + "." + under(t).(*types.Struct).Field(i).Name() + lf.path
		ex.assume(tEq(tSelect(ex.hget(n, arrSort(SInt, lf.sort)), ref), ts[j]))
	}
}

// ---------------------------------------------------------------- frames

type edge struct {
	from, to *ssa.BasicBlock
	idx      int // which predecessor slot of to
}

type Frame struct {
	ex     *Exec
	fn     *ssa.Function
	env    map[ssa.Value]Val
	in     map[edge]*State
	back   map[*ssa.BasicBlock][]backEdge
	rets   []retEdge
	lf     *loopForest
	defers []deferred
	loops  []*LoopInfo // active
	caller *Frame
	active map[*natLoop]*LoopInfo
	its0   []*Term
	initAt map[ssa.Instruction]bool // stores treated as initialisation
	params map[string]Val
}

type backEdge struct {
	st   *State
	vals []Val // phi inputs
}
type retEdge struct {
	st   *State
	vals []Val
}
type deferred struct {
	call *ssa.Defer
	pc   *Term
	args []Val
	fn   Val
}

// call executes fn's body on args in the current state.
func (ex *Exec) runFunc(fn *ssa.Function, args []Val, free []Val, caller *Frame) Val {
	if len(fn.Blocks) == 0 {
		ex.unsup("function without body %s", fn)
		return ex.havocVal("nobody", fn.Signature.Results())
	}
	ex.depth++
	ex.stack = append(ex.stack, fn)
	defer func() { ex.depth--; ex.stack = ex.stack[:len(ex.stack)-1] }()
	if ex.depth > 60 {
		panic(bail{"inlining too deep at " + fn.String()})
	}
	fr := &Frame{ex: ex, fn: fn, env: map[ssa.Value]Val{}, in: map[edge]*State{}, back: map[*ssa.BasicBlock][]backEdge{}, lf: ex.L.loopsOf(fn), caller: caller, params: map[string]Val{},
		active: map[*natLoop]*LoopInfo{}, its0: ex.its}
	defer func() { ex.its = fr.its0 }()
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
			fr.params[p.Name()] = args[i]
		}
	}
	for i, v := range fn.FreeVars {
		if i < len(free) {
			fr.env[v] = free[i]
		}
	}
	pcIn := ex.st.pc
	entry := ex.st
	fr.runBlocks(fr.lf.order, nil, entry)
	if fn.Recover != nil && len(fr.rets) == 0 {
		// all paths panic
	}
	if len(fr.rets) == 0 {
		ex.st = &State{pc: tFalse, heap: entry.heap, alloc: entry.alloc}
		return ex.zeroVal2(fn.Signature.Results())
	}
	var sts []*State
	for _, r := range fr.rets {
		sts = append(sts, r.st)
	}
	ex.st = ex.mergeStates(sts, pcIn)
	n := fn.Signature.Results().Len()
	var out TupleV
	for i := 0; i < n; i++ {
		vs := make([]Val, len(fr.rets))
		for j, r := range fr.rets {
			vs[j] = r.vals[i]
		}
		out = append(out, ex.mergeVals(sts, vs, fn.Signature.Results().At(i).Type()))
	}
	if n == 0 {
		return TupleV{}
	}
	if n == 1 {
		return out[0]
	}
	return out
}

func (ex *Exec) zeroVal2(t *types.Tuple) Val {
	if t.Len() == 1 {
		return ex.zeroVal(t.At(0).Type())
	}
	return ex.zeroVal(t)
}

// mergeVals selects among values by the path conditions of their states.
func (ex *Exec) mergeVals(sts []*State, vs []Val, t types.Type) Val {
	r := vs[len(vs)-1]
	rpc := sts[len(vs)-1].pc
	for i := len(vs) - 2; i >= 0; i-- {
		if sts[i].pc == tFalse {
			continue
		}
		if rpc == tFalse {
			r, rpc = vs[i], sts[i].pc
			continue
		}
		c := distinguish(sts[i].pc, rpc)
		r = ex.mergeVal(c, vs[i], r, t)
		rpc = tOr(sts[i].pc, rpc)
	}
	return r
}

// distinguish is a condition equivalent to a under (a or b), for disjoint a, b.
func distinguish(a, b *Term) *Term {
	ca, cb := conjuncts(a), conjuncts(b)
	inB := map[*Term]bool{}
	for _, x := range cb {
		inB[x] = true
	}
	var ra []*Term
	for _, x := range ca {
		if inB[tNot(x)] {
			return x // a and b differ on x
		}
		if !inB[x] {
			ra = append(ra, x)
		}
	}
	return tAnd(ra...)
}

func (ex *Exec) mergeStates(sts []*State, _ *Term) *State {
	var live []*State
	for _, s := range sts {
		if s.pc != tFalse {
			live = append(live, s)
		}
	}
	if len(live) == 0 {
		return sts[0]
	}
	if len(live) == 1 {
		return live[0]
	}
	r := live[len(live)-1].clone()
	for i := len(live) - 2; i >= 0; i-- {
		s := live[i]
		c := distinguish(s.pc, r.pc)
		for k, v := range s.heap {
			if w, ok := r.heap[k]; !ok {
				r.heap[k] = tIte(c, v, app("H:"+k, v.sort))
			} else if w != v {
				r.heap[k] = tIte(c, v, w)
			}
		}
		for k, w := range r.heap {
			if _, ok := s.heap[k]; !ok {
				r.heap[k] = tIte(c, app("H:"+k, w.sort), w)
			}
		}
		if s.alloc != r.alloc {
			a := ex.fresh("alloc", SInt)
			ex.assumeTop(tAnd(tLe(s.alloc, a), tLe(r.alloc, a)))
			r.alloc = a
		}
		r.pc = tOr(s.pc, r.pc)
	}
	return r
}

// runBlocks executes blocks in the given (topological) order. When only is
// non-nil just those blocks run (a loop body trial); start, if given, is the
// state entering the first block.
func (fr *Frame) runBlocks(order []*ssa.BasicBlock, trialOf *LoopInfo, start *State) {
	ex := fr.ex
	for bi, b := range order {
		fr.setItsOuter(b)
		var st *State
		var ins []edge
		if bi == 0 && start != nil {
			st = start
			if trialOf == nil {
				if L := fr.lf.head[b]; L != nil {
					fr.enterLoop(L, []*State{start}, nil)
					st = ex.st
				}
			}
			// phis of a loop header in a trial are preset by enterLoop
		} else {
			var sts []*State
			for i, p := range b.Preds {
				e := edge{p, b, i}
				if s, ok := fr.in[e]; ok {
					if s.pc == tFalse {
						continue
					}
					ins = append(ins, e)
					sts = append(sts, s)
				}
			}
			if len(sts) == 0 {
				continue
			}
			if L := fr.lf.head[b]; L != nil {
				if fr.unroll(L, sts, ins) {
					continue
				}
				fr.enterLoop(L, sts, ins)
				st = ex.st
			} else {
				for _, ph := range phisOf(b) {
					vs := make([]Val, len(ins))
					for i, e := range ins {
						vs[i] = fr.val(ph.Edges[e.idx])
					}
					fr.env[ph] = ex.mergeVals(sts, vs, ph.Type())
				}
				st = ex.mergeStates(sts, nil)
			}
		}
		if st.pc == tFalse {
			continue
		}
		ex.st = st
		fr.setIts(b)
		fr.runBlock(b)
		ex.its = fr.its0
	}
}

// setItsOuter brings the counters of the loops strictly around header b into scope.
func (fr *Frame) setItsOuter(b *ssa.BasicBlock) {
	if L := fr.lf.head[b]; L != nil {
		li := fr.active[L]
		delete(fr.active, L)
		fr.setIts(b)
		if li != nil {
			fr.active[L] = li
		}
		return
	}
	fr.setIts(b)
}

// setIts brings the counters of the loops containing b into scope.
func (fr *Frame) setIts(b *ssa.BasicBlock) {
	ex := fr.ex
	var act []*natLoop
	for L := range fr.active {
		if L.blocks[b] {
			act = append(act, L)
		}
	}
	sort.Slice(act, func(i, j int) bool { return len(act[i].blocks) > len(act[j].blocks) })
	its := append([]*Term{}, fr.its0...)
	for _, L := range act {
		its = append(its, fr.active[L].it)
	}
	ex.its = its
}

func phisOf(b *ssa.BasicBlock) []*ssa.Phi {
	var out []*ssa.Phi
	for _, i := range b.Instrs {
		p, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		out = append(out, p)
	}
	return out
}

func (fr *Frame) jump(from, to *ssa.BasicBlock, slot int, pc *Term) {
	ex := fr.ex
	s := &State{pc: pc, heap: ex.st.heap, alloc: ex.st.alloc}
	if pc == tFalse {
		return
	}
	if L := fr.lf.head[to]; L != nil && L.blocks[from] {
		be := backEdge{st: s}
		for _, ph := range phisOf(to) {
			be.vals = append(be.vals, fr.val(ph.Edges[slot]))
		}
		fr.back[to] = append(fr.back[to], be)
		return
	}
	fr.in[edge{from, to, slot}] = s
}

func predSlot(from, to *ssa.BasicBlock, nth int) int {
	for i, p := range to.Preds {
		if p == from {
			if nth == 0 {
				return i
			}
			nth--
		}
	}
	panic("predSlot")
}

func (fr *Frame) runBlock(b *ssa.BasicBlock) {
	ex := fr.ex
	for _, in := range b.Instrs {
		ex.steps++
		if ex.steps > 4000000 {
			panic(bail{"execution too long"})
		}
		if ex.st.pc == tFalse {
			return
		}
		switch i := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			c, ok := fr.val(i.Cond).(*Term)
			if !ok {
				ex.unsup("branch condition")
				c = ex.fresh("cond", SBool)
			}
			pc := ex.st.pc
			s0 := predSlot(b, b.Succs[0], 0)
			n := 0
			if b.Succs[0] == b.Succs[1] {
				n = 1
			}
			s1 := predSlot(b, b.Succs[1], n)
			fr.jump(b, b.Succs[0], s0, tAnd(pc, c))
			fr.jump(b, b.Succs[1], s1, tAnd(pc, tNot(c)))
			return
		case *ssa.Jump:
			fr.jump(b, b.Succs[0], predSlot(b, b.Succs[0], 0), ex.st.pc)
			return
		case *ssa.Return:
			var vs []Val
			for _, r := range i.Results {
				vs = append(vs, fr.val(r))
			}
			fr.rets = append(fr.rets, retEdge{ex.st, vs})
			if ex.trial == 0 && ex.spec == 0 {
				ex.ends = append(ex.ends, retPoint{fr.fn.Name() + " " + ex.L.fset.Position(i.Pos()).String(), ex.st.pc})
			}
			return
		case *ssa.Panic:
			if fr.fn.Pkg != nil && ex.L.isSpecFn(fr.fn) {
				return
			}
			if ex.unit != nil && !ex.unit.MayPanic {
				ex.oblige("safety", "explicit panic unreachable in "+fr.fn.Name(), i.Pos(), tFalse)
			}
			return
		case *ssa.RunDefers:
			fr.runDefers()
		case *ssa.Store:
			if fr.initStore(i) {
				continue
			}
			p := fr.val(i.Addr)
			et := under(i.Addr.Type()).(*types.Pointer).Elem()
			ex.deref(p, et, i.Pos(), "store")
			ex.store(p, et, fr.val(i.Val))
		case *ssa.MapUpdate:
			ex.mapUpdate(fr.val(i.Map), under(i.Map.Type()).(*types.Map), fr.val(i.Key), fr.val(i.Value), i.Pos())
		case *ssa.Defer:
			d := deferred{call: i, pc: ex.st.pc}
			for _, a := range i.Call.Args {
				d.args = append(d.args, fr.val(a))
			}
			if i.Call.StaticCallee() == nil || i.Call.IsInvoke() {
				d.fn = fr.val(i.Call.Value)
			} else if mc, ok := i.Call.Value.(*ssa.MakeClosure); ok {
				d.fn = fr.val(mc)
			}
			fr.defers = append(fr.defers, d)
		case *ssa.Go:
			ex.unsup("go statement in %s", fr.fn)
		case *ssa.Send:
			ex.unsup("channel send in %s", fr.fn)
		case ssa.Value:
			fr.env[i] = fr.eval(i)
		default:
			ex.unsup("instruction %T", in)
		}
	}
}

func (fr *Frame) runDefers() {
	ex := fr.ex
	for k := len(fr.defers) - 1; k >= 0; k-- {
		d := fr.defers[k]
		if d.call.Call.IsInvoke() {
			ex.trust("deferred interface call " + d.call.Call.Method.Name())
			continue
		}
		callee := d.call.Call.StaticCallee()
		if callee == nil {
			ex.unsup("deferred dynamic call in %s", fr.fn)
			continue
		}
		// run it under the condition that the defer statement was reached
		c := distinguish(d.pc, tTrue)
		if c == tTrue || d.pc == ex.st.pc {
			ex.callStatic(fr, callee, d.args, freeOf(d.fn), d.call.Pos(), true)
			continue
		}
		s0 := ex.st
		yes := &State{pc: tAnd(s0.pc, c), heap: s0.heap, alloc: s0.alloc}
		if yes.pc == tFalse {
			continue
		}
		ex.st = yes
		ex.callStatic(fr, callee, d.args, freeOf(d.fn), d.call.Pos(), true)
		y := ex.st
		no := &State{pc: tAnd(s0.pc, tNot(c)), heap: s0.heap, alloc: s0.alloc}
		ex.st = ex.mergeStates([]*State{y, no}, nil)
	}
	// deferred calls run once per RunDefers site; different return sites share fr.defers
}

func freeOf(v Val) []Val {
	if c, ok := v.(*ClosV); ok {
		return c.free
	}
	return nil
}

// initStore recognises the stores that initialise a composite literal: they
// are modelled as the initial content of the fresh object rather than as
// heap updates.
func (fr *Frame) initStore(s *ssa.Store) bool {
	ex := fr.ex
	switch a := s.Addr.(type) {
	case *ssa.IndexAddr:
		al, ok := a.X.(*ssa.Alloc)
		if !ok || !ex.L.litArr(al) {
			return false
		}
		r, ok := fr.env[al].(*Term)
		if !ok {
			return false
		}
		pa := ex.pending[r]
		if pa == nil {
			return false
		}
		c, ok := a.Index.(*ssa.Const)
		if !ok {
			return false
		}
		pa.elems[c.Int64()] = fr.val(s.Val)
		return true
	case *ssa.FieldAddr:
		al, ok := a.X.(*ssa.Alloc)
		if !ok {
			return false
		}
		fields := ex.L.litStruct(al)
		if fields == nil || fields[a.Field] != s {
			return false
		}
		r, ok := fr.env[al].(*Term)
		if !ok {
			return false
		}
		ex.initField(r, deref(al.Type()), a.Field, fr.val(s.Val))
		return true
	}
	return false
}

func deref(t types.Type) types.Type {
	if p, ok := under(t).(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// ---------------------------------------------------------------- values

func (fr *Frame) val(v ssa.Value) Val {
	ex := fr.ex
	switch c := v.(type) {
	case *ssa.Const:
		return ex.constVal(c)
	case *ssa.Function:
		return &ClosV{fn: c}
	case *ssa.Global:
		et := deref(c.Type())
		switch under(et).(type) {
		case *types.Struct, *types.Array:
			r := app("global:"+c.String(), SInt)
			ex.assumeTop(tAnd(tGt(r, tInt(0)), tLe(r, app("alloc0", SInt))))
			return r
		}
		return &LocV{kind: "global", name: "G|" + c.String(), t: et}
	case *ssa.Builtin:
		return OpaqueV{"builtin"}
	}
	if x, ok := fr.env[v]; ok {
		return x
	}
	// a value defined in an unreachable block
	return ex.zeroValAny(v.Type())
}

func (ex *Exec) zeroValAny(t types.Type) Val { return ex.zeroVal(t) }

func (ex *Exec) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return ex.zeroVal(t)
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tBool(constant.BoolVal(c.Value))
		case u.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return tStr(constant.StringVal(c.Value))
			}
			if n, ok := constant.Int64Val(c.Value); ok {
				return tStr(string(rune(n)))
			}
		case u.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(constant.ToFloat(c.Value))
			return f64Const(f)
		case u.Info()&types.IsInteger != 0:
			n, ok := constant.Int64Val(constant.ToInt(c.Value))
			if ok {
				return tInt(n)
			}
			un, ok := constant.Uint64Val(constant.ToInt(c.Value))
			if ok {
				return app(fmt.Sprintf("bigconst_%d", un), SInt)
			}
		}
	}
	ex.unsup("constant %s", c)
	return ex.havocVal("const", t)
}

func f64Const(f float64) *Term {
	b := math.Float64bits(f)
	return tF64(fmt.Sprintf("(fp #b%b #b%011b #b%052b)", b>>63, b>>52&0x7ff, b&(1<<52-1)))
}

func (fr *Frame) eval(in ssa.Value) Val {
	ex := fr.ex
	switch i := in.(type) {
	case *ssa.Alloc:
		return fr.alloc(i)
	case *ssa.BinOp:
		return ex.binop(i.Op, fr.val(i.X), fr.val(i.Y), i.X.Type(), i.Y.Type(), i.Type(), i.Pos())
	case *ssa.UnOp:
		return fr.unop(i)
	case *ssa.Call:
		return fr.call(i, &i.Call)
	case *ssa.ChangeInterface:
		return fr.val(i.X)
	case *ssa.ChangeType:
		v := fr.val(i.X)
		if s, ok := v.(StructV); ok {
			s.t = i.Type()
			return s
		}
		return v
	case *ssa.Convert:
		return ex.convert(fr.val(i.X), i.X.Type(), i.Type())
	case *ssa.MultiConvert:
		return ex.convert(fr.val(i.X), i.X.Type(), i.Type())
	case *ssa.Extract:
		t, ok := fr.val(i.Tuple).(TupleV)
		if !ok || i.Index >= len(t) {
			return ex.havocVal("extract", i.Type())
		}
		return t[i.Index]
	case *ssa.Field:
		s, ok := fr.val(i.X).(StructV)
		if !ok {
			ex.unsup("field of %T", fr.val(i.X))
			return ex.havocVal("field", i.Type())
		}
		return s.f[i.Field]
	case *ssa.FieldAddr:
		x := fr.val(i.X)
		r, ok := x.(*Term)
		if !ok {
			ex.unsup("field address through %T", x)
			return ex.havocVal("fa", i.Type())
		}
		ex.deref(r, nil, i.Pos(), "field "+under(deref(i.X.Type())).(*types.Struct).Field(i.Field).Name())
		return ex.fieldAddr(r, deref(i.X.Type()), i.Field)
	case *ssa.Index:
		return fr.index(i)
	case *ssa.IndexAddr:
		x := fr.val(i.X)
		idx, _ := fr.val(i.Index).(*Term)
		switch u := under(i.X.Type()).(type) {
		case *types.Slice:
			s, ok := x.(SliceV)
			if !ok {
				ex.unsup("index of %T", x)
				return ex.havocVal("ia", i.Type())
			}
			ex.safety("index in range", i.Pos(), tAnd(tLe(tInt(0), idx), tLt(idx, s.len)))
			return ex.elemAddr(u.Elem(), s.base, tAdd(s.off, idx))
		case *types.Pointer:
			a := under(u.Elem()).(*types.Array)
			r, ok := x.(*Term)
			if !ok {
				ex.unsup("index of %T", x)
				return ex.havocVal("ia", i.Type())
			}
			ex.safety("index in range", i.Pos(), tAnd(tNe(r, tInt(0)), tLe(tInt(0), idx), tLt(idx, tInt(a.Len()))))
			if ex.pending[r] == nil {
				return ex.elemAddr(a.Elem(), r, idx)
			}
			return OpaqueV{"element of a literal being built"} // only stored to, see initStore
		}
	case *ssa.Lookup:
		if b, ok := under(i.X.Type()).(*types.Basic); ok && b.Info()&types.IsString != 0 {
			s, idx := fr.val(i.X).(*Term), fr.val(i.Index).(*Term)
			ex.safety("string index in range", i.Pos(), tAnd(tLe(tInt(0), idx), tLt(idx, tLen(s))))
			return ex.byteAt(s, idx)
		}
		v, ok := ex.mapLookup(fr.val(i.X), under(i.X.Type()).(*types.Map), fr.val(i.Index))
		if i.CommaOk {
			return TupleV{v, ok}
		}
		return v
	case *ssa.MakeClosure:
		c := &ClosV{fn: i.Fn.(*ssa.Function)}
		for _, b := range i.Bindings {
			c.free = append(c.free, fr.val(b))
		}
		return c
	case *ssa.MakeInterface:
		return ex.makeIface(fr.val(i.X), i.X.Type())
	case *ssa.MakeMap:
		return ex.makeMap(under(i.Type()).(*types.Map))
	case *ssa.MakeSlice:
		n, _ := fr.val(i.Len).(*Term)
		et := under(i.Type()).(*types.Slice).Elem()
		c, _ := fr.val(i.Cap).(*Term)
		ex.safety("make length", i.Pos(), tAnd(tLe(tInt(0), n), tLe(n, c)))
		r := ex.newRef("mk")
		if isStruct(et) {
			if n.op != "int" {
				ex.zeroStructSlice(r, et, n)
			} else {
				for k := int64(0); k < n.ival && k < 16; k++ {
					ex.zeroInit(ex.elemRef(et, r, tInt(k)), et, nil)
				}
			}
		} else {
			for _, lf := range leaves(et) {
				nm := "M|" + typeKey(et) + lf.path
				s := arrSort(SInt, lf.sort)
				ex.assume(tEq(tSelect(ex.hget(nm, arrSort(SInt, s)), r), constArr(s, zeroTerm(lf.sort))))
			}
		}
		sv := SliceV{base: r, off: tInt(0), len: n}
		if n.op == "int" && n.ival == 0 {
			sv.prov = &Prov{kind: "nil"}
		}
		return sv
	case *ssa.MakeChan:
		return ex.newRef("chan")
	case *ssa.Next:
		return fr.next(i)
	case *ssa.Range:
		return fr.rangeIter(i)
	case *ssa.Select:
		ex.unsup("select statement")
		return ex.havocVal("select", i.Type())
	case *ssa.Slice:
		return fr.slice(i)
	case *ssa.SliceToArrayPointer:
		ex.unsup("slice to array pointer")
		return ex.havocVal("s2a", i.Type())
	case *ssa.TypeAssert:
		return ex.typeAssert(fr.val(i.X), i.AssertedType, i.CommaOk, i.Pos())
	}
	ex.unsup("value %T", in)
	return ex.havocVal("v", in.Type())
}

func (ex *Exec) zeroStructSlice(r *Term, et types.Type, n *Term) {
	ex.unsup("make([]%s, n) of structs", typeKey(et))
}

func (fr *Frame) alloc(i *ssa.Alloc) Val {
	ex := fr.ex
	t := deref(i.Type())
	r := ex.newRef("new")
	if a, ok := under(t).(*types.Array); ok && ex.L.litArr(i) {
		pa := &pendArr{et: a.Elem()}
		for k := int64(0); k < a.Len(); k++ {
			pa.elems = append(pa.elems, ex.zeroVal(a.Elem()))
		}
		ex.pending[r] = pa
		return r
	}
	skip := map[int]bool{}
	if _, ok := under(t).(*types.Struct); ok {
		for f := range ex.L.litStruct(i) {
			skip[f] = true
		}
	}
	ex.zeroInit(r, t, skip)
	return r
}

// flushPending turns the recorded initial elements of a literal array into
// the initial content of its memory.
func (ex *Exec) flushPending(r *Term) *pendArr {
	pa := ex.pending[r]
	if pa == nil {
		return nil
	}
	switch under(pa.et).(type) {
	case *types.Struct:
		for k, v := range pa.elems {
			ref := ex.elemRef(pa.et, r, tInt(int64(k)))
			s, ok := v.(StructV)
			if !ok {
				ex.unsup("literal array element %T", v)
				continue
			}
			ex.initStruct(ref, pa.et, s)
		}
		return pa
	case *types.Array:
		ex.unsup("array of arrays")
		return pa
	}
	for j, lf := range leaves(pa.et) {
		s := arrSort(SInt, lf.sort)
		arr := constArr(s, zeroTerm(lf.sort))
		for k, v := range pa.elems {
			arr = tStore(arr, tInt(int64(k)), ex.toLeaves(v, pa.et)[j])
		}
		n := "M|" + typeKey(pa.et) + lf.path
		ex.assume(tEq(tSelect(ex.hget(n, arrSort(SInt, s)), r), arr))
	}
	return pa
}

func (ex *Exec) initStruct(ref *Term, t types.Type, s StructV) {
	u := under(t).(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		switch under(u.Field(i).Type()).(type) {
		case *types.Struct:
			ex.initStruct(ex.subRef(t, u.Field(i).Name(), ref), u.Field(i).Type(), s.f[i].(StructV))
		case *types.Array:
			ex.unsup("array field in literal")
		default:
			ex.initField(ref, t, i, s.f[i])
		}
	}
}

func (fr *Frame) index(i *ssa.Index) Val {
	ex := fr.ex
	x := fr.val(i.X)
	idx, _ := fr.val(i.Index).(*Term)
	switch u := under(i.X.Type()).(type) {
	case *types.Basic:
		s := x.(*Term)
		ex.safety("string index in range", i.Pos(), tAnd(tLe(tInt(0), idx), tLt(idx, tLen(s))))
		return ex.byteAt(s, idx)
	case *types.Array:
		if s, ok := x.(StructV); ok {
			ex.safety("index in range", i.Pos(), tAnd(tLe(tInt(0), idx), tLt(idx, tInt(u.Len()))))
			r := s.f[len(s.f)-1]
			for k := len(s.f) - 2; k >= 0; k-- {
				r = ex.mergeVal(tEq(idx, tInt(int64(k))), s.f[k], r, u.Elem())
			}
			return r
		}
	}
	ex.unsup("index of %s", i.X.Type())
	return ex.havocVal("index", i.Type())
}

func (ex *Exec) byteAt(s, idx *Term) *Term {
	b := tByte(s, idx)
	if b.op != "int" {
		ex.assume(tAnd(tLe(tInt(0), b), tLe(b, tInt(255))))
	}
	return b
}

func (fr *Frame) slice(i *ssa.Slice) Val {
	ex := fr.ex
	x := fr.val(i.X)
	var lo, hi *Term
	if i.Low != nil {
		lo, _ = fr.val(i.Low).(*Term)
	} else {
		lo = tInt(0)
	}
	if i.High != nil {
		hi, _ = fr.val(i.High).(*Term)
	}
	switch u := under(i.X.Type()).(type) {
	case *types.Basic: // string
		s, ok := x.(*Term)
		if !ok {
			break
		}
		if hi == nil {
			hi = tLen(s)
		}
		ex.safety("string slice bounds", i.Pos(), tAnd(tLe(tInt(0), lo), tLe(lo, hi), tLe(hi, tLen(s))))
		return tSubstr(s, lo, tSub(hi, lo))
	case *types.Slice:
		s, ok := x.(SliceV)
		if !ok {
			break
		}
		if hi == nil {
			hi = s.len
		} else if tSub(hi, s.len).op != "int" || tSub(hi, s.len).ival > 0 {
			// s[:n] may reach into the capacity; stay within the length (assumed bound)
		}
		ex.safety("slice bounds", i.Pos(), tAnd(tLe(tInt(0), lo), tLe(lo, hi), tLe(hi, s.len)))
		r := SliceV{base: s.base, off: tAdd(s.off, lo), len: tSub(hi, lo)}
		if lo.op == "int" && lo.ival == 0 && hi == s.len {
			r.prov = s.prov
		} else {
			r.prov = ex.opaqueProv(r, u.Elem())
		}
		if hi.op == "int" && hi.ival == 0 {
			r.prov = &Prov{kind: "nil"}
		}
		return r
	case *types.Pointer: // *array
		r, ok := x.(*Term)
		if !ok {
			break
		}
		a := under(u.Elem()).(*types.Array)
		pa := ex.flushPending(r)
		if hi == nil {
			hi = tInt(a.Len())
		}
		ex.safety("slice bounds", i.Pos(), tAnd(tLe(tInt(0), lo), tLe(lo, hi), tLe(hi, tInt(a.Len()))))
		sv := SliceV{base: r, off: lo, len: tSub(hi, lo)}
		if pa != nil && lo.op == "int" && lo.ival == 0 && hi.op == "int" && hi.ival == a.Len() {
			sv.prov = &Prov{kind: "lit", vals: append([]Val{}, pa.elems...), et: pa.et}
		}
		return sv
	}
	ex.unsup("slice of %s (%T)", i.X.Type(), x)
	return ex.havocVal("slice", i.Type())
}

func (fr *Frame) unop(i *ssa.UnOp) Val {
	ex := fr.ex
	x := fr.val(i.X)
	switch i.Op {
	case token.MUL:
		if g, ok := i.X.(*ssa.Global); ok {
			if v, ok := ex.globalConst(g); ok {
				return v
			}
		}
		ex.deref(x, i.Type(), i.Pos(), "load")
		return ex.load(x, i.Type())
	case token.NOT:
		return tNot(x.(*Term))
	case token.SUB:
		if t, ok := x.(*Term); ok && t.sort == SInt {
			return tSub(tInt(0), t)
		}
		if t, ok := x.(*Term); ok && t.sort == SF64 {
			return opT("fp.neg", SF64, t)
		}
	case token.ARROW:
		ex.unsup("channel receive")
		return ex.havocVal("recv", i.Type())
	}
	ex.unsup("unary %s", i.Op)
	return ex.havocVal("unop", i.Type())
}

// valEq is Go equality on two values of the same type.
func (ex *Exec) valEq(a, b Val, t types.Type) *Term {
	la, lb := ex.toLeaves(a, t), ex.toLeaves(b, t)
	if _, ok := under(t).(*types.Slice); ok {
		// only comparison with nil is legal
		return tEq(la[0], lb[0])
	}
	if len(la) != len(lb) {
		ex.unsup("comparison of different shapes")
		return ex.fresh("eq", SBool)
	}
	var cs []*Term
	for i := range la {
		if la[i].sort == SF64 {
			cs = append(cs, opT("fp.eq", SBool, la[i], lb[i]))
		} else {
			cs = append(cs, tEq(la[i], lb[i]))
		}
	}
	return tAnd(cs...)
}

func (ex *Exec) binop(op token.Token, x, y Val, xt, yt, rt types.Type, pos token.Pos) Val {
	switch op {
	case token.EQL, token.NEQ:
		_, xi := under(xt).(*types.Interface)
		_, yi := under(yt).(*types.Interface)
		if xi && !yi {
			y = ex.makeIface(y, yt)
		} else if yi && !xi {
			x = ex.makeIface(x, xt)
			xt = yt
		}
		e := ex.valEq(x, y, xt)
		if op == token.NEQ {
			return tNot(e)
		}
		return e
	}
	a, ok1 := x.(*Term)
	b, ok2 := y.(*Term)
	if !ok1 || !ok2 {
		ex.unsup("binary %s on %T", op, x)
		return ex.havocVal("binop", rt)
	}
	switch a.sort {
	case SStr:
		switch op {
		case token.ADD:
			return tConcat(a, b)
		case token.LSS:
			return opT("str.<", SBool, a, b)
		case token.LEQ:
			return opT("str.<=", SBool, a, b)
		case token.GTR:
			return opT("str.<", SBool, b, a)
		case token.GEQ:
			return opT("str.<=", SBool, b, a)
		}
	case SF64:
		switch op {
		case token.LSS:
			return opT("fp.lt", SBool, a, b)
		case token.LEQ:
			return opT("fp.leq", SBool, a, b)
		case token.GTR:
			return opT("fp.gt", SBool, a, b)
		case token.GEQ:
			return opT("fp.geq", SBool, a, b)
		case token.ADD, token.SUB, token.MUL, token.QUO:
			return app("f64."+op.String(), SF64, a, b)
		}
	case SBool:
		switch op {
		case token.AND:
			return tAnd(a, b)
		case token.OR:
			return tOr(a, b)
		}
	case SInt:
		switch op {
		case token.ADD:
			return ex.wrap(tAdd(a, b), rt)
		case token.SUB:
			return ex.wrap(tSub(a, b), rt)
		case token.MUL:
			return ex.wrap(tMul(a, b), rt)
		case token.QUO, token.REM:
			ex.safety("division by zero", pos, tNe(b, tInt(0)))
			return ex.divmod(op, a, b)
		case token.LSS:
			return tLt(a, b)
		case token.LEQ:
			return tLe(a, b)
		case token.GTR:
			return tGt(a, b)
		case token.GEQ:
			return tGe(a, b)
		case token.SHL:
			if b.op == "int" && b.ival >= 0 && b.ival < 62 {
				return ex.wrap(tMul(a, tInt(1<<uint(b.ival))), rt)
			}
		case token.SHR:
			if b.op == "int" && b.ival >= 0 && b.ival < 62 {
				return opT("div", SInt, a, tInt(1<<uint(b.ival)))
			}
		case token.AND:
			if b.op == "int" && b.ival >= 0 && (b.ival+1)&b.ival == 0 {
				return opT("mod", SInt, a, tInt(b.ival+1))
			}
			return app("int.and", SInt, a, b)
		case token.OR:
			return app("int.or", SInt, a, b)
		case token.XOR:
			return app("int.xor", SInt, a, b)
		case token.AND_NOT:
			return app("int.andnot", SInt, a, b)
		}
	}
	ex.unsup("binary %s on %s", op, a.sort)
	return ex.havocVal("binop", rt)
}

// wrap reduces results of narrow integer types; 64-bit integers stay mathematical.
func (ex *Exec) wrap(t *Term, rt types.Type) *Term {
	if t.op == "int" {
		if lo, hi, ok := intRange(rt); ok && (t.ival < lo || t.ival > hi) {
			m := hi - lo + 1
			return tInt(((t.ival-lo)%m+m)%m + lo)
		}
		return t
	}
	if lo, hi, ok := intRange(rt); ok {
		m := hi - lo + 1
		return tIte(tAnd(tLe(tInt(lo), t), tLe(t, tInt(hi))), t, tAdd(opT("mod", SInt, tSub(t, tInt(lo)), tInt(m)), tInt(lo)))
	}
	if isUnsigned(rt) {
		// 64-bit unsigned: below zero wraps to a huge value
		w := app("u64wrap", SInt, t)
		return tIte(tLe(tInt(0), t), t, w)
	}
	return t
}

func (ex *Exec) divmod(op token.Token, a, b *Term) *Term {
	if a.op == "int" && b.op == "int" && b.ival != 0 {
		if op == token.QUO {
			return tInt(a.ival / b.ival)
		}
		return tInt(a.ival % b.ival)
	}
	// Go truncates toward zero; SMT-LIB div/mod are Euclidean.
	abs := func(x *Term) *Term { return tIte(tLe(tInt(0), x), x, tSub(tInt(0), x)) }
	if op == token.QUO {
		q := opT("div", SInt, abs(a), abs(b))
		return tIte(tEq(tLe(tInt(0), a), tLt(tInt(0), b)), q, tSub(tInt(0), q))
	}
	m := opT("mod", SInt, abs(a), abs(b))
	return tIte(tLe(tInt(0), a), m, tSub(tInt(0), m))
}

func (ex *Exec) convert(v Val, from, to types.Type) Val {
	fb, ok1 := under(from).(*types.Basic)
	tb, ok2 := under(to).(*types.Basic)
	if ok1 && ok2 {
		t, ok := v.(*Term)
		if !ok {
			ex.unsup("conversion of %T", v)
			return ex.havocVal("conv", to)
		}
		switch {
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
			if lo, hi, ok := intRange(from); ok && !isUnsigned(to) {
				if l2, h2, ok2 := intRange(to); !ok2 || l2 <= lo && hi <= h2 {
					return t
				}
			}
			return ex.wrap(t, to)
		case fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
			return t
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0:
			if t.op == "int" {
				return tStr(string(rune(t.ival)))
			}
			return ex.runeString(t)
		case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsFloat != 0:
			return t
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsFloat != 0:
			return app("int2f64", SF64, t)
		case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsInteger != 0:
			return app("f642int", SInt, t)
		}
	}
	// string <-> []byte
	if ok1 && fb.Info()&types.IsString != 0 {
		if sl, ok := under(to).(*types.Slice); ok {
			if eb, ok := under(sl.Elem()).(*types.Basic); ok && eb.Kind() == types.Uint8 {
				return ex.bytesOf(v.(*Term))
			}
			if eb, ok := under(sl.Elem()).(*types.Basic); ok && eb.Kind() == types.Int32 {
				s := v.(*Term)
				r := ex.havocVal("runes", to).(SliceV)
				ex.assumeTop(tAnd(tLe(r.len, tLen(s)), tEq(tEq(r.len, tInt(0)), tEq(s, tStr("")))))
				return r
			}
		}
	}
	if ok2 && tb.Info()&types.IsString != 0 {
		if sl, ok := under(from).(*types.Slice); ok {
			if eb, ok := under(sl.Elem()).(*types.Basic); ok && eb.Kind() == types.Uint8 {
				return ex.stringOf(v.(SliceV))
			}
		}
		if sl, ok := under(from).(*types.Slice); ok {
			_ = sl
			return ex.havocVal("str", to)
		}
	}
	ls1, ls2 := leaves(from), leaves(to)
	if len(ls1) == len(ls2) {
		same := true
		for i := range ls1 {
			if ls1[i].sort != ls2[i].sort {
				same = false
			}
		}
		if same {
			if s, ok := v.(StructV); ok {
				s.t = to
				return s
			}
			return v
		}
	}
	ex.unsup("conversion %s to %s", from, to)
	return ex.havocVal("conv", to)
}

func (ex *Exec) runeString(t *Term) *Term {
	r := app("rune2str", SStr, t)
	ex.assume(tImp(tAnd(tLe(tInt(0), t), tLt(t, tInt(128))), tEq(r, opT("str.from_code", SStr, t))))
	ex.assume(tAnd(tLe(tInt(1), tLen(r)), tLe(tLen(r), tInt(4))))
	return r
}

// bytesOf / stringOf convert between strings and byte slices by asserting
// length and contents.
func (ex *Exec) bytesOf(s *Term) Val {
	r := ex.newRef("bytes")
	n := "M|byte"
	arr := tSelect(ex.hget(n, arrSort(SInt, arrSort(SInt, SInt))), r)
	i := newBvar("i", SInt)
	ex.assume(tForall([]*Term{i}, tImp(tAnd(tLe(tInt(0), i), tLt(i, tLen(s))), tEq(tSelect(arr, i), tByte(s, i)))))
	ex.assume(tEq(app("bytes2str", SStr, arr, tInt(0), tLen(s)), s))
	return SliceV{base: r, off: tInt(0), len: tLen(s)}
}

func (ex *Exec) stringOf(s SliceV) Val {
	arr := tSelect(ex.hget("M|byte", arrSort(SInt, arrSort(SInt, SInt))), s.base)
	r := app("bytes2str", SStr, arr, s.off, s.len)
	ex.assume(tEq(tLen(r), s.len))
	i := newBvar("i", SInt)
	ex.assumeRaw(tImp(ex.st.pc, tForall([]*Term{i}, tImp(tAnd(tLe(tInt(0), i), tLt(i, s.len)), tEq(tByte(r, i), tSelect(arr, tAdd(s.off, i)))))), true)
	return r
}

// ---------------------------------------------------------------- interfaces

func (ex *Exec) tagOf(t types.Type) *Term {
	return tInt(int64(ex.L.typeID(t)))
}

func boxSym(t types.Type) string { return "box:" + typeKey(t) }

func (ex *Exec) makeIface(v Val, t types.Type) Val {
	if i, ok := v.(IfaceV); ok {
		if _, isI := under(t).(*types.Interface); isI {
			return i
		}
	}
	ts := ex.toLeaves(v, t)
	tag := ex.tagOf(t)
	if _, ok := under(t).(*types.Pointer); ok && len(ts) == 1 {
		return IfaceV{tag, ts[0]}
	}
	if len(ts) == 0 {
		return IfaceV{tag, tInt(1)}
	}
	b := app(boxSym(t), SInt, ts...)
	for i, x := range ts {
		ex.assumeTop(tEq(app(fmt.Sprintf("un%s.%d", boxSym(t), i), x.sort, b), x))
	}
	return IfaceV{tag, b}
}

func (ex *Exec) unbox(i IfaceV, t types.Type) Val {
	if _, ok := under(t).(*types.Pointer); ok {
		v := i.val
		ex.invFacts(v, t)
		return v
	}
	ls := leaves(t)
	ts := make([]*Term, len(ls))
	for k, l := range ls {
		ts[k] = app(fmt.Sprintf("un%s.%d", boxSym(t), k), l.sort, i.val)
	}
	if len(ts) > 0 {
		ex.assume(tImp(tEq(i.tag, ex.tagOf(t)), tEq(app(boxSym(t), SInt, ts...), i.val)))
	}
	v := ex.fromLeaves(t, ts)
	n := len(ex.assumps)
	ex.typeFacts(v, t)
	for k := n; k < len(ex.assumps); k++ {
		if ex.assumps[k].f.op != "forall" {
			ex.assumps[k].f = tImp(tAnd(ex.st.pc, tEq(i.tag, ex.tagOf(t))), ex.assumps[k].f)
		}
	}
	return v
}

func (ex *Exec) typeAssert(v Val, t types.Type, commaOk bool, pos token.Pos) Val {
	i, ok := v.(IfaceV)
	if !ok {
		ex.unsup("type assertion on %T", v)
		r := ex.havocVal("ta", t)
		if commaOk {
			return TupleV{r, ex.fresh("ok", SBool)}
		}
		return r
	}
	var c *Term
	var val Val
	if _, isI := under(t).(*types.Interface); isI {
		c = ex.implements(i, t)
		val = i
	} else {
		c = tEq(i.tag, ex.tagOf(t))
		val = ex.unbox(i, t)
	}
	if commaOk {
		return TupleV{ex.mergeVal(c, val, ex.zeroVal(t), t), c}
	}
	ex.safety("type assertion", pos, c)
	return val
}

func (ex *Exec) implements(i IfaceV, t types.Type) *Term {
	if i.tag.op == "int" {
		if i.tag.ival == 0 {
			return tFalse
		}
		if ct := ex.L.typeByID(int(i.tag.ival)); ct != nil {
			return tBool(types.Implements(ct, under(t).(*types.Interface)))
		}
	}
	if i.tag.op == "ite" {
		return tIte(i.tag.args[0], ex.implements(IfaceV{i.tag.args[1], i.val}, t), ex.implements(IfaceV{i.tag.args[2], i.val}, t))
	}
	it := under(t).(*types.Interface)
	if it.NumMethods() == 0 {
		return tNe(i.tag, tInt(0))
	}
	// known tags get their exact answer
	f := app("impl:"+typeKey(t), SBool, i.tag)
	ex.assumeTop(tNot(app("impl:"+typeKey(t), SBool, tInt(0))))
	for id, ct := range ex.L.typesByID {
		ex.assumeTop(tEq(app("impl:"+typeKey(t), SBool, tInt(int64(id+1))), tBool(types.Implements(ct, it))))
	}
	return f
}

// ---------------------------------------------------------------- maps

func mapNames(m *types.Map) (dom, val, ln string) {
	k := typeKey(m.Key()) + ">" + typeKey(m.Elem())
	return "MD|" + k, "MV|" + k, "ML|" + k
}

func (ex *Exec) mapKeySort(m *types.Map) (Sort, bool) {
	s, ok := scalarSort(m.Key())
	if ok && s == SF64 {
		return "", false
	}
	return s, ok
}

func (ex *Exec) mapKey(m *types.Map, k Val) (*Term, Sort) {
	if s, ok := ex.mapKeySort(m); ok {
		t, _ := k.(*Term)
		return t, s
	}
	// composite keys are boxed
	ts := ex.toLeaves(k, m.Key())
	b := app(boxSym(m.Key())+".key", SInt, ts...)
	for i, x := range ts {
		ex.assumeTop(tEq(app(fmt.Sprintf("un%s.key.%d", boxSym(m.Key()), i), x.sort, b), x))
	}
	return b, SInt
}

func (ex *Exec) mapKeyS(m *types.Map) Sort {
	if s, ok := ex.mapKeySort(m); ok {
		return s
	}
	return SInt
}

func (ex *Exec) mapDom(ref *Term, m *types.Map) *Term {
	d, _, _ := mapNames(m)
	return tSelect(ex.hget(d, arrSort(SInt, arrSort(ex.mapKeyS(m), SBool))), ref)
}

func (ex *Exec) mapLen(ref *Term, m *types.Map) *Term {
	_, _, l := mapNames(m)
	n := tSelect(ex.hget(l, arrSort(SInt, SInt)), ref)
	if n.op != "int" {
		ex.assume(tAnd(tLe(tInt(0), n), tImp(tEq(ref, tInt(0)), tEq(n, tInt(0)))))
	}
	return tIte(tEq(ref, tInt(0)), tInt(0), n)
}

func (ex *Exec) mapLookup(mv Val, m *types.Map, k Val) (Val, *Term) {
	ref, ok := mv.(*Term)
	if !ok {
		ex.unsup("lookup in %T", mv)
		return ex.havocVal("lookup", m.Elem()), ex.fresh("ok", SBool)
	}
	kt, ks := ex.mapKey(m, k)
	in := tAnd(tNe(ref, tInt(0)), tSelect(ex.mapDom(ref, m), kt))
	_, vn, _ := mapNames(m)
	ls := leaves(m.Elem())
	ts := make([]*Term, len(ls))
	for i, lf := range ls {
		ts[i] = tSelect(tSelect(ex.hget(vn+lf.path, arrSort(SInt, arrSort(ks, lf.sort))), ref), kt)
	}
	v := ex.loadedIf(in, ex.fromLeaves(m.Elem(), ts), m.Elem())
	if in.op != "true" {
		// membership implies a non-empty map
		ex.assume(tImp(in, tGt(ex.mapLen(ref, m), tInt(0))))
	}
	return ex.mergeVal(in, v, ex.zeroVal(m.Elem()), m.Elem()), in
}

func (ex *Exec) loadedIf(c *Term, v Val, t types.Type) Val {
	old := ex.st
	ex.st = &State{pc: tAnd(old.pc, c), heap: old.heap, alloc: old.alloc}
	v = ex.loaded(v, t)
	ex.st = old
	return v
}

func (ex *Exec) makeMap(m *types.Map) Val {
	r := ex.newRef("map")
	d, _, l := mapNames(m)
	ks := ex.mapKeyS(m)
	if ex.globMode > 0 {
		ds := arrSort(SInt, arrSort(ks, SBool))
		ex.hset(d, ds, tStore(ex.hget(d, ds), r, constArr(arrSort(ks, SBool), tFalse)))
		ex.hset(l, arrSort(SInt, SInt), tStore(ex.hget(l, arrSort(SInt, SInt)), r, tInt(0)))
		for _, lf := range leaves(m.Elem()) {
			_, vn, _ := mapNames(m)
			s := arrSort(ks, lf.sort)
			ex.hset(vn+lf.path, arrSort(SInt, s), tStore(ex.hget(vn+lf.path, arrSort(SInt, s)), r, constArr(s, zeroTerm(lf.sort))))
		}
		return r
	}
	ex.assume(tEq(tSelect(ex.hget(d, arrSort(SInt, arrSort(ks, SBool))), r), constArr(arrSort(ks, SBool), tFalse)))
	ex.assume(tEq(tSelect(ex.hget(l, arrSort(SInt, SInt)), r), tInt(0)))
	return r
}

func (ex *Exec) mapUpdate(mv Val, m *types.Map, k, v Val, pos token.Pos) {
	ref, ok := mv.(*Term)
	if !ok {
		ex.unsup("update of %T", mv)
		return
	}
	ex.safety("assignment to entry in nil map", pos, tNe(ref, tInt(0)))
	kt, ks := ex.mapKey(m, k)
	d, vn, l := mapNames(m)
	ds := arrSort(SInt, arrSort(ks, SBool))
	dh := ex.hget(d, ds)
	old := tSelect(dh, ref)
	had := tSelect(old, kt)
	lh := ex.hget(l, arrSort(SInt, SInt))
	ex.hset(l, arrSort(SInt, SInt), tStore(lh, ref, tAdd(tSelect(lh, ref), tIte(had, tInt(0), tInt(1)))))
	ex.hset(d, ds, tStore(dh, ref, tStore(old, kt, tTrue)))
	ts := ex.toLeaves(v, m.Elem())
	ex.noteProv(v)
	for i, lf := range leaves(m.Elem()) {
		s := arrSort(SInt, arrSort(ks, lf.sort))
		h := ex.hget(vn+lf.path, s)
		ex.hset(vn+lf.path, s, tStore(h, ref, tStore(tSelect(h, ref), kt, ts[i])))
	}
}

func (ex *Exec) mapDelete(mv Val, m *types.Map, k Val) {
	ref, ok := mv.(*Term)
	if !ok {
		ex.unsup("delete from %T", mv)
		return
	}
	kt, ks := ex.mapKey(m, k)
	d, _, l := mapNames(m)
	ds := arrSort(SInt, arrSort(ks, SBool))
	dh := ex.hget(d, ds)
	old := tSelect(dh, ref)
	had := tSelect(old, kt)
	lh := ex.hget(l, arrSort(SInt, SInt))
	ex.hset(l, arrSort(SInt, SInt), tStore(lh, ref, tSub(tSelect(lh, ref), tIte(had, tInt(1), tInt(0)))))
	ex.hset(d, ds, tStore(dh, ref, tStore(old, kt, tFalse)))
}

func (ex *Exec) trust(what string) { ex.trusted[what] = true }
