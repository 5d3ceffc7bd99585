package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const specPkg = "github.com/pb33f/libopenapi/test_specs"

func (fr *Frame) call(in ssa.Value, c *ssa.CallCommon) Val {
	ex := fr.ex
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return fr.builtin(b, c, in)
	}
	var args []Val
	if c.IsInvoke() {
		recv := fr.val(c.Value)
		for _, a := range c.Args {
			args = append(args, fr.val(a))
		}
		return ex.invoke(fr, recv, c, args)
	}
	for _, a := range c.Args {
		args = append(args, fr.val(a))
	}
	if callee := c.StaticCallee(); callee != nil {
		var free []Val
		if _, ok := c.Value.(*ssa.Function); !ok {
			free = freeOf(fr.val(c.Value))
		}
		return ex.callStatic(fr, callee, args, free, c.Pos(), false)
	}
	f := fr.val(c.Value)
	return ex.callValue(fr, f, args, c.Signature(), c.Pos())
}

func (ex *Exec) callValue(fr *Frame, f Val, args []Val, sig *types.Signature, pos token.Pos) Val {
	switch x := f.(type) {
	case *ClosV:
		return ex.callStatic(fr, x.fn, args, x.free, pos, false)
	case *Term:
		if x.op == "int" {
			if cl, ok := ex.closByID[x.ival]; ok {
				return ex.callStatic(fr, cl.fn, args, cl.free, pos, false)
			}
		}
		if x.op == "ite" {
			// dispatch on the condition
			s0 := ex.st
			ex.st = &State{pc: tAnd(s0.pc, x.args[0]), heap: s0.heap, alloc: s0.alloc}
			var v1, v2 Val
			r := resTuple(sig)
			v1 = ex.zeroAny(r)
			if ex.st.pc != tFalse {
				v1 = ex.callValue(fr, x.args[1], args, sig, pos)
			}
			st1 := ex.st
			ex.st = &State{pc: tAnd(s0.pc, tNot(x.args[0])), heap: s0.heap, alloc: s0.alloc}
			v2 = ex.zeroAny(r)
			if ex.st.pc != tFalse {
				v2 = ex.callValue(fr, x.args[2], args, sig, pos)
			}
			st2 := ex.st
			ex.st = ex.mergeStates([]*State{st1, st2}, nil)
			return ex.mergeVals([]*State{st1, st2}, []Val{v1, v2}, r)
		}
	}
	if t, ok := f.(*Term); ok {
		ex.safety("call of nil function", pos, tNe(t, tInt(0)))
	}
	ex.trust("call through an unknown function value: result arbitrary, no effect on the modelled heap")
	return ex.havocVal("dyn", resTuple(sig))
}

func resTuple(sig *types.Signature) types.Type {
	if sig.Results().Len() == 1 {
		return sig.Results().At(0).Type()
	}
	return sig.Results()
}

func (ex *Exec) zeroAny(t types.Type) Val { return ex.zeroVal(t) }

// invoke calls an interface method.
func (ex *Exec) invoke(fr *Frame, recv Val, c *ssa.CallCommon, args []Val) Val {
	i, ok := recv.(IfaceV)
	if !ok {
		ex.unsup("method call on %T", recv)
		return ex.havocVal("inv", resTuple(c.Signature()))
	}
	return ex.invokeOn(fr, i, c, args)
}

func (ex *Exec) invokeOn(fr *Frame, i IfaceV, c *ssa.CallCommon, args []Val) Val {
	sig := c.Signature()
	ex.safety("method call on nil interface", c.Pos(), tNe(i.tag, tInt(0)))
	if i.tag.op == "int" && i.tag.ival > 0 {
		ct := ex.L.typeByID(int(i.tag.ival))
		if ct != nil {
			if m := ex.L.prog.LookupMethod(ct, c.Method.Pkg(), c.Method.Name()); m != nil {
				return ex.callStatic(fr, m, append([]Val{ex.unbox(i, ct)}, args...), nil, c.Pos(), false)
			}
		}
	}
	// contract attached to the interface method
	if it, ok := types.Unalias(c.Value.Type()).(*types.Named); ok {
		if ct := ex.L.contractByName(pkgOf(it), it.Obj().Name()+"_"+c.Method.Name()); ct != nil {
			return ex.applyContract(fr, ct, append([]Val{i}, args...), sig, c.Pos())
		}
	}
	if c.Method.Name() == "Error" && len(args) == 0 {
		return app("error.Error", SStr, i.tag, i.val)
	}
	ex.trust("interface method " + c.Method.FullName() + ": result arbitrary, no effect on the modelled heap")
	return ex.havocVal("inv_"+c.Method.Name(), resTuple(sig))
}

func pkgOf(n *types.Named) string {
	if n.Obj().Pkg() == nil {
		return ""
	}
	return n.Obj().Pkg().Path()
}

// contractKey is the name under which a function's contract functions live.
func contractKey(fn *ssa.Function) (pkg, name string) {
	f := fn
	if f.Origin() != nil {
		f = f.Origin()
	}
	if f.Pkg != nil {
		pkg = f.Pkg.Pkg.Path()
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		pkg = f.Object().Pkg().Path()
	}
	name = f.Name()
	if recv := f.Signature.Recv(); recv != nil {
		t := recv.Type()
		if p, ok := types.Unalias(t).(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := types.Unalias(t).(*types.Named); ok {
			name = n.Obj().Name() + "_" + name
		}
	}
	return
}

func (ex *Exec) callStatic(fr *Frame, fn *ssa.Function, args []Val, free []Val, pos token.Pos, deferredCall bool) Val {
	pkg, name := contractKey(fn)
	if pkg == specPkg {
		return ex.specCall(fr, fn, name, args, pos)
	}
	full := pkg + "." + name
	isSpec := ex.L.isSpecFn(fn)
	inLemmaBody := fr != nil && fr.fn == ex.unit.fn && ex.unit.Kind == "lemma"
	{
		ct := ex.L.contractByName(pkg, name)
		if isSpec && (ct == nil || !ct.pure) {
			ct = nil // a specification function without a contract of its own stands for its body
		}
		if ct != nil && free == nil && instanceOf(fn, ct) {
			direct := inLemmaBody || (ex.unit.Kind == "contract" && fr != nil && fr.caller == nil && fr.fn == nil)
			if !(direct && !ct.always) {
				return ex.applyContract(fr, ct, args, fn.Signature, pos)
			}
		}
	}
	if !isSpec {
		if v, ok := ex.stdlib(full, fn, args, pos); ok {
			return v
		}
	}
	if len(fn.Blocks) == 0 || !ex.L.inlineable(fn) {
		ex.trust(full + ": result arbitrary, no effect on the modelled heap")
		return ex.havocVal(fn.Name(), resTuple(fn.Signature))
	}
	for _, f := range ex.stack {
		if f == fn {
			if isSpec {
				// recursive specification functions are uninterpreted beyond the first unfolding
				return ex.recSpec(fn, args)
			}
			ex.unsup("recursive call of %s without a contract", full)
			return ex.havocVal(fn.Name(), resTuple(fn.Signature))
		}
	}
	if !isSpec && ex.spec == 0 && fn.Synthetic == "" {
		ex.inlined[full] = true
	}
	return ex.runFunc(fn, args, free, fr)
}

// instanceOf: a contract of a generic function is for one instance of it.
func instanceOf(fn *ssa.Function, ct *Contract) bool {
	if fn.Origin() == nil || fn.Origin() == fn || ct.post == nil {
		return true
	}
	ps := ct.post.Signature.Params()
	n := len(fn.Params)
	k := ps.Len() - n - fn.Signature.Results().Len()
	if k < 0 {
		return false
	}
	for i, p := range fn.Params {
		if !types.Identical(ps.At(k+i).Type(), p.Type()) {
			return false
		}
	}
	return true
}

// recSpec models a recursive specification function as an uninterpreted
// function of its arguments (its defining equation is unfolded once per call
// site by execution of the body).
func (ex *Exec) recSpec(fn *ssa.Function, args []Val) Val {
	ls := leaves(fn.Signature.Results().At(0).Type())
	var as []*Term
	for i, a := range args {
		as = append(as, ex.toLeaves(a, fn.Params[i].Type())...)
	}
	ts := make([]*Term, len(ls))
	for i, l := range ls {
		ts[i] = app("rec:"+fn.String()+l.path+ex.token(), l.sort, as...)
	}
	return ex.fromLeaves(fn.Signature.Results().At(0).Type(), ts)
}

// token identifies the current heap among the heaps of this run.
func (ex *Exec) token() string {
	var ks []string
	for k, t := range ex.st.heap {
		if t == app("H:"+k, t.sort) {
			continue
		}
		ks = append(ks, fmt.Sprintf("%s=%d", k, t.id))
	}
	if len(ks) == 0 {
		return ""
	}
	sort.Strings(ks)
	key := strings.Join(ks, ";")
	if n, ok := ex.tokens[key]; ok {
		return fmt.Sprintf("@%d", n)
	}
	ex.tokens[key] = len(ex.tokens) + 1
	return fmt.Sprintf("@%d", len(ex.tokens))
}

func (ex *Exec) heapMentionsIts() bool {
	set := map[*Term]bool{}
	for _, t := range ex.its {
		set[t] = true
	}
	for k, t := range ex.st.heap {
		if t == app("H:"+k, t.sort) {
			continue
		}
		if occurs(t, set) {
			return true
		}
	}
	return false
}

// pureResult is the value of a pure function: a function of its arguments
// and the heap.
func (ex *Exec) pureResult(key string, args []Val, sig *types.Signature, stable bool) Val {
	tok := ex.token()
	if stable {
		ex.trust(key + ": taken to be a function of its arguments, whose contents no one changes meanwhile")
		tok = ""
	}
	basic := sig.Recv() == nil
	for i := 0; i < sig.Params().Len(); i++ {
		if _, ok := under(sig.Params().At(i).Type()).(*types.Basic); !ok {
			basic = false
		}
	}
	if basic {
		tok = "" // a function of its scalar arguments alone
	}
	if tok != "" && len(ex.its) > 0 && ex.heapMentionsIts() {
		return ex.havocVal("pure", resTuple(sig))
	}
	var as []*Term
	ps := sig.Params()
	k := 0
	if sig.Recv() != nil {
		as = append(as, ex.toLeaves(args[0], sig.Recv().Type())...)
		k = 1
	}
	for i := 0; i < ps.Len() && k+i < len(args); i++ {
		as = append(as, ex.toLeaves(args[k+i], ps.At(i).Type())...)
	}
	mkv := func(j int, t types.Type) Val {
		ls := leaves(t)
		ts := make([]*Term, len(ls))
		for i, l := range ls {
			ts[i] = app(fmt.Sprintf("pure:%s#%d%s%s", key, j, l.path, tok), l.sort, as...)
		}
		v := ex.fromLeaves(t, ts)
		ex.typeFacts(v, t)
		return v
	}
	if sig.Results().Len() == 1 {
		return mkv(0, sig.Results().At(0).Type())
	}
	var tv TupleV
	for j := 0; j < sig.Results().Len(); j++ {
		tv = append(tv, mkv(j, sig.Results().At(j).Type()))
	}
	return tv
}

func tupleOf(v Val, sig *types.Signature) []Val {
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return []Val{v}
	}
	if t, ok := v.(TupleV); ok {
		return t
	}
	return nil
}

// applyContract replaces a call by its callee's contract.
func (ex *Exec) applyContract(fr *Frame, ct *Contract, args []Val, sig *types.Signature, pos token.Pos) Val {
	if ex.spec == 0 {
		ex.byContr[ct.Key()] = true
	}
	if ct.pre != nil && ex.spec == 0 {
		ex.runSpec(ct.pre, args, "oblige", "precondition of "+ct.name, pos)
	}
	var old []Val
	if ct.old != nil {
		old = tupleOf(ex.runSpec(ct.old, args, "", "", pos), ct.old.Signature)
	}
	var res Val
	defer func(a *Term) { ex.callAlloc = a }(ex.callAlloc)
	ex.callAlloc = ex.st.alloc
	if ct.pure {
		res = ex.pureResult(ct.pkg+"."+ct.name, args, sig, ct.opts["stable"] != "")
	} else {
		// what the function leaves behind may be newly allocated
		a := ex.fresh("alloc", SInt)
		ex.assumeTop(tLe(ex.st.alloc, a))
		ex.st = &State{pc: ex.st.pc, heap: ex.st.heap, alloc: a}
		if ct.mod != nil {
			ex.runSpec(ct.mod, args, "mod", "", pos)
		}
		res = ex.havocVal(ct.name, resTuple(sig))
	}
	if ct.post != nil && ct.pure && ex.unit.opaque(ct.name) {
		return res // the unit's proof does not need what the function computes
	}
	if ct.post != nil {
		for _, f := range ex.stack {
			if f == ct.post {
				return res // a contract's own specification calling the function again
			}
		}
		ex.runSpec(ct.post, append(append(append([]Val{}, old...), args...), tupleOf(res, sig)...), "assume", "", pos)
	}
	return res
}

// runSpec executes a specification function.
func (ex *Exec) runSpec(fn *ssa.Function, args []Val, mode, label string, pos token.Pos) Val {
	om, ost, ospec := ex.mode, ex.st, ex.spec
	_ = ospec
	ex.mode = mode
	ol, op := ex.label, ex.labelPos
	ex.label, ex.labelPos = label, pos
	if len(args) > len(fn.Params) {
		args = args[:len(fn.Params)]
	}
	ex.spec++
	oldIts := ex.its
	v := ex.runFunc(fn, args, nil, nil)
	ex.its = oldIts
	ex.spec--
	ex.label, ex.labelPos = ol, op
	ex.mode = om
	if mode != "mod" && mode != "keep" {
		// specifications do not change the state (allocation aside)
		ex.st = &State{pc: ost.pc, heap: ost.heap, alloc: ex.st.alloc}
	} else {
		ex.st = &State{pc: ost.pc, heap: ex.st.heap, alloc: ex.st.alloc}
	}
	return v
}

func strOf(v Val) string {
	if t, ok := v.(*Term); ok && t.op == "str" {
		return t.sval
	}
	return "?"
}

// specCall interprets the primitives of the specification package.
func (ex *Exec) specCall(fr *Frame, fn *ssa.Function, name string, args []Val, pos token.Pos) Val {
	boolean := func(v Val) *Term {
		if t, ok := v.(*Term); ok && t.sort == SBool {
			return t
		}
		ex.unsup("specification argument %T", v)
		return ex.fresh("b", SBool)
	}
	if i := strings.Index(name, "["); i > 0 {
		name = name[:i]
	}
	switch name {
	case "Assume":
		c := boolean(args[0])
		ex.assume(c)
		return TupleV{}
	case "Assert":
		s := ex.spec
		ex.spec = 0
		ex.oblige("assert", strOf(args[0]), pos, boolean(args[1]))
		ex.spec = s
		ex.assume(boolean(args[1]))
		return TupleV{}
	case "Ensure", "Require":
		c := boolean(args[1])
		switch ex.mode {
		case "oblige":
			s := ex.spec
			ex.spec = 0
			nm := strOf(args[0])
			kind := "post"
			p := pos
			if name == "Require" {
				kind = "pre"
				nm = ex.label + ": " + nm
				p = ex.labelPos
			}
			ex.oblige(kind, nm, p, c)
			ex.spec = s
			n := len(ex.assumps)
			ex.assume(c)
			for i := n; i < len(ex.assumps) && kind == "post"; i++ {
				ex.assumps[i].ens = true
			}
		case "assume":
			ex.assume(c)
		case "collect":
			*ex.collect = append(*ex.collect, cand{name: strOf(args[0]), f: tImp(ex.st.pc, c)})
		}
		return TupleV{}
	case "Implies":
		return tImp(boolean(args[0]), boolean(args[1]))
	case "Iff":
		return tEq(boolean(args[0]), boolean(args[1]))
	case "Forall", "Exists":
		lo, hi := args[0].(*Term), args[1].(*Term)
		v := newBvar("q", SInt)
		body := ex.closBody(fr, args[2], []Val{v}, tAnd(tLe(lo, v), tLt(v, hi)), v)
		if name == "Forall" {
			return tForall([]*Term{v}, tImp(tAnd(tLe(lo, v), tLt(v, hi)), body))
		}
		return tExists([]*Term{v}, tAnd(tLe(lo, v), tLt(v, hi), body))
	case "ForallStr":
		v := newBvar("qs", SStr)
		return tForall([]*Term{v}, ex.closBody(fr, args[0], []Val{v}, tTrue, v))
	case "Count":
		s, ok := args[0].(SliceV)
		sl := under(fn.Signature.Params().At(0).Type()).(*types.Slice)
		so, scalar := scalarSort(sl.Elem())
		if !ok || !scalar {
			ex.unsup("Count of %T", args[0])
			return ex.fresh("count", SInt)
		}
		e := mk(Term{op: "bvar", sval: "e!" + sane(string(so)), sort: so})
		body := ex.closBody(fr, args[1], []Val{e}, tTrue, e)
		return ex.count(ex.provOf(s), lambda{e: e, body: body, et: sl.Elem()})
	case "IsFresh":
		// allocated during the call: not among the references that existed before
		t, _ := args[0].(*Term)
		if ex.mode == "assume" && ex.callAlloc != nil {
			return tAnd(tGt(t, app("alloc0", SInt)), tGt(t, ex.callAlloc))
		}
		return tGt(t, app("alloc0", SInt))
	case "KeyIn":
		_, ok := ex.mapLookup(args[0], under(fn.Signature.Params().At(0).Type()).(*types.Map), args[1])
		return ok
	case "ForallKeys":
		m := under(fn.Signature.Params().At(0).Type()).(*types.Map)
		ref, _ := args[0].(*Term)
		k := newBvar("k", ex.mapKeyS(m))
		in := tAnd(tNe(ref, tInt(0)), tSelect(ex.mapDom(ref, m), k))
		return tForall([]*Term{k}, tImp(in, ex.closBody(fr, args[1], []Val{k}, in, k)))
	case "SameMap":
		m := under(fn.Signature.Params().At(0).Type()).(*types.Map)
		return tEq(ex.mapDom(args[0].(*Term), m), ex.mapDom(args[1].(*Term), m))
	case "InRe":
		return opT("str.in_re", SBool, args[0].(*Term), ex.regex(strOf(args[1])))
	case "HavocCell", "ModCell":
		et := deref(fn.Signature.Params().At(0).Type())
		ex.store(args[0], et, ex.havocVal("mod", et))
		return TupleV{}
	case "Same", "SameVal":
		// identity of slices: same backing array, offset and length
		return tEqVals(ex.toLeaves(args[0], fn.Signature.Params().At(0).Type()), ex.toLeaves(args[1], fn.Signature.Params().At(1).Type()))
	}
	ex.unsup("specification primitive %s", name)
	return ex.havocVal("spec", resTuple(fn.Signature))
}

func tEqVals(a, b []*Term) *Term {
	var cs []*Term
	for i := range a {
		cs = append(cs, tEq(a[i], b[i]))
	}
	return tAnd(cs...)
}

// closBody evaluates a predicate closure on args as a pure term.
func (ex *Exec) closBody(fr *Frame, f Val, args []Val, guard *Term, bv *Term) *Term {
	c, ok := f.(*ClosV)
	if !ok {
		ex.unsup("quantifier body %T", f)
		return ex.fresh("qb", SBool)
	}
	ost, oits := ex.st, ex.its
	ex.st = &State{pc: tAnd(ost.pc, guard), heap: ost.heap, alloc: ost.alloc}
	ex.its = append(append([]*Term{}, oits...), bv)
	ex.spec++
	v := ex.callStatic(fr, c.fn, args, c.free, token.NoPos, false)
	ex.spec--
	ex.its = oits
	ex.st = ost
	t, ok := v.(*Term)
	if !ok {
		ex.unsup("quantifier body result %T", v)
		return ex.fresh("qb", SBool)
	}
	return t
}

func (fr *Frame) builtin(b *ssa.Builtin, c *ssa.CallCommon, in ssa.Value) Val {
	ex := fr.ex
	var args []Val
	for _, a := range c.Args {
		args = append(args, fr.val(a))
	}
	switch b.Name() {
	case "len":
		switch u := under(c.Args[0].Type()).(type) {
		case *types.Basic:
			return tLen(args[0].(*Term))
		case *types.Slice:
			if s, ok := args[0].(SliceV); ok {
				return s.len
			}
		case *types.Map:
			if r, ok := args[0].(*Term); ok {
				return ex.mapLen(r, u)
			}
		case *types.Array:
			return tInt(u.Len())
		case *types.Pointer:
			if a, ok := under(u.Elem()).(*types.Array); ok {
				return tInt(a.Len())
			}
		}
		n := ex.fresh("len", SInt)
		ex.assumeTop(tLe(tInt(0), n))
		return n
	case "cap":
		n := ex.fresh("cap", SInt)
		if s, ok := args[0].(SliceV); ok {
			ex.assume(tLe(s.len, n))
		}
		return n
	case "append":
		s, ok := args[0].(SliceV)
		if !ok {
			break
		}
		et := under(c.Args[0].Type()).(*types.Slice).Elem()
		if len(args) == 1 {
			return s
		}
		t, ok := args[1].(SliceV)
		if !ok {
			if st, ok := args[1].(*Term); ok && st.sort == SStr {
				t = ex.bytesOf(st).(SliceV)
			} else {
				break
			}
		}
		return ex.appendSlices(s, t, et)
	case "copy":
		s, ok := args[0].(SliceV)
		if ok {
			et := under(c.Args[0].Type()).(*types.Slice).Elem()
			var tl *Term
			if t, ok := args[1].(SliceV); ok {
				tl = t.len
			} else {
				tl = tLen(args[1].(*Term))
			}
			if isStruct(et) {
				ex.unsup("copy of structs")
			} else {
				for li, lf := range leaves(et) {
					n := "M|" + typeKey(et) + lf.path
					as := arrSort(SInt, lf.sort)
					m := ex.hget(n, arrSort(SInt, as))
					na := ex.fresh("copied", as)
					nn := tIte(tLe(s.len, tl), s.len, tl)
					j := newBvar("j", SInt)
					in := tAnd(tLe(tInt(0), tSub(j, s.off)), tLt(tSub(j, s.off), nn))
					var src *Term
					if t, ok := args[1].(SliceV); ok {
						src = tSelect(tSelect(m, t.base), tAdd(t.off, tSub(j, s.off)))
					} else {
						src = tByte(args[1].(*Term), tSub(j, s.off))
					}
					_ = li
					ex.assumeRaw(tForall([]*Term{j}, tEq(tSelect(na, j), tIte(in, src, tSelect(tSelect(m, s.base), j)))), true)
					ex.hset(n, arrSort(SInt, as), tStore(m, s.base, na))
				}
			}
			return tIte(tLe(s.len, tl), s.len, tl)
		}
	case "delete":
		ex.mapDelete(args[0], under(c.Args[0].Type()).(*types.Map), args[1])
		return TupleV{}
	case "min", "max":
		r, ok := args[0].(*Term)
		for _, a := range args[1:] {
			t, ok2 := a.(*Term)
			if !ok || !ok2 || t.sort != SInt {
				ex.unsup("min/max")
				return ex.havocVal("minmax", in.Type())
			}
			if b.Name() == "min" {
				r = tIte(tLe(r, t), r, t)
			} else {
				r = tIte(tLe(t, r), r, t)
			}
		}
		return r
	case "print", "println", "close":
		return TupleV{}
	case "recover":
		return ex.zeroVal(in.Type())
	case "ssa:wrapnilchk":
		if r, ok := args[0].(*Term); ok {
			ex.safety("nil dereference (method wrapper)", c.Pos(), tNe(r, tInt(0)))
		}
		return args[0]
	}
	ex.unsup("builtin %s", b.Name())
	return ex.havocVal("builtin", resTuple(c.Signature()))
}

// invFacts assumes the declared invariant of a type for a pointer to it.
func (ex *Exec) invFacts(v Val, t types.Type) {
	p, ok := under(t).(*types.Pointer)
	if !ok || ex.inInv > 0 {
		return
	}
	n, ok := types.Unalias(p.Elem()).(*types.Named)
	if !ok {
		return
	}
	inv := ex.L.invariantOf(n)
	if inv == nil {
		return
	}
	r, ok := v.(*Term)
	if !ok || (r.op == "int" && r.ival == 0) {
		return
	}
	key := fmt.Sprintf("%d@%s", r.id, ex.token())
	if ex.invDone[key] && ex.trial == 0 {
		return
	}
	if ex.trial == 0 && len(ex.its) == 0 && ex.st.pc != tFalse && !r.open {
		ex.invDone[key] = true
	}
	ex.inInv++
	ost := ex.st
	ex.st = &State{pc: tAnd(tNe(r, tInt(0)), tLe(r, app("alloc0", SInt))), heap: ost.heap, alloc: ost.alloc}
	ex.runSpec(inv, []Val{r}, "assume", "", token.NoPos)
	ex.st = &State{pc: ost.pc, heap: ost.heap, alloc: ex.st.alloc}
	ex.inInv--
}
