package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is a symbolic Go value. Scalars (bool, ints, strings, floats, pointers,
// maps, chans, opaque funcs) are *Term; the rest are the composites below.
type Val interface{}

type SliceV struct {
	base, off, len *Term
	prov           *Prov
}

// Prov records how a slice value was built, so that folds over it (length,
// counts) can be computed algebraically instead of by induction.
type Prov struct {
	kind string // "nil" "lit" "append" "ite" "phi" "opaque"
	vals []Val
	et   types.Type
	a, b *Prov
	cond *Term
	// opaque
	base, off, len *Term
	mem            *Term // memory array of the element type at creation
	// phi
	loop *LoopInfo
	init *Prov
	back *Prov
	memo map[*Term]*Term
	id   int
}

type IfaceV struct {
	tag, val *Term
}
type StructV struct {
	t types.Type
	f []Val
}
type TupleV []Val
type ClosV struct {
	fn   *ssa.Function
	free []Val
}

// LocV is the address of a scalar (or slice/interface/...) place that is not
// a whole heap cell: a field, a slice element or a global.
type LocV struct {
	kind string // "field" "elem" "global"
	name string // heap map prefix
	ref  *Term
	idx  *Term
	t    types.Type
}
type IterV struct {
	m     *Term // map ref, or string
	mt    *types.Map
	str   bool
	dom   *Term
	id    int
	enum  string
	n     *Term
	outer []*Term
	vals  map[string]*Term
}
type OpaqueV struct{ why string }

type leafT struct {
	path string
	sort Sort
	t    types.Type
}

func typeKey(t types.Type) string {
	return types.TypeString(t, nil)
}

func under(t types.Type) types.Type { return types.Unalias(t).Underlying() }

func isStruct(t types.Type) bool { _, ok := under(t).(*types.Struct); return ok }

// leaves flattens a type into scalar leaves.
func leaves(t types.Type) []leafT {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return []leafT{{"", SBool, t}}
		case u.Info()&types.IsString != 0:
			return []leafT{{"", SStr, t}}
		case u.Info()&types.IsFloat != 0:
			return []leafT{{"", SF64, t}}
		case u.Info()&types.IsInteger != 0:
			return []leafT{{"", SInt, t}}
		}
		return []leafT{{"", SInt, t}}
	case *types.Slice:
		return []leafT{{".base", SInt, t}, {".off", SInt, t}, {".len", SInt, t}}
	case *types.Interface:
		return []leafT{{".tag", SInt, t}, {".val", SInt, t}}
	case *types.Struct:
		var out []leafT
		for i := 0; i < u.NumFields(); i++ {
			for _, l := range leaves(u.Field(i).Type()) {
				out = append(out, leafT{"." + u.Field(i).Name() + l.path, l.sort, l.t})
			}
		}
		return out
	case *types.Array:
		var out []leafT
		if u.Len() <= 8 {
			for i := int64(0); i < u.Len(); i++ {
				for _, l := range leaves(u.Elem()) {
					out = append(out, leafT{fmt.Sprintf("[%d]%s", i, l.path), l.sort, l.t})
				}
			}
			return out
		}
	}
	return []leafT{{"", SInt, t}}
}

func scalarSort(t types.Type) (Sort, bool) {
	ls := leaves(t)
	if len(ls) == 1 && ls[0].path == "" {
		return ls[0].sort, true
	}
	return "", false
}

// toLeaves flattens a value of type t.
func (ex *Exec) toLeaves(v Val, t types.Type) []*Term {
	switch x := v.(type) {
	case *Term:
		return []*Term{x}
	case SliceV:
		return []*Term{x.base, x.off, x.len}
	case IfaceV:
		return []*Term{x.tag, x.val}
	case StructV:
		var out []*Term
		switch u := under(t).(type) {
		case *types.Struct:
			for i := range x.f {
				out = append(out, ex.toLeaves(x.f[i], u.Field(i).Type())...)
			}
		case *types.Array:
			for i := range x.f {
				out = append(out, ex.toLeaves(x.f[i], u.Elem())...)
			}
		}
		return out
	case *ClosV:
		return []*Term{ex.closID(x)}
	case *LocV:
		if _, ok := under(x.t).(*types.Basic); ok && x.kind == "field" {
			// the pointer is kept, not the field: right as long as neither is written to later
			ex.trust("address of the field " + strings.TrimPrefix(x.name, "F|") + " kept as a value: read through it as it was when taken")
			v := ex.load(x, x.t)
			r := ex.newRef("addr")
			ex.store(r, x.t, v)
			return []*Term{r}
		}
		ex.unsup("address of %s %s used as a value", x.kind, x.name)
		return []*Term{ex.fresh("loc", SInt)}
	}
	ls := leaves(t)
	out := make([]*Term, len(ls))
	for i, l := range ls {
		out[i] = ex.fresh("opaque", l.sort)
	}
	return out
}

func (ex *Exec) fromLeaves(t types.Type, ts []*Term) Val {
	v, rest := ex.fromLeaves1(t, ts)
	if len(rest) != 0 {
		panic("fromLeaves: " + t.String())
	}
	return v
}

func (ex *Exec) fromLeaves1(t types.Type, ts []*Term) (Val, []*Term) {
	switch u := under(t).(type) {
	case *types.Slice:
		return SliceV{base: ts[0], off: ts[1], len: ts[2]}, ts[3:]
	case *types.Interface:
		return IfaceV{ts[0], ts[1]}, ts[2:]
	case *types.Struct:
		s := StructV{t: t}
		for i := 0; i < u.NumFields(); i++ {
			var f Val
			f, ts = ex.fromLeaves1(u.Field(i).Type(), ts)
			s.f = append(s.f, f)
		}
		return s, ts
	case *types.Array:
		if u.Len() <= 8 {
			s := StructV{t: t}
			for i := int64(0); i < u.Len(); i++ {
				var f Val
				f, ts = ex.fromLeaves1(u.Elem(), ts)
				s.f = append(s.f, f)
			}
			return s, ts
		}
	case *types.Signature:
		if ts[0].op == "int" {
			if c, ok := ex.closByID[ts[0].ival]; ok {
				return c, ts[1:]
			}
		}
	}
	return ts[0], ts[1:]
}

func (ex *Exec) closID(c *ClosV) *Term {
	for id, x := range ex.closByID {
		if x == c {
			return tInt(id)
		}
	}
	id := int64(len(ex.closByID) + 1)
	ex.closByID[id] = c
	return tInt(id)
}

func zeroTerm(s Sort) *Term {
	switch s {
	case SInt:
		return tInt(0)
	case SBool:
		return tFalse
	case SStr:
		return tStr("")
	case SF64:
		return tF64("(_ +zero 11 53)")
	}
	panic("zeroTerm " + string(s))
}

func (ex *Exec) zeroVal(t types.Type) Val {
	if _, ok := t.(*types.Tuple); ok {
		tt := t.(*types.Tuple)
		var tv TupleV
		for i := 0; i < tt.Len(); i++ {
			tv = append(tv, ex.zeroVal(tt.At(i).Type()))
		}
		return tv
	}
	ls := leaves(t)
	ts := make([]*Term, len(ls))
	for i, l := range ls {
		ts[i] = zeroTerm(l.sort)
	}
	v := ex.fromLeaves(t, ts)
	if s, ok := v.(SliceV); ok {
		s.prov = &Prov{kind: "nil"}
		v = s
	}
	return v
}

// havocVal is an arbitrary value of type t.
func (ex *Exec) havocVal(hint string, t types.Type) Val {
	if tt, ok := t.(*types.Tuple); ok {
		var tv TupleV
		for i := 0; i < tt.Len(); i++ {
			tv = append(tv, ex.havocVal(fmt.Sprintf("%s.%d", hint, i), tt.At(i).Type()))
		}
		return tv
	}
	ls := leaves(t)
	ts := make([]*Term, len(ls))
	for i, l := range ls {
		ts[i] = ex.fresh(hint+l.path, l.sort)
	}
	v := ex.fromLeaves(t, ts)
	ex.typeFacts(v, t)
	return v
}

func intRange(t types.Type) (lo, hi int64, ok bool) {
	b, isb := under(t).(*types.Basic)
	if !isb {
		return 0, 0, false
	}
	switch b.Kind() {
	case types.Uint8:
		return 0, 255, true
	case types.Int8:
		return -128, 127, true
	case types.Uint16:
		return 0, 65535, true
	case types.Int16:
		return -32768, 32767, true
	case types.Int32:
		return -1 << 31, 1<<31 - 1, true
	case types.Uint32:
		return 0, 1<<32 - 1, true
	}
	return 0, 0, false
}

func isUnsigned(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

// typeFacts assumes the well-typedness of an arbitrary value.
func (ex *Exec) typeFacts(v Val, t types.Type) {
	switch u := under(t).(type) {
	case *types.Basic:
		x, ok := v.(*Term)
		if !ok || x.sort != SInt || x.op == "int" {
			return
		}
		if lo, hi, ok := intRange(t); ok {
			ex.assumeTop(tAnd(tLe(tInt(lo), x), tLe(x, tInt(hi))))
		} else if isUnsigned(t) {
			ex.assumeTop(tLe(tInt(0), x))
		} else if u.Kind() == types.Int || u.Kind() == types.Int64 {
			// 64-bit integers are treated as mathematical
		}
	case *types.Pointer, *types.Map, *types.Chan:
		if x, ok := v.(*Term); ok && x.op != "int" {
			ex.assumeTop(tAnd(tLe(tInt(0), x), tLe(x, ex.st.alloc)))
			ex.initFact(x)
		}
	case *types.Slice:
		if s, ok := v.(SliceV); ok && s.len.op != "int" {
			ex.assumeTop(tAnd(tLe(tInt(0), s.base), tLe(s.base, ex.st.alloc), tLe(tInt(0), s.off), tLe(tInt(0), s.len),
				tImp(tEq(s.base, tInt(0)), tEq(s.len, tInt(0)))))
			ex.initFact(s.base)
		}
	case *types.Interface:
		if i, ok := v.(IfaceV); ok && i.tag.op != "int" {
			ex.assumeTop(tAnd(tLe(tInt(0), i.tag), tImp(tEq(i.tag, tInt(0)), tEq(i.val, tInt(0)))))
		}
	case *types.Struct:
		if s, ok := v.(StructV); ok {
			for i := range s.f {
				ex.typeFacts(s.f[i], u.Field(i).Type())
			}
		}
	}
}

// initFact: an object that existed at entry refers, at entry, only to objects
// that existed at entry.
func (ex *Exec) initFact(x *Term) {
	if x.op != "select" {
		return
	}
	h, r := x.args[0], x.args[1]
	if h.op == "select" {
		h, r = h.args[0], h.args[1]
	}
	if h.op != "app" || len(h.args) != 0 || !strings.HasPrefix(h.sval, "H:") {
		return
	}
	for r.op == "app" && len(r.args) > 0 && (strings.HasPrefix(r.sval, "elem:") || strings.HasPrefix(r.sval, "sub:")) {
		r = r.args[0]
	}
	a0 := app("alloc0", SInt)
	ex.assumeTop(tImp(tLe(r, a0), tLe(x, a0)))
}

// mergeVal is ite(c, a, b) on values.
func (ex *Exec) mergeVal(c *Term, a, b Val, t types.Type) Val {
	if c == tTrue {
		return a
	}
	if c == tFalse {
		return b
	}
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok {
			return tIte(c, x, y)
		}
	case SliceV:
		if y, ok := b.(SliceV); ok {
			r := SliceV{base: tIte(c, x.base, y.base), off: tIte(c, x.off, y.off), len: tIte(c, x.len, y.len)}
			px, py := ex.provOf(x), ex.provOf(y)
			if px == py {
				r.prov = px
			} else {
				r.prov = &Prov{kind: "ite", cond: c, a: px, b: py}
			}
			return r
		}
	case IfaceV:
		if y, ok := b.(IfaceV); ok {
			return IfaceV{tIte(c, x.tag, y.tag), tIte(c, x.val, y.val)}
		}
	case StructV:
		if y, ok := b.(StructV); ok && len(x.f) == len(y.f) {
			r := StructV{t: x.t}
			for i := range x.f {
				var ft types.Type
				switch u := under(x.t).(type) {
				case *types.Struct:
					ft = u.Field(i).Type()
				case *types.Array:
					ft = u.Elem()
				}
				r.f = append(r.f, ex.mergeVal(c, x.f[i], y.f[i], ft))
			}
			return r
		}
	case TupleV:
		if y, ok := b.(TupleV); ok && len(x) == len(y) {
			r := TupleV{}
			for i := range x {
				r = append(r, ex.mergeVal(c, x[i], y[i], nil))
			}
			return r
		}
	case *ClosV:
		if y, ok := b.(*ClosV); ok {
			if x == y {
				return x
			}
			return tIte(c, ex.closID(x), ex.closID(y))
		}
		if y, ok := b.(*Term); ok {
			return tIte(c, ex.closID(x), y)
		}
	case *LocV:
		if y, ok := b.(*LocV); ok && x.kind == y.kind && x.name == y.name {
			if *x == *y {
				return x
			}
			if x.kind == "field" || x.kind == "elem" {
				r := *x
				if x.ref != nil {
					r.ref = tIte(c, x.ref, y.ref)
				}
				if x.idx != nil {
					r.idx = tIte(c, x.idx, y.idx)
				}
				return &r
			}
		}
	case IterV:
		return a
	case nil:
		return b
	}
	if y, ok := b.(*ClosV); ok {
		if x, ok := a.(*Term); ok {
			return tIte(c, x, ex.closID(y))
		}
	}
	if b == nil {
		return a
	}
	ex.unsup("merge of %T and %T", a, b)
	return a
}
