package main

import (
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"
)

// Sort is an SMT-LIB sort, written as its SMT-LIB text.
type Sort string

const (
	SInt  Sort = "Int"
	SBool Sort = "Bool"
	SStr  Sort = "String"
	SF64  Sort = "(_ FloatingPoint 11 53)"
)

func arrSort(k, v Sort) Sort { return Sort("(Array " + string(k) + " " + string(v) + ")") }

// splitArr returns the key and value sorts of an array sort.
func splitArr(s Sort) (Sort, Sort) {
	t := strings.TrimSuffix(strings.TrimPrefix(string(s), "(Array "), ")")
	depth := 0
	for i := 0; i < len(t); i++ {
		switch t[i] {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return Sort(t[:i]), Sort(t[i+1:])
			}
		}
	}
	panic("not an array sort: " + string(s))
}

// Term is a hash-consed SMT term.
//
//	op "int"/"str"/"true"/"false"/"f64": constants (ival, sval)
//	op "lin": linear integer combination; args with coefs, plus ival
//	op "bvar": variable bound by a quantifier
//	op "app": application of the declared symbol sval to args (0 args: constant)
//	op "forall"/"exists": args[0]=body, args[1:]=bound variables
//	op "constarr": constant array of args[0]
//	anything else: the SMT-LIB operator itself
type Term struct {
	op    string
	args  []*Term
	coefs []int64
	ival  int64
	sval  string
	sort  Sort
	id    int
	open  bool // mentions a bound variable
	quant bool // contains a quantifier
	size  int
}

var (
	termTab  = map[string]*Term{}
	termList []*Term
	funDecls = map[string]string{} // symbol -> "(args) ret"
)

func mk(t Term) *Term {
	var sb strings.Builder
	sb.WriteString(t.op)
	sb.WriteByte('|')
	sb.WriteString(strconv.FormatInt(t.ival, 10))
	sb.WriteByte('|')
	sb.WriteString(string(t.sort))
	sb.WriteByte('|')
	sb.WriteString(strconv.Itoa(len(t.sval)))
	sb.WriteByte(':')
	sb.WriteString(t.sval)
	for i, a := range t.args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.id))
		if t.coefs != nil {
			sb.WriteByte('*')
			sb.WriteString(strconv.FormatInt(t.coefs[i], 10))
		}
	}
	k := sb.String()
	if x, ok := termTab[k]; ok {
		return x
	}
	n := new(Term)
	*n = t
	n.id = len(termList)
	n.size = 1
	for _, a := range t.args {
		n.open = n.open || a.open
		n.quant = n.quant || a.quant
		n.size += a.size
		if n.size > 1<<30 {
			n.size = 1 << 30
		}
	}
	if t.op == "bvar" {
		n.open = true
	}
	if t.op == "forall" || t.op == "exists" {
		n.quant = true
		fv := map[*Term]bool{}
		freeB(t.args[0], fv, map[*Term]bool{})
		for _, b := range t.args[1:] {
			delete(fv, b)
		}
		n.open = len(fv) > 0
	}
	termList = append(termList, n)
	termTab[k] = n
	return n
}

func freeB(t *Term, out map[*Term]bool, seen map[*Term]bool) {
	if !t.open || seen[t] {
		return
	}
	seen[t] = true
	if t.op == "bvar" {
		out[t] = true
		return
	}
	if t.op == "forall" || t.op == "exists" {
		in := map[*Term]bool{}
		freeB(t.args[0], in, map[*Term]bool{})
		for _, b := range t.args[1:] {
			delete(in, b)
		}
		for k := range in {
			out[k] = true
		}
		return
	}
	for _, a := range t.args {
		freeB(a, out, seen)
	}
}

var (
	tTrue  = mk(Term{op: "true", sort: SBool})
	tFalse = mk(Term{op: "false", sort: SBool})
)

func tInt(n int64) *Term    { return mk(Term{op: "int", ival: n, sort: SInt}) }
func tStr(s string) *Term   { return mk(Term{op: "str", sval: s, sort: SStr}) }
func tF64(lit string) *Term { return mk(Term{op: "f64", sval: lit, sort: SF64}) }
func tBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

var bvarN int

func newBvar(hint string, s Sort) *Term {
	bvarN++
	return mk(Term{op: "bvar", sval: fmt.Sprintf("%s!b%d", sane(hint), bvarN), sort: s})
}

func sane(s string) string {
	var sb strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' {
			sb.WriteRune(r)
		} else {
			sb.WriteByte('_')
		}
	}
	return sb.String()
}

// app applies (and declares on first use) an uninterpreted symbol.
func app(sym string, ret Sort, args ...*Term) *Term {
	if _, ok := funDecls[sym]; !ok {
		ss := make([]string, len(args))
		for i, a := range args {
			ss[i] = string(a.sort)
		}
		funDecls[sym] = "(" + strings.Join(ss, " ") + ") " + string(ret)
	}
	return mk(Term{op: "app", sval: sym, sort: ret, args: args})
}

// opT builds an application of an SMT-LIB operator without simplification.
func opT(op string, s Sort, args ...*Term) *Term {
	return mk(Term{op: op, sort: s, args: args})
}

func isConst(t *Term) bool {
	switch t.op {
	case "int", "str", "true", "false", "f64":
		return true
	}
	return false
}

// ---------------------------------------------------------------- booleans

func tNot(a *Term) *Term {
	switch a.op {
	case "true":
		return tFalse
	case "false":
		return tTrue
	case "not":
		return a.args[0]
	}
	return opT("not", SBool, a)
}

func tAnd(xs ...*Term) *Term { return nary("and", tTrue, tFalse, xs) }
func tOr(xs ...*Term) *Term {
	// factor the common conjuncts of two-way joins: (X & a) | (X & !a) == X
	if r := factorOr(xs); r != nil {
		return r
	}
	return nary("or", tFalse, tTrue, xs)
}

func conjuncts(t *Term) []*Term {
	if t.op == "and" {
		return t.args
	}
	if t.op == "true" {
		return nil
	}
	return []*Term{t}
}

func factorOr(xs []*Term) *Term {
	var ys []*Term
	for _, x := range xs {
		if x == tTrue {
			return tTrue
		}
		if x != tFalse {
			ys = append(ys, x)
		}
	}
	if len(ys) < 2 {
		return nil
	}
	changed := true
	did := false
	for changed && len(ys) > 1 {
		changed = false
	outer:
		for i := 0; i < len(ys); i++ {
			for j := i + 1; j < len(ys); j++ {
				if m := joinPair(ys[i], ys[j]); m != nil {
					ys[i] = m
					ys = append(ys[:j], ys[j+1:]...)
					changed, did = true, true
					break outer
				}
			}
		}
	}
	if !did {
		return nil
	}
	return nary("or", tFalse, tTrue, ys)
}

// joinPair simplifies a|b when they share conjuncts and the rests are
// complementary (or one absorbs the other); nil when nothing applies.
func joinPair(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.op == "true" || b.op == "true" {
		return tTrue
	}
	ca, cb := conjuncts(a), conjuncts(b)
	inB := map[*Term]bool{}
	for _, x := range cb {
		inB[x] = true
	}
	var com, ra, rb []*Term
	inA := map[*Term]bool{}
	for _, x := range ca {
		inA[x] = true
		if inB[x] {
			com = append(com, x)
		} else {
			ra = append(ra, x)
		}
	}
	for _, x := range cb {
		if !inA[x] {
			rb = append(rb, x)
		}
	}
	if len(ra) == 0 || len(rb) == 0 {
		return tAnd(com...)
	}
	xa, xb := tAnd(ra...), tAnd(rb...)
	if tNot(xa) == xb {
		return tAnd(com...)
	}
	// X | (!X & Y) == X | Y
	if len(ra) == 1 {
		for i, y := range rb {
			if tNot(ra[0]) == y {
				rest := append(append([]*Term{}, rb[:i]...), rb[i+1:]...)
				return tAnd(append(com, nary("or", tFalse, tTrue, []*Term{ra[0], tAnd(rest...)}))...)
			}
		}
	}
	if len(rb) == 1 {
		for i, y := range ra {
			if tNot(rb[0]) == y {
				rest := append(append([]*Term{}, ra[:i]...), ra[i+1:]...)
				return tAnd(append(com, nary("or", tFalse, tTrue, []*Term{rb[0], tAnd(rest...)}))...)
			}
		}
	}
	return nil
}

func nary(op string, unit, zero *Term, xs []*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == zero {
			return false
		}
		if x == unit || seen[x] {
			return true
		}
		if x.op == op {
			for _, y := range x.args {
				if !add(y) {
					return false
				}
			}
			return true
		}
		if seen[tNot(x)] {
			return false
		}
		seen[x] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return opT(op, SBool, out...)
}

func tImp(a, b *Term) *Term {
	if a == tTrue {
		return b
	}
	if a == tFalse || b == tTrue || a == b {
		return tTrue
	}
	if b == tFalse {
		return tNot(a)
	}
	return opT("=>", SBool, a, b)
}

func tIte(c, a, b *Term) *Term {
	if c == tTrue || a == b {
		return a
	}
	if c == tFalse {
		return b
	}
	if c.op == "not" {
		return tIte(c.args[0], b, a)
	}
	if a.sort == SBool {
		if a == tTrue && b == tFalse {
			return c
		}
		if a == tFalse && b == tTrue {
			return tNot(c)
		}
		if a == tTrue {
			return tOr(c, b)
		}
		if a == tFalse {
			return tAnd(tNot(c), b)
		}
		if b == tTrue {
			return tOr(tNot(c), a)
		}
		if b == tFalse {
			return tAnd(c, a)
		}
	}
	if a.op == "ite" && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == "ite" && b.args[0] == c {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	// pull out a common linear part so that accumulators stay recognisable
	if a.sort == SInt && (a.op == "lin" || b.op == "lin") {
		if com, da, db, ok := linCommon(a, b); ok {
			return tAdd(com, tIte(c, da, db))
		}
	}
	return opT("ite", a.sort, c, a, b)
}

func tEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("tEq sorts %s %s: %s %s", a.sort, b.sort, show(a), show(b)))
	}
	if isConst(a) && isConst(b) && a.op != "f64" && b.op != "f64" {
		return tFalse
	}
	if a.sort == SBool {
		if a == tTrue {
			return b
		}
		if b == tTrue {
			return a
		}
		if a == tFalse {
			return tNot(b)
		}
		if b == tFalse {
			return tNot(a)
		}
	}
	if isRef(a) && isRef(b) && a.sval != b.sval || isRef(a) && b.op == "int" && b.ival <= 0 || isRef(b) && a.op == "int" && a.ival <= 0 {
		return tFalse
	}
	if a.sort == SInt {
		d := tSub(a, b)
		if d.op == "int" {
			return tBool(d.ival == 0)
		}
	}
	if a.sort == SStr {
		if r, ok := strEq(a, b); ok {
			return r
		}
	}
	// ite with constant branches compared with a constant
	if b.op == "ite" && isConst(a) {
		a, b = b, a
	}
	if a.op == "ite" && isConst(b) && a.sort != SF64 {
		x, y := a.args[1], a.args[2]
		if isConst(x) || isConst(y) {
			return tIte(a.args[0], tEq(x, b), tEq(y, b))
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return opT("=", SBool, a, b)
}

// strEq decides or simplifies the equality of strings with constant beginnings.
func strEq(a, b *Term) (*Term, bool) {
	if isConst(a) {
		a, b = b, a
	}
	ha, ra, oka := constHead(a)
	if b.op == "str" {
		if oka {
			if !strings.HasPrefix(b.sval, ha) {
				return tFalse, true
			}
			return tEq(ra, tStr(b.sval[len(ha):])), true
		}
		if a.op == "str.++" {
			if l := a.args[len(a.args)-1]; l.op == "str" {
				if !strings.HasSuffix(b.sval, l.sval) {
					return tFalse, true
				}
				return tEq(tConcat(a.args[:len(a.args)-1]...), tStr(b.sval[:len(b.sval)-len(l.sval)])), true
			}
		}
		return nil, false
	}
	hb, rb, okb := constHead(b)
	if oka && okb {
		n := min(len(ha), len(hb))
		if ha[:n] != hb[:n] {
			return tFalse, true
		}
		return tEq(tConcat(tStr(ha[n:]), ra), tConcat(tStr(hb[n:]), rb)), true
	}
	return nil, false
}

func tNe(a, b *Term) *Term { return tNot(tEq(a, b)) }

// ---------------------------------------------------------------- integers

type linForm struct {
	c  map[*Term]int64
	k  int64
	no bool
}

func toLin(t *Term) linForm {
	switch t.op {
	case "int":
		return linForm{c: map[*Term]int64{}, k: t.ival}
	case "lin":
		m := map[*Term]int64{}
		for i, a := range t.args {
			m[a] = t.coefs[i]
		}
		return linForm{c: m, k: t.ival}
	}
	return linForm{c: map[*Term]int64{t: 1}}
}

func fromLin(l linForm) *Term {
	var ks []*Term
	for t, c := range l.c {
		if c != 0 {
			ks = append(ks, t)
		}
	}
	if len(ks) == 0 {
		return tInt(l.k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	if len(ks) == 1 && l.c[ks[0]] == 1 && l.k == 0 {
		return ks[0]
	}
	cs := make([]int64, len(ks))
	for i, k := range ks {
		cs[i] = l.c[k]
	}
	return mk(Term{op: "lin", args: ks, coefs: cs, ival: l.k, sort: SInt})
}

func linCommon(a, b *Term) (com, da, db *Term, ok bool) {
	la, lb := toLin(a), toLin(b)
	c := map[*Term]int64{}
	for t, k := range la.c {
		if lb.c[t] == k {
			c[t] = k
		}
	}
	if len(c) == 0 {
		return nil, nil, nil, false
	}
	com = fromLin(linForm{c: c})
	return com, tSub(a, com), tSub(b, com), true
}

func tAdd(a, b *Term) *Term { return linComb(a, 1, b) }
func tSub(a, b *Term) *Term { return linComb(a, -1, b) }
func linComb(a *Term, s int64, b *Term) *Term {
	la, lb := toLin(a), toLin(b)
	for t, c := range lb.c {
		la.c[t] += s * c
	}
	la.k += s * lb.k
	return fromLin(la)
}
func tMul(a, b *Term) *Term {
	if a.op != "int" {
		a, b = b, a
	}
	if a.op == "int" {
		l := toLin(b)
		for t := range l.c {
			l.c[t] *= a.ival
		}
		l.k *= a.ival
		return fromLin(l)
	}
	return opT("*", SInt, a, b)
}
// isRef: an object allocated at one place of the unit. Different places
// allocate different objects, none of which existed at the unit's start.
func isRef(t *Term) bool { return t.op == "app" && strings.HasPrefix(t.sval, "ref_") }

func tLe(a, b *Term) *Term {
	if isRef(a) && b.op == "app" && b.sval == "alloc0" {
		return tFalse
	}
	if isRef(b) && (a.op == "app" && a.sval == "alloc0" || a.op == "int" && a.ival <= 1) {
		return tTrue
	}
	d := tSub(b, a)
	if d.op == "int" {
		return tBool(d.ival >= 0)
	}
	if d.op == "str.len" {
		return tTrue
	}
	if d.op == "lin" {
		ok := d.ival >= 0
		for i, x := range d.args {
			if x.op != "str.len" || d.coefs[i] < 0 {
				ok = false
			}
		}
		if ok {
			return tTrue
		}
	}
	return opT("<=", SBool, a, b)
}
func tLt(a, b *Term) *Term { return tNot(tLe(b, a)) }
func tGe(a, b *Term) *Term { return tLe(b, a) }
func tGt(a, b *Term) *Term { return tLt(b, a) }

// ---------------------------------------------------------------- arrays

func tSelect(a, i *Term) *Term {
	_, vs := splitArr(a.sort)
	for {
		switch a.op {
		case "store":
			e := tEq(a.args[1], i)
			if e == tTrue {
				return a.args[2]
			}
			if e == tFalse {
				a = a.args[0]
				continue
			}
		case "constarr":
			return a.args[0]
		case "ite":
			x, y := tSelect(a.args[1], i), tSelect(a.args[2], i)
			if x == y {
				return x
			}
		}
		return opT("select", vs, a, i)
	}
}

func tStore(a, i, v *Term) *Term {
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	return opT("store", a.sort, a, i, v)
}

func constArr(s Sort, v *Term) *Term { return mk(Term{op: "constarr", sort: s, args: []*Term{v}}) }

// ---------------------------------------------------------------- strings

func tLen(s *Term) *Term {
	switch s.op {
	case "str":
		return tInt(int64(len(s.sval)))
	case "str.++":
		r := tInt(0)
		for _, a := range s.args {
			r = tAdd(r, tLen(a))
		}
		return r
	}
	return opT("str.len", SInt, s)
}

func tConcat(xs ...*Term) *Term {
	var out []*Term
	for _, x := range xs {
		if x.op == "str" && x.sval == "" {
			continue
		}
		if x.op == "str.++" {
			for _, y := range x.args {
				out = catAppend(out, y)
			}
			continue
		}
		out = catAppend(out, x)
	}
	if len(out) == 0 {
		return tStr("")
	}
	if len(out) == 1 {
		return out[0]
	}
	return opT("str.++", SStr, out...)
}

func catAppend(out []*Term, x *Term) []*Term {
	if n := len(out); n > 0 && x.op == "str" && out[n-1].op == "str" {
		out[n-1] = tStr(out[n-1].sval + x.sval)
		return out
	}
	return append(out, x)
}

func tSubstr(s, lo, n *Term) *Term {
	if s.op == "str" && lo.op == "int" && n.op == "int" {
		l := int64(len(s.sval))
		if lo.ival < 0 || lo.ival >= l || n.ival <= 0 {
			return tStr("")
		}
		e := lo.ival + n.ival
		if e > l {
			e = l
		}
		return tStr(s.sval[lo.ival:e])
	}
	if lo.op == "int" && lo.ival == 0 && n == tLen(s) {
		return s
	}
	if n.op == "int" && n.ival <= 0 {
		return tStr("")
	}
	if head, rest, ok := constHead(s); ok && lo.op == "int" && lo.ival >= 0 {
		l := int64(len(head))
		switch {
		case lo.ival <= l && n == tSub(tLen(s), lo):
			return tConcat(tStr(head[lo.ival:]), rest)
		case lo.ival >= l:
			return tSubstr(rest, tInt(lo.ival-l), n)
		case n.op == "int" && lo.ival+n.ival <= l:
			return tStr(head[lo.ival : lo.ival+n.ival])
		}
	}
	return opT("str.substr", SStr, s, lo, n)
}

// constHead splits a string into its constant beginning and the rest.
func constHead(s *Term) (string, *Term, bool) {
	if s.op == "str.++" && s.args[0].op == "str" {
		return s.args[0].sval, tConcat(s.args[1:]...), true
	}
	return "", nil, false
}

func tAt(s, i *Term) *Term {
	if i.op == "int" && i.ival >= 0 {
		if s.op == "str" {
			if i.ival < int64(len(s.sval)) {
				return tStr(s.sval[i.ival : i.ival+1])
			}
			return tStr("")
		}
		if head, rest, ok := constHead(s); ok {
			if i.ival < int64(len(head)) {
				return tStr(head[i.ival : i.ival+1])
			}
			return tAt(rest, tInt(i.ival-int64(len(head))))
		}
	}
	return opT("str.at", SStr, s, i)
}

// tPrefix: s starts with p.
func tPrefix(p, s *Term) *Term {
	if p == s || p.op == "str" && p.sval == "" {
		return tTrue
	}
	if p.op == "str" && s.op == "str" {
		return tBool(strings.HasPrefix(s.sval, p.sval))
	}
	if head, rest, ok := constHead(s); ok && p.op == "str" {
		if len(p.sval) <= len(head) {
			return tBool(strings.HasPrefix(head, p.sval))
		}
		if !strings.HasPrefix(p.sval, head) {
			return tFalse
		}
		return tPrefix(tStr(p.sval[len(head):]), rest)
	}
	return opT("str.prefixof", SBool, p, s)
}

// tSuffix: s ends with p.
func tSuffix(p, s *Term) *Term {
	if p == s || p.op == "str" && p.sval == "" {
		return tTrue
	}
	if p.op == "str" && s.op == "str" {
		return tBool(strings.HasSuffix(s.sval, p.sval))
	}
	return opT("str.suffixof", SBool, p, s)
}

// tContains: s contains x.
func tContains(s, x *Term) *Term {
	if s == x || x.op == "str" && x.sval == "" {
		return tTrue
	}
	if s.op == "str" && x.op == "str" {
		return tBool(strings.Contains(s.sval, x.sval))
	}
	if x.op == "str" && s.op == "str.++" {
		one := len(x.sval) == 1
		var parts []*Term
		for _, a := range s.args {
			if a.op == "str" {
				if strings.Contains(a.sval, x.sval) {
					return tTrue
				}
				continue
			}
			parts = append(parts, tContains(a, x))
		}
		if one {
			return tOr(parts...)
		}
	}
	return opT("str.contains", SBool, s, x)
}

// tIndexOf is the first position of x in s from position from on, -1 if none.
func tIndexOf(s, x, from *Term) *Term {
	if x.op == "str" && len(x.sval) >= 1 && from.op == "int" && from.ival == 0 {
		if s.op == "str" {
			return tInt(int64(strings.Index(s.sval, x.sval)))
		}
		if head, rest, ok := constHead(s); ok {
			if i := strings.Index(head, x.sval); i >= 0 {
				return tInt(int64(i))
			}
			if len(x.sval) == 1 {
				r := tIndexOf(rest, x, from)
				return tIte(tLt(r, tInt(0)), tInt(-1), tAdd(r, tInt(int64(len(head)))))
			}
		}
	}
	return opT("str.indexof", SInt, s, x, from)
}

// tByte is the byte of s at index i (0..255 when in range, -1 otherwise).
func tByte(s, i *Term) *Term {
	if s.op == "str" && i.op == "int" && i.ival >= 0 && i.ival < int64(len(s.sval)) {
		return tInt(int64(s.sval[i.ival]))
	}
	a := tAt(s, i)
	if a.op == "str" {
		if a.sval == "" {
			return tInt(-1)
		}
		return tInt(int64(a.sval[0]))
	}
	return opT("str.to_code", SInt, a)
}

// ---------------------------------------------------------------- quantifiers

func tForall(vs []*Term, body *Term) *Term {
	if body == tTrue || body == tFalse {
		return body
	}
	return mk(Term{op: "forall", sort: SBool, args: append([]*Term{body}, vs...)})
}
func tExists(vs []*Term, body *Term) *Term {
	if body == tTrue || body == tFalse {
		return body
	}
	return mk(Term{op: "exists", sort: SBool, args: append([]*Term{body}, vs...)})
}

// ---------------------------------------------------------------- substitution

func subst(t *Term, m map[*Term]*Term) *Term { return substM(t, m, map[*Term]*Term{}) }

func substM(t *Term, m, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	ch := false
	na := make([]*Term, len(t.args))
	for i, a := range t.args {
		na[i] = substM(a, m, memo)
		if na[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		r = rebuild(t, na)
	}
	memo[t] = r
	return r
}

func rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case "and":
		return tAnd(a...)
	case "or":
		return tOr(a...)
	case "not":
		return tNot(a[0])
	case "=>":
		return tImp(a[0], a[1])
	case "ite":
		return tIte(a[0], a[1], a[2])
	case "=":
		return tEq(a[0], a[1])
	case "<=":
		return tLe(a[0], a[1])
	case "lin":
		r := tInt(t.ival)
		for i := range a {
			r = tAdd(r, tMul(tInt(t.coefs[i]), a[i]))
		}
		return r
	case "*":
		return tMul(a[0], a[1])
	case "select":
		return tSelect(a[0], a[1])
	case "store":
		return tStore(a[0], a[1], a[2])
	case "str.len":
		return tLen(a[0])
	case "str.++":
		return tConcat(a...)
	case "str.substr":
		return tSubstr(a[0], a[1], a[2])
	case "str.prefixof":
		return tPrefix(a[0], a[1])
	case "str.suffixof":
		return tSuffix(a[0], a[1])
	case "str.contains":
		return tContains(a[0], a[1])
	case "str.indexof":
		return tIndexOf(a[0], a[1], a[2])
	case "str.at":
		return tAt(a[0], a[1])
	case "str.to_code":
		if a[0].op == "str" && len(a[0].sval) == 1 {
			return tInt(int64(a[0].sval[0]))
		}
		if a[0].op == "str" {
			return tInt(-1)
		}
	case "forall":
		return tForall(a[1:], a[0])
	case "exists":
		return tExists(a[1:], a[0])
	}
	n := *t
	n.args = a
	n.id = 0
	n.open = false
	n.quant = false
	return mk(n)
}

// occurs reports whether any term of set occurs in t.
func occurs(t *Term, set map[*Term]bool) bool { return occursM(t, set, map[*Term]bool{}) }
func occursM(t *Term, set, seen map[*Term]bool) bool {
	if set[t] {
		return true
	}
	if len(t.args) == 0 || seen[t] {
		return false
	}
	seen[t] = true
	for _, a := range t.args {
		if occursM(a, set, seen) {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- printing

func smtStr(s string) string {
	var sb strings.Builder
	sb.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c >= 32 && c < 127 && c != '"' && c != '\\' {
			sb.WriteByte(c)
		} else {
			fmt.Fprintf(&sb, "\\u{%x}", c)
		}
	}
	sb.WriteByte('"')
	return sb.String()
}

func smtInt(n int64) string {
	if n < 0 {
		if n == -1<<63 {
			return "(- 9223372036854775808)"
		}
		return fmt.Sprintf("(- %d)", -n)
	}
	return strconv.FormatInt(n, 10)
}

func sym(s string) string {
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.IndexByte("_.!$-", c) >= 0) {
			return "|" + strings.ReplaceAll(s, "|", "!") + "|"
		}
	}
	return s
}

type printer struct {
	sb    strings.Builder
	names map[*Term]string
	refs  map[*Term]int
	decl  map[string]bool
}

func newPrinter() *printer {
	return &printer{names: map[*Term]string{}, refs: map[*Term]int{}, decl: map[string]bool{}}
}

func (p *printer) count(t *Term) {
	p.refs[t]++
	if p.refs[t] > 1 {
		return
	}
	if t.op == "app" && !p.decl[t.sval] {
		p.decl[t.sval] = true
		fmt.Fprintf(&p.sb, "(declare-fun %s %s)\n", sym(t.sval), funDecls[t.sval])
	}
	for _, a := range t.args {
		p.count(a)
	}
}

// define emits define-funs for the shared closed subterms of t and returns
// the text of t.
func (p *printer) define(t *Term) {
	if len(t.args) == 0 {
		return
	}
	if _, ok := p.names[t]; ok {
		return
	}
	p.names[t] = ""
	for _, a := range t.args {
		p.define(a)
	}
	if t.open || p.refs[t] < 2 || t.size < 3 {
		return
	}
	n := fmt.Sprintf("t!%d", t.id)
	txt := p.text(t)
	fmt.Fprintf(&p.sb, "(define-fun %s () %s %s)\n", n, t.sort, txt)
	p.names[t] = n
}

func (p *printer) text(t *Term) string {
	if n := p.names[t]; n != "" {
		return n
	}
	switch t.op {
	case "true", "false":
		return t.op
	case "int":
		return smtInt(t.ival)
	case "str":
		return smtStr(t.sval)
	case "f64":
		return t.sval
	case "bvar":
		return sym(t.sval)
	case "app":
		if len(t.args) == 0 {
			return sym(t.sval)
		}
		var sb strings.Builder
		sb.WriteString("(" + sym(t.sval))
		for _, a := range t.args {
			sb.WriteString(" " + p.text(a))
		}
		sb.WriteString(")")
		return sb.String()
	case "constarr":
		return "((as const " + string(t.sort) + ") " + p.text(t.args[0]) + ")"
	case "lin":
		var sb strings.Builder
		sb.WriteString("(+ " + smtInt(t.ival))
		for i, a := range t.args {
			if t.coefs[i] == 1 {
				sb.WriteString(" " + p.text(a))
			} else {
				sb.WriteString(" (* " + smtInt(t.coefs[i]) + " " + p.text(a) + ")")
			}
		}
		sb.WriteString(")")
		return sb.String()
	case "forall", "exists":
		var sb strings.Builder
		sb.WriteString("(" + t.op + " (")
		for _, v := range t.args[1:] {
			sb.WriteString("(" + sym(v.sval) + " " + string(v.sort) + ")")
		}
		sb.WriteString(") " + p.text(t.args[0]) + ")")
		return sb.String()
	}
	var sb strings.Builder
	sb.WriteString("(" + t.op)
	for _, a := range t.args {
		sb.WriteString(" " + p.text(a))
	}
	sb.WriteString(")")
	return sb.String()
}

func show(t *Term) string {
	var sb strings.Builder
	lim := 600
	if v := os.Getenv("VF_SHOW"); v != "" {
		fmt.Sscan(v, &lim)
	}
	var rec func(t *Term)
	rec = func(t *Term) {
		if sb.Len() > lim {
			return
		}
		switch {
		case t.op == "int":
			fmt.Fprint(&sb, t.ival)
		case len(t.args) == 0:
			sb.WriteString(t.op + ":" + t.sval)
		default:
			sb.WriteString("(" + t.op)
			if t.sval != "" {
				sb.WriteString(":" + t.sval)
			}
			for _, a := range t.args {
				sb.WriteString(" ")
				rec(a)
			}
			sb.WriteString(")")
		}
	}
	rec(t)
	s := sb.String()
	if len(s) > lim {
		s = s[:lim] + "…"
	}
	return s
}

func hasQuant(t *Term) bool { return t.quant }
