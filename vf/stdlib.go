package main

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp/syntax"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const errTag = 900001

func (ex *Exec) newError(hint string) IfaceV {
	v := ex.fresh("err_"+hint, SInt)
	ex.assumeTop(tGt(v, tInt(0)))
	return IfaceV{tInt(errTag), v}
}

var nilErr = IfaceV{tInt(0), tInt(0)}

func wsRe() *Term {
	return reUnionChars("\t\n\v\f\r ")
}

func reUnionChars(cs string) *Term {
	var xs []*Term
	for i := 0; i < len(cs); i++ {
		xs = append(xs, opT("str.to_re", "RegLan", tStr(cs[i:i+1])))
	}
	if len(xs) == 1 {
		return xs[0]
	}
	return opT("re.union", "RegLan", xs...)
}

func reStar(r *Term) *Term { return opT("re.*", "RegLan", r) }
func rePlus(r *Term) *Term { return opT("re.+", "RegLan", r) }
func inRe(s, r *Term) *Term {
	return opT("str.in_re", SBool, s, r)
}

// regex translates a Go regular expression (anchored, over bytes).
func (ex *Exec) regex(p string) *Term {
	re, err := syntax.Parse(p, syntax.Perl&^syntax.UnicodeGroups)
	if err != nil {
		ex.unsup("regular expression %q", p)
		return opT("re.none", "RegLan")
	}
	return ex.re(re.Simplify())
}

func (ex *Exec) re(r *syntax.Regexp) *Term {
	sub := func() []*Term {
		var out []*Term
		for _, s := range r.Sub {
			out = append(out, ex.re(s))
		}
		return out
	}
	switch r.Op {
	case syntax.OpLiteral:
		return opT("str.to_re", "RegLan", tStr(string(r.Rune)))
	case syntax.OpCharClass:
		var xs []*Term
		for i := 0; i+1 < len(r.Rune); i += 2 {
			hi := r.Rune[i+1]
			if hi > 255 {
				hi = 255
			}
			if r.Rune[i] > 255 {
				continue
			}
			xs = append(xs, opT("re.range", "RegLan", tStr(string([]byte{byte(r.Rune[i])})), tStr(string([]byte{byte(hi)}))))
		}
		if len(xs) == 1 {
			return xs[0]
		}
		return opT("re.union", "RegLan", xs...)
	case syntax.OpStar:
		return reStar(sub()[0])
	case syntax.OpPlus:
		return rePlus(sub()[0])
	case syntax.OpQuest:
		return opT("re.opt", "RegLan", sub()[0])
	case syntax.OpConcat:
		return opT("re.++", "RegLan", sub()...)
	case syntax.OpAlternate:
		return opT("re.union", "RegLan", sub()...)
	case syntax.OpCapture:
		return sub()[0]
	case syntax.OpAnyChar, syntax.OpAnyCharNotNL:
		return opT("re.allchar", "RegLan")
	case syntax.OpEmptyMatch, syntax.OpBeginText, syntax.OpEndText, syntax.OpBeginLine, syntax.OpEndLine:
		return opT("str.to_re", "RegLan", tStr(""))
	}
	ex.unsup("regular expression operator %v", r.Op)
	return opT("re.none", "RegLan")
}

func (ex *Exec) asciiStr(s *Term) *Term {
	return inRe(s, reStar(opT("re.range", "RegLan", tStr("\x00"), tStr("\x7f"))))
}

// trimmed models strings.Trim-like functions: s = a ++ r ++ b.
func (ex *Exec) trimmed(s *Term, cut *Term, left, right bool, exactIf *Term) *Term {
	if s.op == "str" {
		// evaluated by callers when constant
	}
	r := ex.fresh("trim", SStr)
	a, b := tStr(""), tStr("")
	if left {
		a = ex.fresh("trimL", SStr)
	}
	if right {
		b = ex.fresh("trimR", SStr)
	}
	ex.assume(tEq(s, tConcat(a, r, b)))
	if left {
		ex.assume(tImp(exactIf, inRe(a, reStar(cut))))
		ex.assume(tOr(tEq(r, tStr("")), tNot(inRe(opT("str.at", SStr, r, tInt(0)), cut))))
	}
	if right {
		ex.assume(tImp(exactIf, inRe(b, reStar(cut))))
		ex.assume(tOr(tEq(r, tStr("")), tNot(inRe(opT("str.at", SStr, r, tSub(tLen(r), tInt(1))), cut))))
	}
	if left && right {
		ex.assume(tImp(tEq(r, tStr("")), tEq(b, tStr(""))))
	}
	return r
}

func (ex *Exec) lastIndex(s, sub *Term) *Term {
	r := ex.fresh("lastidx", SInt)
	has := tContains(s, sub)
	rest := tSubstr(s, tAdd(r, tInt(1)), tSub(tLen(s), tAdd(r, tInt(1))))
	ex.assume(tIte(has,
		tAnd(tLe(tInt(0), r), tLe(tAdd(r, tLen(sub)), tLen(s)), tEq(tSubstr(s, r, tLen(sub)), sub),
			tImp(tGt(tLen(sub), tInt(0)), tNot(tContains(rest, sub)))),
		tEq(r, tInt(-1))))
	return r
}

func classRune(name string, r *Term, ascii *Term) *Term {
	return tIte(tAnd(tLe(tInt(0), r), tLt(r, tInt(128))), ascii, app("unicode."+name, SBool, r))
}

func between(r *Term, lo, hi byte) *Term {
	return tAnd(tLe(tInt(int64(lo)), r), tLe(r, tInt(int64(hi))))
}

// stdlib models library functions. The models are trusted (listed in the
// evidence); each states only facts the library documents.
func (ex *Exec) stdlib(full string, fn *ssa.Function, args []Val, pos token.Pos) (Val, bool) {
	if i := strings.Index(full, "["); i > 0 {
		full = full[:i]
	}
	str := func(i int) *Term { t, _ := args[i].(*Term); return t }
	used := func(v Val) (Val, bool) {
		ex.trusted["model of "+full] = true
		return v, true
	}
	switch full {
	case "strings.HasPrefix":
		return used(tPrefix(str(1), str(0)))
	case "strings.HasSuffix":
		return used(tSuffix(str(1), str(0)))
	case "strings.Contains":
		return used(tContains(str(0), str(1)))
	case "strings.ContainsRune":
		if str(1).op == "int" {
			return used(tContains(str(0), tStr(string(rune(str(1).ival)))))
		}
	case "strings.ContainsAny":
		if str(1).op == "str" {
			var xs []*Term
			ok := true
			for i := 0; i < len(str(1).sval); i++ {
				if str(1).sval[i] >= 128 {
					ok = false
				}
				xs = append(xs, tContains(str(0), tStr(str(1).sval[i:i+1])))
			}
			if ok {
				return used(tOr(xs...))
			}
		}
	case "strings.Index":
		return used(tIndexOf(str(0), str(1), tInt(0)))
	case "strings.IndexByte":
		c := str(1)
		cs := opT("str.from_code", SStr, c)
		if c.op == "int" {
			cs = tStr(string([]byte{byte(c.ival)}))
		}
		return used(tIndexOf(str(0), cs, tInt(0)))
	case "strings.IndexRune":
		if c := str(1); c.op == "int" {
			return used(tIndexOf(str(0), tStr(string(rune(c.ival))), tInt(0)))
		}
	case "strings.LastIndex":
		return used(ex.lastIndex(str(0), str(1)))
	case "strings.LastIndexByte":
		if c := str(1); c.op == "int" {
			return used(ex.lastIndex(str(0), tStr(string([]byte{byte(c.ival)}))))
		}
	case "strings.TrimPrefix":
		return used(tIte(tPrefix(str(1), str(0)), tSubstr(str(0), tLen(str(1)), tSub(tLen(str(0)), tLen(str(1)))), str(0)))
	case "strings.TrimSuffix":
		return used(tIte(tSuffix(str(1), str(0)), tSubstr(str(0), tInt(0), tSub(tLen(str(0)), tLen(str(1)))), str(0)))
	case "strings.CutPrefix":
		h := tPrefix(str(1), str(0))
		return used(TupleV{tIte(h, tSubstr(str(0), tLen(str(1)), tSub(tLen(str(0)), tLen(str(1)))), str(0)), h})
	case "strings.CutSuffix":
		h := tSuffix(str(1), str(0))
		return used(TupleV{tIte(h, tSubstr(str(0), tInt(0), tSub(tLen(str(0)), tLen(str(1)))), str(0)), h})
	case "strings.Cut":
		s, sep := str(0), str(1)
		i := tIndexOf(s, sep, tInt(0))
		f := tLe(tInt(0), i)
		j := tAdd(i, tLen(sep))
		return used(TupleV{tIte(f, tSubstr(s, tInt(0), i), s), tIte(f, tSubstr(s, j, tSub(tLen(s), j)), tStr("")), f})
	case "strings.TrimSpace":
		if str(0).op == "str" {
			return used(tStr(strings.TrimSpace(str(0).sval)))
		}
		return used(ex.pureStr("strings.TrimSpace", str(0), func() *Term { return ex.trimmed(str(0), wsRe(), true, true, ex.asciiStr(str(0))) }))
	case "strings.Trim", "strings.TrimLeft", "strings.TrimRight":
		if str(1).op == "str" && str(1).sval != "" && isASCII(str(1).sval) {
			return used(ex.trimmed(str(0), reUnionChars(str(1).sval), full != "strings.TrimRight", full != "strings.TrimLeft", tTrue))
		}
	case "strings.ToLower", "strings.ToUpper":
		if str(0).op == "str" {
			if full == "strings.ToLower" {
				return used(tStr(strings.ToLower(str(0).sval)))
			}
			return used(tStr(strings.ToUpper(str(0).sval)))
		}
		r := app(full, SStr, str(0))
		ex.assume(tEq(tEq(r, tStr("")), tEq(str(0), tStr(""))))
		ex.assume(tEq(app(full, SStr, r), r))
		return used(r)
	case "strings.EqualFold":
		r := app(full, SBool, str(0), str(1))
		ex.assume(tImp(tEq(str(0), str(1)), r))
		ex.assume(tEq(r, app(full, SBool, str(1), str(0))))
		return used(r)
	case "strings.ReplaceAll":
		return used(tIte(tEq(str(1), tStr("")), app("strings.ReplaceAll", SStr, str(0), str(1), str(2)), opT("str.replace_all", SStr, str(0), str(1), str(2))))
	case "strings.Replace":
		if n := str(3); n.op == "int" && str(1).op == "str" && str(1).sval != "" {
			if n.ival < 0 {
				return used(opT("str.replace_all", SStr, str(0), str(1), str(2)))
			}
			if n.ival == 1 {
				return used(opT("str.replace", SStr, str(0), str(1), str(2)))
			}
		}
	case "strings.Repeat":
		r := app(full, SStr, str(0), str(1))
		ex.safety("strings.Repeat count", pos, tLe(tInt(0), str(1)))
		ex.assume(tEq(tLen(r), opT("*", SInt, tLen(str(0)), str(1))))
		return used(r)
	case "strings.Split", "strings.SplitN":
		if full == "strings.SplitN" && !(str(2).op == "int") {
			break
		}
		r := ex.havocVal("split", fn.Signature.Results().At(0).Type()).(SliceV)
		s, sep := str(0), str(1)
		n := 0
		if full == "strings.SplitN" {
			n = int(str(2).ival)
			if n <= 0 {
				break
			}
			ex.assume(tLe(r.len, tInt(int64(n))))
		}
		el := func(i *Term) *Term {
			return tSelect(tSelect(ex.hget("M|string", arrSort(SInt, arrSort(SInt, SStr))), r.base), tAdd(r.off, i))
		}
		ex.assume(tImp(tGt(tLen(sep), tInt(0)), tAnd(tLe(tInt(1), r.len), tNe(r.base, tInt(0)))))
		idx := tIndexOf(s, sep, tInt(0))
		if n != 1 {
			ex.assume(tImp(tGt(tLen(sep), tInt(0)), tEq(tEq(r.len, tInt(1)), tLt(idx, tInt(0)))))
		}
		first := tIte(tAnd(tLe(tInt(0), idx), tGt(r.len, tInt(1))), tSubstr(s, tInt(0), idx), s)
		ex.assume(tImp(tGt(tLen(sep), tInt(0)), tEq(el(tInt(0)), first)))
		j := tAdd(idx, tLen(sep))
		rest := tSubstr(s, j, tSub(tLen(s), j))
		if n == 2 {
			ex.assume(tImp(tEq(r.len, tInt(2)), tEq(el(tInt(1)), rest)))
		} else {
			idx2 := tIndexOf(rest, sep, tInt(0))
			ex.assume(tImp(tAnd(tGt(tLen(sep), tInt(0)), tEq(r.len, tInt(2))), tAnd(tEq(el(tInt(1)), rest), tLt(idx2, tInt(0)))))
			if n == 0 {
				ex.assume(tImp(tAnd(tGt(tLen(sep), tInt(0)), tLe(tInt(0), idx), tLt(idx2, tInt(0))), tEq(r.len, tInt(2))))
				ex.assume(tImp(tAnd(tGt(tLen(sep), tInt(0)), tGt(r.len, tInt(2))), tEq(el(tInt(1)), tSubstr(rest, tInt(0), idx2))))
			}
		}
		return used(r)
	case "strings.Fields":
		return used(ex.havocVal("fields", fn.Signature.Results().At(0).Type()))
	case "strings.Join":
		s, ok := args[0].(SliceV)
		if ok {
			if p := ex.provOf(s); p.kind == "lit" && len(p.vals) > 0 {
				var xs []*Term
				for i, v := range p.vals {
					if i > 0 {
						xs = append(xs, str(1))
					}
					xs = append(xs, v.(*Term))
				}
				return used(tConcat(xs...))
			}
			arr := tSelect(ex.hget("M|string", arrSort(SInt, arrSort(SInt, SStr))), s.base)
			r := app("strings.Join", SStr, arr, s.off, s.len, str(1))
			ex.assume(tImp(tEq(s.len, tInt(0)), tEq(r, tStr(""))))
			ex.assume(tImp(tEq(s.len, tInt(1)), tEq(r, tSelect(arr, s.off))))
			return used(r)
		}
	case "strings.Count":
		r := app(full, SInt, str(0), str(1))
		ex.assume(tAnd(tLe(tInt(0), r), tImp(tGt(tLen(str(1)), tInt(0)), tEq(tEq(r, tInt(0)), tNot(tContains(str(0), str(1)))))))
		return used(r)
	case "strconv.Itoa":
		n := str(0)
		return used(tIte(tLe(tInt(0), n), opT("str.from_int", SStr, n), tConcat(tStr("-"), opT("str.from_int", SStr, tSub(tInt(0), n)))))
	case "strconv.FormatInt":
		if b := str(1); b.op == "int" && b.ival == 10 {
			n := str(0)
			return used(tIte(tLe(tInt(0), n), opT("str.from_int", SStr, n), tConcat(tStr("-"), opT("str.from_int", SStr, tSub(tInt(0), n)))))
		}
	case "strconv.Atoi", "strconv.ParseInt", "strconv.ParseUint":
		s := str(0)
		if full != "strconv.Atoi" && !(str(1).op == "int" && str(1).ival == 10) {
			break
		}
		v := app(full+".v", SInt, s)
		okb := app(full+".ok", SBool, s)
		dig := opT("re.range", "RegLan", tStr("0"), tStr("9"))
		wf := rePlus(dig)
		if full != "strconv.ParseUint" {
			wf = opT("re.++", "RegLan", opT("re.opt", "RegLan", reUnionChars("+-")), rePlus(dig))
		}
		ex.assume(tImp(okb, inRe(s, wf)))
		ex.assume(tImp(tAnd(inRe(s, rePlus(dig)), tLe(tLen(s), tInt(18))), tAnd(okb, tEq(v, opT("str.to_int", SInt, s)))))
		ex.assume(tImp(tAnd(okb, inRe(s, rePlus(dig))), tEq(v, opT("str.to_int", SInt, s))))
		if full == "strconv.ParseUint" {
			ex.assume(tImp(okb, tLe(tInt(0), v)))
		}
		e := ex.newError("strconv")
		return used(TupleV{v, IfaceV{tIte(okb, tInt(0), e.tag), tIte(okb, tInt(0), e.val)}})
	case "strconv.ParseFloat":
		okb := app("strconv.ParseFloat.ok", SBool, str(0))
		e := ex.newError("strconv")
		return used(TupleV{app("strconv.ParseFloat.v", SF64, str(0)), IfaceV{tIte(okb, tInt(0), e.tag), tIte(okb, tInt(0), e.val)}})
	case "strconv.ParseBool":
		s := str(0)
		is := func(vs ...string) *Term {
			var xs []*Term
			for _, v := range vs {
				xs = append(xs, tEq(s, tStr(v)))
			}
			return tOr(xs...)
		}
		tr, fa := is("1", "t", "T", "TRUE", "true", "True"), is("0", "f", "F", "FALSE", "false", "False")
		e := ex.newError("strconv")
		okb := tOr(tr, fa)
		return used(TupleV{tr, IfaceV{tIte(okb, tInt(0), e.tag), tIte(okb, tInt(0), e.val)}})
	case "strconv.Quote", "strconv.FormatBool", "strconv.FormatFloat", "strings.Title", "strings.ToTitle":
		if full == "strconv.FormatBool" {
			return used(tIte(args[0].(*Term), tStr("true"), tStr("false")))
		}
		var as []*Term
		for i, a := range args {
			as = append(as, ex.toLeaves(a, fn.Params[i].Type())...)
		}
		return used(app(full, SStr, as...))
	case "fmt.Errorf", "errors.New":
		return used(ex.newError("new"))
	case "fmt.Sprintf":
		return used(ex.sprintf(args))
	case "fmt.Sprint":
		return used(ex.fresh("sprint", SStr))
	case "errors.Is":
		e, t := args[0].(IfaceV), args[1].(IfaceV)
		r := app("errors.Is", SBool, e.tag, e.val, t.tag, t.val)
		ex.assume(tImp(tAnd(tEq(e.tag, t.tag), tEq(e.val, t.val)), r))
		ex.assume(tImp(tAnd(tEq(e.tag, tInt(0)), tNe(t.tag, tInt(0))), tNot(r)))
		return used(r)
	case "errors.Join":
		s, ok := args[0].(SliceV)
		if ok {
			e := ex.newError("join")
			z := tEq(s.len, tInt(0))
			nn := ex.fresh("joinnil", SBool)
			ex.assume(tImp(z, nn))
			return used(IfaceV{tIte(nn, tInt(0), e.tag), tIte(nn, tInt(0), e.val)})
		}
	case "sync.Mutex_Lock", "sync.Mutex_Unlock", "sync.RWMutex_Lock", "sync.RWMutex_Unlock", "sync.RWMutex_RLock", "sync.RWMutex_RUnlock":
		return used(TupleV{})
	case "unicode.IsLetter":
		r := str(0)
		return used(classRune("IsLetter", r, tOr(between(r, 'a', 'z'), between(r, 'A', 'Z'))))
	case "unicode.IsDigit", "unicode.IsNumber":
		r := str(0)
		return used(classRune(full[8:], r, between(r, '0', '9')))
	case "unicode.IsUpper":
		r := str(0)
		return used(classRune("IsUpper", r, between(r, 'A', 'Z')))
	case "unicode.IsLower":
		r := str(0)
		return used(classRune("IsLower", r, between(r, 'a', 'z')))
	case "unicode.IsSpace":
		r := str(0)
		return used(classRune("IsSpace", r, tOr(between(r, 9, 13), tEq(r, tInt(32)))))
	case "unicode.ToUpper":
		r := str(0)
		return used(tIte(tAnd(tLe(tInt(0), r), tLt(r, tInt(128))), tIte(between(r, 'a', 'z'), tSub(r, tInt(32)), r), app("unicode.ToUpper", SInt, r)))
	case "unicode.ToLower":
		r := str(0)
		return used(tIte(tAnd(tLe(tInt(0), r), tLt(r, tInt(128))), tIte(between(r, 'A', 'Z'), tAdd(r, tInt(32)), r), app("unicode.ToLower", SInt, r)))
	case "unicode/utf8.RuneCountInString":
		r := app(full, SInt, str(0))
		ex.assume(tAnd(tLe(tInt(0), r), tLe(r, tLen(str(0))), tLe(tLen(str(0)), tMul(tInt(4), r))))
		return used(r)
	case "unicode/utf8.ValidString":
		return used(app(full, SBool, str(0)))
	case "unicode/utf8.RuneStart":
		b := str(0)
		return used(tNot(tAnd(tLe(tInt(128), b), tLt(b, tInt(192)))))
	case "slices.Contains":
		s, ok := args[0].(SliceV)
		if ok {
			sl := under(fn.Params[0].Type()).(*types.Slice)
			if p := ex.provOf(s); p.kind == "lit" || p.kind == "nil" {
				var xs []*Term
				for _, v := range p.vals {
					xs = append(xs, ex.valEq(v, args[1], sl.Elem()))
				}
				return used(tOr(xs...))
			}
			if so, sc := scalarSort(sl.Elem()); sc {
				arr := tSelect(ex.hget("M|"+typeKey(sl.Elem()), arrSort(SInt, arrSort(SInt, so))), s.base)
				j := newBvar("j", SInt)
				return used(tExists([]*Term{j}, tAnd(tLe(tInt(0), j), tLt(j, s.len), tEq(tSelect(arr, tAdd(s.off, j)), args[1].(*Term)))))
			}
		}
	case "strings.Builder_WriteString", "strings.Builder_WriteByte", "strings.Builder_WriteRune":
		r := str(0)
		n := "SB|strings.Builder"
		h := ex.hget(n, arrSort(SInt, SStr))
		var add *Term
		switch full {
		case "strings.Builder_WriteString":
			add = str(1)
		case "strings.Builder_WriteByte":
			add = opT("str.from_code", SStr, str(1))
			if str(1).op == "int" {
				add = tStr(string([]byte{byte(str(1).ival)}))
			}
		default:
			if str(1).op == "int" {
				add = tStr(string(rune(str(1).ival)))
			} else {
				add = ex.runeString(str(1))
			}
		}
		ex.hset(n, arrSort(SInt, SStr), tStore(h, r, tConcat(tSelect(h, r), add)))
		if full == "strings.Builder_WriteByte" {
			return used(nilErr)
		}
		return used(TupleV{tLen(add), nilErr})
	case "strings.Builder_String":
		return used(tSelect(ex.hget("SB|strings.Builder", arrSort(SInt, SStr)), str(0)))
	case "strings.Builder_Len":
		return used(tLen(tSelect(ex.hget("SB|strings.Builder", arrSort(SInt, SStr)), str(0))))
	case "strings.Builder_Grow":
		return used(TupleV{})
	case "math.IsNaN":
		return used(opT("fp.isNaN", SBool, str(0)))
	}
	return nil, false
}

func isASCII(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 128 {
			return false
		}
	}
	return true
}

// pureStr shares the result of a deterministic string function per argument.
func (ex *Exec) pureStr(name string, s *Term, f func() *Term) *Term {
	r := f()
	u := app(name, SStr, s)
	ex.assume(tEq(u, r))
	return u
}

func (ex *Exec) sprintf(args []Val) *Term {
	f, ok := args[0].(*Term)
	s, ok2 := args[1].(SliceV)
	un := func() *Term { return ex.fresh("sprintf", SStr) }
	if !ok || f.op != "str" || !ok2 {
		return un()
	}
	p := ex.provOf(s)
	if p.kind != "lit" && p.kind != "nil" {
		return un()
	}
	var out []*Term
	k := 0
	fs := f.sval
	for i := 0; i < len(fs); i++ {
		if fs[i] != '%' {
			j := i
			for j < len(fs) && fs[j] != '%' {
				j++
			}
			out = append(out, tStr(fs[i:j]))
			i = j - 1
			continue
		}
		i++
		if i >= len(fs) {
			return un()
		}
		if fs[i] == '%' {
			out = append(out, tStr("%"))
			continue
		}
		if k >= len(p.vals) {
			return un()
		}
		iv, ok := p.vals[k].(IfaceV)
		k++
		if !ok || iv.tag.op != "int" {
			return un()
		}
		ct := ex.L.typeByID(int(iv.tag.ival))
		if ct == nil {
			return un()
		}
		b, ok := under(ct).(*types.Basic)
		if !ok {
			return un()
		}
		if n, isN := types.Unalias(ct).(*types.Named); isN && n.NumMethods() > 0 {
			return un()
		}
		v, _ := ex.unbox(iv, ct).(*Term)
		// recover the boxed term itself when it is syntactically known
		if iv.val.op == "app" && iv.val.sval == boxSym(ct) && len(iv.val.args) == 1 {
			v = iv.val.args[0]
		}
		switch {
		case (fs[i] == 's' || fs[i] == 'v') && b.Info()&types.IsString != 0:
			out = append(out, v)
		case (fs[i] == 'd' || fs[i] == 'v') && b.Info()&types.IsInteger != 0:
			out = append(out, tIte(tLe(tInt(0), v), opT("str.from_int", SStr, v), tConcat(tStr("-"), opT("str.from_int", SStr, tSub(tInt(0), v)))))
		case fs[i] == 'q' && b.Info()&types.IsString != 0:
			out = append(out, app("strconv.Quote", SStr, v))
		default:
			return un()
		}
	}
	return tConcat(out...)
}

var _ = fmt.Sprint
