package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

type solverCfg struct {
	name string
	args []string
}

var solvers = []solverCfg{
	{"z3-5", []string{"z3-new", "-smt2", "-in"}},
	{"cvc5", []string{"cvc5", "--lang=smt2", "--strings-exp", "--arrays-exp", "-"}},
	{"z3-4.8", []string{"z3", "-smt2", "-in"}},
}

// query builds the SMT-LIB text for: assumptions and not goal.
func query(assumps []*Term, neg *Term, getVals []*Term) string {
	p := newPrinter()
	all := append(append([]*Term{}, assumps...), neg)
	all = append(all, getVals...)
	for _, t := range all {
		p.count(t)
	}
	var out bytes.Buffer
	out.WriteString(p.sb.String())
	p.sb.Reset()
	for _, t := range all {
		p.define(t)
	}
	out.WriteString(p.sb.String())
	p.sb.Reset()
	for _, t := range assumps {
		out.WriteString("(assert " + p.text(t) + ")\n")
	}
	out.WriteString("(assert " + p.text(neg) + ")\n(check-sat)\n")
	for _, t := range getVals {
		out.WriteString("(get-value (" + p.text(t) + "))\n")
	}
	return out.String()
}

func runSolver(ctx context.Context, s solverCfg, text string, tmo time.Duration) (string, string) {
	args := append([]string{}, s.args[1:]...)
	pre := "(set-logic ALL)\n"
	if strings.HasPrefix(s.name, "z3") {
		args = append([]string{fmt.Sprintf("-T:%d", int(tmo.Seconds()+0.999))}, args...)
		pre = ""
	} else {
		args = append([]string{fmt.Sprintf("--tlimit=%d", tmo.Milliseconds())}, args...)
		if strings.Contains(text, "(get-value") {
			args = append([]string{"--produce-models"}, args...)
		}
	}
	c, cancel := context.WithTimeout(ctx, tmo+2*time.Second)
	defer cancel()
	cmd := exec.CommandContext(c, s.args[0], args...)
	cmd.Stdin = strings.NewReader(pre + text)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	_ = cmd.Run()
	o := out.String()
	for _, ln := range strings.Split(o, "\n") {
		ln = strings.TrimSpace(ln)
		switch ln {
		case "sat":
			if strings.Contains(strings.SplitN(o, "sat", 2)[0], "error") {
				return "unknown", o
			}
			return ln, o
		case "unsat", "unknown":
			return ln, o
		}
	}
	if strings.Contains(o, "error") && os.Getenv("VF_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, s.name, o)
	}
	return "unknown", o
}

type solveResult struct {
	status string // "unsat" "sat" "unknown"
	solver string
	out    string
	ms     int64
}

// portfolio asks all solvers in parallel; the first definite answer wins.
func portfolio(text string, tmo time.Duration, use []solverCfg) solveResult {
	start := time.Now()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	type r struct{ st, name, out string }
	ch := make(chan r, len(use))
	for _, s := range use {
		go func(s solverCfg) {
			st, out := runSolver(ctx, s, text, tmo)
			ch <- r{st, s.name, out}
		}(s)
	}
	res := solveResult{status: "unknown"}
	var outs []string
	for range use {
		x := <-ch
		if x.st == "unsat" || x.st == "sat" {
			res = solveResult{status: x.st, solver: x.name, out: x.out}
			break
		}
		outs = append(outs, x.name+": "+strings.TrimSpace(x.out))
	}
	if res.status == "unknown" {
		res.out = strings.Join(outs, "\n")
	}
	res.ms = time.Since(start).Milliseconds()
	return res
}

var (
	proveMu    sync.Mutex
	proveCache = map[string]solveResult{}
)

func dumpQuery(name, text string) {
	if d := os.Getenv("VF_DUMP"); d != "" {
		os.MkdirAll(d, 0o755)
		h := sha256.Sum256([]byte(text))
		os.WriteFile(filepath.Join(d, sane(name)+"_"+hex.EncodeToString(h[:4])+".smt2"), []byte(text), 0o644)
	}
}

// stages builds queries with growing sets of assumptions: the plain ones,
// then also those about earlier iterations, then the quantified ones. A goal
// proved from fewer assumptions is proved.
func (ex *Exec) stages(asm []Assump, ext []*Term, neg *Term, vals []*Term) []string {
	return ex.stagesOf([][3]bool{{true, false, false}, {true, true, false}, {false, false, false}, {false, true, false}, {true, true, true}, {false, true, true}}, asm, ext, neg, vals)
}

// cut is an equality between an addend of either side of a goal, tried first.
type cut struct {
	eq    *Term
	texts []string
}

// cuts splits a goal between two long sums into equalities of addends that
// read the same fields. Each is an obligation of its own; the goal must then
// follow from the proved ones by arithmetic alone.
func (ex *Exec) cuts(asm []Assump, pc, goal *Term) []cut {
	var as, bs []*Term
	var addends func(t *Term, out *[]*Term)
	addends = func(t *Term, out *[]*Term) {
		switch {
		case t.op == "lin":
			for _, a := range t.args {
				addends(a, out)
			}
		case t.op == "ite" && (t.args[1].op == "lin" && len(t.args[1].args) > 3 || t.args[2].op == "lin" && len(t.args[2].args) > 3):
			addends(t.args[1], out)
			addends(t.args[2], out)
		case t.op != "int":
			*out = append(*out, t)
		}
	}
	seen := map[*Term]bool{}
	var find func(t *Term)
	find = func(t *Term) {
		if seen[t] || t.quant {
			return
		}
		seen[t] = true
		if t.op == "=" && t.args[0].sort == SInt {
			addends(t.args[0], &as)
			addends(t.args[1], &bs)
			return
		}
		if t.sort == SBool {
			for _, a := range t.args {
				find(a)
			}
		}
	}
	find(goal)
	if len(as) < 6 || len(bs) < 6 {
		return nil
	}
	sig := func(t *Term) string {
		m := fieldSyms(t)
		l := map[*Term]bool{}
		collectSums([]*Term{t}, ex, l)
		for s := range l {
			for f := range fieldSyms(ex.sums[s.sval].loop.guard) {
				m[f] = true
			}
			if en := ex.enumByIt[ex.sums[s.sval].loop.it]; en != nil {
				for f := range fieldSyms(en.dom) {
					m[f] = true
				}
			}
		}
		// the fields of the arguments, by name
		direct := map[string]bool{}
		for k := range m {
			if i := strings.Index(k, "@"); i > 0 {
				direct[k[:i]] = true
			}
		}
		if len(direct) > 1 {
			for k := range direct {
				if strings.HasSuffix(k, ".PropertyChanges") {
					delete(direct, k)
				}
			}
		}
		if len(direct) == 0 {
			direct = m
		}
		return strings.Join(keys(direct), ",")
	}
	all := append(append([]*Term{}, as...), bs...)
	by := map[string][]*Term{}
	done := map[*Term]bool{}
	var order []string
	for _, t := range all {
		if done[t] {
			continue
		}
		done[t] = true
		k := sig(t)
		if by[k] == nil {
			order = append(order, k)
		}
		by[k] = append(by[k], t)
	}
	var out []cut
	for _, k := range order {
		l := by[k]
		if len(l) > 6 {
			continue
		}
		if len(l)%2 == 1 {
			l = append([]*Term{tInt(0)}, l...)
		}
		for i := range l {
			for j := i + 1; j < len(l); j++ {
				eq := tEq(l[i], l[j])
				out = append(out, cut{eq, ex.stagesOf([][3]bool{{true, true, false}}, asm, nil, tAnd(pc, tNot(eq)), nil)})
			}
		}
	}
	return out
}

func (ex *Exec) stagesOf(sts [][3]bool, asm []Assump, ext []*Term, neg *Term, vals []*Term) []string {
	var out []string
	seen := map[string]bool{}
	for _, st := range sts {
		strict, hist, quant := st[0], st[1], st[2]
		var as []*Term
		have := map[*Term]bool{tTrue: true}
		for _, a := range asm {
			if a.quant && !quant && !a.hist || a.hist && !hist || have[a.f] || a.ens && strict {
				continue
			}
			have[a.f] = true
			f := a.f
			if a.quant && !quant {
				if f = dropQuant(f); f == tTrue {
					continue
				}
			}
			if strict {
				if f = ex.dropAlloc(f); f == tTrue {
					continue
				}
			}
			as = append(as, f)
		}
		as = append(as, ext...)
		as = relevant(as, neg, strict)
		sks := skolems(neg)
		ex.wits = append([]*Term{}, sks...)
		lem := ex.sumLemmas(append(append([]*Term{}, as...), neg), strict)
		as = append(as, lem...)
		if (strict || hist) && !quant && len(ex.wits) > 0 {
			var inst []*Term
			for _, a := range asm {
				if a.quant && !a.hist {
					inst = append(inst, ex.instances(a.f, ex.wits, strict)...)
				} else if a.quant && hist {
					inst = append(inst, ex.instances(a.f, sks, strict)...)
				}
			}
			as = append(as, relevant(inst, tAnd(append([]*Term{neg}, lem...)...), strict)...)
		}
		q := query(as, neg, vals)
		if !seen[q] {
			seen[q] = true
			out = append(out, q)
		}
	}
	return out
}

// dropAlloc weakens a fact by leaving out its conjuncts about allocation order.
func (ex *Exec) dropAlloc(t *Term) *Term {
	if !ex.mentionsAlloc(t) {
		return t
	}
	switch t.op {
	case "and":
		var as []*Term
		for _, a := range t.args {
			as = append(as, ex.dropAlloc(a))
		}
		return tAnd(as...)
	case "=>":
		if ex.mentionsAlloc(t.args[0]) {
			return tTrue
		}
		return tImp(t.args[0], ex.dropAlloc(t.args[1]))
	}
	return tTrue
}

// skolemise names the witnesses of the existential quantifiers of a formula
// to be refuted (the universal ones of the goal).
func skolemise(t *Term, pos bool) *Term {
	if !t.quant {
		return t
	}
	switch t.op {
	case "and", "or":
		var as []*Term
		for _, a := range t.args {
			as = append(as, skolemise(a, pos))
		}
		if t.op == "and" {
			return tAnd(as...)
		}
		return tOr(as...)
	case "not":
		return tNot(skolemise(t.args[0], !pos))
	case "=>":
		return tImp(skolemise(t.args[0], !pos), skolemise(t.args[1], pos))
	case "ite":
		if !t.args[0].quant {
			return tIte(t.args[0], skolemise(t.args[1], pos), skolemise(t.args[2], pos))
		}
	case "forall", "exists":
		if (t.op == "exists") == pos && !t.open {
			m := map[*Term]*Term{}
			for _, v := range t.args[1:] {
				m[v] = app(fmt.Sprintf("sk_%d_%s", t.id, sane(v.sval)), v.sort)
			}
			return skolemise(subst(t.args[0], m), pos)
		}
	}
	return t
}

// skolems: the witness names in a formula.
func skolems(t *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "app" && strings.HasPrefix(t.sval, "sk_") {
			out = append(out, t)
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(t)
	return out
}

// instances are the instances of a single-variable universal fact at the
// witnesses of the sum lemmas.
func (ex *Exec) instances(t *Term, wits []*Term, strict bool) []*Term {
	var out []*Term
	switch {
	case !t.quant || strict && ex.mentionsAlloc(t):
	case t.op == "forall" && len(t.args) == 2 && !t.args[0].quant:
		for _, w := range wits {
			if w.sort == t.args[1].sort {
				out = append(out, subst(t.args[0], map[*Term]*Term{t.args[1]: w}))
			}
		}
	case t.op == "and":
		for _, a := range t.args {
			out = append(out, ex.instances(a, wits, strict)...)
		}
	case t.op == "=>" && !t.args[0].quant:
		for _, a := range ex.instances(t.args[1], wits, strict) {
			out = append(out, tImp(t.args[0], a))
		}
	}
	return out
}

// dropQuant weakens a fact by leaving out its quantified conjuncts.
func dropQuant(t *Term) *Term {
	if !t.quant {
		return t
	}
	switch t.op {
	case "and":
		var as []*Term
		for _, a := range t.args {
			as = append(as, dropQuant(a))
		}
		return tAnd(as...)
	case "=>":
		if t.args[0].quant {
			return tTrue
		}
		return tImp(t.args[0], dropQuant(t.args[1]))
	}
	return tTrue
}

// mentionsAlloc: the fact talks about allocation order.
func (ex *Exec) mentionsAlloc(t *Term) bool {
	if r, ok := ex.allocMemo[t]; ok {
		return r
	}
	r := t.op == "app" && t.sval != "alloc0" && strings.HasPrefix(t.sval, "alloc")
	for _, a := range t.args {
		if r {
			break
		}
		r = ex.mentionsAlloc(a)
	}
	if ex.allocMemo == nil {
		ex.allocMemo = map[*Term]bool{}
	}
	ex.allocMemo[t] = r
	return r
}

// prove tries assumps |- goal, first without the quantified background facts,
// then with them, adding the sum lemmas the query calls for.
func (ex *Exec) prove(name string, asm []Assump, extra []*Term, goal *Term, tmo time.Duration) solveResult {
	if goal == tTrue {
		return solveResult{status: "unsat", solver: "simplifier"}
	}
	var last solveResult
	var total int64
	for _, text := range ex.stages(asm, extra, tNot(goal), nil) {
		dumpQuery(name, text)
		key := text
		proveMu.Lock()
		c, ok := proveCache[key]
		proveMu.Unlock()
		if !ok {
			first := tmo
			c = portfolio(text, first, solvers)
			proveMu.Lock()
			proveCache[key] = c
			proveMu.Unlock()
		}
		total += c.ms
		last = c
		if c.status == "unsat" {
			last.ms = total
			return last
		}
	}
	last.ms = total
	return last
}

// relevant keeps the assumptions connected to the goal through shared
// uninterpreted symbols (others cannot help refute it; dropping facts is
// sound). In strict mode a read of the initial heap counts as one symbol, so
// that facts about other fields of the same object are not dragged in.
func relevant(as []*Term, goal *Term, strict bool) []*Term {
	syms := func(t *Term) map[string]bool {
		m := map[string]bool{}
		seen := map[*Term]bool{}
		var rec func(t *Term)
		rec = func(t *Term) {
			if seen[t] {
				return
			}
			seen[t] = true
			if strict && t.op == "select" && t.args[0].op == "app" && strings.HasPrefix(t.args[0].sval, "H:") {
				if !t.open {
					m[fmt.Sprintf("@%d", t.id)] = true
				} else {
					m[t.args[0].sval] = true
				}
				rec(t.args[1])
				return
			}
			if t.op == "app" && !(strict && strings.HasPrefix(t.sval, "arg_")) {
				m[t.sval] = true
			}
			for _, a := range t.args {
				rec(a)
			}
		}
		rec(t)
		return m
	}
	need := syms(goal)
	var ss []map[string]bool
	for _, a := range as {
		ss = append(ss, syms(a))
	}
	in := make([]bool, len(as))
	for ch := true; ch; {
		ch = false
		for i := range as {
			if in[i] {
				continue
			}
			hit := len(ss[i]) == 0
			for s := range ss[i] {
				if need[s] {
					hit = true
					break
				}
			}
			if hit {
				in[i] = true
				ch = true
				for s := range ss[i] {
					need[s] = true
				}
			}
		}
	}
	var out []*Term
	for i, a := range as {
		if in[i] {
			out = append(out, a)
		}
	}
	return out
}

// ---------------------------------------------------------------- sums

func collectSums(ts []*Term, ex *Exec, out map[*Term]bool) {
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "app" && !t.open {
			if _, ok := ex.sums[t.sval]; ok {
				out[t] = true
			}
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	for _, t := range ts {
		rec(t)
	}
}

func (ex *Exec) sumSubst(d *SumDef, outer []*Term, it *Term, strict bool) (map[*Term]*Term, []*Term) {
	m := map[*Term]*Term{}
	for i, o := range d.loop.outer {
		m[o] = outer[i]
	}
	m[d.loop.it] = it
	if d.rel == nil || d.nrel != len(d.loop.facts) {
		d.rel, d.nrel = relFactsOf(d), len(d.loop.facts)
	}
	var fs []*Term
	for _, f := range d.rel {
		if strict {
			if f = ex.dropAlloc(f); f == tTrue || f.quant {
				continue
			}
		}
		fs = append(fs, subst(f, m))
	}
	return m, fs
}

// sumLemmas instantiates the defining and congruence lemmas of the sums that
// occur in ts: S(0)=0; one-step unfolding; and, for pairs, pointwise-equal
// summands over the same range (or the same map) have equal sums. All of
// them hold by induction on the upper bound for every interpretation.
func (ex *Exec) sumLemmas(ts []*Term, strict bool) []*Term {
	var lem []*Term
	donePair := map[[2]*Term]bool{}
	doneOne := map[*Term]bool{}
	known := map[*Term]bool{}
	sums := func(ts []*Term) []*Term {
		m := map[*Term]bool{}
		collectSums(ts, ex, m)
		var l []*Term
		for t := range m {
			if !known[t] {
				l = append(l, t)
			}
		}
		sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
		return l
	}
	goal := sums(ts[len(ts)-1:])
	all := sums(ts)
	groups := [][]*Term{goal}
	if len(all) <= 12 {
		groups[0] = all
	}
	fresh := all
	for _, t := range all {
		known[t] = true
	}
	for round := 0; round < 4 && len(fresh) > 0; round++ {
		// base cases and unfoldings
		var unf []*Term
		for _, t := range fresh {
			if doneOne[t] {
				continue
			}
			doneOne[t] = true
			d := ex.sums[t.sval]
			k := len(t.args) - 1
			up := t.args[k]
			lem = append(lem, tImp(tEq(up, tInt(0)), tEq(t, tInt(0))))
			if up.op == "lin" && round == 0 || up.op == "int" && up.ival > 0 && up.ival < 20 {
				prev := tSub(up, tInt(1))
				m, fs := ex.sumSubst(d, t.args[:k], prev, strict)
				pt := app(t.sval, SInt, append(append([]*Term{}, t.args[:k]...), prev)...)
				if up.op == "lin" {
					doneOne[pt] = true
				}
				unf = append(unf, tImp(tGt(up, tInt(0)), tAnd(append(fs, tEq(t, tAdd(pt, subst(d.delta, m))))...)))
			}
		}
		lem = append(lem, unf...)
		var next [][]*Term
		if g := sums(unf); len(g) > 0 {
			next = append(next, g)
		}
		for _, list := range groups {
			for i := 0; i < len(list); i++ {
				for j := i + 1; j < len(list); j++ {
					x, y := list[i], list[j]
					if donePair[[2]*Term{x, y}] {
						continue
					}
					donePair[[2]*Term{x, y}] = true
					if l := ex.pairLemma(x, y, strict); l != nil {
						lem = append(lem, l)
						if g := sums([]*Term{l}); len(g) > 0 {
							next = append(next, g)
						}
					}
				}
			}
		}
		groups = next
		fresh = nil
		for _, g := range groups {
			for _, t := range g {
				if !known[t] {
					known[t] = true
					fresh = append(fresh, t)
				}
			}
		}
	}
	return lem
}

func (ex *Exec) pairLemma(x, y *Term, strict bool) *Term {
	dx, dy := ex.sums[x.sval], ex.sums[y.sval]
	if strict && (strings.HasPrefix(x.sval, "cnt:") || strings.HasPrefix(y.sval, "cnt:")) && x.args[len(x.args)-1] != y.args[len(y.args)-1] {
		fields := func(t *Term, d *SumDef) map[string]bool {
			if d.loop.guard != nil {
				return fieldSyms(d.loop.guard)
			}
			return fieldSyms(t.args[len(t.args)-1])
		}
		fy := fields(y, dy)
		common := false
		for f := range fields(x, dx) {
			common = common || fy[f] && strings.HasSuffix(f, "@")
		}
		if !common {
			return nil
		}
	}
	ex1, ey := ex.enumByIt[dx.loop.it], ex.enumByIt[dy.loop.it]
	ax, ay := x.args[:len(x.args)-1], y.args[:len(y.args)-1]
	ux, uy := x.args[len(x.args)-1], y.args[len(y.args)-1]
	w := fmt.Sprintf("w_%d_%d", x.id, y.id)
	if (ex1 == nil) != (ey == nil) {
		return nil
	}
	if dx.loop != dy.loop && ex1 == nil {
		fx, fy := fieldSyms(dx.loop.guard), fieldSyms(dy.loop.guard)
		common := len(fx) == 0 || len(fy) == 0
		for s := range fx {
			common = common || fy[s]
		}
		if !common {
			return nil
		}
	}
	if ex1 != nil && dx.loop != dy.loop {
		mx := map[*Term]*Term{}
		for k, o := range dx.loop.outer {
			mx[o] = ax[k]
		}
		my := map[*Term]*Term{}
		for k, o := range dy.loop.outer {
			my[o] = ay[k]
		}
		if subst(ex1.dom, mx) != subst(ey.dom, my) {
			return nil
		}
		key := app(w+"_k", ex1.ks)
		ex.wits = append(ex.wits, key)
		nx, ny := subst(ex1.n, mx), subst(ey.n, my)
		ix, iy := ex1.index(ax, key), ey.index(ay, key)
		sx, fx := ex.sumSubst(dx, ax, ix, strict)
		sy, fy := ex.sumSubst(dy, ay, iy, strict)
		dom := subst(ex1.dom, mx)
		cond := tAnd(append(append([]*Term{tSelect(dom, key), tLe(tInt(0), ix), tLt(ix, nx), tLe(tInt(0), iy), tLt(iy, ny),
			tEq(ex1.key(ax, ix), key), tEq(ey.key(ay, iy), key), tNe(subst(dx.delta, sx), subst(dy.delta, sy))}, fx...), fy...)...)
		return tOr(tEq(x, y), tNe(ux, nx), tNe(uy, ny), cond)
	}
	wi := app(w, SInt)
	ex.wits = append(ex.wits, wi)
	sx, fx := ex.sumSubst(dx, ax, wi, strict)
	sy, fy := ex.sumSubst(dy, ay, wi, strict)
	cond := tAnd(append(append([]*Term{tLe(tInt(0), wi), tLt(wi, ux), tNe(subst(dx.delta, sx), subst(dy.delta, sy))}, fx...), fy...)...)
	return tOr(tEq(x, y), tNe(ux, uy), cond)
}

// fieldSyms: the struct fields a loop condition reads.
func fieldSyms(t *Term) map[string]bool {
	out := map[string]bool{}
	if t == nil {
		return out
	}
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "app" && strings.HasPrefix(t.sval, "H:F|") {
			out[t.sval] = true
		}
		if t.op == "select" && t.args[0].op == "app" && strings.HasPrefix(t.args[0].sval, "H:F|") && t.args[1].op == "app" && strings.HasPrefix(t.args[1].sval, "arg_") {
			f := t.args[0].sval
			for _, x := range []string{".base", ".len", ".off"} {
				f = strings.TrimSuffix(f, x)
			}
			out[f+"@"] = true
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(t)
	return out
}

// relFactsOf: the loop facts connected to the summand through terms that
// depend on the iteration.
func relFactsOf(d *SumDef) []*Term {
	it := map[*Term]bool{d.loop.it: true}
	nodes := func(t *Term) map[*Term]bool {
		out, seen := map[*Term]bool{}, map[*Term]bool{}
		var rec func(t *Term)
		rec = func(t *Term) {
			if seen[t] {
				return
			}
			seen[t] = true
			if t.op == "app" && len(t.args) > 0 || t.op == "select" {
				if t.op == "app" && (strings.HasPrefix(t.sval, "alloc") || isRef(t)) {
					return
				}
				if occurs(t, it) {
					out[t] = true
				}
			}
			for _, a := range t.args {
				rec(a)
			}
		}
		rec(t)
		return out
	}
	need := nodes(d.delta)
	in := map[int]bool{}
	ns := make([]map[*Term]bool, len(d.loop.facts))
	for i, f := range d.loop.facts {
		ns[i] = nodes(f)
	}
	for round := 0; round < 3; round++ {
		add := map[*Term]bool{}
		for i := range d.loop.facts {
			if in[i] {
				continue
			}
			for t := range ns[i] {
				if need[t] {
					in[i] = true
					break
				}
			}
			if in[i] {
				for t := range ns[i] {
					add[t] = true
				}
			}
		}
		if len(add) == 0 {
			break
		}
		for t := range add {
			need[t] = true
		}
	}
	out := []*Term{}
	for i, f := range d.loop.facts {
		if in[i] {
			out = append(out, f)
		}
	}
	return out
}
