package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Unit struct {
	Known      map[string]bool // obligations listed as known findings
	Pkg, Name  string
	Kind       string // "contract" or "lemma"
	fn         *ssa.Function
	ct         *Contract
	MayPanic   bool
	FirstIter  bool
	NoInv      bool
	Opaque     string
	InvTimeout time.Duration
	Timeout    time.Duration
	loops      []*ssa.Function

	Obls    []*Obl
	Trusted []string
	Inlined []string
	ByContr []string
	Err     string
	Vacuity string
	Ms      int64
	ex      *Exec
	endPC   *Term
	endN    int
}

func parseOpts(doc string) map[string]string {
	o := map[string]string{}
	for _, ln := range strings.Split(doc, "\n") {
		if i := strings.Index(ln, "vf:opt "); i >= 0 {
			for _, kv := range strings.Fields(ln[i+7:]) {
				p := strings.SplitN(kv, "=", 2)
				if len(p) == 2 {
					o[p[0]] = p[1]
				} else {
					o[p[0]] = "1"
				}
			}
		}
	}
	return o
}

func hasProp(o map[string]string, prop string) bool {
	for _, p := range strings.Split(o["prop"], ",") {
		if p == prop {
			return true
		}
	}
	return false
}

// units lists the proof units of a property: lemma functions and contracts
// whose annotations name it.
func (l *Loader) units(prop string) []*Unit {
	var out []*Unit
	for path, sp := range l.pkgs {
		for name, m := range sp.Members {
			fn, ok := m.(*ssa.Function)
			if !ok || !strings.HasPrefix(name, "VfLemma_") {
				continue
			}
			o := parseOpts(l.docs[path+"."+name])
			if !hasProp(o, prop) {
				continue
			}
			u := &Unit{Pkg: path, Name: name[8:], Kind: "lemma", fn: fn}
			u.apply(o)
			u.loops = append(u.loops, l.loopTpl[path+"."+u.Name]...)
			out = append(out, u)
		}
	}
	for _, c := range l.contracts {
		if !hasProp(c.opts, prop) {
			continue
		}
		u := &Unit{Pkg: c.pkg, Name: c.name, Kind: "contract", ct: c, fn: l.funcs[c.pkg+"."+c.name]}
		u.apply(c.opts)
		u.loops = append(u.loops, l.loopTpl[c.pkg+"."+c.name]...)
		if u.fn == nil {
			u.Err = "function under contract not found in the current source"
		}
		out = append(out, u)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Kind+out[i].Pkg+out[i].Name < out[j].Kind+out[j].Pkg+out[j].Name })
	return out
}

// opaque: the postcondition of a pure function is not used in this unit (vf:opt opaque=f,g).
func (u *Unit) opaque(name string) bool {
	for _, n := range strings.Split(u.Opaque, ",") {
		if n != "" && n == name {
			return true
		}
	}
	return false
}

func (u *Unit) apply(o map[string]string) {
	u.MayPanic = o["maypanic"] != ""
	u.FirstIter = o["firstiter"] != ""
	u.NoInv = o["noinv"] != ""
	u.Opaque = o["opaque"]
	if n, err := strconv.Atoi(o["timeout"]); err == nil {
		u.Timeout = time.Duration(n) * time.Second
	}
	if n, err := strconv.Atoi(o["invtimeout"]); err == nil {
		u.InvTimeout = time.Duration(n) * time.Second
	}
}

// generate executes the unit symbolically and collects its obligations.
func (u *Unit) generate(l *Loader) {
	start := time.Now()
	defer func() { u.Ms += time.Since(start).Milliseconds() }()
	if u.Err != "" {
		u.Obls = []*Obl{{Name: u.Err, Kind: "unsupported", pc: tTrue, goal: tFalse}}
		return
	}
	ex := newExec(l, u)
	u.ex = ex
	defer func() {
		if r := recover(); r != nil {
			if b, ok := r.(bail); ok {
				u.Err = b.msg
			} else {
				u.Err = fmt.Sprintf("internal: %v", r)
				if debug {
					panic(r)
				}
			}
			ex.trial = 0
			u.Obls = append(ex.obls, &Obl{Name: "unsupported: " + u.Err, Kind: "unsupported", pc: tTrue, goal: tFalse})
		}
		u.Trusted = keys(ex.trusted)
		u.Inlined = keys(ex.inlined)
		u.ByContr = keys(ex.byContr)
	}()
	var args []Val
	for _, p := range u.fn.Params {
		v := ex.havocVal("arg_"+p.Name(), p.Type())
		ex.invFacts(v, p.Type())
		args = append(args, v)
		ex.rootEnv[p.Name()] = v
		ex.rootTyp[p.Name()] = p.Type()
	}
	if u.Kind == "lemma" {
		ex.runFunc(u.fn, args, nil, nil)
	} else {
		ct := u.ct
		if recv := u.fn.Signature.Recv(); recv != nil {
			if _, ok := under(recv.Type()).(*types.Pointer); ok && ct.opts["nilrecv"] == "" {
				ex.assume(tNe(args[0].(*Term), tInt(0)))
			}
		}
		if ct.pre != nil {
			ex.runSpec(ct.pre, args, "assume", "", 0)
		}
		var old []Val
		if ct.old != nil {
			old = tupleOf(ex.runSpec(ct.old, args, "", "", 0), ct.old.Signature)
		}
		st0 := ex.st
		res := ex.runFunc(u.fn, args, nil, nil)
		if ct.mod == nil && ct.opts["noframe"] == "" {
			for _, n := range sortedKeys(ex.st.heap) {
				t := ex.st.heap[n]
				h0 := ex.heapAt(st0, n)
				if t == h0 {
					continue
				}
				if strings.HasPrefix(string(t.sort), "(Array Int") {
					r := ex.fresh("frame_r", SInt)
					ex.oblige("frame", "unchanged "+n, 0, tImp(tLe(r, app("alloc0", SInt)), tEq(tSelect(dropFresh(t), r), tSelect(h0, r))))
				} else {
					ex.oblige("frame", "unchanged "+n, 0, tEq(t, h0))
				}
			}
		}
		if ct.post != nil && ex.st.pc != tFalse {
			ex.runSpec(ct.post, append(append(old, args...), tupleOf(res, u.fn.Signature)...), "oblige", "", 0)
		}
	}
	u.Obls = ex.obls
	// vacuity: the end of the unit must be reachable under all assumptions
	ex.obls = nil
	u.endPC, u.endN = ex.st.pc, len(ex.assumps)
}

func keys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func sortedKeys(m map[string]*Term) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

type task struct {
	u     *Unit
	o     *Obl
	texts []string
	cuts  []cut
}

// solveDeadline: no new solver runs after this time.
var solveDeadline atomic.Pointer[time.Time]

// solveAll discharges the obligations of the units in parallel.
func solveAll(us []*Unit, tmo time.Duration) {
	var tasks []*task
	for _, u := range us {
		for _, o := range u.Obls {
			if o.Status != "" {
				continue
			}
			if o.Kind == "unsupported" {
				o.Status = "failed"
				o.Model = "outside the verified subset: " + o.Name
				continue
			}
			g := tImp(o.pc, o.goal)
			if g == tTrue {
				o.Status, o.Solver = "proved", "simplifier"
				continue
			}
			tk := &task{u: u, o: o}
			neg := skolemise(tAnd(o.pc, tNot(o.goal)), true)
			tk.texts = u.ex.stages(u.ex.assumps[:o.n], nil, neg, u.argTerms())
			for _, text := range tk.texts {
				dumpQuery(u.Name+"_"+o.Name, text)
			}
			tk.cuts = u.ex.cuts(u.ex.assumps[:o.n], o.pc, o.goal)
			tasks = append(tasks, tk)
		}
	}
	sem := make(chan bool, 6)
	var wg sync.WaitGroup
	for _, tk := range tasks {
		wg.Add(1)
		go func(tk *task) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			t := tmo
			if tk.u.Timeout > 0 {
				t = tk.u.Timeout
			}
			tk.o.Status = "failed"
			if tk.u.Known[tk.o.Name] { // a listed finding: only looked at briefly
				t = min(t, 2*time.Second)
			}
			if tk.byCuts() {
				return
			}
			if len(tk.texts) > 0 {
				r := portfolio(tk.texts[0], 2*time.Second, solvers[:1])
				tk.o.Ms += r.ms
				if r.status == "unsat" {
					tk.o.Status, tk.o.Solver = "proved", r.solver
					return
				}
				if tk.stringy() && tk.byCases(t) {
					return
				}
			}
			start := time.Now()
			var sat *solveResult
			for _, text := range tk.texts {
				if d := solveDeadline.Load(); d != nil && time.Now().After(*d) || time.Since(start) > 8*t {
					tk.o.Model += "\n(stopped: out of time)"
					break
				}
				r := portfolio(text, 2*time.Second, solvers[:1])
				tk.o.Ms += r.ms
				if r.status == "unknown" {
					r = portfolio(text, t, solvers)
					tk.o.Ms += r.ms
				}
				if r.status == "unsat" {
					tk.o.Status, tk.o.Solver = "proved", r.solver
					return
				}
				tk.o.Solver = r.solver
				tk.o.Model = r.status + "\n" + r.out
				if r.status == "sat" {
					rr := r
					sat = &rr
				} else {
					sat = nil
				}
			}
			if sat != nil {
				tk.o.Status = "refuted"
			}
		}(tk)
	}
	wg.Wait()
}

func (u *Unit) argTerms() []*Term {
	var out []*Term
	for _, p := range u.fn.Params {
		v := u.ex.rootEnv[p.Name()]
		if t, ok := v.(*Term); ok && (t.sort == SStr || t.sort == SInt || t.sort == SBool) {
			out = append(out, t)
		}
	}
	return out
}

// byCuts tries to prove a goal between long sums addend by addend.
func (tk *task) byCuts() bool {
	if len(tk.cuts) == 0 {
		return false
	}
	t0 := time.Now()
	defer func() { tk.o.Ms += time.Since(t0).Milliseconds() }()
	var eqs []*Term
	for _, c := range tk.cuts {
		if r := portfolio(c.texts[0], 4*time.Second, solvers[:1]); r.status == "unsat" {
			eqs = append(eqs, c.eq)
		}
	}
	if debug {
		fmt.Println(tk.o.Name, "cuts", len(eqs), "of", len(tk.cuts))
	}
	mkMu.Lock()
	q := query(eqs, tAnd(tk.o.pc, tNot(tk.o.goal)), nil)
	mkMu.Unlock()
	r := portfolio(q, 5*time.Second, solvers)
	if r.status == "unsat" {
		tk.o.Status, tk.o.Solver = "proved", r.solver+" (addend by addend)"
	}
	return r.status == "unsat"
}

var mkMu sync.Mutex

// stringy: the goal computes with strings (splitting it by paths pays off).
func (tk *task) stringy() bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if strings.HasPrefix(t.op, "str.") {
			return true
		}
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(tk.o.goal) || rec(tk.o.pc)
}

// byCases tries to prove a goal path by path.
func (tk *task) byCases(tmo time.Duration) bool {
	t0 := time.Now()
	defer func() { tk.o.Ms += time.Since(t0).Milliseconds() }()
	mkMu.Lock()
	cs := cases(skolemise(tAnd(tk.o.pc, tNot(tk.o.goal)), true), tk.u.ex.assumps[:tk.o.n], 96)
	var texts [][]string
	{
		for _, c := range cs {
			texts = append(texts, tk.u.ex.stagesOf([][3]bool{{true, false, false}, {false, true, false}, {false, true, true}}, under2(tk.u.ex.assumps[:tk.o.n], c), nil, c, nil))
		}
	}
	mkMu.Unlock()
	if debug {
		fmt.Println(tk.o.Name, "cases", len(cs))
		if os.Getenv("VF_CASES") != "" {
			for i, c := range cs {
				fmt.Println("CASE", i, show(c))
			}
		}
	}
	for i, st := range texts {
		if time.Since(t0) > 4*tmo {
			return false
		}
		ok := false
		for j, text := range st {
			dumpQuery(fmt.Sprintf("case%d_%d_", i, j)+tk.u.Name+"_"+tk.o.Name, text)
			r := portfolio(text, 1*time.Second, solvers[:1])
			if r.status == "unknown" {
				r = portfolio(text, tmo/2, solvers)
			}
			if r.status == "unsat" {
				ok = true
				break
			}
		}
		if !ok {
			return false
		}
	}
	tk.o.Status, tk.o.Solver = "proved", "z3/cvc5 (path by path)"
	return true
}

// vacuous reports whether the end of the unit is unreachable (its
// assumptions contradict each other).
func (u *Unit) vacuous(tmo time.Duration) string {
	if u.ex == nil || u.endPC == nil {
		return "not generated"
	}
	if u.endPC == tFalse {
		return "unreachable end"
	}
	var as []*Term
	for _, a := range u.ex.assumps[:u.endN] {
		if !a.quant {
			as = append(as, a.f)
		}
	}
	as = append(as, u.ex.sumLemmas(append(append([]*Term{}, as...), u.endPC), true)...)
	r := portfolio(query(as, u.endPC, nil), tmo, solvers)
	switch r.status {
	case "sat":
		return "reachable (" + r.solver + ")"
	case "unsat":
		return "VACUOUS"
	}
	return "not decided"
}

// deadEnds lists the returns that the assumptions make unreachable: dead code,
// or a contradiction in the model.
func (u *Unit) deadEnds() []string {
	if u.ex == nil || u.endPC == nil {
		return nil
	}
	var as []*Term
	for _, a := range u.ex.assumps[:u.endN] {
		if !a.quant {
			as = append(as, a.f)
		}
	}
	texts := make([]string, len(u.ex.ends))
	for i, e := range u.ex.ends {
		if e.pc != tFalse {
			texts[i] = query(as, e.pc, nil)
		}
	}
	dead := make([]bool, len(texts))
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for i := range texts {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			dead[i] = texts[i] == "" || portfolio(texts[i], time.Second, solvers[:1]).status == "unsat"
		}()
	}
	wg.Wait()
	n := map[string]int{}
	tot := map[string]int{}
	for i, e := range u.ex.ends {
		tot[e.at]++
		if dead[i] {
			n[e.at]++
		}
	}
	var out []string
	for k, v := range n {
		if v == tot[k] {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return out
}
