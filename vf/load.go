package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Contract struct {
	pkg, name           string
	pre, post, old, mod *ssa.Function
	pure                bool
	always              bool // even direct calls from a lemma go through the contract
	opts                map[string]string
}

func (c *Contract) Key() string { return c.pkg + "." + c.name }

type Loader struct {
	repo      string
	fset      *token.FileSet
	prog      *ssa.Program
	pkgs      map[string]*ssa.Package
	contracts map[string]*Contract
	invs      map[string]*ssa.Function
	specFiles map[string]bool
	loopMemo  map[*ssa.Function]*loopForest
	litA      map[*ssa.Alloc]bool
	litS      map[*ssa.Alloc]map[int]*ssa.Store
	typeIDs   map[string]int
	typesByID []types.Type
	syntax    map[string]bool
	docs      map[string]string // pkg.func -> doc comment of spec functions
	gstores   map[*ssa.Global]int
	lemmas    map[string][]*ssa.Function
	loopTpl   map[string][]*ssa.Function
	funcs     map[string]*ssa.Function
	specSrc   map[string][]byte
}

const modPath = "github.com/pb33f/libopenapi"

// loadRepo type-checks the given packages of /repo's current tree together
// with the contract files, and builds SSA for them.
func loadRepo(repo, verif string, pats []string) (*Loader, error) {
	return loadRepoDrop(repo, verif, pats, nil)
}

// loadRepoDrop leaves out the contract files in drop.
func loadRepoDrop(repo, verif string, pats []string, drop map[string]bool) (*Loader, error) {
	overlay := map[string][]byte{}
	l := &Loader{repo: repo, pkgs: map[string]*ssa.Package{}, contracts: map[string]*Contract{}, invs: map[string]*ssa.Function{}, specFiles: map[string]bool{},
		loopMemo: map[*ssa.Function]*loopForest{}, litA: map[*ssa.Alloc]bool{}, litS: map[*ssa.Alloc]map[int]*ssa.Store{}, typeIDs: map[string]int{},
		syntax: map[string]bool{}, docs: map[string]string{}, gstores: map[*ssa.Global]int{}, lemmas: map[string][]*ssa.Function{}, loopTpl: map[string][]*ssa.Function{}, funcs: map[string]*ssa.Function{}}
	root := filepath.Join(verif, "contracts")
	err := filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		dst := filepath.Join(repo, rel)
		if drop[dst] {
			return nil
		}
		overlay[dst] = b
		l.specFiles[dst] = true
		return nil
	})
	if err != nil {
		return nil, err
	}
	l.specSrc = overlay
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: repo, Overlay: overlay, Env: repoEnv(),
		BuildFlags: []string{"-tags=verif"}}
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range ps {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
		l.syntax[p.PkgPath] = true
	}
	if len(ps) == 0 {
		errs = append(errs, "no packages loaded")
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("%s", strings.Join(errs, "\n"))
	}
	if len(ps) > 0 {
		l.fset = ps[0].Fset
	}
	prog, spkgs := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	l.prog = prog
	for i, sp := range spkgs {
		if sp == nil {
			continue
		}
		l.pkgs[sp.Pkg.Path()] = sp
		for _, f := range ps[i].Syntax {
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Doc != nil && strings.HasPrefix(fd.Name.Name, "Vf") {
					l.docs[sp.Pkg.Path()+"."+fd.Name.Name] = docText(fd.Doc)
				}
			}
		}
	}
	for fn := range ssautil.AllFunctions(prog) {
		pkg, name := contractKey(fn)
		if l.syntax[pkg] && fn.Blocks != nil {
			if fn.Parent() == nil && fn.Synthetic == "" {
				l.funcs[pkg+"."+name] = fn
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if fn.Name() == "init" && fn.Synthetic != "" {
						continue
					}
					if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
						continue
					}
					for _, op := range in.Operands(nil) {
						if g, ok := (*op).(*ssa.Global); ok {
							l.gstores[g]++
						}
					}
				}
			}
		}
	}
	for path, sp := range l.pkgs {
		for name, m := range sp.Members {
			fn, ok := m.(*ssa.Function)
			if !ok {
				continue
			}
			l.register(path, name, fn)
		}
	}
	return l, nil
}

func docText(g *ast.CommentGroup) string {
	var sb strings.Builder
	for _, c := range g.List {
		sb.WriteString(c.Text + "\n")
	}
	return sb.String()
}

func repoEnv() []string {
	var env []string
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GOROOT", "PATH", "GOTOOLCHAIN", "GOPROXY", "GOWORK", "GO111MODULE":
			continue
		}
		env = append(env, e)
	}
	return append(env, "PATH=/opt/veriftools/go1.25.14/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
		"GOROOT=/opt/veriftools/go1.25.14", "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=readonly", "GOWORK=off")
}

func (l *Loader) register(path, name string, fn *ssa.Function) {
	get := func(n string) *Contract {
		k := path + "." + n
		c := l.contracts[k]
		if c == nil {
			c = &Contract{pkg: path, name: n, opts: map[string]string{}}
			l.contracts[k] = c
		}
		for _, ln := range strings.Split(l.docs[path+"."+name], "\n") {
			if i := strings.Index(ln, "vf:opt "); i >= 0 {
				for _, kv := range strings.Fields(ln[i+7:]) {
					p := strings.SplitN(kv, "=", 2)
					if len(p) == 2 {
						c.opts[p[0]] = p[1]
					} else {
						c.opts[p[0]] = "1"
					}
				}
			}
		}
		if c.opts["always"] != "" {
			c.always = true
		}
		return c
	}
	switch {
	case strings.HasPrefix(name, "VfPre_"):
		get(name[6:]).pre = fn
	case strings.HasPrefix(name, "VfPost_"):
		get(name[7:]).post = fn
	case strings.HasPrefix(name, "VfOld_"):
		get(name[6:]).old = fn
	case strings.HasPrefix(name, "VfMod_"):
		get(name[6:]).mod = fn
	case strings.HasPrefix(name, "VfPure_"):
		get(name[7:]).pure = true
	case strings.HasPrefix(name, "VfInv_"):
		l.invs[path+"."+name[6:]] = fn
	case strings.HasPrefix(name, "VfLoop_"):
		k := name[7:]
		if i := strings.LastIndex(k, "__"); i > 0 {
			k = k[:i]
		}
		l.loopTpl[path+"."+k] = append(l.loopTpl[path+"."+k], fn)
	}
}

func (l *Loader) contractByName(pkg, name string) *Contract { return l.contracts[pkg+"."+name] }

func (l *Loader) invariantOf(n *types.Named) *ssa.Function {
	if n.Obj().Pkg() == nil {
		return nil
	}
	return l.invs[n.Obj().Pkg().Path()+"."+n.Obj().Name()]
}

func (l *Loader) isSpecFn(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	p := fn.Pos()
	if !p.IsValid() {
		return false
	}
	return l.specFiles[l.fset.Position(p).Filename]
}

func (l *Loader) inlineable(fn *ssa.Function) bool {
	pkg, _ := contractKey(fn)
	if fn.Parent() != nil {
		p := fn
		for p.Parent() != nil {
			p = p.Parent()
		}
		pkg, _ = contractKey(p)
	}
	return l.syntax[pkg] || fn.Synthetic != "" && strings.HasPrefix(pkg, modPath)
}

func (l *Loader) loopsOf(fn *ssa.Function) *loopForest {
	if lf, ok := l.loopMemo[fn]; ok {
		return lf
	}
	lf := findLoops(fn)
	l.loopMemo[fn] = lf
	return lf
}

func (l *Loader) typeID(t types.Type) int {
	k := typeKey(types.Unalias(t))
	if id, ok := l.typeIDs[k]; ok {
		return id
	}
	l.typesByID = append(l.typesByID, t)
	l.typeIDs[k] = len(l.typesByID)
	return len(l.typesByID)
}
func (l *Loader) typeByID(id int) types.Type {
	if id < 1 || id > len(l.typesByID) {
		return nil
	}
	return l.typesByID[id-1]
}

// litArr: an array allocated only to build a slice literal or variadic
// argument: constant-index stores, then one slicing, all in one block.
func (l *Loader) litArr(a *ssa.Alloc) bool {
	if r, ok := l.litA[a]; ok {
		return r
	}
	r := l.litArr1(a)
	l.litA[a] = r
	return r
}

func (l *Loader) litArr1(a *ssa.Alloc) bool {
	at, ok := under(deref(a.Type())).(*types.Array)
	if !ok || at.Len() > 512 || a.Referrers() == nil {
		return false
	}
	pos := map[ssa.Instruction]int{}
	for i, in := range a.Block().Instrs {
		pos[in] = i
	}
	sliceAt := -1
	for _, r := range *a.Referrers() {
		switch x := r.(type) {
		case *ssa.Slice:
			if sliceAt >= 0 || x.Block() != a.Block() || x.Low != nil || x.High != nil {
				return false
			}
			sliceAt = pos[x]
		case *ssa.IndexAddr:
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	if sliceAt < 0 {
		return false
	}
	for _, r := range *a.Referrers() {
		x, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		if _, ok := x.Index.(*ssa.Const); !ok || x.Block() != a.Block() || pos[x] > sliceAt {
			return false
		}
		for _, rr := range *x.Referrers() {
			st, ok := rr.(*ssa.Store)
			if !ok || st.Addr != x || st.Block() != a.Block() || pos[st] > sliceAt {
				return false
			}
		}
	}
	return true
}

// litStruct: fields of a fresh struct that are stored exactly once, in the
// allocation's block, before the object is used in any other way.
func (l *Loader) litStruct(a *ssa.Alloc) map[int]*ssa.Store {
	if r, ok := l.litS[a]; ok {
		return r
	}
	r := l.litStruct1(a)
	l.litS[a] = r
	return r
}

func (l *Loader) litStruct1(a *ssa.Alloc) map[int]*ssa.Store {
	if !isStruct(deref(a.Type())) || a.Referrers() == nil {
		return nil
	}
	st := under(deref(a.Type())).(*types.Struct)
	pos := map[ssa.Instruction]int{}
	for i, in := range a.Block().Instrs {
		pos[in] = i
	}
	type fs struct {
		f   int
		at  int
		st  *ssa.Store
		n   int
		bad bool
	}
	fields := map[int]*fs{}
	firstUse := len(a.Block().Instrs)
	for _, r := range *a.Referrers() {
		if _, ok := r.(*ssa.DebugRef); ok {
			continue
		}
		fa, ok := r.(*ssa.FieldAddr)
		if ok && fa.Block() == a.Block() && len(*fa.Referrers()) == 1 {
			if s, ok := (*fa.Referrers())[0].(*ssa.Store); ok && s.Addr == fa && s.Block() == a.Block() {
				switch under(st.Field(fa.Field).Type()).(type) {
				case *types.Struct, *types.Array:
				default:
					e := fields[fa.Field]
					if e == nil {
						e = &fs{f: fa.Field}
						fields[fa.Field] = e
					}
					e.n++
					e.st = s
					e.at = pos[s]
					continue
				}
			}
		}
		if in, ok := r.(ssa.Instruction); ok && in.Block() == a.Block() {
			if pos[in] < firstUse {
				firstUse = pos[in]
			}
		}
	}
	out := map[int]*ssa.Store{}
	for f, e := range fields {
		if e.n == 1 && e.at < firstUse {
			out[f] = e.st
		}
	}
	return out
}

// globalConst gives the initial value of a package variable that nothing
// assigns after initialisation.
func (ex *Exec) globalConst(g *ssa.Global) (Val, bool) {
	if ex.L.gstores[g] > 0 || g.Pkg == nil || !ex.L.syntax[g.Pkg.Pkg.Path()] {
		return nil, false
	}
	if v, ok := ex.globals[g.String()]; ok {
		return v, v != nil
	}
	ex.globals[g.String()] = nil
	init := g.Pkg.Func("init")
	if init == nil {
		return nil, false
	}
	// find the single store to g and the straight-line slice that feeds it
	var st *ssa.Store
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok && s.Addr == g {
				if st != nil {
					return nil, false
				}
				st = s
			}
		}
	}
	if st == nil {
		return nil, false
	}
	need := map[ssa.Instruction]bool{}
	ok := true
	var mark func(v ssa.Value)
	mark = func(v ssa.Value) {
		in, is := v.(ssa.Instruction)
		if !is || need[in] {
			return
		}
		switch x := v.(type) {
		case *ssa.Alloc, *ssa.Slice, *ssa.MakeInterface, *ssa.Convert, *ssa.ChangeType, *ssa.IndexAddr, *ssa.FieldAddr, *ssa.MakeMap, *ssa.BinOp:
		case *ssa.Call:
			if c := x.Call.StaticCallee(); c == nil || !(c.String() == "errors.New" || strings.HasPrefix(c.String(), "regexp.")) {
				ok = false
				return
			}
		case *ssa.UnOp:
			if _, isG := x.X.(*ssa.Global); !isG {
				ok = false
				return
			}
		default:
			ok = false
			return
		}
		need[in] = true
		for _, op := range in.Operands(nil) {
			if *op != nil {
				mark(*op)
			}
		}
		if rs := v.Referrers(); rs != nil {
			for _, r := range *rs {
				switch s := r.(type) {
				case *ssa.Store:
					if s.Addr == v {
						need[s] = true
						mark(s.Val)
					}
				case *ssa.MapUpdate:
					need[s] = true
					mark(s.Key)
					mark(s.Value)
				case *ssa.IndexAddr:
					mark(s)
				case *ssa.FieldAddr:
					mark(s)
				}
			}
		}
	}
	mark(st.Val)
	if !ok {
		return nil, false
	}
	// its objects are allocated before everything else (references up to alloc0)
	oits, ost := ex.its, ex.st
	ex.its = nil
	ex.spec++
	ex.globMode++
	if ex.galloc == nil {
		ex.galloc = app("galloc0", SInt)
		ex.assumeTop(tLe(tInt(0), ex.galloc))
	}
	fr := &Frame{ex: ex, fn: init, env: map[ssa.Value]Val{}, in: map[edge]*State{}, back: map[*ssa.BasicBlock][]backEdge{}, lf: ex.L.loopsOf(init), active: map[*natLoop]*LoopInfo{}}
	ex.st = &State{pc: tTrue, heap: map[string]*Term{}, alloc: ex.galloc}
	var bs []*ssa.BasicBlock
	bs = append(bs, init.Blocks...)
	sort.Slice(bs, func(i, j int) bool { return bs[i].Index < bs[j].Index })
	for _, b := range bs {
		for _, in := range b.Instrs {
			if !need[in] {
				continue
			}
			switch i := in.(type) {
			case *ssa.Store:
				if fr.initStore(i) {
					continue
				}
				ex.store(fr.val(i.Addr), deref(i.Addr.Type()), fr.val(i.Val))
			case *ssa.MapUpdate:
				ex.mapUpdate(fr.val(i.Map), under(i.Map.Type()).(*types.Map), fr.val(i.Key), fr.val(i.Value), i.Pos())
			case ssa.Value:
				fr.env[i] = fr.eval(i)
			}
		}
	}
	v := fr.val(st.Val)
	mod := ex.st.heap
	ex.spec--
	ex.globMode--
	ex.its = oits
	ex.galloc = ex.st.alloc
	ex.assumeTop(tLe(ex.galloc, app("alloc0", SInt)))
	ex.st = ost
	if r, ok := v.(*Term); ok {
		for k, t := range mod {
			ex.assumeTop(tEq(tSelect(app("H:"+k, t.sort), r), tSelect(t, r)))
		}
	} else if len(mod) > 0 {
		return nil, false
	}
	ex.globals[g.String()] = v
	return v, true
}
