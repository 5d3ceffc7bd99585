package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// checkCfg is one entry of /verif/checks.json.
type checkCfg struct {
	Pkgs    []string `json:"pkgs"`    // packages whose functions are under contract
	Harness []string `json:"harness"` // packages with an executable run of the contracts (TestVf<prop>)
	Timeout int      `json:"timeout"` // per obligation, seconds
	Budget  int      `json:"budget"`  // executable run, seconds
	Assume  []string `json:"assume"`  // assumptions of this property's proof, for the evidence
	Level   string   `json:"level"`
}

type finding struct {
	unit, name, text string
}

// knownFindings reads the findings recorded for a property.
func knownFindings(verif, prop string) []finding {
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var out []finding
	re := regexp.MustCompile(`^finding: property=(\S+) unit="([^"]*)" obligation="([^"]*)" (.*)$`)
	for _, ln := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(ln); m != nil && m[1] == prop {
			out = append(out, finding{m[2], m[3], m[4]})
		}
	}
	return out
}

type harnessFail struct {
	Unit, Failure, Input, Stack string
	Pkg                         string
}

type harnessResult struct {
	pkg   string
	fails []harnessFail
	units []map[string]any
	err   string // the run itself did not work
	out   string
	wall  float64
}

// overlayFor maps the contract files (and the executable runs) into /repo and
// takes the packages' own tests out of the build.
func overlayFor(repo, verif, dir string, pkgs []string, drop map[string]bool) (string, error) {
	repl := map[string]string{}
	root := filepath.Join(verif, "contracts")
	err := filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(root, p)
		if !drop[filepath.Join(repo, rel)] {
			repl[filepath.Join(repo, rel)] = p
		}
		return nil
	})
	if err != nil {
		return "", err
	}
	for _, pkg := range pkgs {
		fs, _ := filepath.Glob(filepath.Join(repo, pkg, "*_test.go"))
		for _, f := range fs {
			if repl[f] == "" {
				repl[f] = ""
			}
		}
	}
	b, _ := json.Marshal(map[string]any{"Replace": repl})
	f := filepath.Join(dir, "overlay.json")
	return f, os.WriteFile(f, b, 0o644)
}

func runHarness(repo, verif, prop, pkg string, budget int, drop map[string]bool) (res harnessResult) {
	t0 := time.Now()
	res.pkg = pkg
	defer func() { res.wall = time.Since(t0).Seconds() }()
	dir, err := os.MkdirTemp("", "vfh")
	if err != nil {
		res.err = err.Error()
		return
	}
	defer os.RemoveAll(dir)
	ov, err := overlayFor(repo, verif, dir, []string{pkg}, drop)
	if err != nil {
		res.err = err.Error()
		return
	}
	bin := filepath.Join(dir, "h.test")
	ctx, cancel := context.WithTimeout(context.Background(), 400*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "/opt/veriftools/go1.25.14/bin/go", "test", "-c", "-vet=off", "-tags", "verif", "-overlay", ov, "-o", bin, pkg)
	cmd.Dir = repo
	cmd.Env = repoEnv()
	if b, err := cmd.CombinedOutput(); err != nil {
		res.err = "build of the executable contracts failed"
		res.out = string(b)
		return
	}
	ctx2, cancel2 := context.WithTimeout(context.Background(), time.Duration(budget*3+120)*time.Second)
	defer cancel2()
	cmd = exec.CommandContext(ctx2, "bash", "-c", "ulimit -v 16000000; exec \"$0\" -test.run '^TestVf"+prop+"$' -test.timeout 0", bin)
	cmd.Dir = dir
	cmd.Env = append(repoEnv(), "VF_BUDGET_MS="+strconv.Itoa(budget*1000), "GOMEMLIMIT=6GiB")
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	err = cmd.Run()
	res.out = out.String()
	done := false
	for _, ln := range strings.Split(res.out, "\n") {
		switch {
		case strings.HasPrefix(ln, "VFFAIL "):
			var f harnessFail
			if json.Unmarshal([]byte(ln[7:]), &f) == nil {
				f.Pkg = pkg
				res.fails = append(res.fails, f)
			}
		case strings.HasPrefix(ln, "VFUNIT "):
			if i := strings.Index(ln, "{"); i > 0 {
				m := map[string]any{}
				if json.Unmarshal([]byte(ln[i:]), &m) == nil {
					m["unit"] = strings.TrimSpace(ln[7:i])
					res.units = append(res.units, m)
				}
			}
		case strings.HasPrefix(ln, "VFDONE "):
			done = true
		}
	}
	if !done {
		// the process died: a crash the runtime does not let a test recover from
		msg := "the process running the contracts ended abnormally"
		if m := regexp.MustCompile(`(?m)^(fatal error: .*|panic: .*|runtime: goroutine stack exceeds.*)$`).FindString(res.out); m != "" {
			msg = m
		}
		if len(res.fails) == 0 {
			tail := res.out
			if len(tail) > 6000 {
				tail = tail[:3000] + "\n…\n" + tail[len(tail)-3000:]
			}
			res.fails = append(res.fails, harnessFail{Unit: "run", Failure: msg, Input: "see output", Stack: tail, Pkg: pkg})
		}
	}
	return
}

var ownerRe = regexp.MustCompile(`(?m)^// vf:opt (.*)\nfunc (Vf[A-Za-z]+_\w+)`)

// unitsIn lists the proof units of a property declared in a contract file.
func unitsIn(src []byte, prop string) []string {
	var out []string
	for _, m := range ownerRe.FindAllStringSubmatch(string(src), -1) {
		if hasProp(parseOpts("vf:opt "+m[1]), prop) {
			out = append(out, m[2])
		}
	}
	return out
}

func cmdCheck(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	noHarness := fs.Bool("noharness", false, "")
	fs.Parse(args)
	if fs.NArg() != 1 {
		fmt.Fprintln(os.Stderr, "usage: vf check PROP")
		os.Exit(2)
	}
	prop := fs.Arg(0)
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if seed == 0 {
		seed = 1
	}
	var cfgs map[string]checkCfg
	b, err := os.ReadFile(filepath.Join(*verif, "checks.json"))
	if err == nil {
		err = json.Unmarshal(b, &cfgs)
	}
	cfg, ok := cfgs[prop]
	if err != nil || !ok {
		fmt.Fprintln(os.Stderr, "no configuration for", prop, err)
		os.Exit(2)
	}
	if cfg.Timeout == 0 {
		cfg.Timeout = 15
	}
	if cfg.Budget == 0 {
		cfg.Budget = 25
	}
	tmo, budget := cfg.Timeout, cfg.Budget
	if tier == "thorough" {
		tmo, budget = tmo*4, budget*6
	}

	// load, leaving out contract files that no longer compile with the source
	drop := map[string]bool{}
	var l *Loader
	var loadErr error
	var lostUnits []string
	for try := 0; try < 8; try++ {
		l, loadErr = loadRepoDrop(*repo, *verif, append(append([]string{}, cfg.Pkgs...), "./test_specs"), drop)
		if loadErr == nil {
			break
		}
		n := len(drop)
		for _, m := range regexp.MustCompile(`(/\S+?\.go):\d+`).FindAllStringSubmatch(loadErr.Error(), -1) {
			rel, err := filepath.Rel(*repo, m[1])
			if err != nil {
				continue
			}
			src, err := os.ReadFile(filepath.Join(*verif, "contracts", rel))
			if err != nil || strings.HasPrefix(rel, "test_specs") || drop[m[1]] {
				continue
			}
			drop[m[1]] = true
			lostUnits = append(lostUnits, unitsIn(src, prop)...)
		}
		if len(drop) == n {
			break
		}
	}
	if loadErr != nil {
		fmt.Println("cannot load the source:", loadErr)
		os.Exit(2)
	}
	var hres []harnessResult
	hdone := make(chan bool)
	go func() {
		defer close(hdone)
		if *noHarness {
			return
		}
		for _, pkg := range cfg.Harness {
			hres = append(hres, runHarness(*repo, *verif, prop, pkg, budget, drop))
		}
	}()

	setDeadline := func(t time.Time) { solveDeadline.Store(&t) }
	setDeadline(t0.Add(map[string]time.Duration{"quick": 650, "thorough": 3000}[tier] * time.Second))
	go func() {
		<-hdone
		for _, r := range hres {
			if len(r.fails) > 0 { // already decided: the proof is only looked at briefly
				if d := *solveDeadline.Load(); d.After(time.Now().Add(60 * time.Second)) {
					setDeadline(time.Now().Add(60 * time.Second))
				}
				return
			}
		}
	}()
	us := l.units(prop)
	for _, u := range us {
		u.Known = map[string]bool{}
		for _, f := range knownFindings(*verif, prop) {
			if f.unit == u.Name {
				u.Known[f.name] = true
			}
		}
		u.generate(l)
	}
	solveAll(us, time.Duration(tmo)*time.Second)
	<-hdone
	failing := 0
	for _, r := range hres {
		failing += len(r.fails)
	}
	// a second look at what was left open, with more time, unless the run already has a failing input
	for _, u := range us {
		for _, o := range u.Obls {
			if failing == 0 && o.Status == "failed" && o.Kind != "unsupported" && !isKnown(*verif, prop, u.Name, o.Name) && time.Since(t0) < 400*time.Second {
				o.Status = ""
			}
		}
	}
	solveAll(us, time.Duration(3*tmo)*time.Second)
	vac := map[string]string{}
	vres := make([]string, len(us))
	var vwg sync.WaitGroup
	vsem := make(chan bool, 3)
	for i, u := range us {
		vwg.Add(1)
		go func() {
			defer vwg.Done()
			vsem <- true
			vres[i] = u.vacuous(3 * time.Second)
			<-vsem
		}()
	}
	vwg.Wait()
	for i, u := range us {
		vac[u.Name] = vres[i]
	}

	known := knownFindings(*verif, prop)
	match := func(unit, name string) *finding {
		for i := range known {
			if known[i].unit == unit && known[i].name == name {
				return &known[i]
			}
		}
		return nil
	}
	type open struct {
		Unit, Kind, Name, Pos, Status, Model string
	}
	var opens []open
	seenKF := map[string]bool{}
	kf := func(f *finding) {
		k := f.unit + f.name
		if !seenKF[k] {
			seenKF[k] = true
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, f.text)
		}
	}
	total, discharged, knownOpen := 0, 0, 0
	bySolver := map[string]int{}
	var solverMs int64
	trusted, inlined, assumed := map[string]bool{}, map[string]bool{}, map[string]bool{}
	proved := map[string]bool{}
	var unitEv []map[string]any
	for _, u := range us {
		bad := 0
		for _, o := range u.Obls {
			total++
			solverMs += o.Ms
			if o.Status == "proved" {
				discharged++
				bySolver[o.Solver]++
				continue
			}
			if f := match(u.Name, o.Name); f != nil {
				knownOpen++
				kf(f)
				continue
			}
			bad++
			m := o.Model
			if len(m) > 3000 {
				m = m[:3000]
			}
			opens = append(opens, open{u.Name, o.Kind, o.Name, o.Pos, o.Status, m})
		}
		if len(u.Obls) == 0 {
			opens = append(opens, open{u.Name, "vacuity", "the unit generates no obligations", "", "failed", ""})
			bad++
		}
		switch v := vac[u.Name]; v {
		case "VACUOUS", "unreachable end":
			opens = append(opens, open{u.Name, "vacuity", "the end of the unit is unreachable: " + v, "", "failed", ""})
			bad++
		}
		if bad == 0 {
			proved[u.Pkg+"."+u.Name] = true
		}
		for _, t := range u.Trusted {
			trusted[t] = true
		}
		for _, t := range u.Inlined {
			inlined[strings.TrimPrefix(t, modPath+"/")] = true
		}
		unitEv = append(unitEv, map[string]any{"unit": strings.TrimPrefix(u.Pkg, modPath+"/") + "." + u.Name, "kind": u.Kind, "obligations": len(u.Obls), "open": bad, "end": vac[u.Name]})
	}
	for _, u := range us {
		for _, c := range u.ByContr {
			ct := l.contracts[c]
			by := c
			if ct != nil && ct.opts["by"] != "" {
				by = ct.pkg + "." + ct.opts["by"]
			}
			pr := proved[by]
			if !pr && ct != nil {
				// proved under another property
				for _, q := range []string{ct.opts["prop"], l.lemmaProps(by)} {
					if q != "" && !hasProp(map[string]string{"prop": q}, prop) {
						pr = true
					}
				}
			}
			if !pr {
				assumed[strings.TrimPrefix(c, modPath+"/")] = true
			}
		}
	}
	for _, n := range lostUnits {
		opens = append(opens, open{n, "contract", "the contract no longer compiles against the current source", "", "failed", loadErrText(l)})
		total++
	}
	if len(us) == 0 && len(lostUnits) == 0 {
		fmt.Println("no proof units for", prop)
		os.Exit(2)
	}

	// the executable run
	var hf []harnessFail
	var hEv []map[string]any
	evals, distinct := 0, 0
	var hErr []string
	for _, r := range hres {
		for _, f := range r.fails {
			if k := match(f.Unit, f.Failure); k != nil {
				kf(k)
				continue
			}
			hf = append(hf, f)
		}
		for _, m := range r.units {
			if c, ok := m["cases"].(float64); ok {
				evals += int(c)
			}
			if c, ok := m["distinct"].(float64); ok {
				distinct += int(c)
			}
			m["package"] = r.pkg
			hEv = append(hEv, m)
		}
		if r.err != "" {
			hErr = append(hErr, r.pkg+": "+r.err+"\n"+tail(r.out, 2000))
			if len(drop) == 0 {
				opens = append(opens, open{"executable contracts " + r.pkg, "contract", r.err, "", "failed", tail(r.out, 2000)})
			}
		}
	}

	level := cfg.Level
	if level == "" {
		level = "proof"
	}
	tb := []string{
		"the verifier /verif/vf (translation of go/ssa to SMT), golang.org/x/tools/go/ssa, the Go type checker",
		"solvers: z3 5.x, cvc5 1.1.2, z3 4.8.12 (any one accepting an obligation discharges it)",
		"machine integers are mathematical integers; strings are sequences of code units (bytes as characters 0-255)",
		"append never writes into spare capacity shared with another slice; no concurrent modification",
	}
	for _, t := range keys(trusted) {
		tb = append(tb, "trusted: "+t)
	}
	for _, t := range keys(assumed) {
		tb = append(tb, "assumed contract (not proved by this check): "+t)
	}
	cov := map[string]any{
		"obligations": total, "discharged": discharged, "known_finding_obligations": knownOpen,
		"checker_cmd": "bash /verif/check.sh " + prop, "trusted_base": tb,
		"units": unitEv, "functions_executed_symbolically": keys(inlined), "backends": bySolver, "solver_ms": solverMs,
		"bounded_executable_run": map[string]any{"label": "bounded: the same contracts executed on the real code with generated inputs; not counted as proved", "evaluations": evals, "distinct": distinct, "units": hEv, "errors": hErr},
	}
	viol := 0
	if len(opens) > 0 || len(hf) > 0 {
		viol = len(opens) + len(hf)
	}
	as := append([]string{}, cfg.Assume...)
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": as, "wall_s": time.Since(t0).Seconds(), "violations": viol}
	os.MkdirAll(filepath.Join(*verif, "evidence", "replay"), 0o755)
	writeJSON(filepath.Join(*verif, "evidence", prop+".json"), ev)

	fmt.Printf("%s: %d obligations, %d discharged, %d listed as known findings; executable run: %d cases (%d distinct); %.0fs\n", prop, total, discharged, knownOpen, evals, distinct, time.Since(t0).Seconds())
	if viol == 0 {
		os.Exit(0)
	}
	for _, o := range opens {
		fmt.Printf("  open obligation: %s: %s [%s] %s (%s)\n", o.Unit, o.Name, o.Kind, o.Pos, o.Status)
	}
	for _, f := range hf {
		in := f.Input
		if len(in) > 500 {
			in = in[:500] + "…"
		}
		fmt.Printf("  failing input: %s: %s\n    %s\n", f.Unit, f.Failure, in)
	}
	rp := filepath.Join(*verif, "evidence", "replay", prop+".json")
	writeJSON(rp, map[string]any{"property": prop, "seed": seed, "tier": tier, "open_obligations": opens, "failing_inputs": hf,
		"replay": fmt.Sprintf("VERIF_SEED=%d VERIF_TIER=%s bash /verif/check.sh %s", seed, tier, prop)})
	suffix := ""
	if len(hf) == 0 {
		suffix = " no-failing-input-found"
	}
	fmt.Printf("VIOLATION property=%s replay=%s%s\n", prop, rp, suffix)
	os.Exit(1)
}

func isKnown(verif, prop, unit, name string) bool {
	for _, f := range knownFindings(verif, prop) {
		if f.unit == unit && f.name == name {
			return true
		}
	}
	return false
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func loadErrText(l *Loader) string { return "" }

func writeJSON(path string, v any) {
	b, _ := json.MarshalIndent(v, "", " ")
	if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

// lemmaProps: the properties a lemma is listed under.
func (l *Loader) lemmaProps(key string) string {
	i := strings.LastIndex(key, ".")
	return parseOpts(l.docs[key[:i]+".VfLemma_"+key[i+1:]])["prop"]
}

var _ = sort.Strings
var _ = runtime.NumCPU
