//go:build verif

package arazzo

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"testing"
	"time"

	high "github.com/pb33f/libopenapi/datamodel/high/arazzo"
	"github.com/pb33f/libopenapi/orderedmap"
	vf "github.com/pb33f/libopenapi/test_specs"
	"go.yaml.in/yaml/v4"
)

// vfScript answers calls: the n-th call of an operation has a fixed outcome
// (0: the call itself fails).
type vfScript struct {
	codes map[string][]int
	n     map[string]int
	trace []string
}

var errVfCall = errors.New("call failed")

func (s *vfScript) answer(op string) int {
	cs, n := s.codes[op], s.n[op]
	s.n[op]++
	return cs[n%len(cs)]
}

func (s *vfScript) Execute(_ context.Context, req *ExecutionRequest) (*ExecutionResponse, error) {
	var ps []string
	for k, v := range req.Parameters {
		ps = append(ps, fmt.Sprint(k, "=", v))
	}
	sort.Strings(ps)
	code := s.answer(req.OperationID)
	s.trace = append(s.trace, fmt.Sprintf("call %s(%s) %v %v", req.OperationID, strings.Join(ps, ","), req.RequestBody, code))
	if code == 0 {
		return nil, errVfCall
	}
	return &ExecutionResponse{StatusCode: code, Body: map[string]any{"n": s.n[req.OperationID]}}, nil
}

// vfSim is the oracle: what the workflows do, straight from the specification.
type vfSim struct {
	doc    *high.Arazzo
	s      *vfScript
	active []string
	done   map[string]bool // how the latest run of each workflow ended
	fuel   int
}

type vfRun struct {
	id      string
	ok      bool
	steps   []string // id, success, code, retries
	outputs map[string]any
}

var errVfSim = errors.New("cannot run")

func (m *vfSim) find(id string) *high.Workflow {
	for _, w := range m.doc.Workflows {
		if w.WorkflowId == id {
			return w
		}
	}
	return nil
}

func vfCodeIs(cs []*high.Criterion, code int) bool {
	for _, c := range cs {
		switch {
		case c.Condition == "true":
		case c.Condition == "false":
			return false
		case c.Condition != fmt.Sprintf("$statusCode == %d", code):
			return false
		}
	}
	return true
}

func vfFirst[T any](lists [][]*T, code int, of func(*T) (ref string, cs []*high.Criterion), get func(ref string) *T) (*T, error) {
	for _, l := range lists {
		for _, a := range l {
			ref, cs := of(a)
			if ref != "" {
				if a = get(ref); a == nil {
					return nil, errVfSim
				}
				_, cs = of(a)
			}
			if vfCodeIs(cs, code) {
				return a, nil
			}
		}
	}
	return nil, nil
}

func (m *vfSim) run(id string, inputs map[string]any) (*vfRun, error) {
	for _, a := range m.active {
		if a == id {
			return nil, errVfSim
		}
	}
	wf := m.find(id)
	if wf == nil || len(m.active) >= 32 {
		return nil, errVfSim
	}
	m.active = append(m.active, id)
	defer func() { m.active = m.active[:len(m.active)-1] }()
	r := &vfRun{id: id, ok: true, outputs: map[string]any{}}
	finish := func(ok bool) (*vfRun, error) {
		_, has := inputs["in"]
		r.ok = ok && has // the output names an input
		if r.ok {
			r.outputs["out"] = fmt.Sprint(inputs["in"], "!")
		}
		m.done[id] = r.ok
		return r, nil
	}
	tries := map[string]int{}
	transitions := 0
	at := func(step string) int {
		for i, s := range wf.Steps {
			if s.StepId == step {
				return i
			}
		}
		return -1
	}
	for i := 0; i < len(wf.Steps); {
		if transitions++; transitions > 1024 {
			return finish(false)
		}
		if m.fuel--; m.fuel < 0 {
			panic(errVfSim)
		}
		st := wf.Steps[i]
		ok, code := true, 0
		if _, has := inputs["in"]; !has { // the parameter names an input
			ok = false
		} else if st.WorkflowId != "" {
			sub, err := m.run(st.WorkflowId, map[string]any{"in": inputs["in"]})
			ok = err == nil && sub.ok
		} else {
			code = m.s.answer(st.OperationId)
			m.s.trace = append(m.s.trace, fmt.Sprintf("call %s(p=%v) %v %v", st.OperationId, inputs["in"], map[string]any{"k": inputs["in"]}, code))
			ok = code != 0
		}
		ok = ok && vfCodeIs(st.SuccessCriteria, code)
		r.steps = append(r.steps, fmt.Sprint(st.StepId, ok, code, tries[st.StepId]))
		if ok {
			tries[st.StepId] = 0
			a, err := vfFirst([][]*high.SuccessAction{st.OnSuccess, wf.SuccessActions}, code,
				func(a *high.SuccessAction) (string, []*high.Criterion) { return a.Reference, a.Criteria },
				func(ref string) *high.SuccessAction {
					x, _ := m.doc.Components.SuccessActions.Get(strings.TrimPrefix(ref, "$components.successActions."))
					return x
				})
			switch {
			case err != nil:
				return finish(false)
			case a == nil:
				i++
			case a.Type == "end":
				return finish(true)
			case a.Type == "goto" && a.WorkflowId != "":
				sub, err := m.run(a.WorkflowId, nil)
				return finish(err == nil && sub.ok)
			case a.Type == "goto":
				if i = at(a.StepId); i < 0 {
					return finish(false)
				}
			}
			continue
		}
		a, err := vfFirst([][]*high.FailureAction{st.OnFailure, wf.FailureActions}, code,
			func(a *high.FailureAction) (string, []*high.Criterion) { return a.Reference, a.Criteria },
			func(ref string) *high.FailureAction {
				x, _ := m.doc.Components.FailureActions.Get(strings.TrimPrefix(ref, "$components.failureActions."))
				return x
			})
		if err != nil || a == nil || a.Type == "end" {
			return finish(false)
		}
		if a.Type == "goto" && a.WorkflowId != "" {
			_, _ = m.run(a.WorkflowId, nil)
			return finish(false)
		}
		if a.Type == "goto" {
			if i = at(a.StepId); i < 0 {
				return finish(false)
			}
			continue
		}
		limit := 1
		if a.RetryLimit != nil && *a.RetryLimit > 0 {
			limit = int(*a.RetryLimit)
		}
		if tries[st.StepId] >= limit {
			return finish(false)
		}
		tries[st.StepId]++
		d := time.Duration(0)
		if a.RetryAfter != nil {
			d = time.Duration(*a.RetryAfter * float64(time.Second))
		}
		m.s.trace = append(m.s.trace, "wait "+d.String())
	}
	return finish(true)
}

func vfScalar(s string) *yaml.Node { return &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: s} }

func vfDoc(r *rand.Rand) *high.Arazzo {
	crit := func() []*high.Criterion {
		var cs []*high.Criterion
		for n := r.Intn(3) - 1; n > 0; n-- {
			cs = append(cs, &high.Criterion{Condition: []string{"$statusCode == 200", "$statusCode == 500", "true", "false", "$statusCode == 0"}[r.Intn(5)]})
		}
		return cs
	}
	doc := &high.Arazzo{Components: &high.Components{
		SuccessActions: orderedmap.New[string, *high.SuccessAction](), FailureActions: orderedmap.New[string, *high.FailureAction]()}}
	nw := 1 + r.Intn(4)
	step := func() string { return fmt.Sprint("s", r.Intn(4)) }
	wfID := func() string { return fmt.Sprint("w", r.Intn(nw+1)) }
	inSub := 0
	sa := func(ref bool) *high.SuccessAction {
		a := &high.SuccessAction{Type: []string{"end", "goto", "goto"}[r.Intn(3)], Criteria: crit()}
		if a.Type == "goto" {
			if r.Intn(4) == 0 && inSub == 0 {
				a.WorkflowId = wfID()
			} else {
				a.StepId = step()
			}
		}
		if ref && r.Intn(4) == 0 {
			return &high.SuccessAction{Reference: "$components.successActions." + []string{"a", "b", "z"}[r.Intn(3)]}
		}
		return a
	}
	fa := func(ref bool) *high.FailureAction {
		a := &high.FailureAction{Type: []string{"end", "goto", "retry", "retry", "retry"}[r.Intn(5)], Criteria: crit()}
		switch {
		case a.Type == "goto" && r.Intn(4) == 0:
			a.WorkflowId = wfID()
		case a.Type == "goto":
			a.StepId = step()
		case a.Type == "retry":
			if r.Intn(4) > 0 {
				l := int64(r.Intn(5))
				a.RetryLimit = &l
			}
			if r.Intn(2) == 0 {
				f := float64(r.Intn(4)) / 2
				a.RetryAfter = &f
			}
		}
		if ref && r.Intn(4) == 0 {
			return &high.FailureAction{Reference: "$components.failureActions." + []string{"a", "b", "z"}[r.Intn(3)]}
		}
		return a
	}
	for _, k := range []string{"a", "b"} {
		doc.Components.SuccessActions.Set(k, sa(false))
		doc.Components.FailureActions.Set(k, fa(false))
	}
	for w := 0; w < nw; w++ {
		wf := &high.Workflow{WorkflowId: fmt.Sprint("w", w), Outputs: orderedmap.New[string, string]()}
		wf.Outputs.Set("out", "{$inputs.in}!")
		for n := r.Intn(4); n >= 0; n-- {
			st := &high.Step{StepId: fmt.Sprint("s", len(wf.Steps)), SuccessCriteria: crit()}
			st.Parameters = []*high.Parameter{{Name: "p", In: "query", Value: vfScalar("$inputs.in")}}
			if r.Intn(5) == 0 {
				st.WorkflowId = wfID()
				st.Parameters[0].Name = "in"
				st.SuccessCriteria = nil
			} else {
				st.OperationId = fmt.Sprint("op", r.Intn(3))
				st.RequestBody = &high.RequestBody{Payload: &yaml.Node{Kind: yaml.MappingNode, Tag: "!!map", Content: []*yaml.Node{vfScalar("k"), vfScalar("$inputs.in")}}}
			}
			for k := r.Intn(4) - 1; k > 0; k-- {
				st.OnSuccess = append(st.OnSuccess, sa(true))
			}
			for k := r.Intn(4); k > 0; k-- {
				st.OnFailure = append(st.OnFailure, fa(true))
			}
			wf.Steps = append(wf.Steps, st)
		}
		if r.Intn(4) == 0 {
			wf.SuccessActions = append(wf.SuccessActions, sa(true))
		}
		if r.Intn(2) == 0 {
			wf.FailureActions = append(wf.FailureActions, fa(true))
		}
		for k := r.Intn(3); k > 0; k-- {
			if r.Intn(3) > 0 || w == 0 {
				wf.DependsOn = append(wf.DependsOn, wfID())
			} else {
				wf.DependsOn = append(wf.DependsOn, fmt.Sprint("w", r.Intn(w)))
			}
		}
		doc.Workflows = append(doc.Workflows, wf)
	}
	r.Shuffle(len(doc.Workflows), func(i, j int) { doc.Workflows[i], doc.Workflows[j] = doc.Workflows[j], doc.Workflows[i] })
	return doc
}

func vfSteps(r *WorkflowResult) []string {
	var out []string
	for _, s := range r.Steps {
		out = append(out, fmt.Sprint(s.StepId, s.Success, s.StatusCode, s.Retries))
	}
	return out
}

func vfSameRun(got *WorkflowResult, want *vfRun) {
	vf.Assert("a result that says why it failed", vfTold(got) && got.WorkflowId == want.id)
	g := vfSteps(got)
	vf.Assert("no more steps than the limit", len(g) <= 1024)
	vf.Assert("the steps, in order, with their outcome and retries", strings.Join(g, " ") == strings.Join(want.steps, " "))
	vf.Assert("succeeds exactly when the workflow does", got.Success == want.ok)
	vf.Assert("the outputs", !want.ok || fmt.Sprint(got.Outputs) == fmt.Sprint(want.outputs))
}

func TestVfP07(t *testing.T) {
	h := vf.NewH("P07")
	defer h.Done()
	// runs that take too long are left out
	enough := func(doc *high.Arazzo, codes map[string][]int, in map[string]any) (ok bool) {
		defer func() {
			if x := recover(); x != nil && x != errVfSim {
				panic(x)
			}
		}()
		sim := &vfSim{doc: doc, s: &vfScript{codes: codes, n: map[string]int{}}, done: map[string]bool{}, fuel: 1300}
		for _, w := range doc.Workflows {
			sim.fuel = 1300
			_, _ = sim.run(w.WorkflowId, in)
		}
		return true
	}
	r := h.R
	for round := 0; round < h.N(60000) && h.Left(); round++ {
		doc := vfDoc(r)
		codes := map[string][]int{}
		for i := 0; i < 3; i++ {
			for n := 1 + r.Intn(5); n > 0; n-- {
				codes[fmt.Sprint("op", i)] = append(codes[fmt.Sprint("op", i)], []int{200, 200, 500, 500, 0}[r.Intn(5)])
			}
		}
		in := map[string]any{"in": r.Intn(3)}
		if !enough(doc, codes, in) {
			continue
		}
		show := func() string { return vf.Show(doc.Workflows, codes) }
		fresh := func() (*vfScript, *Engine, *vfSim) {
			s := &vfScript{codes: codes, n: map[string]int{}}
			e := NewEngineWithConfig(doc, s, nil, &EngineConfig{SleepFunc: func(_ context.Context, d time.Duration) error {
				s.trace = append(s.trace, "wait "+d.String())
				return nil
			}})
			return s, e, &vfSim{doc: doc, s: &vfScript{codes: codes, n: map[string]int{}}, done: map[string]bool{}, fuel: 2600}
		}
		h.Case("RunWorkflow", show, func() {
			s, e, sim := fresh()
			id := doc.Workflows[0].WorkflowId
			for i := 0; i < 2; i++ { // an engine can be used again
				sim.fuel = 1 << 20
				want, werr := sim.run(id, in)
				got, err := e.RunWorkflow(context.Background(), id, in)
				vf.Assert("runs", err == nil && werr == nil)
				vfSameRun(got, want)
				vf.Assert("the calls and waits, in order", strings.Join(s.trace, "\n") == strings.Join(sim.s.trace, "\n"))
			}
			_, err := e.RunWorkflow(context.Background(), "none", in)
			vf.Assert("an unknown workflow is an error", err != nil)
		})
		h.Case("RunAll", show, func() {
			s, e, sim := fresh()
			inputs := map[string]map[string]any{}
			for _, w := range doc.Workflows {
				inputs[w.WorkflowId] = in
			}
			res, err := e.RunAll(context.Background(), inputs)
			cyc := vfCyclic(doc)
			vf.Assert("an error exactly for circular dependencies", (err != nil) == cyc)
			if cyc {
				vf.Assert("nothing was run", len(s.trace) == 0 && res == nil)
				return
			}
			vf.Assert("every workflow has one result", len(res.Workflows) == len(doc.Workflows))
			status := map[string]bool{}
			all := true
			for _, got := range res.Workflows {
				id := got.WorkflowId
				_, twice := status[id]
				vf.Assert("one result each", !twice)
				ready := true
				for _, d := range sim.find(id).DependsOn {
					_, has := status[d]
					vf.Assert("after its dependencies", has || sim.find(d) == nil)
					ready = ready && sim.done[d]
				}
				sim.fuel = 1 << 20
				if !ready {
					vf.Assert("not run when a dependency failed", !got.Success && got.Error != nil && len(got.Steps) == 0)
					sim.done[id] = false
				} else if want, werr := sim.run(id, in); werr == nil {
					vfSameRun(got, want)
				}
				status[id], all = got.Success, all && got.Success
			}
			vf.Assert("the calls and waits, in order", strings.Join(s.trace, "\n") == strings.Join(sim.s.trace, "\n"))
			vf.Assert("succeeds exactly when all do", res.Success == all)
		})
	}
}

func vfCyclic(doc *high.Arazzo) bool {
	deps, state := map[string][]string{}, map[string]int{}
	for _, w := range doc.Workflows {
		deps[w.WorkflowId] = w.DependsOn
	}
	var visit func(id string) bool
	visit = func(id string) bool {
		if state[id] != 0 {
			return state[id] == 1
		}
		state[id] = 1
		for _, d := range deps[id] {
			if visit(d) {
				return true
			}
		}
		state[id] = 2
		return false
	}
	for _, w := range doc.Workflows {
		if visit(w.WorkflowId) {
			return true
		}
	}
	return false
}
