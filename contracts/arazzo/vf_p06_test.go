//go:build verif

package arazzo

import (
	"fmt"
	"math/rand"
	"regexp"
	"strconv"
	"strings"
	"testing"

	"github.com/pb33f/libopenapi/arazzo/expression"
	high "github.com/pb33f/libopenapi/datamodel/high/arazzo"
	vf "github.com/pb33f/libopenapi/test_specs"
	"go.yaml.in/yaml/v4"
)

// vfOperand is an operand's text and what it denotes (ok false: no value).
type vfOperand struct {
	text string
	v    any
	ok   bool
}

var vfVals = []any{"", "a", "b", "abc", "10", "9", "1e1", "true", "x==y", "a b", 10, int64(9), 9.5, -1, 0, true, false, "é", "<", 1e21, 0.1, "\"", nil, uint8(9), float32(2.5), "true "}

func vfCtx(r *rand.Rand) *expression.Context {
	c := &expression.Context{StatusCode: []int{0, 200, 404, 9, 10}[r.Intn(5)], URL: vf.Word(r), Method: "GET", Inputs: map[string]any{}, Outputs: map[string]any{}}
	for _, k := range []string{"a", "b", "c", "d"} {
		if r.Intn(8) > 0 {
			c.Inputs[k] = vfVals[r.Intn(len(vfVals))]
		}
	}
	var n yaml.Node
	body := "{s: text, n: 10, f: 9.5, t: true, x: null, l: [1, 2, {k: v}], m: {'a/b': 7}, e: ''}"
	if err := yaml.Unmarshal([]byte(body), &n); err != nil {
		panic(err)
	}
	c.ResponseBody = n.Content[0]
	return c
}

var vfBodyVals = map[string]any{"/s": "text", "/n": int64(10), "/f": 9.5, "/t": true, "/l/1": int64(2), "/l/2/k": "v", "/m/a~1b": int64(7), "/e": ""}

// expr: the left operand may only use texts in which the operator cannot hide.
func vfGenOperand(r *rand.Rand, c *expression.Context, left bool) vfOperand {
	switch r.Intn(8) {
	case 0, 1:
		k := []string{"a", "b", "c", "d", "z"}[r.Intn(5)]
		v, ok := c.Inputs[k]
		return vfOperand{"$inputs." + k, v, ok}
	case 2:
		return vfOperand{"$statusCode", c.StatusCode, true}
	case 3:
		for k, v := range vfBodyVals {
			if r.Intn(4) == 0 {
				return vfOperand{"$response.body#" + k, v, true}
			}
		}
		return vfOperand{"$response.body#/nope", nil, false}
	case 4:
		s := []string{"", "a", "x==y", "a > b", "10", "true", "it's", "<=", "a b", "é", "!="}[r.Intn(11)]
		return vfOperand{"\"" + s + "\"", s, true}
	case 5:
		s := []string{"", "a", "x!=y", "say \"x\"", "9", "false", ">", "$inputs.a"}[r.Intn(8)]
		return vfOperand{"'" + s + "'", s, true}
	case 6:
		n := []string{"0", "10", "9", "-1", "007", "9223372036854775807"}[r.Intn(6)]
		i, _ := strconv.ParseInt(n, 10, 64)
		return vfOperand{n, i, true}
	}
	if r.Intn(3) == 0 {
		return vfOperand{"9.5", 9.5, true}
	}
	if r.Intn(3) == 0 {
		return vfOperand{"true", true, true}
	}
	w := []string{"a", "abc", "text", "\"", "'", "é", "a b", "\"a", "b'"}[r.Intn(9)]
	if left && strings.ContainsAny(w, "\"'") {
		w = "text"
	}
	return vfOperand{w, w, true}
}

func vfNum(v any) (float64, bool) {
	switch x := v.(type) {
	case int:
		return float64(x), true
	case int64:
		return float64(x), true
	case uint8:
		return float64(x), true
	case float32:
		return float64(x), true
	case float64:
		return x, true
	}
	return 0, false
}

func vfText(v any) string {
	if f, ok := v.(float64); ok {
		return strconv.FormatFloat(f, 'f', -1, 64)
	}
	return fmt.Sprintf("%v", v)
}

func vfCmp[T int | float64 | string](a, b T, op string) bool {
	switch op {
	case "==":
		return a == b
	case "!=":
		return a != b
	case "<":
		return a < b
	case "<=":
		return a <= b
	case ">":
		return a > b
	}
	return a >= b
}

func vfCompare(a, b any, op string) bool {
	x, xn := vfNum(a)
	y, yn := vfNum(b)
	if xn && yn {
		return vfCmp(x, y, op)
	}
	return vfCmp(vfText(a), vfText(b), op)
}

func TestVfP06(t *testing.T) {
	h := vf.NewH("P06")
	defer h.Done()
	r := h.R
	ops := []string{"==", "!=", ">=", "<=", ">", "<"}
	e := NewEngine(nil, nil, nil)
	// with and without an engine's caches, twice
	eval := func(c *high.Criterion, ctx *expression.Context) (bool, error) {
		got, err := EvaluateCriterion(c, ctx)
		for i := 0; i < 2; i++ {
			g, e2 := evaluateCriterionImpl(c, ctx, e.criterionCaches)
			vf.Assert("the caches change nothing", g == got && (e2 == nil) == (err == nil))
		}
		vf.Assert("false with an error", err == nil || !got)
		return got, err
	}
	for _, a := range vfVals {
		h.Case("numericValue", func() string { return vf.Show(a) }, func() { f, ok := numericValue(a); VfPost_numericValue(a, f, ok) })
		for _, b := range vfVals {
			for _, op := range append(ops, "=", "", "=>") {
				h.Case("compareSimpleValues", func() string { return vf.Show(a, op, b) }, func() {
					got, err := compareSimpleValues(a, b, op)
					VfPost_compareSimpleValues(a, b, op, got, err)
				})
			}
		}
	}
	ctx0 := vfCtx(rand.New(rand.NewSource(1)))
	vf.Each([]string{"\"", "'", "$inputs.a", "a", " ", "==", "<", "=", "!", ">", "1", "true"}, 4, func(s string) {
		h.Case("EvaluateCriterion", func() string { return vf.Show(s) }, func() {
			got, err := eval(&high.Criterion{Condition: s}, ctx0)
			VfPost_evaluateSimpleConditionString(s, ctx0, nil, got, err)
		})
		h.Case("evaluateSimpleOperand", func() string { return vf.Show(s) }, func() {
			v, err := evaluateSimpleOperand(s, ctx0, nil)
			VfPost_evaluateSimpleOperand(s, ctx0, nil, v, err)
		})
	})
	pats := []string{"^a", "b$", "^$", "[0-9]+", "(", "a.c", "true", "", "^10$", "x==y", "*", "é", " b$", "^a ", "A", "a B", "b ", "(?i)A", "^A", "10 "}
	paths := []struct {
		p  string
		ok bool
	}{{"$.s", true}, {"$.n", true}, {"$.zz", false}, {"$.l[0]", true}, {"$.l[5]", false}, {"$.l[?@.k=='v']", true}, {"$.l[?@.k=='w']", false}, {"$.m['a/b']", true}, {"$..k", true}, {"$..q", false}}
	for round := 0; round < h.N(40000) && h.Left(); round++ {
		ctx := vfCtx(r)
		a, b, op := vfGenOperand(r, ctx, true), vfGenOperand(r, ctx, false), ops[r.Intn(6)]
		sp := []string{" ", "", "  "}
		s1, s2 := sp[r.Intn(3)], sp[r.Intn(3)]
		if a.text[0] == '$' {
			s1 = " "
		}
		cond := strings.Repeat(" ", r.Intn(2)) + a.text + s1 + op + s2 + b.text + strings.Repeat(" ", r.Intn(2))
		h.Case("comparison", func() string { return vf.Show(cond, ctx.Inputs, ctx.StatusCode) }, func() {
			got, err := eval(&high.Criterion{Condition: cond, Type: []string{"", "simple"}[r.Intn(2)]}, ctx)
			vf.Assert("an error exactly when an operand has no value", (err == nil) == (a.ok && b.ok))
			vf.Assert("holds exactly when the operands compare that way", err != nil || got == vfCompare(a.v, b.v, op))
		})
		o := vfGenOperand(r, ctx, true)
		h.Case("single operand", func() string { return vf.Show(o.text, ctx.Inputs) }, func() {
			if strings.ContainsAny(o.text, "=<>!") && o.text[0] != '$' {
				return
			}
			got, err := eval(&high.Criterion{Condition: o.text}, ctx)
			v, isBool := o.v.(bool)
			if _, perr := strconv.ParseBool(o.text); perr != nil {
				vf.Assert("only a truth value decides", (err == nil) == (o.ok && isBool))
				vf.Assert("decides", err != nil || got == v)
			}
		})
		h.Case("context", func() string { return vf.Show(a.text, b.text, ctx.Inputs) }, func() {
			if a.text[0] != '$' {
				return
			}
			for _, cond := range []string{b.text, vfText(a.v)} {
				got, err := eval(&high.Criterion{Context: a.text, Condition: cond}, ctx)
				vf.Assert("an error exactly when the context has no value", (err == nil) == a.ok)
				vf.Assert("holds exactly when the context's text is the condition", err != nil || got == (vfText(a.v) == cond))
			}
			p := pats[r.Intn(len(pats))]
			got, err := eval(&high.Criterion{Context: a.text, Condition: p, Type: "regex"}, ctx)
			re, rerr := regexp.Compile(p)
			vf.Assert("an error exactly when context or pattern is bad", (err == nil) == (a.ok && rerr == nil))
			vf.Assert("holds exactly when the pattern matches", err != nil || got == re.MatchString(vfText(a.v)))
			_, err = eval(&high.Criterion{Condition: p, Type: "regex"}, ctx)
			vf.Assert("a regex needs a context", err != nil)
			_, err = eval(&high.Criterion{Context: a.text, Condition: p, Type: []string{"xpath", "Simple", "jsonPath"}[r.Intn(3)]}, ctx)
			vf.Assert("an unknown kind is an error", err != nil)
		})
		jp := paths[r.Intn(len(paths))]
		h.Case("jsonpath", func() string { return vf.Show(jp.p) }, func() {
			got, err := eval(&high.Criterion{Context: "$response.body", Condition: jp.p, ExpressionType: &high.CriterionExpressionType{Type: "jsonpath"}, Type: "regex"}, ctx)
			vf.Assert("no error", err == nil)
			vf.Assert("holds exactly when the path selects something", got == jp.ok)
		})
		n := r.Intn(4)
		var cs []*high.Criterion
		all, bad, first := true, false, -1
		for i := 0; i < n; i++ {
			cnd := []string{"true", "false", "$inputs.none == 1", "1 == 1", "1 > 2", "$statusCode > -1"}[r.Intn(6)]
			if r.Intn(2) == 0 {
				cnd = "1 == 1"
			}
			cs = append(cs, &high.Criterion{Condition: cnd})
			ok := cnd == "true" || cnd == "1 == 1" || cnd == "$statusCode > -1"
			if all && !ok {
				first, bad = i, strings.HasPrefix(cnd, "$inputs")
			}
			all = all && ok
		}
		h.Case("all criteria", func() string { return vf.Show(cs) }, func() {
			got, err := e.evaluateActionCriteria(cs, ctx)
			vf.Assert("hold exactly when all hold", got == all)
			vf.Assert("an error exactly when the first that does not hold cannot be decided", (err != nil) == bad)
			serr := e.evaluateStepSuccessCriteria(&high.Step{StepId: "s", SuccessCriteria: cs}, ctx)
			vf.Assert("a step succeeds exactly when all hold", (serr == nil) == all)
			if f, ok := serr.(*StepFailureError); serr != nil {
				vf.Assert("the failure names the criterion", ok && f.CriterionIndex == first && f.StepId == "s")
			}
		})
	}
}
