//go:build verif

package arazzo

import (
	"regexp"
	"strconv"
	"strings"

	"github.com/pb33f/jsonpath/pkg/jsonpath"
	"github.com/pb33f/libopenapi/arazzo/expression"
	high "github.com/pb33f/libopenapi/datamodel/high/arazzo"
	vf "github.com/pb33f/libopenapi/test_specs"
)

// vf:opt stable
func VfPure_evaluateExprString() {}

// vf:opt stable
func VfPure_toYAMLNode() {}

// vf:opt stable
func VfPure_sprintValue() {}

// vf:opt stable
func VfPure_numericValue() {}

// vf:opt stable
func VfPure_splitSimpleCondition() {}

// vf:opt stable
func VfPure_evaluateSimpleOperand() {}

// vf:opt stable
func VfPure_compareSimpleValues() {}

// vf:opt stable
func VfPure_evaluateSimpleConditionString() {}

// vf:opt stable
func VfPure_evaluateSimpleCriterion() {}

// vf:opt stable
func VfPure_evaluateRegexCriterion() {}

// vf:opt stable
func VfPure_evaluateJSONPathCriterion() {}

// vf:opt stable
func VfPure_evaluateCriterionImpl() {}

// vf:opt prop=P06
func VfPost_numericValue(v any, f float64, ok bool) {
	switch n := v.(type) {
	case int:
		vf.Ensure("int", ok && vf.SameVal(f, float64(n)))
	case int64:
		vf.Ensure("int64", ok && vf.SameVal(f, float64(n)))
	case float64:
		vf.Ensure("float64", ok && vf.SameVal(f, n))
	case string:
		vf.Ensure("text is no number", !ok)
	case bool:
		vf.Ensure("a truth value is no number", !ok)
	case nil:
		vf.Ensure("nothing is no number", !ok)
	}
}

// Two numbers are compared as numbers, everything else as text.
//
// vf:opt prop=P06
func VfPost_compareSimpleValues(left, right any, op string, r bool, err error) {
	known := op == "==" || op == "!=" || op == ">" || op == "<" || op == ">=" || op == "<="
	vf.Ensure("only the six operators", vf.Iff(err == nil, known))
	vf.Ensure("false with an error", err == nil || !r)
	if !known {
		return
	}
	ln, lok := numericValue(left)
	rn, rok := numericValue(right)
	ls, rs := sprintValue(left), sprintValue(right)
	num := lok && rok
	switch op {
	case "==":
		vf.Ensure("==", r == (num && ln == rn || !num && ls == rs))
	case "!=":
		vf.Ensure("!=", r == (num && ln != rn || !num && ls != rs))
	case ">":
		vf.Ensure(">", r == (num && ln > rn || !num && ls > rs))
	case "<":
		vf.Ensure("<", r == (num && ln < rn || !num && ls < rs))
	case ">=":
		vf.Ensure(">=", r == (num && ln >= rn || !num && ls >= rs))
	case "<=":
		vf.Ensure("<=", r == (num && ln <= rn || !num && ls <= rs))
	}
}

// vf:opt prop=P06
func VfPost_evaluateSimpleOperand(operand string, exprCtx *expression.Context, caches *criterionCaches, v any, err error) {
	op := strings.TrimSpace(operand)
	quoted := len(op) > 1 && (op[0] == '"' && op[len(op)-1] == '"' || op[0] == '\'' && op[len(op)-1] == '\'')
	switch {
	case op == "":
		vf.Ensure("nothing", err == nil && vf.SameVal(v, ""))
	case op[0] == '$':
		x, e := evaluateExprString(op, exprCtx, caches)
		vf.Ensure("an expression has its value", (err == nil) == (e == nil) && vf.SameVal(v, x))
	case quoted:
		vf.Ensure("a quoted operand is its text", err == nil && vf.SameVal(v, op[1:len(op)-1]))
	default:
		b, be := strconv.ParseBool(op)
		i, ie := strconv.ParseInt(op, 10, 64)
		f, fe := strconv.ParseFloat(op, 64)
		vf.Ensure("a literal is no error", err == nil)
		vf.Ensure("a truth value", vf.Implies(ie != nil && be == nil, vf.SameVal(v, b)))
		vf.Ensure("an integer", vf.Implies(ie == nil, vf.SameVal(v, i)))
		vf.Ensure("a number", vf.Implies(be != nil && ie != nil && fe == nil, vf.SameVal(v, f)))
		vf.Ensure("text", vf.Implies(be != nil && ie != nil && fe != nil, vf.SameVal(v, op)))
	}
}

// vf:opt prop=P06
func VfPost_evaluateSimpleConditionString(condition string, exprCtx *expression.Context, caches *criterionCaches, r bool, err error) {
	vf.Ensure("false with an error", err == nil || !r)
	c := strings.TrimSpace(condition)
	if c == "" {
		vf.Ensure("an empty condition does not hold", err == nil && !r)
		return
	}
	if b, e := strconv.ParseBool(c); e == nil {
		vf.Ensure("a literal truth value", err == nil && r == b)
		return
	}
	l, op, rt, found := splitSimpleCondition(c)
	if !found {
		v, e := evaluateSimpleOperand(c, exprCtx, caches)
		b, isBool := v.(bool)
		vf.Ensure("a single operand must be a truth value", vf.Iff(err == nil, e == nil && isBool))
		vf.Ensure("a single operand decides", vf.Implies(err == nil, r == b))
		return
	}
	lv, le := evaluateSimpleOperand(l, exprCtx, caches)
	rv, re := evaluateSimpleOperand(rt, exprCtx, caches)
	vf.Ensure("an operand without value is an error", vf.Implies(le != nil || re != nil, err != nil))
	x, ce := compareSimpleValues(lv, rv, op)
	vf.Ensure("the comparison decides", vf.Implies(le == nil && re == nil, r == x && (err == nil) == (ce == nil)))
}

// vf:opt prop=P06 maypanic
func VfPost_evaluateSimpleCriterion(criterion *high.Criterion, exprCtx *expression.Context, caches *criterionCaches, r bool, err error) {
	vf.Ensure("false with an error", err == nil || !r)
	if criterion.Context == "" {
		x, e := evaluateSimpleConditionString(criterion.Condition, exprCtx, caches)
		vf.Ensure("the condition decides", r == x && (err == nil) == (e == nil))
		return
	}
	v, e := evaluateExprString(criterion.Context, exprCtx, caches)
	vf.Ensure("a context without value is an error", vf.Iff(err == nil, e == nil))
	vf.Ensure("the context's text is the condition", vf.Implies(err == nil, r == (sprintValue(v) == criterion.Condition)))
}

// vf:opt prop=P06 maypanic
func VfPost_evaluateCriterionImpl(criterion *high.Criterion, exprCtx *expression.Context, caches *criterionCaches, r bool, err error) {
	vf.Ensure("false with an error", err == nil || !r)
	kind := "simple"
	if criterion.ExpressionType != nil {
		kind = criterion.ExpressionType.Type
	} else if criterion.Type != "" {
		kind = criterion.Type
	}
	switch kind {
	case "simple":
		x, e := evaluateSimpleCriterion(criterion, exprCtx, caches)
		vf.Ensure("simple", r == x && (err == nil) == (e == nil))
	case "regex":
		x, e := evaluateRegexCriterion(criterion, exprCtx, caches)
		vf.Ensure("regex", r == x && (err == nil) == (e == nil))
	case "jsonpath":
		x, e := evaluateJSONPathCriterion(criterion, exprCtx, caches)
		vf.Ensure("jsonpath", r == x && (err == nil) == (e == nil))
	default:
		vf.Ensure("any other kind is an error", err != nil)
	}
}

// Regex and JSONPath criteria never hold together with an error.
//
// vf:opt prop=P06 maypanic noframe
func VfPost_evaluateRegexCriterion(criterion *high.Criterion, exprCtx *expression.Context, caches *criterionCaches, r bool, err error) {
	vf.Ensure("false with an error", err == nil || !r)
	vf.Ensure("needs a context", criterion.Context != "" || err != nil)
}

// vf:opt prop=P06 maypanic noframe
func VfPost_evaluateJSONPathCriterion(criterion *high.Criterion, exprCtx *expression.Context, caches *criterionCaches, r bool, err error) {
	vf.Ensure("false with an error", err == nil || !r)
	vf.Ensure("needs a context", criterion.Context != "" || err != nil)
}

func vfHolds(c *high.Criterion, ctx *expression.Context, caches *criterionCaches) bool {
	r, err := evaluateCriterionImpl(c, ctx, caches)
	return err == nil && r
}

func vfFails(c *high.Criterion, ctx *expression.Context, caches *criterionCaches) bool {
	_, err := evaluateCriterionImpl(c, ctx, caches)
	return err != nil
}

func VfLoop_Engine_evaluateActionCriteria__1(e *Engine, criteria []*high.Criterion, exprCtx *expression.Context, iter int) {
	vf.Ensure("1", vf.Forall(0, iter, func(i int) bool { return i >= len(criteria) || vfHolds(criteria[i], exprCtx, e.criterionCaches) }))
}

// vf:opt stable
func VfPure_Engine_evaluateActionCriteria() {}

// All criteria hold; the first that does not decides.
//
// vf:opt prop=P06 opaque=evaluateCriterionImpl
func VfPost_Engine_evaluateActionCriteria(e *Engine, criteria []*high.Criterion, exprCtx *expression.Context, r bool, err error) {
	vf.Ensure("false with an error", err == nil || !r)
	vf.Ensure("holds when all hold", vf.Iff(err == nil && r, vf.Forall(0, len(criteria), func(i int) bool { return vfHolds(criteria[i], exprCtx, e.criterionCaches) })))
	vf.Ensure("an error is a criterion's", err == nil || vf.Exists(0, len(criteria), func(i int) bool { return vfFails(criteria[i], exprCtx, e.criterionCaches) }))
}

func VfPre_Engine_evaluateStepSuccessCriteria(e *Engine, step *high.Step, exprCtx *expression.Context) {
	vf.Require("a step", step != nil)
}

func VfLoop_Engine_evaluateStepSuccessCriteria__1(e *Engine, step *high.Step, exprCtx *expression.Context, iter int) {
	vf.Ensure("1", vf.Forall(0, iter, func(i int) bool {
		return i >= len(step.SuccessCriteria) || vfHolds(step.SuccessCriteria[i], exprCtx, e.criterionCaches)
	}))
}

// A step succeeds exactly when all of its success criteria hold.
//
// vf:opt prop=P06 opaque=evaluateCriterionImpl
func VfPost_Engine_evaluateStepSuccessCriteria(e *Engine, step *high.Step, exprCtx *expression.Context, err error) {
	vf.Ensure("succeeds when all hold", vf.Iff(err == nil, vf.Forall(0, len(step.SuccessCriteria), func(i int) bool {
		return vfHolds(step.SuccessCriteria[i], exprCtx, e.criterionCaches)
	})))
}

func VfOld_compileCriterionRegex(raw string, caches *criterionCaches) (in bool, re *regexp.Regexp, err error) {
	if caches == nil {
		return false, nil, nil
	}
	c, ok := caches.regex[raw]
	return ok, c.regex, c.err
}

// A pattern is cached under its own text.
//
// vf:opt prop=P06 noframe maypanic
func VfPost_compileCriterionRegex(in bool, oldRe *regexp.Regexp, oldErr error, raw string, caches *criterionCaches, re *regexp.Regexp, err error) {
	vf.Ensure("a cached pattern is the cached one", vf.Implies(in, re == oldRe && vf.SameVal(err, oldErr)))
	if caches != nil {
		c, ok := caches.regex[raw]
		vf.Ensure("remembered under its own text", ok && c.regex == re && vf.SameVal(c.err, err))
	}
}

func VfOld_compileCriterionJSONPath(raw string, caches *criterionCaches) (in bool, p *jsonpath.JSONPath, err error) {
	if caches == nil {
		return false, nil, nil
	}
	c, ok := caches.jsonPath[raw]
	return ok, c.path, c.err
}

// vf:opt prop=P06 noframe maypanic
func VfPost_compileCriterionJSONPath(in bool, oldP *jsonpath.JSONPath, oldErr error, raw string, caches *criterionCaches, p *jsonpath.JSONPath, err error) {
	vf.Ensure("a cached path is the cached one", vf.Implies(in, p == oldP && vf.SameVal(err, oldErr)))
	if caches != nil {
		c, ok := caches.jsonPath[raw]
		vf.Ensure("remembered under its own text", ok && c.path == p && vf.SameVal(c.err, err))
	}
}
