//go:build verif

package arazzo

import (
	"context"
	"time"

	"github.com/pb33f/libopenapi/arazzo/expression"
	high "github.com/pb33f/libopenapi/datamodel/high/arazzo"
	vf "github.com/pb33f/libopenapi/test_specs"
)

// A failed run says why, a successful one has nothing to say.
func vfTold(r *WorkflowResult) bool {
	return r != nil && r.Success == (r.Error == nil)
}

func VfLoop_Engine_runWorkflow__1(stepIndexByID map[string]int) {
	vf.Ensure("1", vfIndexes(stepIndexByID))
}

func VfLoop_Engine_runWorkflow__2(result *WorkflowResult, stepTransitions int) {
	vf.Ensure("2", stepTransitions >= 0 && stepTransitions <= maxStepTransitions && len(result.Steps) == stepTransitions)
}

func VfLoop_Engine_runWorkflow__3(stepIdx int) {
	vf.Ensure("3", stepIdx >= 0)
}

func vfIndexes(m map[string]int) bool {
	return vf.ForallKeys(m, func(k string) bool { return m[k] >= 0 })
}

// vf:opt prop=P07 noframe maypanic
func VfPost_Engine_runWorkflow(e *Engine, ctx context.Context, workflowId string, inputs map[string]any, state *executionState, r *WorkflowResult, err error) {
	vf.Ensure("a result or an error", (r == nil) == (err != nil))
	vf.Ensure("a failure says why", err != nil || vfTold(r))
	vf.Ensure("no more steps than the limit", err != nil || len(r.Steps) <= maxStepTransitions)
	vf.Ensure("the workflow's own result", err != nil || r.WorkflowId == workflowId)
}

// vf:opt noframe
func VfPost_Engine_executeStep(e *Engine, ctx context.Context, step *high.Step, wf *high.Workflow, exprCtx *expression.Context, state *executionState, r *StepResult) {
	vf.Ensure("a result", r != nil)
}

func VfPre_Engine_processActionTypeResult(e *Engine, ctx context.Context, req *actionTypeRequest, exprCtx *expression.Context, state *executionState, stepIndexByID map[string]int) {
	vf.Require("set", req != nil && exprCtx != nil && state != nil)
	vf.Require("step indexes", vfIndexes(stepIndexByID))
}

// vf:opt prop=P07 noframe
func VfPost_Engine_processActionTypeResult(e *Engine, ctx context.Context, req *actionTypeRequest, exprCtx *expression.Context, state *executionState, stepIndexByID map[string]int, r *stepActionResult, err error) {
	vf.Ensure("a result or an error", (r == nil) == (err != nil))
	idx, known := stepIndexByID[req.stepId]
	if err != nil {
		vf.Ensure("only goto can go wrong", req.actionType == "goto" && (req.workflowId != "" || req.stepId != "" && !known))
		return
	}
	vf.Ensure("one thing at most", !(r.endWorkflow && r.retryCurrent) && (r.jumpToStepIdx < 0 || !r.endWorkflow && !r.retryCurrent))
	vf.Ensure("ends exactly on end and after another workflow", r.endWorkflow == (req.actionType == "end" || req.actionType == "goto" && req.workflowId != ""))
	jump := req.actionType == "goto" && req.workflowId == "" && req.stepId != ""
	vf.Ensure("jumps exactly on goto a step", (r.jumpToStepIdx >= 0) == jump)
	vf.Ensure("jumps to that step", vf.Implies(jump, known && r.jumpToStepIdx == idx))
	limit := req.retryLimit
	if limit < 1 {
		limit = 1
	}
	vf.Ensure("retries while the limit allows", r.retryCurrent == (req.actionType == "retry" && int64(req.currentRetries) < limit))
	vf.Ensure("waits only for a retry", r.retryAfter >= 0 && (r.retryAfter == 0 || r.retryCurrent))
}

// vf:opt prop=P07
func VfPost_stepFailureOrDefault(stepID string, stepErr error, err error) {
	vf.Ensure("never silent", err != nil)
	vf.Ensure("the step's own error", vf.Implies(stepErr != nil, vf.SameVal(err, stepErr)))
}

// vf:opt prop=P07
func VfPost_workflowFailureError(workflowID string, wfResult *WorkflowResult, err error) {
	vf.Ensure("never silent", err != nil)
	vf.Ensure("the workflow's own error", vf.Implies(wfResult != nil && wfResult.Error != nil, vf.SameVal(err, wfResult.Error)))
}

func VfPre_dependencyExecutionError(wf *high.Workflow, workflowResults map[string]*WorkflowResult) {
	vf.Require("a workflow", wf != nil)
	vf.Require("results are set", vf.ForallKeys(workflowResults, func(k string) bool { return workflowResults[k] != nil }))
}

func vfDone(results map[string]*WorkflowResult, id string) bool {
	r, ok := results[id]
	return ok && r.Success
}

func VfLoop_dependencyExecutionError__1(wf *high.Workflow, workflowResults map[string]*WorkflowResult, iter int) {
	vf.Ensure("1", vf.Forall(0, iter, func(i int) bool { return i >= len(wf.DependsOn) || vfDone(workflowResults, wf.DependsOn[i]) }))
}

// vf:opt prop=P07
func VfPost_dependencyExecutionError(wf *high.Workflow, workflowResults map[string]*WorkflowResult, err error) {
	vf.Ensure("runs exactly when all dependencies succeeded", vf.Iff(err == nil, vf.Forall(0, len(wf.DependsOn), func(i int) bool { return vfDone(workflowResults, wf.DependsOn[i]) })))
}

// vf:opt prop=P07
func VfPost_workflowExecutionFailureResult(workflowID string, inputs map[string]any, execErr error, r *WorkflowResult) {
	vf.Ensure("a failed result exactly for an error", (r != nil) == (execErr != nil))
	vf.Ensure("which says why", vf.Implies(r != nil, vfTold(r) && r.WorkflowId == workflowID && vf.SameVal(r.Error, execErr)))
}

// vf:opt prop=P07 noframe
func VfPost_copyWorkflowContexts(src map[string]*expression.WorkflowContext, dst map[string]*expression.WorkflowContext) {
	vf.Ensure("a map", dst != nil)
}

func VfPre_Engine_resolveStepSource(e *Engine, step *high.Step) {
	vf.Require("an engine", e != nil)
}

// vf:opt prop=P07 maypanic
func VfPost_Engine_resolveStepSource(e *Engine, step *high.Step, r *ResolvedSource) {
	vf.Ensure("none without sources", vf.Implies(len(e.sources) == 0 || step == nil, r == nil))
	vf.Ensure("the only one", vf.Implies(len(e.sources) > 0 && step != nil && e.defaultSource != nil, r == e.defaultSource))
}

// vf:opt prop=P07
func VfPost_valueNeedsResolution(v any, r bool) {
	switch v.(type) {
	case []any, map[string]any, map[any]any:
		vf.Ensure("containers may hold expressions", r)
	}
}

// vf:opt prop=P07 noframe maypanic
func VfPost_Engine_processSuccessActions(e *Engine, ctx context.Context, step *high.Step, wf *high.Workflow, exprCtx *expression.Context, state *executionState, stepIndexByID map[string]int, r *stepActionResult, err error) {
	vf.Ensure("a result or an error", (r == nil) == (err != nil))
}

// vf:opt prop=P07 noframe maypanic
func VfPost_Engine_processFailureActions(e *Engine, ctx context.Context, step *high.Step, wf *high.Workflow, exprCtx *expression.Context, state *executionState, stepIndexByID map[string]int, currentRetries int, r *stepActionResult, err error) {
	vf.Ensure("a result or an error", (r == nil) == (err != nil))
}

// vf:opt stable
func VfPure_Engine_selectSuccessAction() {}

// The step's own actions come before the workflow's.
//
// vf:opt prop=P07 opaque=Engine_findMatchingSuccessAction
func VfPost_Engine_selectSuccessAction(e *Engine, stepActions, workflowActions []*high.SuccessAction, exprCtx *expression.Context, r *high.SuccessAction, err error) {
	a, ae := e.findMatchingSuccessAction(stepActions, exprCtx)
	if a != nil || ae != nil {
		vf.Ensure("the step's own", r == a && (err == nil) == (ae == nil))
		return
	}
	b, be := e.findMatchingSuccessAction(workflowActions, exprCtx)
	vf.Ensure("the workflow's", r == b && (err == nil) == (be == nil))
}

// vf:opt stable
func VfPure_Engine_selectFailureAction() {}

// The step's own actions come before the workflow's.
//
// vf:opt prop=P07 opaque=Engine_findMatchingFailureAction
func VfPost_Engine_selectFailureAction(e *Engine, stepActions, workflowActions []*high.FailureAction, exprCtx *expression.Context, r *high.FailureAction, err error) {
	a, ae := e.findMatchingFailureAction(stepActions, exprCtx)
	if a != nil || ae != nil {
		vf.Ensure("the step's own", r == a && (err == nil) == (ae == nil))
		return
	}
	b, be := e.findMatchingFailureAction(workflowActions, exprCtx)
	vf.Ensure("the workflow's", r == b && (err == nil) == (be == nil))
}

// vf:opt noframe
func VfPost_Engine_newExpressionContext(e *Engine, inputs map[string]any, state *executionState, r *expression.Context, err error) {
	vf.Ensure("a context", r != nil)
}

// vf:opt noframe
func VfPost_Engine_populateWorkflowOutputs(e *Engine, wf *high.Workflow, result *WorkflowResult, exprCtx *expression.Context, err error) {
}

func VfPre_Engine_processSuccessActions(e *Engine, ctx context.Context, step *high.Step, wf *high.Workflow, exprCtx *expression.Context, state *executionState, stepIndexByID map[string]int) {
	vf.Require("set", step != nil && wf != nil && exprCtx != nil && state != nil)
	vf.Require("step indexes", vfIndexes(stepIndexByID))
}

func VfPre_Engine_processFailureActions(e *Engine, ctx context.Context, step *high.Step, wf *high.Workflow, exprCtx *expression.Context, state *executionState, stepIndexByID map[string]int, currentRetries int) {
	vf.Require("set", step != nil && wf != nil && exprCtx != nil && state != nil)
	vf.Require("step indexes", vfIndexes(stepIndexByID))
}

func VfPre_Engine_runWorkflow(e *Engine, ctx context.Context, workflowId string, inputs map[string]any, state *executionState) {
	vf.Require("set", state != nil)
}

// vf:opt noframe
func VfPost_Engine_sleep(e *Engine, ctx context.Context, d time.Duration, err error) {
}

// vf:opt stable
func VfPure_Engine_resolveSuccessAction() {}

// vf:opt stable
func VfPure_Engine_resolveFailureAction() {}

// vf:opt prop=P07
func VfPost_Engine_resolveSuccessAction(e *Engine, action *high.SuccessAction, r *high.SuccessAction, err error) {
	vf.Ensure("nothing with an error", err == nil || r == nil)
	vf.Ensure("an inline action is itself", vf.Implies(action == nil || action.Reference == "", err == nil && r == action))
}

// vf:opt prop=P07
func VfPost_Engine_resolveFailureAction(e *Engine, action *high.FailureAction, r *high.FailureAction, err error) {
	vf.Ensure("nothing with an error", err == nil || r == nil)
	vf.Ensure("an inline action is itself", vf.Implies(action == nil || action.Reference == "", err == nil && r == action))
}

// vfSuccess: whether the action applies, and whether that can be decided.
func vfSuccess(e *Engine, a *high.SuccessAction, ctx *expression.Context) (match, decided bool) {
	r, err := e.resolveSuccessAction(a)
	if err != nil || r == nil {
		return false, false
	}
	ok, err2 := e.evaluateActionCriteria(r.Criteria, ctx)
	return err2 == nil && ok, err2 == nil
}

func vfFailure(e *Engine, a *high.FailureAction, ctx *expression.Context) (match, decided bool) {
	r, err := e.resolveFailureAction(a)
	if err != nil || r == nil {
		return false, false
	}
	ok, err2 := e.evaluateActionCriteria(r.Criteria, ctx)
	return err2 == nil && ok, err2 == nil
}

func vfPassedS(e *Engine, as []*high.SuccessAction, n int, ctx *expression.Context) bool {
	return vf.Forall(0, n, func(i int) bool {
		if i >= len(as) {
			return true
		}
		m, d := vfSuccess(e, as[i], ctx)
		return d && !m
	})
}

func vfPassedF(e *Engine, as []*high.FailureAction, n int, ctx *expression.Context) bool {
	return vf.Forall(0, n, func(i int) bool {
		if i >= len(as) {
			return true
		}
		m, d := vfFailure(e, as[i], ctx)
		return d && !m
	})
}

func VfLoop_Engine_findMatchingSuccessAction__1(e *Engine, actions []*high.SuccessAction, exprCtx *expression.Context, iter int) {
	vf.Ensure("1", vfPassedS(e, actions, iter, exprCtx))
}

func VfLoop_Engine_findMatchingFailureAction__1(e *Engine, actions []*high.FailureAction, exprCtx *expression.Context, iter int) {
	vf.Ensure("1", vfPassedF(e, actions, iter, exprCtx))
}

// vf:opt stable
func VfPure_Engine_findMatchingSuccessAction() {}

// vf:opt stable
func VfPure_Engine_findMatchingFailureAction() {}

// The first action whose criteria all hold.
//
// vf:opt prop=P07 maypanic opaque=Engine_evaluateActionCriteria,Engine_findMatchingSuccessAction
func VfPost_Engine_findMatchingSuccessAction(e *Engine, actions []*high.SuccessAction, exprCtx *expression.Context, r *high.SuccessAction, err error) {
	vf.Ensure("nothing with an error", err == nil || r == nil)
	vf.Ensure("none applies", vf.Implies(err == nil && r == nil, vfPassedS(e, actions, len(actions), exprCtx)))
	vf.Ensure("the first that applies", vf.Implies(r != nil, vf.Exists(0, len(actions), func(i int) bool {
		x, xe := e.resolveSuccessAction(actions[i])
		m, _ := vfSuccess(e, actions[i], exprCtx)
		return xe == nil && x == r && m && vfPassedS(e, actions, i, exprCtx)
	})))
}

// vf:opt prop=P07 maypanic opaque=Engine_evaluateActionCriteria,Engine_findMatchingFailureAction
func VfPost_Engine_findMatchingFailureAction(e *Engine, actions []*high.FailureAction, exprCtx *expression.Context, r *high.FailureAction, err error) {
	vf.Ensure("nothing with an error", err == nil || r == nil)
	vf.Ensure("none applies", vf.Implies(err == nil && r == nil, vfPassedF(e, actions, len(actions), exprCtx)))
	vf.Ensure("the first that applies", vf.Implies(r != nil, vf.Exists(0, len(actions), func(i int) bool {
		x, xe := e.resolveFailureAction(actions[i])
		m, _ := vfFailure(e, actions[i], exprCtx)
		return xe == nil && x == r && m && vfPassedF(e, actions, i, exprCtx)
	})))
}
