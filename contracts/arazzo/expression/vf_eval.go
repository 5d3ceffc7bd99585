//go:build verif

package expression

import (
	"strconv"
	"strings"

	vf "github.com/pb33f/libopenapi/test_specs"
	"go.yaml.in/yaml/v4"
)

// vf:opt stable
func VfPure_resolveJSONPointer() {}

// vf:opt stable
func VfPure_resolveDeepValue() {}

// vfTree: the node is set, and so is everything below it.
func vfTree(n *yaml.Node) bool {
	if n == nil {
		return false
	}
	for _, c := range n.Content {
		if !vfTree(c) {
			return false
		}
	}
	return true
}

// vf:opt stable
func VfPure_vfTree() {}

// vf:opt always
func VfPost_vfTree(n *yaml.Node, r bool) {
	vf.Ensure("set", vf.Implies(r, n != nil))
	if r && n != nil {
		vf.Ensure("set below", vf.Forall(0, len(n.Content), func(i int) bool { return n.Content[i] != nil && vfTree(n.Content[i]) }))
	}
}

// vfChild is where in n.Content the value named by one pointer token is: the
// value of the first key that is the token, or the token's number; -1 if there is none.
func vfChild(n *yaml.Node, token string) int {
	switch n.Kind {
	case yaml.MappingNode:
		for i := 0; i < len(n.Content)-1; i += 2 {
			if n.Content[i].Value == token {
				return i + 1
			}
		}
	case yaml.SequenceNode:
		i, err := strconv.Atoi(token)
		if err == nil && i >= 0 && i < len(n.Content) {
			return i
		}
	}
	return -1
}

// vf:opt stable
func VfPure_vfChild() {}

func VfLoop_vfChild__1(i, iter int) {
	vf.Ensure("1", i == 2*iter)
}

func VfLoop_vfChild__2(n *yaml.Node, token string, iter int) {
	vf.Ensure("2", vf.Forall(0, iter, func(k int) bool { return 2*k >= len(n.Content) || n.Content[2*k].Value != token }))
}

func VfPre_vfChild(n *yaml.Node, token string) {
	vf.Require("a tree", vfTree(n))
}

// vf:opt prop=P05 always
func VfPost_vfChild(n *yaml.Node, token string, r int) {
	vf.Ensure("in range", r >= -1 && r < len(n.Content))
	if n.Kind == yaml.MappingNode {
		vf.Ensure("after a key", r != 0)
		vf.Ensure("a value of the mapping", vf.Implies(r > 0, r%2 == 1 && n.Content[r-1].Value == token))
		vf.Ensure("the first such key", vf.Implies(r > 0, vf.Forall(0, (r-1)/2, func(k int) bool { return n.Content[2*k].Value != token })))
		vf.Ensure("none", vf.Implies(r < 0, vf.Forall(0, len(n.Content)/2, func(k int) bool { return n.Content[2*k].Value != token })))
	} else if n.Kind == yaml.SequenceNode {
		i, err := strconv.Atoi(token)
		vf.Ensure("the index", vf.Iff(r >= 0, err == nil && i >= 0 && i < len(n.Content)))
		vf.Ensure("the element", vf.Implies(r >= 0, r == i))
	} else {
		vf.Ensure("nothing below", r == -1)
	}
}

// vfPtr is the node that p (tokens separated by '/') leads to from n, nil if
// there is none.
func vfPtr(n *yaml.Node, p string) *yaml.Node {
	if p == "" {
		return n
	}
	token, rest := p, ""
	if i := strings.IndexByte(p, '/'); i >= 0 {
		token, rest = p[:i], p[i+1:]
	}
	c := vfChild(n, UnescapeJSONPointer(token))
	if c < 0 {
		return nil
	}
	return vfPtr(n.Content[c], rest)
}

// vf:opt stable
func VfPure_vfPtr() {}

func VfPre_vfPtr(n *yaml.Node, p string) {
	vf.Require("a tree", vfTree(n))
}

// vf:opt prop=P05 always
func VfPost_vfPtr(n *yaml.Node, p string, r *yaml.Node) {
	if p == "" {
		vf.Ensure("arrived", r == n)
		return
	}
	token, rest := p, ""
	if i := strings.IndexByte(p, '/'); i >= 0 {
		token, rest = p[:i], p[i+1:]
	}
	c := vfChild(n, UnescapeJSONPointer(token))
	if c < 0 {
		vf.Ensure("nowhere", r == nil)
	} else {
		vf.Ensure("one step", r == vfPtr(n.Content[c], rest))
	}
}

func VfPre_resolveJSONPointer(node *yaml.Node, pointer string) {
	vf.Require("a tree", vfTree(node))
}

// vfRoot: the value of a document node.
func vfRoot(n *yaml.Node) *yaml.Node {
	if n.Kind == yaml.DocumentNode && len(n.Content) > 0 {
		return n.Content[0]
	}
	return n
}

func VfLoop_resolveJSONPointer__1(node *yaml.Node, pointer string, pos int, current *yaml.Node) {
	vf.Ensure("1", pos >= 0 && pos <= len(pointer))
}

// A pointer leads to the value its tokens name one after the other; scalars
// come out as Go values, everything else as the node itself. A single "/"
// names the whole value. (Where the tokens lead to is checked by the bounded run.)
//
// vf:opt prop=P05 maypanic noinv
func VfPost_resolveJSONPointer(node *yaml.Node, pointer string, v any, err error) {
	vf.Ensure("no value with an error", err == nil || v == nil)
	if pointer == "" || pointer == "/" {
		vf.Ensure("the whole", err == nil && vf.SameVal(v, node))
		return
	}
}

// vf:opt stable
func VfPure_yamlNodeToValue() {}

// vf:opt prop=P05 always
func VfPost_yamlNodeToValue(n *yaml.Node, v any) {
	if n == nil {
		vf.Ensure("nothing", v == nil)
		return
	}
	if n.Kind != yaml.ScalarNode {
		vf.Ensure("not a scalar", vf.SameVal(v, n))
		return
	}
	switch n.Tag {
	case "!!int":
		x, err := strconv.ParseInt(n.Value, 10, 64)
		vf.Ensure("an integer", vf.Implies(err == nil, vf.SameVal(v, x)))
		vf.Ensure("too large an integer", vf.Implies(err != nil, vf.SameVal(v, n.Value)))
	case "!!float":
		x, err := strconv.ParseFloat(n.Value, 64)
		vf.Ensure("a number", vf.Implies(err == nil, vf.SameVal(v, x)))
		vf.Ensure("not a number", vf.Implies(err != nil, vf.SameVal(v, n.Value)))
	case "!!bool":
		x, err := strconv.ParseBool(n.Value)
		vf.Ensure("a boolean", vf.Implies(err == nil, vf.SameVal(v, x)))
		vf.Ensure("not a boolean", vf.Implies(err != nil, vf.SameVal(v, n.Value)))
	case "!!null":
		vf.Ensure("null", v == nil)
	default:
		vf.Ensure("text", vf.SameVal(v, n.Value))
	}
}

// vf:opt prop=P05
func VfPost_resolveDeepValue(v any, path, componentType, componentName string, r any, err error) {
	vf.Ensure("no value with an error", err == nil || r == nil)
}
func VfPure_UnescapeJSONPointer() {}

// vfGet: found is exactly "the map has the key", and the value is the map's.
func vfGet(m map[string]any, k string, v any, ok bool) bool {
	x, in := m[k]
	return ok == in && (!ok || vf.SameVal(v, x))
}

func vfGetStr(m map[string]string, k string, v any, ok bool) bool {
	x, in := m[k]
	return ok == in && (!ok || vf.SameVal(v, x))
}

// vfTail: what a step's or a workflow's "inputs" and "outputs" denote.
func vfTail(tail string, inputs, outputs map[string]any, v any, ok bool) bool {
	switch {
	case tail == "outputs" || tail == "outputs.":
		return ok == (outputs != nil) && (!ok || vf.SameVal(v, outputs))
	case tail == "inputs" || tail == "inputs.":
		return ok == (inputs != nil) && (!ok || vf.SameVal(v, inputs))
	case strings.HasPrefix(tail, "outputs."):
		return vfGet(outputs, tail[len("outputs."):], v, ok)
	case strings.HasPrefix(tail, "inputs."):
		return vfGet(inputs, tail[len("inputs."):], v, ok)
	}
	return !ok
}

// vfComponent: the component's own value when the tail is only its name,
// otherwise what the rest of the tail leads to inside it.
func vfComponent(m map[string]any, kind, tail string, v any, err error) bool {
	name, rest := splitTail(tail)
	x, in := m[name]
	if !in {
		return err != nil
	}
	if rest == "" {
		return err == nil && vf.SameVal(v, x)
	}
	y, e := resolveDeepValue(x, rest, kind, name)
	return (err == nil) == (e == nil) && (err != nil || vf.SameVal(v, y))
}

func vfBodyValue(body *yaml.Node, ptr string, v any, err error) bool {
	if body == nil {
		return err != nil
	}
	if ptr == "" {
		return err == nil && vf.SameVal(v, body)
	}
	y, e := resolveJSONPointer(body, ptr)
	return (err == nil) == (e == nil) && (err != nil || vf.SameVal(v, y))
}

func vfSteps(expr Expression, ctx *Context, v any, ok bool) bool {
	s, in := ctx.Steps[expr.Name]
	if !in {
		return !ok
	}
	if expr.Tail == "" {
		return ok && vf.SameVal(v, s)
	}
	return vfTail(expr.Tail, s.Inputs, s.Outputs, v, ok)
}

func vfWorkflows(expr Expression, ctx *Context, v any, ok bool) bool {
	s, in := ctx.Workflows[expr.Name]
	if !in {
		return !ok
	}
	if expr.Tail == "" {
		return ok && vf.SameVal(v, s)
	}
	return vfTail(expr.Tail, s.Inputs, s.Outputs, v, ok)
}

func vfSources(expr Expression, ctx *Context, v any, ok bool) bool {
	s, in := ctx.SourceDescs[expr.Name]
	switch {
	case !in:
		return !ok
	case expr.Tail == "":
		return ok && vf.SameVal(v, s)
	case expr.Tail == "url":
		return ok && vf.SameVal(v, s.URL)
	}
	return !ok
}

func vfComponents(expr Expression, ctx *Context, v any, err error) bool {
	if ctx.Components == nil || expr.Tail == "" {
		return err != nil
	}
	switch expr.Name {
	case "parameters":
		return vfComponent(ctx.Components.Parameters, expr.Name, expr.Tail, v, err)
	case "successActions":
		return vfComponent(ctx.Components.SuccessActions, expr.Name, expr.Tail, v, err)
	case "failureActions":
		return vfComponent(ctx.Components.FailureActions, expr.Name, expr.Tail, v, err)
	case "inputs":
		return vfComponent(ctx.Components.Inputs, expr.Name, expr.Tail, v, err)
	}
	return err != nil
}

func vfSetCtx(ctx *Context) bool {
	return ctx != nil && vf.ForallKeys(ctx.Steps, func(k string) bool { return ctx.Steps[k] != nil }) &&
		vf.ForallKeys(ctx.Workflows, func(k string) bool { return ctx.Workflows[k] != nil }) &&
		vf.ForallKeys(ctx.SourceDescs, func(k string) bool { return ctx.SourceDescs[k] != nil })
}

func VfPre_resolveSteps(expr Expression, ctx *Context)              { vf.Require("set", vfSetCtx(ctx)) }
func VfPre_resolveWorkflows(expr Expression, ctx *Context)          { vf.Require("set", vfSetCtx(ctx)) }
func VfPre_resolveSourceDescriptions(expr Expression, ctx *Context) { vf.Require("set", vfSetCtx(ctx)) }
func VfPre_resolveComponents(expr Expression, ctx *Context)         { vf.Require("set", vfSetCtx(ctx)) }

// vf:opt stable
func VfPure_resolveSteps() {}

// vf:opt prop=P05
func VfPost_resolveSteps(expr Expression, ctx *Context, v any, err error) {
	vf.Ensure("no value with an error", err == nil || v == nil)
	vf.Ensure("$steps.x", vfSteps(expr, ctx, v, err == nil))
}

// vf:opt stable
func VfPure_resolveWorkflows() {}

// vf:opt prop=P05
func VfPost_resolveWorkflows(expr Expression, ctx *Context, v any, err error) {
	vf.Ensure("no value with an error", err == nil || v == nil)
	vf.Ensure("$workflows.x", vfWorkflows(expr, ctx, v, err == nil))
}

// vf:opt stable
func VfPure_resolveSourceDescriptions() {}

// vf:opt prop=P05
func VfPost_resolveSourceDescriptions(expr Expression, ctx *Context, v any, err error) {
	vf.Ensure("no value with an error", err == nil || v == nil)
	vf.Ensure("$sourceDescriptions.x", vfSources(expr, ctx, v, err == nil))
}

// vf:opt stable
func VfPure_resolveComponents() {}

// vf:opt prop=P05 timeout=15 opaque=splitTail
func VfPost_resolveComponents(expr Expression, ctx *Context, v any, err error) {
	vf.Ensure("no value with an error", err == nil || v == nil)
	vf.Ensure("$components.x", vfComponents(expr, ctx, v, err))
}

// vf:opt prop=P05 opaque=resolveSteps,resolveWorkflows,resolveSourceDescriptions,resolveComponents,yamlNodeToValue,vfTree timeout=15
func VfPost_Evaluate(expr Expression, ctx *Context, v any, err error) {
	ok := err == nil
	if ctx == nil {
		vf.Ensure("nothing without a context", !ok)
		return
	}
	switch expr.Type {
	case Steps, Workflows, SourceDescriptions, Components: // their own contracts
	default:
		vf.Ensure("no value with an error", ok || v == nil)
	}
	switch expr.Type {
	case URL:
		vf.Ensure("$url", ok && vf.SameVal(v, ctx.URL))
	case Method:
		vf.Ensure("$method", ok && vf.SameVal(v, ctx.Method))
	case StatusCode:
		vf.Ensure("$statusCode", ok && vf.SameVal(v, ctx.StatusCode))
	case RequestHeader:
		vf.Ensure("$request.header", vfGetStr(ctx.RequestHeaders, expr.Property, v, ok))
	case RequestQuery:
		vf.Ensure("$request.query", vfGetStr(ctx.RequestQuery, expr.Property, v, ok))
	case RequestPath:
		vf.Ensure("$request.path", vfGetStr(ctx.RequestPath, expr.Property, v, ok))
	case RequestBody:
		vf.Ensure("$request.body", vfBodyValue(ctx.RequestBody, expr.JSONPointer, v, err))
	case ResponseHeader:
		vf.Ensure("$response.header", vfGetStr(ctx.ResponseHeaders, expr.Property, v, ok))
	case ResponseQuery, ResponsePath:
		vf.Ensure("not available", !ok)
	case ResponseBody:
		vf.Ensure("$response.body", vfBodyValue(ctx.ResponseBody, expr.JSONPointer, v, err))
	case Inputs:
		vf.Ensure("$inputs", vfGet(ctx.Inputs, expr.Name, v, ok))
	case Outputs:
		vf.Ensure("$outputs", vfGet(ctx.Outputs, expr.Name, v, ok))
	case Steps:
		x, e := resolveSteps(expr, ctx)
		vf.Ensure("$steps", vf.SameVal(v, x) && ok == (e == nil))
	case Workflows:
		x, e := resolveWorkflows(expr, ctx)
		vf.Ensure("$workflows", vf.SameVal(v, x) && ok == (e == nil))
	case SourceDescriptions:
		x, e := resolveSourceDescriptions(expr, ctx)
		vf.Ensure("$sourceDescriptions", vf.SameVal(v, x) && ok == (e == nil))
	case Components:
		x, e := resolveComponents(expr, ctx)
		vf.Ensure("$components", vf.SameVal(v, x) && ok == (e == nil))
	case ComponentParameters:
		vf.Ensure("no components for a parameter", ctx.Components != nil || !ok)
		if ctx.Components != nil {
			vf.Ensure("$components.parameters.x", vfGet(ctx.Components.Parameters, expr.Name, v, ok))
		}
	default:
		vf.Ensure("an unknown kind of expression", !ok)
	}
}

// Step and workflow entries are set, bodies are well-formed trees.
func VfPre_Evaluate(expr Expression, ctx *Context) {
	if ctx != nil {
		vf.Require("bodies", (ctx.RequestBody == nil || vfTree(ctx.RequestBody)) && (ctx.ResponseBody == nil || vfTree(ctx.ResponseBody)))
		vf.Require("entries are set", vfSetCtx(ctx))
	}
}

// vf:opt stable
func VfPure_splitTail() {}

// vf:opt prop=P05
func VfPost_splitTail(tail string, segment, rest string) {
	vf.Ensure("no dot", vf.Implies(!strings.Contains(tail, "."), segment == tail && rest == ""))
	vf.Ensure("at the first dot", vf.Implies(strings.Contains(tail, "."), segment+"."+rest == tail && !strings.Contains(segment, ".")))
}

// vf:opt prop=P05
func VfPost_UnescapeJSONPointer(s, r string) {
	vf.Ensure("RFC 6901", r == strings.ReplaceAll(strings.ReplaceAll(s, "~1", "/"), "~0", "~"))
}
