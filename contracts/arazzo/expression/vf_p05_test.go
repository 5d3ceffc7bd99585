//go:build verif

package expression

import (
	"math/rand"
	"strconv"
	"strings"
	"testing"

	vf "github.com/pb33f/libopenapi/test_specs"
	"go.yaml.in/yaml/v4"
)

var vfKeys = []string{"a", "b", "a/b", "m~n", "~1", "~0", "", "0", "1", "é", "a.b", "x y", "-1", "~01", "outputs", "inputs", "url"}

func vfNode(r *rand.Rand, d int) *yaml.Node {
	switch k := r.Intn(5); {
	case k <= 1 && d > 0:
		n := &yaml.Node{Kind: yaml.MappingNode, Tag: "!!map"}
		for i := r.Intn(4); i > 0; i-- {
			n.Content = append(n.Content, &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: vfKeys[r.Intn(len(vfKeys))]}, vfNode(r, d-1))
		}
		return n
	case k == 2 && d > 0:
		n := &yaml.Node{Kind: yaml.SequenceNode, Tag: "!!seq"}
		for i := r.Intn(4); i > 0; i-- {
			n.Content = append(n.Content, vfNode(r, d-1))
		}
		return n
	}
	tags := []string{"!!str", "!!int", "!!float", "!!bool", "!!null", "!x"}
	vals := []string{"", "1", "-7", "1.5", "true", "false", "null", "text", "0x10", "9223372036854775807", "9223372036854775808", "1e3", ".inf", "True", "a"}
	return &yaml.Node{Kind: yaml.ScalarNode, Tag: tags[r.Intn(len(tags))], Value: vals[r.Intn(len(vals))]}
}

// vfPath is a pointer to some node of the tree.
func vfPath(r *rand.Rand, n *yaml.Node) string {
	var p string
	for {
		if n.Kind == yaml.DocumentNode {
			n = n.Content[0]
			continue
		}
		if len(n.Content) == 0 || n.Kind == yaml.ScalarNode || r.Intn(4) == 0 {
			return p
		}
		i := r.Intn(len(n.Content))
		tok := strconv.Itoa(i)
		if n.Kind == yaml.MappingNode {
			i |= 1
			tok = strings.ReplaceAll(strings.ReplaceAll(n.Content[i-1].Value, "~", "~0"), "/", "~1")
		}
		n = n.Content[i]
		p += "/" + tok
	}
}

func vfAny(r *rand.Rand, d int) any {
	switch k := r.Intn(7); {
	case k <= 2 && d > 0:
		return vfAnyMap(r, d)
	case k == 3:
		return r.Intn(9)
	case k == 4:
		return nil
	case k == 5:
		return []any{1}
	}
	return vf.Word(r)
}

func vfAnyMap(r *rand.Rand, d int) map[string]any {
	m := map[string]any{}
	for i := r.Intn(5); i > 0; i-- {
		m[vfKeys[r.Intn(len(vfKeys))]] = vfAny(r, d-1)
	}
	return m
}

func vfMaybe(r *rand.Rand) map[string]any {
	if r.Intn(5) == 0 {
		return nil
	}
	return vfAnyMap(r, 3)
}

func vfStrs(r *rand.Rand) map[string]string {
	if r.Intn(6) == 0 {
		return nil
	}
	m := map[string]string{}
	for i := r.Intn(5); i > 0; i-- {
		m[vfKeys[r.Intn(len(vfKeys))]] = vf.Word(r)
	}
	return m
}

func vfTreeOf(r *rand.Rand) *yaml.Node {
	switch r.Intn(6) {
	case 0:
		return nil
	case 1, 2:
		return &yaml.Node{Kind: yaml.DocumentNode, Content: []*yaml.Node{vfNode(r, 4)}}
	}
	return vfNode(r, 4)
}

func vfContext(r *rand.Rand) *Context {
	c := &Context{URL: vf.Word(r), Method: vf.Word(r), StatusCode: r.Intn(600),
		RequestHeaders: vfStrs(r), RequestQuery: vfStrs(r), RequestPath: vfStrs(r), ResponseHeaders: vfStrs(r),
		RequestBody: vfTreeOf(r), ResponseBody: vfTreeOf(r), Inputs: vfMaybe(r), Outputs: vfMaybe(r)}
	if r.Intn(6) > 0 {
		c.Steps, c.Workflows, c.SourceDescs = map[string]*StepContext{}, map[string]*WorkflowContext{}, map[string]*SourceDescContext{}
		for i := r.Intn(4); i > 0; i-- {
			c.Steps[vfKeys[r.Intn(3)]] = &StepContext{vfMaybe(r), vfMaybe(r)}
			c.Workflows[vfKeys[r.Intn(3)]] = &WorkflowContext{vfMaybe(r), vfMaybe(r)}
			c.SourceDescs[vfKeys[r.Intn(3)]] = &SourceDescContext{vf.Word(r)}
		}
	}
	if r.Intn(6) > 0 {
		c.Components = &ComponentsContext{vfMaybe(r), vfMaybe(r), vfMaybe(r), vfMaybe(r)}
	}
	return c
}

// vfDig: the oracle for what a dotted path leads to.
func vfDig(v any, path string) (any, bool) {
	for more := true; more; {
		var s string
		s, path, more = strings.Cut(path, ".")
		m, ok := v.(map[string]any)
		if !ok {
			return nil, false
		}
		if v, ok = m[s]; !ok {
			return nil, false
		}
	}
	return v, true
}

func vfKind(e Expression, c *Context, v any, err error) {
	vf.Assert("no value with an error", err == nil || v == nil)
	if c == nil {
		return
	}
	switch e.Type {
	case Steps:
		vf.Assert("$steps.x", vfSteps(e, c, v, err == nil))
	case Workflows:
		vf.Assert("$workflows.x", vfWorkflows(e, c, v, err == nil))
	case SourceDescriptions:
		vf.Assert("$sourceDescriptions.x", vfSources(e, c, v, err == nil))
	case Components:
		vf.Assert("$components.x", vfComponents(e, c, v, err))
	}
}

func TestVfP05(t *testing.T) {
	h := vf.NewH("P05")
	defer h.Done()
	r := h.R
	pointer := func(n *yaml.Node, p string) {
		h.Case("resolveJSONPointer", func() string { return vf.Show(n, p) }, func() {
			v, err := resolveJSONPointer(n, p)
			VfPost_resolveJSONPointer(n, p, v, err)
			if p == "" || p == "/" {
				return
			}
			to := vfPtr(vfRoot(n), strings.TrimPrefix(p, "/"))
			vf.Assert("found exactly when the tokens lead somewhere", (err == nil) == (to != nil))
			vf.Assert("what the tokens lead to", err != nil || vf.SameVal(v, yamlNodeToValue(to)))
			VfPost_yamlNodeToValue(to, yamlNodeToValue(to))
		})
	}
	eval := func(e Expression, c *Context) {
		h.Case("Evaluate", func() string { return vf.Show(e, c) }, func() {
			v, err := Evaluate(e, c)
			VfPost_Evaluate(e, c, v, err)
			vfKind(e, c, v, err)
		})
	}
	for k := ExpressionType(-1); k < 30; k++ {
		eval(Expression{Type: k}, nil)
		eval(Expression{Type: k, Name: "a", Property: "a", Tail: "b"}, &Context{})
	}
	for _, s := range []string{"", "~", "~0", "~1", "~01", "~10", "~~1", "a~0b~1c", "~2"} {
		h.Case("UnescapeJSONPointer", func() string { return vf.Show(s) }, func() { VfPost_UnescapeJSONPointer(s, UnescapeJSONPointer(s)) })
	}
	vf.Each([]string{".", "a", "é", "outputs"}, 4, func(s string) {
		h.Case("splitTail", func() string { return vf.Show(s) }, func() { a, b := splitTail(s); VfPost_splitTail(s, a, b) })
	})
	junk := []string{"/", "~1", "~0", "a", "b", "0", "1", "-1", "é", "a.b", "~", "m~0n"}
	tails := []string{"", "outputs", "inputs", "outputs.", "inputs.", "url", "urls", "output", ".a"}
	for round := 0; round < h.N(40000) && h.Left(); round++ {
		n := vfTreeOf(r)
		if n != nil {
			p := vfPath(r, n)
			pointer(n, p)
			pointer(n, p+"/"+vf.Str(r, junk, 2))
			pointer(n, vf.Str(r, junk, 4))
			pointer(n, strings.TrimPrefix(p, "/"))
			pointer(n, p+"/")
		}
		c := vfContext(r)
		e := Expression{Type: ExpressionType(r.Intn(20)), Name: vfKeys[r.Intn(len(vfKeys))], Property: vfKeys[r.Intn(len(vfKeys))]}
		if r.Intn(2) == 0 {
			e.Name = vfKeys[r.Intn(3)]
		}
		switch b := map[ExpressionType]*yaml.Node{RequestBody: c.RequestBody, ResponseBody: c.ResponseBody}[e.Type]; {
		case b != nil:
			if r.Intn(3) > 0 {
				e.JSONPointer = vfPath(r, b)
			} else {
				e.JSONPointer = vf.Str(r, junk, 3)
			}
		case e.Type == Components:
			e.Name = []string{"parameters", "successActions", "failureActions", "inputs", "schemas", ""}[r.Intn(6)]
			e.Tail = vf.Str(r, []string{"a", "b", ".", "é", "0", ".a", ".b"}, 4)
		default:
			e.Tail = tails[r.Intn(len(tails))]
			if strings.HasSuffix(e.Tail, ".") {
				e.Tail += vfKeys[r.Intn(len(vfKeys))]
			}
		}
		eval(e, c)
		v, path := vfAny(r, 4), vf.Str(r, []string{"a", "b", ".", "é", "0", ".a", ".b", ".~0"}, 4)
		h.Case("resolveDeepValue", func() string { return vf.Show(v, path) }, func() {
			got, err := resolveDeepValue(v, path, "inputs", "x")
			want, ok := vfDig(v, path)
			vf.Assert("found exactly when the path leads somewhere", (err == nil) == ok)
			vf.Assert("what the path leads to", vf.SameVal(got, want) || err != nil && got == nil)
		})
		// text to value: the parsed expression means what its parts say
		for _, s := range []string{"$inputs." + e.Name, "$request.body#" + e.JSONPointer, "$steps." + e.Name + "." + e.Tail, "$request.query." + e.Property} {
			h.Case("EvaluateString", func() string { return vf.Show(s, c) }, func() {
				got, err := EvaluateString(s, c)
				p, perr := Parse(s)
				if perr != nil {
					vf.Assert("not an expression", err != nil)
					return
				}
				VfPost_Evaluate(p, c, got, err)
				vfKind(p, c, got, err)
			})
		}
	}
}
