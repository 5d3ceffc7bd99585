//go:build verif

package expression

import (
	"strings"

	vf "github.com/pb33f/libopenapi/test_specs"
)

const vfTchar = "[!#$%&'*+.^_`|~0-9A-Za-z-]"

// vfNamed: prefix, then a name without a dot (not empty), then optionally a dot and anything.
func vfNamed(input, prefix string) bool {
	return strings.HasPrefix(input, prefix) && len(input) > len(prefix) && input[len(prefix)] != '.'
}

// vfRest: prefix, then anything but nothing.
func vfRest(input, prefix string) bool {
	return strings.HasPrefix(input, prefix) && len(input) > len(prefix)
}

func vfToken(s string) bool {
	return len(s) > 0 && vf.Forall(0, len(s), func(i int) bool { return isTchar(s[i]) })
}

func vfBody(input, prefix string) bool {
	return input == prefix || strings.HasPrefix(input, prefix+"#")
}

// vfPrefix is the text a kind of expression starts with.
func vfPrefix(t ExpressionType) string {
	switch t {
	case URL:
		return "$url"
	case Method:
		return "$method"
	case StatusCode:
		return "$statusCode"
	case RequestHeader:
		return "$request.header."
	case RequestQuery:
		return "$request.query."
	case RequestPath:
		return "$request.path."
	case RequestBody:
		return "$request.body"
	case ResponseHeader:
		return "$response.header."
	case ResponseQuery:
		return "$response.query."
	case ResponsePath:
		return "$response.path."
	case ResponseBody:
		return "$response.body"
	case Inputs:
		return "$inputs."
	case Outputs:
		return "$outputs."
	case Steps:
		return "$steps."
	case Workflows:
		return "$workflows."
	case SourceDescriptions:
		return "$sourceDescriptions."
	case Components:
		return "$components."
	case ComponentParameters:
		return "$components.parameters."
	}
	return "?"
}

// vfParts: the parts of e make up s, and none is set that its kind does not have.
func vfParts(e Expression, s string) bool {
	p := vfPrefix(e.Type)
	switch e.Type {
	case URL, Method, StatusCode:
		return s == p && e.Name == "" && e.Tail == "" && e.Property == "" && e.JSONPointer == ""
	case RequestHeader, RequestQuery, RequestPath, ResponseHeader, ResponseQuery, ResponsePath:
		return s == p+e.Property && e.Property != "" && e.Name == "" && e.Tail == "" && e.JSONPointer == ""
	case RequestBody, ResponseBody:
		return (s == p && e.JSONPointer == "" || s == p+"#"+e.JSONPointer) && e.Name == "" && e.Tail == "" && e.Property == ""
	case Inputs, Outputs, ComponentParameters:
		return s == p+e.Name && e.Name != "" && e.Tail == "" && e.Property == "" && e.JSONPointer == ""
	case Steps, Workflows, SourceDescriptions, Components:
		return (s == p+e.Name && e.Tail == "" || s == p+e.Name+"."+e.Tail) && e.Name != "" && !strings.Contains(e.Name, ".") &&
			e.Property == "" && e.JSONPointer == ""
	}
	return false
}

// The token character table is filled at start-up; its 256 entries are
// checked one by one by the executable run.
func VfPure_isTchar() {}

// vf:opt always
func VfPost_isTchar(c byte, ok bool) {
	vf.Ensure("RFC 7230 token characters", ok == vf.InRe(string(rune(c)), vfTchar))
}

// vf:opt prop=P04
func VfPost_Parse(input string, e Expression, err error) {
	ok := err == nil
	vf.Ensure("raw text kept", vf.Implies(ok, e.Raw == input))
	vf.Ensure("nothing but an error otherwise", vf.Implies(!ok, e == Expression{}))
	vf.Ensure("a known kind", vf.Implies(ok, e.Type >= URL && e.Type <= ComponentParameters))
	vf.Ensure("the parts make up the input: URL", vf.Implies(ok && e.Type == URL, vfParts(e, input)))
	vf.Ensure("the parts make up the input: Method", vf.Implies(ok && e.Type == Method, vfParts(e, input)))
	vf.Ensure("the parts make up the input: StatusCode", vf.Implies(ok && e.Type == StatusCode, vfParts(e, input)))
	vf.Ensure("the parts make up the input: RequestHeader", vf.Implies(ok && e.Type == RequestHeader, vfParts(e, input)))
	vf.Ensure("the parts make up the input: RequestQuery", vf.Implies(ok && e.Type == RequestQuery, vfParts(e, input)))
	vf.Ensure("the parts make up the input: RequestPath", vf.Implies(ok && e.Type == RequestPath, vfParts(e, input)))
	vf.Ensure("the parts make up the input: RequestBody", vf.Implies(ok && e.Type == RequestBody, vfParts(e, input)))
	vf.Ensure("the parts make up the input: ResponseHeader", vf.Implies(ok && e.Type == ResponseHeader, vfParts(e, input)))
	vf.Ensure("the parts make up the input: ResponseQuery", vf.Implies(ok && e.Type == ResponseQuery, vfParts(e, input)))
	vf.Ensure("the parts make up the input: ResponsePath", vf.Implies(ok && e.Type == ResponsePath, vfParts(e, input)))
	vf.Ensure("the parts make up the input: ResponseBody", vf.Implies(ok && e.Type == ResponseBody, vfParts(e, input)))
	vf.Ensure("the parts make up the input: Inputs", vf.Implies(ok && e.Type == Inputs, vfParts(e, input)))
	vf.Ensure("the parts make up the input: Outputs", vf.Implies(ok && e.Type == Outputs, vfParts(e, input)))
	vf.Ensure("the parts make up the input: Steps", vf.Implies(ok && e.Type == Steps, vfParts(e, input)))
	vf.Ensure("the parts make up the input: Workflows", vf.Implies(ok && e.Type == Workflows, vfParts(e, input)))
	vf.Ensure("the parts make up the input: SourceDescriptions", vf.Implies(ok && e.Type == SourceDescriptions, vfParts(e, input)))
	vf.Ensure("the parts make up the input: Components", vf.Implies(ok && e.Type == Components, vfParts(e, input)))
	vf.Ensure("the parts make up the input: ComponentParameters", vf.Implies(ok && e.Type == ComponentParameters, vfParts(e, input)))
	vf.Ensure("header names are tokens", vf.Implies(ok && (e.Type == RequestHeader || e.Type == ResponseHeader), vfToken(e.Property)))
	vf.Ensure("accepts $url", vf.Implies(input == "$url", ok))
	vf.Ensure("accepts $method", vf.Implies(input == "$method", ok))
	vf.Ensure("accepts $statusCode", vf.Implies(input == "$statusCode", ok))
	vf.Ensure("accepts request headers", vf.Implies(vfRest(input, "$request.header.") && vfToken(input[len("$request.header."):]), ok))
	vf.Ensure("accepts response headers", vf.Implies(vfRest(input, "$response.header.") && vfToken(input[len("$response.header."):]), ok))
	vf.Ensure("accepts $request.query.", vf.Implies(vfRest(input, "$request.query."), ok))
	vf.Ensure("accepts $request.path.", vf.Implies(vfRest(input, "$request.path."), ok))
	vf.Ensure("accepts $response.query.", vf.Implies(vfRest(input, "$response.query."), ok))
	vf.Ensure("accepts $response.path.", vf.Implies(vfRest(input, "$response.path."), ok))
	vf.Ensure("accepts $inputs.", vf.Implies(vfRest(input, "$inputs."), ok))
	vf.Ensure("accepts $outputs.", vf.Implies(vfRest(input, "$outputs."), ok))
	vf.Ensure("accepts $request.body", vf.Implies(vfBody(input, "$request.body"), ok))
	vf.Ensure("accepts $response.body", vf.Implies(vfBody(input, "$response.body"), ok))
	vf.Ensure("accepts $steps.", vf.Implies(vfNamed(input, "$steps."), ok))
	vf.Ensure("accepts $workflows.", vf.Implies(vfNamed(input, "$workflows."), ok))
	vf.Ensure("accepts $sourceDescriptions.", vf.Implies(vfNamed(input, "$sourceDescriptions."), ok))
	vf.Ensure("accepts $components.", vf.Implies(vfNamed(input, "$components.") && input != "$components.parameters.", ok))
}
