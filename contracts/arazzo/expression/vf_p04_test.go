//go:build verif

package expression

import (
	"regexp"
	"strings"
	"testing"

	vf "github.com/pb33f/libopenapi/test_specs"
)

// the grammar, written down a second time as regular expressions
var vfGrammar = []struct {
	t  ExpressionType
	re *regexp.Regexp
}{
	{URL, regexp.MustCompile(`^(\$url)$`)},
	{Method, regexp.MustCompile(`^(\$method)$`)},
	{StatusCode, regexp.MustCompile(`^(\$statusCode)$`)},
	{RequestHeader, regexp.MustCompile(`^\$request\.header\.(?P<p>[!#$%&'*+.^_` + "`" + `|~0-9A-Za-z-]+)$`)},
	{RequestQuery, regexp.MustCompile(`^(?s:\$request\.query\.(?P<p>.+))$`)},
	{RequestPath, regexp.MustCompile(`^(?s:\$request\.path\.(?P<p>.+))$`)},
	{RequestBody, regexp.MustCompile(`^(?s:\$request\.body(#(?P<j>.*))?)$`)},
	{ResponseHeader, regexp.MustCompile(`^\$response\.header\.(?P<p>[!#$%&'*+.^_` + "`" + `|~0-9A-Za-z-]+)$`)},
	{ResponseQuery, regexp.MustCompile(`^(?s:\$response\.query\.(?P<p>.+))$`)},
	{ResponsePath, regexp.MustCompile(`^(?s:\$response\.path\.(?P<p>.+))$`)},
	{ResponseBody, regexp.MustCompile(`^(?s:\$response\.body(#(?P<j>.*))?)$`)},
	{Inputs, regexp.MustCompile(`^(?s:\$inputs\.(?P<n>.+))$`)},
	{Outputs, regexp.MustCompile(`^(?s:\$outputs\.(?P<n>.+))$`)},
	{Steps, regexp.MustCompile(`^(?s:\$steps\.(?P<n>[^.]+)(\.(?P<t>.*))?)$`)},
	{Workflows, regexp.MustCompile(`^(?s:\$workflows\.(?P<n>[^.]+)(\.(?P<t>.*))?)$`)},
	{SourceDescriptions, regexp.MustCompile(`^(?s:\$sourceDescriptions\.(?P<n>[^.]+)(\.(?P<t>.*))?)$`)},
	{ComponentParameters, regexp.MustCompile(`^(?s:\$components\.parameters\.(?P<n>.+))$`)},
	{Components, regexp.MustCompile(`^(?s:\$components\.(?P<n>[^.]+)(\.(?P<t>.*))?)$`)},
}

func vfOracle(s string) (Expression, bool) {
	if strings.HasPrefix(s, "$components.parameters.") && len(s) == len("$components.parameters.") {
		return Expression{}, false
	}
	for _, g := range vfGrammar {
		m := g.re.FindStringSubmatch(s)
		if m == nil {
			continue
		}
		e := Expression{Type: g.t, Raw: s}
		for i, n := range g.re.SubexpNames() {
			switch n {
			case "p":
				e.Property = m[i]
			case "j":
				e.JSONPointer = m[i]
			case "n":
				e.Name = m[i]
			case "t":
				e.Tail = m[i]
			}
		}
		return e, true
	}
	return Expression{}, false
}

func vfTokensBack(ts []Token) string {
	var sb strings.Builder
	for _, t := range ts {
		if t.IsExpression {
			sb.WriteString("{" + t.Expression.Raw + "}")
		} else {
			sb.WriteString(t.Literal)
		}
	}
	return sb.String()
}

// vfEmbedded says whether a text with embedded expressions is well-formed,
// and what its expressions are.
func vfEmbedded(s string) (exprs []Expression, lits []string, ok bool) {
	for s != "" {
		i := strings.Index(s, "{$")
		if i < 0 {
			return exprs, append(lits, s), true
		}
		if i > 0 {
			lits = append(lits, s[:i])
		}
		j := strings.Index(s[i:], "}")
		if j < 0 {
			return nil, nil, false
		}
		e, ok := vfOracle(s[i+1 : i+j])
		if !ok {
			return nil, nil, false
		}
		exprs = append(exprs, e)
		s = s[i+j+1:]
	}
	return exprs, lits, true
}

func TestVfP04(t *testing.T) {
	h := vf.NewH("P04")
	defer h.Done()
	one := func(s string) {
		h.Case("Parse", func() string { return vf.Show(s) }, func() {
			e, err := Parse(s)
			want, ok := vfOracle(s)
			vf.Assert("accepted exactly when the grammar says so", ok == (err == nil))
			vf.Assert("the parts are those of the grammar", e == want)
			vf.Assert("validation agrees with parsing", (Validate(s) == nil) == ok)
			VfPost_Parse(s, e, err)
		})
	}
	emb := func(s string) {
		h.Case("ParseEmbedded", func() string { return vf.Show(s) }, func() {
			ts, err := ParseEmbedded(s)
			exprs, lits, ok := vfEmbedded(s)
			vf.Assert("accepted exactly when every embedded expression is", ok == (err == nil))
			if !ok {
				vf.Assert("no tokens with an error", ts == nil)
				return
			}
			vf.Assert("the tokens make up the input", vfTokensBack(ts) == s)
			for _, tk := range ts {
				if tk.IsExpression {
					vf.Assert("the expressions in order", len(exprs) > 0 && tk.Expression == exprs[0] && tk.Literal == "")
					exprs = exprs[1:]
				} else {
					vf.Assert("the literals in order", len(lits) > 0 && tk.Literal == lits[0] && tk.Expression == Expression{})
					lits = lits[1:]
				}
			}
			vf.Assert("none left out", len(exprs) == 0 && len(lits) == 0)
		})
	}
	for c := 0; c < 256; c++ {
		c := byte(c)
		h.Case("isTchar", func() string { return vf.Show(int(c)) }, func() {
			VfPost_isTchar(c, isTchar(c))
			_, err := Parse("$request.header.x" + string([]byte{c}) + "y")
			vf.Assert("header names are tokens", (err == nil) == (c < 128 && strings.IndexByte("!#$%&'*+-.^_`|~", c) >= 0 || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'))
		})
	}
	heads := []string{"$url", "$method", "$statusCode", "$request.header.", "$request.query.", "$request.path.", "$request.body", "$response.header.",
		"$response.query.", "$response.path.", "$response.body", "$inputs.", "$outputs.", "$steps.", "$workflows.", "$sourceDescriptions.", "$components.",
		"$components.parameters.", "$request.", "$response.", "$steps", "$inputs", "$", "", "$x", "$components.parameters", "$components.parameter.", "$request.body#", "$response.body#/"}
	tails := []string{"a", ".", "#", "/", "~1", "b-c", " ", "é", "$", "{", "}", "parameters", "outputs", "\x00", "\"", "_", "body", "header.", "0"}
	for _, p := range heads {
		vf.Each(tails, 2, func(s string) { one(p + s) })
		for i := range p { // the head with a byte missing or changed
			one(p[:i] + p[i+1:] + "a")
			one(p[:i] + "x" + p[i+1:] + "a")
			one(strings.ToUpper(p[:i+1]) + p[i+1:] + "a")
		}
	}
	alpha := []string{"{", "}", "$", "{$", "$url", "{$url}", "{$inputs.a}", "{$steps.s.outputs.o}", "{$response.body#/a}", "x", " ", "", "{$nope}", "é", "{{", "}}", "{$inputs.}", "$inputs.b"}
	vf.Each(alpha, 3, emb)
	for round := 0; round < h.N(60000) && h.Left(); round++ {
		one(heads[h.R.Intn(len(heads))] + vf.Str(h.R, tails, 6))
		emb(vf.Str(h.R, alpha, 9))
	}
}
