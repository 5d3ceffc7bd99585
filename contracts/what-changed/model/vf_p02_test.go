//go:build verif

package model

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"testing"

	"github.com/pb33f/libopenapi/datamodel"
	v3 "github.com/pb33f/libopenapi/datamodel/low/v3"
	vf "github.com/pb33f/libopenapi/test_specs"
	"go.yaml.in/yaml/v4"
)

// vfDoc has every kind of element with every property a report knows of.
const vfDoc = `openapi: 3.1.0
$self: https://self.example/a
jsonSchemaDialect: https://dialect.example/a
x-doc: one
info:
  title: t0
  summary: s0
  description: d0
  termsOfService: https://tos.example
  version: v0
  contact: {name: n0, url: https://c.example, email: e0@c.example}
  license: {name: n1, url: https://l.example}
  x-info: {a: one, b: [1, 2]}
servers:
  - url: https://s0.example/{v}
    description: d1
    variables:
      v: {default: a, description: d2, enum: [a, b]}
  - url: https://s1.example
    description: d1b
tags:
  - {name: tag0, summary: s1, description: d3, kind: k0, externalDocs: {url: https://e.example, description: d4}}
  - {name: tag1, parent: tag0, description: d3b}
externalDocs: {url: https://x.example, description: d5}
security:
  - apiKey: []
  - oauth: [read, write]
paths:
  /a/{id}:
    summary: s2
    description: d6
    x-path: p
    servers: [{url: https://ps.example, description: d7}]
    parameters:
      - {name: id, in: path, description: d8, required: true, deprecated: false, style: simple, explode: false, schema: {type: string, minLength: 3}}
    get:
      operationId: op0
      summary: s3
      description: d9
      deprecated: false
      tags: [tag0, tag1]
      externalDocs: {url: https://o.example, description: d10}
      servers: [{url: https://os.example, description: d11}]
      security: [{oauth: [read]}]
      parameters:
        - name: q
          in: query
          description: d12
          required: false
          deprecated: false
          allowEmptyValue: false
          allowReserved: false
          style: form
          explode: true
          example: ex0
          schema: {type: integer, minimum: 1}
        - name: r
          in: query
          description: d13
          content: {application/json: {schema: {type: string, format: f0}, example: ex1}}
          examples: {one: {summary: s4, description: d14, value: v1}}
      responses:
        default: {description: d15}
        '200':
          description: d16
          summary: s5
          x-resp: r
          headers:
            X-A: {description: d17, required: true, deprecated: false, style: simple, explode: false, example: h0, schema: {type: string, pattern: p0}}
          content:
            application/json:
              schema: {type: object, title: t1}
              examples: {one: {summary: s6, description: d18, value: {k: v2}}, two: {externalValue: https://ex.example}}
              encoding: {k: {contentType: text/plain, style: form, explode: false, allowReserved: false, headers: {X-B: {description: d19, schema: {type: string}}}}}
            text/plain: {schema: {type: string, maxLength: 9}, example: ex2}
          links:
            l0: {operationId: op1, description: d20, requestBody: rb, parameters: {p: $response.body}, server: {url: https://ls.example, description: d21}}
            l1: {operationRef: '#/paths/x', description: d21b}
      callbacks:
        cb:
          '{$request.body#/url}':
            post: {operationId: cbop, description: d22, responses: {'204': {description: d23}}}
    post:
      operationId: op1
      description: d24
      requestBody:
        description: d25
        required: true
        content: {multipart/form-data: {schema: {type: object, description: d26}}}
      responses: {'201': {description: d27}}
    put: {operationId: opput, description: d28, responses: {'200': {description: d29}}}
    delete: {operationId: opdel, description: d30, responses: {'200': {description: d31}}}
    options: {operationId: opopt, description: d32, responses: {'200': {description: d33}}}
    head: {operationId: ophead, description: d34, responses: {'200': {description: d35}}}
    patch: {operationId: oppatch, description: d36, responses: {'200': {description: d37}}}
    trace: {operationId: optrace, description: d38, responses: {'200': {description: d39}}}
  /b:
    get: {operationId: opb, description: d40, responses: {'200': {description: d41}}}
webhooks:
  hook:
    post: {operationId: ophook, description: d42, responses: {'200': {description: d43}}}
components:
  schemas:
    Full:
      $id: https://id.example/a
      $comment: c0
      $anchor: an0
      $dynamicAnchor: da0
      $dynamicRef: '#da0'
      title: t2
      description: d44
      type: object
      format: f1
      default: df0
      const: co0
      deprecated: false
      readOnly: false
      writeOnly: false
      example: ex3
      examples: [ex4, ex5]
      required: [a, b]
      enum: [e0, e1]
      multipleOf: 2
      maximum: 10
      minimum: 1
      exclusiveMaximum: 11
      exclusiveMinimum: 0
      maxLength: 12
      minLength: 2
      pattern: p1
      maxItems: 13
      minItems: 3
      uniqueItems: true
      maxProperties: 14
      minProperties: 4
      contentEncoding: base64
      contentMediaType: text/plain
      externalDocs: {url: https://sx.example, description: d45}
      xml: {name: xn, namespace: https://xns.example, prefix: xp, attribute: false, wrapped: false}
      discriminator: {propertyName: kind, mapping: {m0: '#/components/schemas/A'}}
      properties: {a: {type: string, description: d46}, b: {type: integer, format: int32}}
      patternProperties: {^x: {type: string, description: d47}}
      dependentSchemas: {a: {type: object, description: d48}}
      dependentRequired: {a: [b, c]}
      additionalProperties: {type: string, description: d49}
      items: {type: string, description: d50}
      prefixItems: [{type: string, description: d51}, {type: integer, description: d51b}]
      contains: {type: string, description: d52}
      allOf: [{type: object, description: d53}]
      anyOf: [{type: object, description: d54}, {type: object, description: d54b}]
      oneOf: [{type: object, description: d55}]
      not: {type: string, description: d56}
      if: {type: string, description: d57}
      then: {type: string, description: d58}
      else: {type: string, description: d59}
      propertyNames: {pattern: p2, description: d60}
      unevaluatedItems: {type: string, description: d61}
      unevaluatedProperties: {type: string, description: d62}
      contentSchema: {type: string, description: d63}
      $vocabulary: {https://voc.example: true}
      x-schema: s
    A: {type: object, description: d64, minProperties: 1}
  responses: {R: {description: d65}}
  parameters: {P: {name: pp, in: query, description: d66, schema: {type: string}}}
  examples: {E: {summary: s7, description: d67, value: v3}}
  requestBodies: {B: {description: d68, required: false, content: {text/plain: {schema: {type: string}}}}}
  headers: {H: {description: d69, schema: {type: string}}}
  securitySchemes:
    apiKey: {type: apiKey, name: key, in: header, description: d70}
    bearer: {type: http, scheme: bearer, bearerFormat: JWT, description: d71}
    oidc: {type: openIdConnect, openIdConnectUrl: https://oidc.example, description: d71b}
    oauth:
      type: oauth2
      description: d72
      flows:
        implicit: {authorizationUrl: https://a0.example, refreshUrl: https://r0.example, scopes: {read: sr0, write: sw0}}
        password: {tokenUrl: https://t1.example, refreshUrl: https://r1.example, scopes: {read: sr1}}
        clientCredentials: {tokenUrl: https://t2.example, refreshUrl: https://r2.example, scopes: {read: sr2}}
        authorizationCode: {authorizationUrl: https://a3.example, tokenUrl: https://t3.example, refreshUrl: https://r3.example, scopes: {read: sr3}}
  links: {L: {operationId: op0, description: d73}}
  callbacks: {C: {'{$request.query.u}': {get: {operationId: ccop, description: d74, responses: {'200': {description: d75}}}}}}
  pathItems: {PI: {get: {operationId: piop, description: d76, responses: {'200': {description: d77}}}}}
`

func vfBuild(src []byte) *v3.Document {
	info, err := datamodel.ExtractSpecInfo(src)
	if err != nil {
		panic(err)
	}
	d, err := v3.CreateDocumentFromConfig(info, datamodel.NewDocumentConfiguration())
	if d == nil {
		panic(err)
	}
	return d
}

type vfLeaf struct {
	path   []string
	node   *yaml.Node // the scalar
	parent *yaml.Node
	idx    int // of the value in parent.Content
}

func vfLeaves(n *yaml.Node, path []string, f func(vfLeaf)) {
	switch n.Kind {
	case yaml.DocumentNode:
		vfLeaves(n.Content[0], path, f)
	case yaml.MappingNode:
		for i := 0; i+1 < len(n.Content); i += 2 {
			p := append(append([]string{}, path...), n.Content[i].Value)
			c := n.Content[i+1]
			if c.Kind == yaml.ScalarNode {
				f(vfLeaf{p, c, n, i + 1})
			} else {
				vfLeaves(c, p, f)
			}
		}
	case yaml.SequenceNode:
		for i, c := range n.Content {
			p := append(append([]string{}, path...), fmt.Sprint(i))
			if c.Kind == yaml.ScalarNode {
				f(vfLeaf{p, c, n, i})
			} else {
				vfLeaves(c, p, f)
			}
		}
	}
}

func vfRender(n *yaml.Node) []byte {
	b, err := yaml.Marshal(n)
	if err != nil {
		panic(err)
	}
	return b
}

// vfOther is another value of the same kind.
func vfOther(n *yaml.Node) string {
	switch n.Value {
	case "true":
		return "false"
	case "false":
		return "true"
	}
	if _, err := strconv.Atoi(n.Value); err == nil && n.Style == 0 {
		return n.Value + "7"
	}
	return n.Value + "-changed"
}

// vfGrammar: what kind of element each key of an element holds. A leaf that is
// not listed is a plain property of its element. "skip": outside the
// statement; "some": a change must be reported, its form is not judged;
// "list": a list of plain values.
var vfGrammar = map[string]map[string]string{
	"": {"openapi": "skip", "info": "info", "servers": "[]server", "tags": "[]tag", "externalDocs": "externalDocs", "security": "some", "paths": "{}pathItem", "webhooks": "{}pathItem", "components": "components"},
	"info":           {"contact": "contact", "license": "license"},
	"server":         {"url": "some", "variables": "{}serverVariable"},
	"serverVariable": {"enum": "list"},
	"tag":            {"name": "some", "externalDocs": "externalDocs"},
	"pathItem": {"servers": "[]server", "parameters": "[]parameter", "get": "operation", "put": "operation", "post": "operation", "delete": "operation",
		"options": "operation", "head": "operation", "patch": "operation", "trace": "operation"},
	"operation": {"tags": "list", "externalDocs": "externalDocs", "servers": "[]server", "security": "some", "parameters": "[]parameter", "requestBody": "requestBody",
		"responses": "{}response", "callbacks": "{}{}pathItem"},
	"parameter":   {"name": "some", "in": "some", "schema": "schema", "content": "{}mediaType", "examples": "{}example"},
	"requestBody": {"content": "{}mediaType"},
	"response":    {"headers": "{}header", "content": "{}mediaType", "links": "{}link"},
	"header":      {"schema": "schema", "content": "{}mediaType", "examples": "{}example"},
	"mediaType":   {"schema": "schema", "examples": "{}example", "encoding": "{}encoding"},
	"example":     {"value": "some"},
	"encoding":    {"headers": "{}header"},
	"link":        {"parameters": "some", "server": "server"},
	"components": {"schemas": "{}schema", "securitySchemes": "{}securityScheme", "responses": "skip", "parameters": "skip", "examples": "skip", "requestBodies": "skip",
		"headers": "skip", "links": "skip", "callbacks": "skip", "pathItems": "skip"},
	"schema": {"$anchor": "skip", "examples": "some", "required": "list", "enum": "list", "externalDocs": "externalDocs", "xml": "xml", "discriminator": "discriminator",
		"properties": "{}schema", "patternProperties": "{}schema", "dependentSchemas": "{}schema", "dependentRequired": "some", "additionalProperties": "schema",
		"items": "schema", "prefixItems": "[]schema", "contains": "schema", "allOf": "[]schema", "anyOf": "[]schema", "oneOf": "[]schema", "not": "schema",
		"if": "schema", "then": "schema", "else": "schema", "propertyNames": "schema", "unevaluatedItems": "schema", "unevaluatedProperties": "schema",
		"contentSchema": "schema", "$vocabulary": "some"},
	"discriminator":  {"mapping": "some"},
	"securityScheme": {"flows": "{}oauthFlow"},
	"oauthFlow":      {"scopes": "some"},
}

// vfKind walks the grammar: (element kind, property, mode) of a leaf.
// An example's own differences follow the "examples" rule of what holds it.
func vfKind(path []string) (comp, prop, mode, holder string) {
	t := ""
	for i := 0; i < len(path); i++ {
		if strings.HasPrefix(path[i], "x-") {
			return t, path[i], "some", holder
		}
		if strings.HasPrefix(t, "[]") || strings.HasPrefix(t, "{}") {
			t = t[2:]
			continue
		}
		n := vfGrammar[t][path[i]]
		switch n {
		case "skip", "some", "list":
			return t, path[i], n, holder
		case "":
			if i+1 != len(path) {
				panic("no grammar for " + strings.Join(path, "/"))
			}
			return t, path[i], "", holder
		}
		if n == "{}example" {
			holder = t
		}
		t = n
	}
	panic("no leaf at " + strings.Join(path, "/"))
}

func vfRuleOf(c *BreakingRulesConfig, comp, prop string) (reflect.Value, bool) {
	tag := func(f reflect.StructField) string { return strings.Split(f.Tag.Get("json"), ",")[0] }
	if comp == "" {
		comp, prop = prop, ""
	}
	v := reflect.ValueOf(c).Elem()
	for i := 0; i < v.NumField(); i++ {
		if tag(v.Type().Field(i)) != comp {
			continue
		}
		f := v.Field(i)
		if prop == "" {
			return f, f.Type() == reflect.TypeOf((*BreakingChangeRule)(nil))
		}
		if f.Type().Elem().Kind() != reflect.Struct {
			return f, false
		}
		if f.IsNil() {
			f.Set(reflect.New(f.Type().Elem()))
		}
		for j := 0; j < f.Elem().NumField(); j++ {
			if tag(f.Elem().Type().Field(j)) == prop {
				return f.Elem().Field(j), true
			}
		}
	}
	return reflect.Value{}, false
}

// vfOnly: the default rules, but for one property only one kind of change is
// breaking (nil when there is no rule for the property).
func vfOnly(comp, prop, kind string) *BreakingRulesConfig {
	def := GenerateDefaultBreakingRules()
	old, ok := vfRuleOf(def, comp, prop)
	if !ok || old.IsNil() {
		return nil
	}
	is := func(k string) *bool { x := k == kind; return &x }
	over := &BreakingRulesConfig{}
	f, _ := vfRuleOf(over, comp, prop)
	f.Set(reflect.ValueOf(&BreakingChangeRule{Added: is(ChangeTypeAdded), Modified: is(ChangeTypeModified), Removed: is(ChangeTypeRemoved)}))
	c := &BreakingRulesConfig{}
	c.Merge(def)
	c.Merge(over)
	return c
}

func vfShow(cs []*Change) string {
	var s []string
	for _, c := range cs {
		s = append(s, fmt.Sprintf("{type %d %s: %q -> %q breaking=%v}", c.ChangeType, c.Property, c.Original, c.New, c.Breaking))
	}
	return "[" + strings.Join(s, " ") + "]"
}

func vfHas(cs []*Change, f func(c *Change) bool) bool {
	for _, c := range cs {
		if f(c) {
			return true
		}
	}
	return false
}

func TestVfP02(t *testing.T) {
	h := vf.NewH("P02")
	defer h.Done()
	var root yaml.Node
	if err := yaml.Unmarshal([]byte(vfDoc), &root); err != nil {
		panic(err)
	}
	base := vfRender(&root)
	cmp := func(a, b []byte) []*Change {
		r := CompareDocuments(vfBuild(a), vfBuild(b))
		if r == nil {
			return nil
		}
		return r.GetAllChanges()
	}
	got := ""
	rep := func(cs []*Change) []*Change { got = vfShow(cs); return cs }
	h.Case("CompareDocuments", func() string { return "the same document twice" }, func() {
		cs := rep(cmp(base, base))
		vf.Assert("identical-documents-have-no-changes", len(cs) == 0)
	})
	rm := func(l vfLeaf) []byte {
		content := l.parent.Content
		lo := l.idx
		if l.parent.Kind == yaml.MappingNode {
			lo--
		}
		l.parent.Content = append(append([]*yaml.Node{}, content[:lo]...), content[l.idx+1:]...)
		b := vfRender(&root)
		l.parent.Content = content
		return b
	}
	vfLeaves(&root, nil, func(l vfLeaf) {
		comp, prop, mode, holder := vfKind(l.path)
		ruleComp, ruleProp := comp, prop
		if comp == "example" {
			ruleComp, ruleProp = holder, "examples"
		}
		if mode == "skip" {
			return
		}
		where := strings.Join(l.path, "/")
		old := *l.node
		l.node.Value = vfOther(l.node)
		nw := l.node.Value
		mod := vfRender(&root)
		*l.node = old
		removed := rm(l)
		kinds := []string{""}
		if mode != "some" {
			kinds = append(kinds, ChangeTypeAdded, ChangeTypeModified, ChangeTypeRemoved)
		}
		unit := comp
		if unit == "" {
			unit = "document"
		}
		for _, only := range kinds {
			rules := "default rules"
			var cfg *BreakingRulesConfig
			if only != "" {
				if cfg = vfOnly(ruleComp, ruleProp, only); cfg == nil {
					break
				}
				rules = "only " + only + " is breaking for " + ruleComp + "." + ruleProp
			}
			with := func(a, b []byte) []*Change {
				SetActiveBreakingRulesConfig(cfg)
				defer ResetActiveBreakingRulesConfig()
				return cmp(a, b)
			}
			flag := func(kind string) bool {
				c := cfg
				if c == nil {
					c = GenerateDefaultBreakingRules()
				}
				if comp == "example" {
					kind = ChangeTypeModified
				}
				f, ok := vfRuleOf(c, ruleComp, ruleProp)
				if !ok || f.IsNil() {
					return false
				}
				r := f.Interface().(*BreakingChangeRule)
				p := map[string]*bool{ChangeTypeAdded: r.Added, ChangeTypeModified: r.Modified, ChangeTypeRemoved: r.Removed}[kind]
				return p != nil && *p
			}
			isRem := func(c *Change) bool {
				return (c.ChangeType == PropertyRemoved || c.ChangeType == ObjectRemoved) && c.Property == prop && c.Original == old.Value && c.Breaking == flag(ChangeTypeRemoved)
			}
			isAdd := func(v string) func(c *Change) bool {
				return func(c *Change) bool {
					return (c.ChangeType == PropertyAdded || c.ChangeType == ObjectAdded) && c.Property == prop && c.New == v && c.Breaking == flag(ChangeTypeAdded)
				}
			}
			h.Case(unit, func() string { return fmt.Sprintf("%s: %q becomes %q, %s: reported %s", where, old.Value, nw, rules, got) }, func() {
				cs := rep(with(base, mod))
				switch mode {
				case "some":
					vf.Assert("every-difference-is-reported", len(cs) > 0)
				case "list":
					vf.Assert("replaced-list-item", len(cs) == 2 && vfHas(cs, isRem) && vfHas(cs, isAdd(nw)))
				default:
					vf.Assert("modified-property", len(cs) == 1 && cs[0].ChangeType == Modified && cs[0].Property == prop && cs[0].Original == old.Value && cs[0].New == nw)
					vf.Assert("breaking-flag-follows-the-rule", cs[0].Breaking == flag(ChangeTypeModified))
				}
			})
			noop := old.Value == "false" // absent and false mean the same
			h.Case(unit, func() string { return fmt.Sprintf("%s: %q removed, %s: reported %s", where, old.Value, rules, got) }, func() {
				if noop {
					return
				}
				cs := rep(with(base, removed))
				if mode == "some" {
					vf.Assert("every-difference-is-reported", len(cs) > 0)
					return
				}
				vf.Assert("removed-property", len(cs) == 1 && isRem(cs[0]))
			})
			h.Case(unit, func() string { return fmt.Sprintf("%s: %q added, %s: reported %s", where, old.Value, rules, got) }, func() {
				if noop {
					return
				}
				cs := rep(with(removed, base))
				if mode == "some" {
					vf.Assert("every-difference-is-reported", len(cs) > 0)
					return
				}
				vf.Assert("added-property", len(cs) == 1 && isAdd(old.Value)(cs[0]))
			})
		}
	})
}
