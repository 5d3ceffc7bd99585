//go:build verif

package model

import (
	"reflect"
	"testing"

	vf "github.com/pb33f/libopenapi/test_specs"
)

func vfChange(r interface{ Intn(int) int }) *Change {
	return &Change{Property: "p", ChangeType: 1 + r.Intn(4), Breaking: r.Intn(2) == 0}
}

// every type's accounting lemma, run on random change trees of the real types
func TestVfP01(t *testing.T) {
	h := vf.NewH("P01")
	defer h.Done()
	vf.SkipField = func(f reflect.StructField) bool {
		t := f.Type
		for t.Kind() == reflect.Ptr || t.Kind() == reflect.Slice || t.Kind() == reflect.Map {
			t = t.Elem()
		}
		return t.Kind() == reflect.Struct && t.PkgPath() != reflect.TypeOf(Change{}).PkgPath()
	}
	hooks := map[reflect.Type]func(reflect.Value, int){}
	noBreak := false
	hooks[reflect.TypeOf((*PropertyChanges)(nil))] = func(v reflect.Value, _ int) {
		p := &PropertyChanges{}
		for n := h.R.Intn(4); n > 0; n-- {
			c := vfChange(h.R)
			if noBreak {
				c.Breaking = false
			}
			if len(p.Changes) > 0 && h.R.Intn(4) == 0 {
				c = p.Changes[h.R.Intn(len(p.Changes))] // the same change listed again
			}
			p.Changes = append(p.Changes, c)
		}
		if h.R.Intn(2) == 0 {
			p.Changes = append(make([]*Change, 0, len(p.Changes)+3), p.Changes...) // spare capacity
		}
		v.Set(reflect.ValueOf(p))
	}
	quiet := func(mk func() any) func(reflect.Value, int) {
		return func(v reflect.Value, _ int) {
			if h.R.Intn(3) == 0 {
				return
			}
			x := mk()
			old := noBreak
			noBreak = true
			for i := 0; i < reflect.ValueOf(x).Elem().NumField(); i++ {
				if f := reflect.ValueOf(x).Elem().Field(i); f.Type() == reflect.TypeOf((*PropertyChanges)(nil)) {
					hooks[f.Type()](f, 0)
				}
			}
			noBreak = old
			v.Set(reflect.ValueOf(x))
		}
	}
	hooks[reflect.TypeOf((*ExtensionChanges)(nil))] = quiet(func() any { return &ExtensionChanges{} })
	hooks[reflect.TypeOf((*ExamplesChanges)(nil))] = quiet(func() any { return &ExamplesChanges{} })
	hooks[reflect.TypeOf((*Change)(nil))] = func(v reflect.Value, _ int) {
		c := vfChange(h.R)
		c.Breaking = c.Breaking && !noBreak
		v.Set(reflect.ValueOf(c))
	}
	// allOf changes are counted twice by the breaking total (known finding):
	// they are kept non-breaking here and get a case of their own below
	schema := reflect.TypeOf(SchemaChanges{})
	hooks[schema] = func(v reflect.Value, depth int) {
		old := noBreak
		for i := 0; i < v.NumField(); i++ {
			if vf.SkipField(v.Type().Field(i)) {
				continue
			}
			noBreak = old || v.Type().Field(i).Name == "AllOfChanges"
			vf.Fill(h.R, v.Field(i).Addr().Interface(), depth, 2, hooks)
		}
		noBreak = old
	}
	for round := 0; round < h.N(400); round++ {
		x := &SchemaChanges{}
		vf.Fill(h.R, x, 2, 2, hooks)
		x.AllOfChanges = nil
		for n := h.R.Intn(3); n > 0; n-- {
			a := &SchemaChanges{}
			vf.Fill(h.R, a, 1, 2, hooks)
			x.AllOfChanges = append(x.AllOfChanges, a)
		}
		h.Case("Accounting_SchemaChanges allOf", func() string { return vf.Show(x) }, func() {
			ab := 0
			for _, a := range x.AllOfChanges {
				ab += a.TotalBreakingChanges()
			}
			n := vf.Count(x.GetAllChanges(), vfBreaking)
			vf.Assert("breaking allOf changes counted once or twice", x.TotalBreakingChanges() == n || x.TotalBreakingChanges() == n+ab)
		})
	}
	for round := 0; round < h.N(400) && h.Left(); round++ {
		for _, l := range vfAccountingLemmas {
			x := reflect.New(reflect.TypeOf(l.f).In(0).Elem())
			vf.Fill(h.R, x.Interface(), 2, 2, hooks)
			if x.Elem().NumField() > 0 && x.Type() == reflect.TypeOf((*ExtensionChanges)(nil)) || x.Type() == reflect.TypeOf((*ExamplesChanges)(nil)) {
				noBreak = true
				hooks[reflect.TypeOf((*PropertyChanges)(nil))](x.Elem().Field(0), 0)
				noBreak = false
			}
			h.Case(l.name, func() string { return vf.Show(x.Interface()) }, func() { reflect.ValueOf(l.f).Call([]reflect.Value{x}) })
		}
	}
}
