// Package vf is the specification language of the contracts under
// /verif/contracts. The verifier interprets these functions symbolically
// (Forall over all values, Ensure as an obligation or an assumption, ...).
// The bodies below give them an executable meaning, so that the same
// contracts also run on the real code: for replaying a counterexample and
// for the checks labelled bounded.
package vf

import (
	"reflect"
	"regexp"
)

// Skip is thrown when an assumption does not hold for the inputs tried.
type Skip struct{}

// Failure is thrown when a stated property does not hold.
type Failure struct{ Name string }

func (f Failure) Error() string { return "violated: " + f.Name }

func Assume(c bool) {
	if !c {
		panic(Skip{})
	}
}
func Assert(name string, c bool) {
	if !c {
		panic(Failure{name})
	}
}
func Ensure(name string, c bool)  { Assert(name, c) }
func Require(name string, c bool) { Assume(c) }
func Implies(a, b bool) bool      { return !a || b }
func Iff(a, b bool) bool          { return a == b }

func Forall(lo, hi int, f func(int) bool) bool {
	for i := lo; i < hi; i++ {
		if !f(i) {
			return false
		}
	}
	return true
}
func Exists(lo, hi int, f func(int) bool) bool {
	for i := lo; i < hi; i++ {
		if f(i) {
			return true
		}
	}
	return false
}

// Strings is the set of strings ForallStr ranges over when executed.
var Strings []string

func ForallStr(f func(string) bool) bool {
	for _, s := range Strings {
		if !f(s) {
			return false
		}
	}
	return true
}

func Count[T any](s []T, f func(T) bool) int {
	n := 0
	for _, x := range s {
		if f(x) {
			n++
		}
	}
	return n
}

// IsFresh: allocated during the call. Not decidable at run time.
func IsFresh[T any](p *T) bool { return true }

func KeyIn[K comparable, V any](m map[K]V, k K) bool { _, ok := m[k]; return ok }

func ForallKeys[K comparable, V any](m map[K]V, f func(K) bool) bool {
	for k := range m {
		if !f(k) {
			return false
		}
	}
	return true
}

// SameMap: the two maps have the same key set.
func SameMap[K comparable, V any](a, b map[K]V) bool {
	if len(a) != len(b) {
		return false
	}
	for k := range a {
		if _, ok := b[k]; !ok {
			return false
		}
	}
	return true
}

func InRe(s, re string) bool { return regexp.MustCompile(`^(?s:` + re + `)$`).MatchString(s) }

// ModCell: the function may change *p.
func ModCell[T any](p *T) {}

// Same: same backing array, offset and length.
func Same[T any](a, b []T) bool {
	return len(a) == len(b) && (len(a) == 0 || reflect.ValueOf(a).Pointer() == reflect.ValueOf(b).Pointer())
}

// SameVal: the same dynamic type and value; slices, maps and pointers by identity.
func SameVal(a, b any) bool {
	if a == nil || b == nil {
		return a == b
	}
	x, y := reflect.ValueOf(a), reflect.ValueOf(b)
	if x.Type() != y.Type() {
		return false
	}
	switch x.Kind() {
	case reflect.Slice, reflect.Map, reflect.Func:
		return x.Pointer() == y.Pointer() && (x.Kind() == reflect.Func || x.Len() == y.Len())
	}
	return x.Comparable() && a == b
}
