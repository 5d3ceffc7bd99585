package vf

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"time"
)

// H runs contracts on the real code with generated inputs: the executable
// side of a specification. What it covers is bounded by the inputs tried; it
// supplies concrete failing inputs and is never counted as a proof.
type H struct {
	Prop     string
	R        *rand.Rand
	deadline time.Time
	mu       sync.Mutex
	units    map[string]*unitStat
	order    []string
	fails    map[string]bool
	cur      func() string
	curUnit  string
	started  time.Time
	Thorough bool
	Seed     int64
	done     bool
}

type unitStat struct {
	Cases    int    `json:"cases"`
	Skipped  int    `json:"skipped"`
	Distinct int    `json:"distinct"`
	Sample   string `json:"sample"`
	seen     map[uint64]bool
}

func NewH(prop string) *H {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if seed == 0 {
		seed = 1
	}
	ms, _ := strconv.Atoi(os.Getenv("VF_BUDGET_MS"))
	if ms == 0 {
		ms = 20000
	}
	h := &H{Prop: prop, Seed: seed, R: rand.New(rand.NewSource(seed)), deadline: time.Now().Add(time.Duration(ms) * time.Millisecond),
		units: map[string]*unitStat{}, fails: map[string]bool{}, Thorough: os.Getenv("VERIF_TIER") == "thorough"}
	go h.watch()
	return h
}

// Left: time remains in the budget.
func (h *H) Left() bool { return time.Now().Before(h.deadline) }

// N scales a number of rounds with the tier.
func (h *H) N(quick int) int {
	if h.Thorough {
		return quick * 10
	}
	return quick
}

func (h *H) watch() {
	for {
		time.Sleep(500 * time.Millisecond)
		h.mu.Lock()
		if h.done {
			h.mu.Unlock()
			return
		}
		if !h.started.IsZero() && time.Since(h.started) > 30*time.Second {
			in := "?"
			if h.cur != nil {
				in = h.cur()
			}
			h.emit(h.curUnit, "does not terminate within 30s", in, "")
			h.finish()
			os.Exit(0)
		}
		h.mu.Unlock()
	}
}

func (h *H) emit(unit, failure, input, stack string) {
	if h.fails[unit+"\x00"+failure] {
		return
	}
	h.fails[unit+"\x00"+failure] = true
	if len(input) > 20000 {
		input = input[:20000] + "…"
	}
	b, _ := json.Marshal(map[string]string{"unit": unit, "failure": failure, "input": input, "stack": stack})
	fmt.Printf("\nVFFAIL %s\n", b)
}

// Case runs one contract on one input.
func (h *H) Case(unit string, input func() string, f func()) {
	h.mu.Lock()
	s := h.units[unit]
	if s == nil {
		s = &unitStat{seen: map[uint64]bool{}}
		h.units[unit] = s
		h.order = append(h.order, unit)
	}
	h.cur, h.curUnit, h.started = input, unit, time.Now()
	h.mu.Unlock()
	failure, stack, skipped := run(f)
	h.mu.Lock()
	defer h.mu.Unlock()
	h.started = time.Time{}
	s.Cases++
	if skipped {
		s.Skipped++
		return
	}
	if len(s.seen) < 200000 {
		k := fnv(input())
		if !s.seen[k] {
			s.seen[k] = true
			s.Distinct++
			if s.Distinct == 7 || s.Sample == "" {
				s.Sample = input()
				if len(s.Sample) > 400 {
					s.Sample = s.Sample[:400] + "…"
				}
			}
		}
	}
	if failure != "" {
		h.emit(unit, failure, input(), stack)
	}
}

func fnv(s string) uint64 {
	x := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		x = (x ^ uint64(s[i])) * 1099511628211
	}
	return x
}

func run(f func()) (failure, stack string, skipped bool) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case Skip:
				skipped = true
			case Failure:
				failure = x.Name
			default:
				failure = fmt.Sprintf("panic: %v", r)
				if i := strings.IndexByte(failure, '\n'); i > 0 {
					failure = failure[:i]
				}
				stack = string(debug.Stack())
				if len(stack) > 4000 {
					stack = stack[:4000]
				}
			}
		}
	}()
	f()
	return
}

func (h *H) finish() {
	for _, u := range h.order {
		b, _ := json.Marshal(h.units[u])
		fmt.Printf("\nVFUNIT %s %s\n", u, b)
	}
	fmt.Printf("\nVFDONE %s\n", h.Prop)
	h.done = true
}

// Done reports what was run.
func (h *H) Done() {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.finish()
}

// Show renders a value for a report.
func Show(vs ...any) string {
	var sb strings.Builder
	for i, v := range vs {
		if i > 0 {
			sb.WriteString("; ")
		}
		show(&sb, reflect.ValueOf(v), 0)
	}
	return sb.String()
}

func show(sb *strings.Builder, v reflect.Value, d int) {
	if !v.IsValid() {
		sb.WriteString("nil")
		return
	}
	if d > 12 {
		sb.WriteString("…")
		return
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		if v.Kind() == reflect.Ptr {
			sb.WriteString("&")
		}
		show(sb, v.Elem(), d+1)
	case reflect.Struct:
		sb.WriteString(v.Type().Name() + "{")
		first := true
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).IsZero() {
				continue
			}
			if !first {
				sb.WriteString(", ")
			}
			first = false
			sb.WriteString(v.Type().Field(i).Name + ": ")
			show(sb, v.Field(i), d+1)
		}
		sb.WriteString("}")
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() {
			sb.WriteString("nil")
			return
		}
		sb.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				sb.WriteString(", ")
			}
			show(sb, v.Index(i), d+1)
		}
		sb.WriteString("]")
	case reflect.Map:
		sb.WriteString("map[")
		for i, k := range sortedKeys(v) {
			if i > 0 {
				sb.WriteString(", ")
			}
			show(sb, k, d+1)
			sb.WriteString(": ")
			show(sb, v.MapIndex(k), d+1)
		}
		sb.WriteString("]")
	case reflect.String:
		sb.WriteString(strconv.Quote(v.String()))
	case reflect.Func, reflect.Chan:
		sb.WriteString(v.Type().String())
	case reflect.Bool:
		fmt.Fprintf(sb, "%t", v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprintf(sb, "%d", v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprintf(sb, "%d", v.Uint())
	case reflect.Float32, reflect.Float64:
		fmt.Fprintf(sb, "%v", v.Float())
	default:
		sb.WriteString(v.Kind().String())
	}
}

func sortedKeys(v reflect.Value) []reflect.Value {
	ks := v.MapKeys()
	for i := range ks {
		for j := i; j > 0 && fmt.Sprint(ks[j]) < fmt.Sprint(ks[j-1]); j-- {
			ks[j], ks[j-1] = ks[j-1], ks[j]
		}
	}
	return ks
}

// Fill populates *p with random content: pointers nil or fresh, slices and
// maps of up to max elements, down to depth levels. Hooks override types.
func Fill(r *rand.Rand, p any, depth, max int, hooks map[reflect.Type]func(reflect.Value, int)) {
	fill(r, reflect.ValueOf(p).Elem(), depth, max, hooks)
}

// SkipField tells Fill which struct fields to leave zero.
var SkipField func(reflect.StructField) bool

func fill(r *rand.Rand, v reflect.Value, depth, max int, hooks map[reflect.Type]func(reflect.Value, int)) {
	if f, ok := hooks[v.Type()]; ok {
		f(v, depth)
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if depth <= 0 || r.Intn(5) < 2 {
			return
		}
		v.Set(reflect.New(v.Type().Elem()))
		fill(r, v.Elem(), depth-1, max, hooks)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() && (SkipField == nil || !SkipField(v.Type().Field(i))) {
				fill(r, v.Field(i), depth, max, hooks)
			}
		}
	case reflect.Slice:
		if depth <= 0 || r.Intn(3) == 0 {
			return
		}
		n := r.Intn(max + 1)
		s := reflect.MakeSlice(v.Type(), 0, n)
		for i := 0; i < n; i++ {
			e := reflect.New(v.Type().Elem()).Elem()
			for k := 0; k < 4; k++ {
				fill(r, e, depth, max, hooks)
				if e.Kind() != reflect.Ptr || !e.IsNil() {
					break
				}
			}
			if e.Kind() != reflect.Ptr || !e.IsNil() {
				s = reflect.Append(s, e)
			}
		}
		v.Set(s)
	case reflect.Map:
		if depth <= 0 || r.Intn(3) == 0 {
			return
		}
		n := r.Intn(max + 1)
		m := reflect.MakeMap(v.Type())
		for i := 0; i < n; i++ {
			k := reflect.New(v.Type().Key()).Elem()
			e := reflect.New(v.Type().Elem()).Elem()
			fill(r, k, depth, max, hooks)
			for j := 0; j < 4; j++ {
				fill(r, e, depth, max, hooks)
				if e.Kind() != reflect.Ptr || !e.IsNil() {
					break
				}
			}
			if e.Kind() != reflect.Ptr || !e.IsNil() {
				m.SetMapIndex(k, e)
			}
		}
		v.Set(m)
	case reflect.String:
		v.SetString(Word(r))
	case reflect.Bool:
		v.SetBool(r.Intn(2) == 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(int64(r.Intn(7) - 2))
	case reflect.Float64, reflect.Float32:
		v.SetFloat(float64(r.Intn(9)) / 2)
	}
}

var words = []string{"", "a", "b", "x-y", "name", "Name", "a/b", "~", "~1", "é", "世", "0", "-1", "id", "type", "string", "a b", "#", "$ref", "%41", "\"q\"", "."}

func Word(r *rand.Rand) string { return words[r.Intn(len(words))] }

// Str is a random string over an alphabet.
func Str(r *rand.Rand, alphabet []string, max int) string {
	var sb strings.Builder
	for n := r.Intn(max + 1); n > 0; n-- {
		sb.WriteString(alphabet[r.Intn(len(alphabet))])
	}
	return sb.String()
}

// Each calls f on every string over alphabet of length ≤ n.
func Each(alphabet []string, n int, f func(string)) {
	var rec func(p string, k int)
	rec = func(p string, k int) {
		f(p)
		if k == 0 {
			return
		}
		for _, a := range alphabet {
			rec(p+a, k-1)
		}
	}
	rec("", n)
}
