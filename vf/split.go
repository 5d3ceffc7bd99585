package main

import "fmt"

// Case splitting: an obligation's negation is broken into cases along the
// conditions of its merged values (one case per path through the code), each
// simplified under its own facts. All cases unsatisfiable: the obligation holds.

// propagate rewrites a conjunction under its own members.
func propagate(t *Term) *Term {
	for round := 0; round < 6; round++ {
		cs := restEqs(conjuncts(t))
		m := map[*Term]*Term{}
		src := map[*Term]*Term{}
		for _, c := range cs {
			if c.open || c.quant {
				continue
			}
			switch {
			case c.op == "not":
				m[c.args[0]] = tFalse
				src[c.args[0]] = c
			case c.op == "=" && isConst(c.args[0]) != isConst(c.args[1]) && c.args[0].sort != SBool:
				a, b := c.args[0], c.args[1]
				if isConst(a) {
					a, b = b, a
				}
				if a.op == "int" || a.op == "str" {
					continue
				}
				if _, ok := m[a]; !ok {
					m[a] = b
					src[a] = c
				}
				m[c] = tTrue
				src[c] = c
			case restDef(c) != nil:
				d := restDef(c)
				for _, a := range c.args {
					if a != d {
						m[a], src[a] = d, c
					}
				}
			case c.op != "or":
				m[c] = tTrue
				src[c] = c
			}
		}
		if len(m) == 0 {
			return t
		}
		var out []*Term
		ch := false
		for _, c := range cs {
			// every member under the others
			mm := m
			var drop []*Term
			for k, s := range src {
				if s == c {
					drop = append(drop, k)
				}
			}
			if len(drop) > 0 {
				mm = make(map[*Term]*Term, len(m))
				for k, v := range m {
					mm[k] = v
				}
				for _, k := range drop {
					delete(mm, k)
				}
			}
			n := subst(c, mm)
			if n != c {
				ch = true
			}
			out = append(out, n)
		}
		// two members may have rewritten each other away only when both follow
		// from the other; keep the originals of the equations in that case
		t2 := tAnd(out...)
		if !ch {
			return t
		}
		t = t2
		if t == tFalse {
			return t
		}
	}
	return t
}

// under simplifies the assumptions under the facts of a case.
func under2(asm []Assump, t *Term) []Assump {
	m := map[*Term]*Term{}
	for _, c := range conjuncts(t) {
		switch {
		case c.open || c.quant:
		case c.op == "not":
			m[c.args[0]] = tFalse
		case restDef(c) != nil:
			d := restDef(c)
			for _, a := range c.args {
				if a != d {
					m[a] = d
				}
			}
		case c.op != "or":
			m[c] = tTrue
		}
	}
	memo := map[*Term]*Term{}
	var out []Assump
	for _, a := range asm {
		if a.f = substM(a.f, m, memo); a.f != tTrue {
			out = append(out, a)
		}
	}
	return out
}

// splitOn picks a condition to split on.
func splitOn(t *Term) *Term {
	seen := map[*Term]bool{}
	var best *Term
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] || best != nil {
			return
		}
		seen[t] = true
		if t.op == "forall" || t.op == "exists" {
			return
		}
		if t.op == "ite" && !t.args[0].open && !t.args[0].quant {
			best = t.args[0]
			// the innermost condition without an ite of its own, an atom of it
			for {
				c := iteCond(best)
				if c == nil {
					break
				}
				best = c
			}
			best = atomOf(best)
			return
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(t)
	return best
}

func atomOf(c *Term) *Term {
	for c.op == "and" || c.op == "or" || c.op == "not" || c.op == "=>" {
		c = c.args[0]
	}
	return c
}

func iteCond(t *Term) *Term {
	seen := map[*Term]bool{}
	var r *Term
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] || r != nil || t.op == "forall" || t.op == "exists" {
			return
		}
		seen[t] = true
		if t.op == "ite" && !t.args[0].open && !t.args[0].quant {
			r = t.args[0]
			return
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(t)
	return r
}

// cases splits t; nil when it is a single case.
func cases(t *Term, asm []Assump, max int) []*Term {
	var out []*Term
	known := map[*Term]*Term{}
	for _, a := range asm {
		for _, c := range conjuncts(a.f) {
			switch {
			case c.quant || c.open:
			case c.op == "not" && len(c.args[0].args) <= 2:
				known[c.args[0]] = tFalse
			case c.op == "<=" || c.op == "app":
				known[c] = tTrue
			}
		}
	}
	t = subst(t, known)
	stack := []*Term{propagate(t)}
	steps := 0
	for len(stack) > 0 {
		t := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if t == tFalse {
			continue
		}
		steps++
		if steps > 6*max || len(out)+len(stack) >= max {
			out = append(out, t)
			continue
		}
		c := splitOn(t)
		if c == nil {
			// a disjunction among the members
			for _, m := range conjuncts(t) {
				if m.op == "or" && !m.open && !m.quant && len(m.args) <= 24 {
					c = atomOf(m)
					break
				}
			}
		}
		if c == nil {
			out = append(out, t)
			continue
		}
		yes := propagate(tAnd(c, subst(t, map[*Term]*Term{c: tTrue})))
		no := propagate(tAnd(tNot(c), subst(t, map[*Term]*Term{c: tFalse})))
		stack = append(stack, yes, no)
	}
	return out
}

// dropFresh leaves out the stores into objects allocated during the unit:
// for reading at references that existed before.
func dropFresh(h *Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(h *Term) *Term
	rec = func(h *Term) *Term {
		if r, ok := memo[h]; ok {
			return r
		}
		r := h
		switch h.op {
		case "store":
			if r = rec(h.args[0]); !isRef(h.args[1]) {
				r = tStore(r, h.args[1], h.args[2])
			}
		case "ite":
			r = tIte(h.args[0], rec(h.args[1]), rec(h.args[2]))
		}
		memo[h] = r
		return r
	}
	return rec(h)
}

// restDef: c defines a string as a constant beginning followed by a rest of
// its own; the definition is returned.
func restDef(c *Term) *Term {
	if c.op != "=" || c.args[0].sort != SStr {
		return nil
	}
	for i, a := range c.args {
		if a.op == "str.++" && len(a.args) == 2 && a.args[0].op == "str" && a.args[1].op == "app" && a.args[1].sval == restName(c.args[1-i], a.args[0].sval) {
			return a
		}
	}
	return nil
}

func restName(x *Term, head string) string { return fmt.Sprintf("rest!%d!%s", x.id, head) }

// restEqs names the rest of every string known to begin with a constant.
func restEqs(cs []*Term) []*Term {
	out := append([]*Term{}, cs...)
	seen := map[*Term]bool{}
	for _, c := range cs {
		if restDef(c) != nil {
			for _, a := range c.args {
				seen[a] = true
			}
		}
	}
	for _, c := range cs {
		if c.open || c.quant {
			continue
		}
		var x *Term
		head := ""
		switch {
		case c.op == "str.prefixof" && c.args[0].op == "str":
			x, head = c.args[1], c.args[0].sval
		case c.op == "=" && c.args[0].sort == SInt:
			a, b := c.args[0], c.args[1]
			if a.op == "int" {
				a, b = b, a
			}
			if b.op == "int" && b.ival >= 0 && b.ival < 256 && a.op == "str.to_code" && a.args[0].op == "str.at" && a.args[0].args[1] == tInt(0) {
				x, head = a.args[0].args[0], string([]byte{byte(b.ival)})
			}
		}
		if x == nil || x.op == "str" || x.op == "str.++" || seen[x] {
			continue
		}
		seen[x] = true
		d := tConcat(tStr(head), app(restName(x, head), SStr))
		out = append(out, tEq(x, d))
	}
	return out
}
