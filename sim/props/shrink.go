package props

import (
	"encoding/json"
	"sort"
	"time"
)

// Shrink looks for a smaller scenario with the same class of violation.
func (p *Property) Shrink(sc any, class string, budget time.Duration, maxRuns int) (any, int) {
	return p.ShrinkBy(sc, class, budget, maxRuns, func(n any) string { return p.Execute(n, false).Class })
}

// ShrinkBy is Shrink with the runs made by a function.
func (p *Property) ShrinkBy(sc any, class string, budget time.Duration, maxRuns int, run func(any) string) (any, int) {
	deadline := time.Now().Add(budget)
	best := p.Clone(sc)
	runs := 0
	try := func(tree any) bool {
		if runs >= maxRuns || time.Now().After(deadline) {
			return false
		}
		b, err := json.Marshal(tree)
		if err != nil {
			return false
		}
		n := p.New()
		if json.Unmarshal(b, n) != nil {
			return false
		}
		// only canonical forms, so that dropped zero fields do not loop
		nb, _ := json.Marshal(n)
		ob, _ := json.Marshal(best)
		if string(nb) == string(ob) || cost(nb) >= cost(ob) {
			return false
		}
		if p.Valid != nil && !p.Valid(n) {
			return false
		}
		runs++
		if run(n) != class {
			return false
		}
		best = n
		return true
	}
	for {
		b, _ := json.Marshal(best)
		var tree any
		json.Unmarshal(b, &tree)
		if !p.pass(&tree, try) || runs >= maxRuns || time.Now().After(deadline) {
			break
		}
	}
	return best, runs
}

// cost orders scenarios: shorter first, then by the values of digits.
func cost(b []byte) int {
	n := len(b) * 1000
	for _, c := range b {
		if c >= '0' && c <= '9' {
			n += int(c - '0')
		}
	}
	return n
}

// pass walks the tree and keeps every simplification that try accepts.
func (p *Property) pass(root *any, try func(any) bool) bool {
	improved := false
	attempt := func(apply func(), undo func()) bool {
		apply()
		if try(*root) {
			improved = true
			return true
		}
		undo()
		return false
	}
	var walk func(get func() any, set func(any))
	walk = func(get func() any, set func(any)) {
		switch v := get().(type) {
		case []any:
			// drop halves, then single elements
			for size := len(v) / 2; size >= 1; size /= 2 {
				for i := 0; i+size <= len(v); {
					old := v
					cut := append(append([]any{}, v[:i]...), v[i+size:]...)
					if attempt(func() { set(cut) }, func() { set(old) }) {
						v = cut
					} else {
						i += size
					}
				}
			}
			for i := range v {
				walk(func() any { return v[i] }, func(n any) { v[i] = n })
			}
		case map[string]any:
			keys := make([]string, 0, len(v))
			for k := range v {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			for _, k := range keys {
				old := v[k]
				if attempt(func() { delete(v, k) }, func() { v[k] = old }) {
					continue
				}
				walk(func() any { return v[k] }, func(n any) { v[k] = n })
			}
		case float64:
			cur := v
			for _, n := range []float64{0, 1, float64(int64(cur) / 2), cur - 1} {
				if n == cur || cur < 0 && n != 0 || n < 0 {
					continue
				}
				old := cur
				if attempt(func() { set(n) }, func() { set(old) }) {
					cur = n
				}
			}
		case string:
			if len(v) > 1 {
				for _, n := range []string{v[:len(v)/2], v[:len(v)-1]} {
					if attempt(func() { set(n) }, func() { set(v) }) {
						return
					}
				}
			}
		}
	}
	walk(func() any { return *root }, func(n any) { *root = n })
	return improved
}
