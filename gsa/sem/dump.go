package sem

import (
	"fmt"
	"sort"
	"strings"
)

// Dump describes a result for people
func (ev *Eval) Dump(r *Result) string {
	var sb strings.Builder
	for i, v := range r.Vals {
		t := r.Fn.Signature.Results().At(i).Type()
		fmt.Fprintf(&sb, "result %d: %s\n", i, ev.deepAll(r.Fn, r.Mem, v, t))
	}
	var rs []string
	for k := range r.Mem.m {
		rs = append(rs, k)
	}
	sort.Strings(rs)
	fmt.Fprintf(&sb, "regions: %v\n", rs)
	for _, e := range r.Events {
		fmt.Fprintf(&sb, "event %s\n", ev.EventTerm(e))
	}
	for _, n := range r.Notes {
		fmt.Fprintf(&sb, "note %s\n", n)
	}
	return sb.String()
}

// Diff lists the smallest differing parts of two terms
func Diff(a, b *T) []string {
	var out []string
	seen := map[[2]int]bool{}
	var rec func(path string, a, b *T)
	rec = func(path string, a, b *T) {
		if a == b || len(out) > 8 || seen[[2]int{a.id, b.id}] {
			return
		}
		seen[[2]int{a.id, b.id}] = true
		if a.Op == b.Op && a.Aux == b.Aux && len(a.Args) == len(b.Args) && len(a.Args) > 0 {
			for i := range a.Args {
				rec(fmt.Sprintf("%s/%s.%d", path, a.Op, i), a.Args[i], b.Args[i])
			}
			return
		}
		out = append(out, fmt.Sprintf("%s\n   A: %s\n   B: %s", path, a, b))
	}
	rec("", a, b)
	return out
}
