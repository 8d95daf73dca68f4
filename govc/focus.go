package main

import (
	"math"
	"sort"
	"strings"
	"sync"
)

// focus selects the hypotheses closest to the goal (dropping hypotheses is always sound).  Hypotheses are first split
// into small pieces and relieved of the path conditions the goal assumes anyway.
func focus(hyps []*Term, goal *Term, limit int) ([]*Term, *Term, bool) {
	path := map[int]bool{}
	var pieces []*Term
	for goal.op == "=>" {
		for _, l := range conjs(goal.args[0]) {
			if !path[l.id] {
				path[l.id] = true
				pieces = append(pieces, l)
			}
		}
		goal = goal.args[1]
	}
	// a hypothesis that contradicts the path settles the goal
	against := map[int]bool{}
	for _, l := range pieces {
		against[Not(l).id] = true
	}
	contradiction := false
	seen := map[int]bool{}
	var add func(t *Term)
	add = func(t *Term) {
		switch t.op {
		case "and":
			for _, a := range t.args {
				add(a)
			}
			return
		case "=>":
			var rest []*Term
			for _, l := range conjs(t.args[0]) {
				if !path[l.id] {
					rest = append(rest, l)
				}
			}
			if len(rest) == 0 {
				add(t.args[1])
				return
			}
			if t.args[1].op == "and" || t.args[1].op == "=>" {
				for _, p := range splitConcl(t.args[1]) {
					add(Imp(And(rest...), p))
				}
				return
			}
			t = Imp(And(rest...), t.args[1])
		case "forall":
			if bs := splitConcl(t.args[0]); len(bs) > 1 {
				for _, b := range bs {
					add(quant("forall", t.bvs, b, t.kind, trigsFor(b, t.trig)))
				}
				return
			}
		}
		if t == True || seen[t.id] {
			return
		}
		contradiction = contradiction || against[t.id] || t == False
		seen[t.id] = true
		pieces = append(pieces, t)
	}
	for _, h := range hyps {
		add(h)
	}
	if contradiction {
		return []*Term{False}, goal, true
	}
	if len(pieces) <= limit {
		return pieces, goal, false
	}
	freq := map[string]int{}
	syms := make([][]string, len(pieces))
	for i, p := range pieces {
		syms[i] = termSyms(p)
		for _, s := range syms[i] {
			freq[s]++
		}
	}
	w := func(s string) float64 { return 1 + 2/math.Log(float64(freq[s])+1.5) }
	rel := map[string]bool{}
	for _, s := range termSyms(goal) {
		rel[s] = true
	}
	in := make([]bool, len(pieces))
	n := 0
	type sc struct {
		i int
		s float64
	}
	for n < limit {
		var cs []sc
		best := 0.0
		for i := range pieces {
			if in[i] {
				continue
			}
			r, ir := 0.0, 0.0
			for _, s := range syms[i] {
				if rel[s] {
					r += w(s)
				} else {
					ir++
				}
			}
			if len(syms[i]) == 0 {
				r = 1
			}
			x := r / (r + ir + 0.001)
			cs = append(cs, sc{i, x})
			if x > best {
				best = x
			}
		}
		if best < 0.05 || len(cs) == 0 {
			break
		}
		sort.SliceStable(cs, func(a, b int) bool { return cs[a].s > cs[b].s })
		for k, c := range cs {
			if c.s < best*0.97 || n >= limit || k > limit/4 {
				break
			}
			in[c.i] = true
			n++
			for _, s := range syms[c.i] {
				rel[s] = true
			}
		}
	}
	// well-formedness of the heap components involved comes for free
	for i := range pieces {
		if in[i] || len(syms[i]) == 0 || len(syms[i]) > 3 {
			continue
		}
		ok, some := true, false
		for _, s := range syms[i] {
			if strings.HasSuffix(s, "."+allocComp) {
				continue
			}
			if !rel[s] {
				ok = false
				break
			}
			some = true
		}
		in[i] = ok && some
	}
	var out []*Term
	for i, p := range pieces {
		if in[i] {
			out = append(out, p)
		}
	}
	return out, goal, true
}

// trigsFor keeps the patterns that occur in a part of a quantified formula (all of them if none does).
func trigsFor(b *Term, trig [][]*Term) [][]*Term {
	if len(trig) == 0 {
		return nil
	}
	in := map[int]bool{}
	walkTerms(b, in, func(*Term) {})
	var out [][]*Term
	for _, g := range trig {
		ok := true
		for _, p := range g {
			ok = ok && in[p.id]
		}
		if ok {
			out = append(out, g)
		}
	}
	if out == nil {
		return trig
	}
	return out
}

func conjs(t *Term) []*Term {
	if t.op == "and" {
		var out []*Term
		for _, a := range t.args {
			out = append(out, conjs(a)...)
		}
		return out
	}
	return []*Term{t}
}
func splitConcl(t *Term) []*Term {
	switch t.op {
	case "and":
		var out []*Term
		for _, a := range t.args {
			out = append(out, splitConcl(a)...)
		}
		return out
	case "=>":
		var out []*Term
		for _, b := range splitConcl(t.args[1]) {
			out = append(out, Imp(t.args[0], b))
		}
		return out
	}
	return []*Term{t}
}

var symMemo sync.Map

func termSyms(t *Term) []string {
	if s, ok := symMemo.Load(t.id); ok {
		return s.([]string)
	}
	m := map[string]bool{}
	walkTerms(t, map[int]bool{}, func(u *Term) {
		if u.op == "const" || u.op == "uf" {
			m[u.name] = true
		}
	})
	out := sortedKeys(m)
	if !t.par {
		symMemo.Store(t.id, out)
	}
	return out
}
