package main

// Loops: exact iteration history + inductively checked invariants.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type loopT struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *loopT
	depth  int
}
type loopInfo struct {
	rpo   []*ssa.BasicBlock
	loops []*loopT
	inner map[*ssa.BasicBlock]*loopT
}

var loopCache = map[*ssa.Function]*loopInfo{}

func loopsOf(fn *ssa.Function) *loopInfo {
	if li, ok := loopCache[fn]; ok {
		return li
	}
	li := &loopInfo{inner: map[*ssa.BasicBlock]*loopT{}}
	loopCache[fn] = li
	if len(fn.Blocks) == 0 {
		return li
	}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		li.rpo = append(li.rpo, post[i])
	}
	byH := map[*ssa.BasicBlock]*loopT{}
	for _, b := range li.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := byH[s]
				if l == nil {
					l = &loopT{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					byH[s] = l
					li.loops = append(li.loops, l)
				}
				// natural loop
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					for _, p := range x.Preds {
						if seen[p] {
							work = append(work, p)
						}
					}
				}
			}
		}
	}
	sort.Slice(li.loops, func(i, j int) bool { return len(li.loops[i].blocks) > len(li.loops[j].blocks) })
	for _, l := range li.loops {
		for _, m := range li.loops {
			if m != l && m.blocks[l.header] && len(m.blocks) > len(l.blocks) {
				if l.parent == nil || len(m.blocks) < len(l.parent.blocks) {
					l.parent = m
				}
			}
		}
		for b := range l.blocks {
			if li.inner[b] == nil || len(l.blocks) < len(li.inner[b].blocks) {
				li.inner[b] = l
			}
		}
	}
	return li
}

// innermost: the loop directly inside lp (or top level) that contains b, nil if none.
func (li *loopInfo) innermost(b *ssa.BasicBlock, lp *loopT) *loopT {
	l := li.inner[b]
	for l != nil && l.parent != lp {
		if l == lp {
			return nil
		}
		l = l.parent
	}
	if l == lp {
		return nil
	}
	return l
}

// loopCtx describes a running loop, for user invariants.
type loopCtx struct {
	n     *Term
	init  *State
	hdr   *State
	at    func(i *Term) *State
	phis  []phiC
	entry *State
}

type phiC struct {
	phi  *ssa.Phi
	name string
	typ  types.Type
	init Val
	mode int // 0 term, 1 slice (split), 2 fixed (must not change)
}

func (p phiC) parts() []string {
	if p.mode == 1 {
		return []string{p.name + "#ref", p.name + "#off", p.name + "#len", p.name + "#cap"}
	}
	return []string{p.name}
}

var sliceSels = []string{"s_ref", "s_off", "s_len", "s_cap"}

func constTrip(e *Exec, fr *Frame, L *loopT, es []edge) int {
	h := L.header
	ifi, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return -1
	}
	// exactly one successor leaves the loop
	if L.blocks[h.Succs[0]] == L.blocks[h.Succs[1]] || !L.blocks[h.Succs[0]] {
		return -1
	}
	bo, ok := ifi.Cond.(*ssa.BinOp)
	if !ok {
		return -1
	}
	constOf := func(v ssa.Value) (int64, bool) {
		if c, ok := v.(*ssa.Const); ok && c.Value != nil {
			if t, ok := e.constVal(c).(*Term); ok && t.op == "int" {
				return t.ival, true
			}
			return 0, false
		}
		if in, ok := v.(ssa.Instruction); ok && L.blocks[in.Block()] {
			return 0, false
		}
		if x, ok := fr.env[v].(*Term); ok && x.op == "int" {
			return x.ival, true
		}
		return 0, false
	}
	bound, ok := constOf(bo.Y)
	if !ok {
		return -1
	}
	var phi *ssa.Phi
	off := int64(0)
	switch x := bo.X.(type) {
	case *ssa.Phi:
		phi = x
	case *ssa.BinOp:
		if x.Op == token.ADD {
			if p, ok := x.X.(*ssa.Phi); ok {
				if c, ok := constOf(x.Y); ok {
					phi, off = p, c
				}
			}
		}
	}
	if phi == nil || phi.Block() != h {
		return -1
	}
	step := int64(0)
	init := int64(0)
	for i, p := range h.Preds {
		if L.blocks[p] {
			b, ok := phi.Edges[i].(*ssa.BinOp)
			if !ok || b.Op != token.ADD || b.X != ssa.Value(phi) {
				return -1
			}
			c, ok := constOf(b.Y)
			if !ok || step != 0 && step != c {
				return -1
			}
			step = c
		} else {
			c, ok := constOf(phi.Edges[i])
			if !ok {
				if t, isT := e.val(fr, phi.Edges[i]).(*Term); isT && t.op == "int" {
					c, ok = t.ival, true
				}
			}
			if !ok {
				return -1
			}
			init = c
		}
	}
	if step <= 0 {
		return -1
	}
	n := 0
	for v := init; n <= 40; v += step {
		x := v + off
		var in bool
		switch bo.Op {
		case token.LSS:
			in = x < bound
		case token.LEQ:
			in = x <= bound
		case token.NEQ:
			in = x != bound
		default:
			return -1
		}
		if !in {
			return n
		}
		n++
	}
	return -1
}

func (e *Exec) execLoop(fr *Frame, L *loopT, es []edge) {
	if n := constTrip(e, fr, L, es); n >= 0 && n <= 12 {
		cur := es
		for k := 0; len(cur) > 0; k++ {
			if k > n+1 {
				panic(unsupported("unrolling of a constant loop did not end"))
			}
			st, conds := e.mergeStates(cur)
			e.phis(fr, L.header, cur, conds)
			saved := fr.pending
			fr.pending = map[*ssa.BasicBlock][]edge{L.header: {{st, nil}}}
			var backs []edge
			e.runRegion(fr, L, &backs)
			for b, x := range fr.pending {
				saved[b] = append(saved[b], x...)
			}
			fr.pending = saved
			cur = liveEdges(backs)
		}
		return
	}
	st0, conds := e.mergeStates(es)
	// loop-carried locals
	var phis []phiC
	for _, in := range L.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		var acc Val
		for i := len(es) - 1; i >= 0; i-- {
			v := e.phiEdge(fr, p, L.header, es[i].pred)
			if acc == nil {
				acc = v
			} else {
				acc = iteVal(conds[i], v, acc)
			}
		}
		pc := phiC{phi: p, name: fmt.Sprintf("phi:%d:%s", fr.id, p.Name()), typ: p.Type(), init: acc}
		if t, ok := acc.(*Term); ok {
			if t.sort == SSlice {
				pc.mode = 1
				for i, nm := range pc.parts() {
					comp(nm, SInt, nil, "phi")
					st0.comps[nm] = Sel(sliceSels[i], t)
				}
			} else {
				comp(pc.name, t.sort, p.Type(), "phi")
				st0.comps[pc.name] = t
			}
		} else {
			pc.mode = 2
		}
		phis = append(phis, pc)
	}
	setPhis := func(h *State) {
		for _, p := range phis {
			fr.env[p.phi] = phiVal(h, p)
		}
	}
	run := func(h *State) (*State, map[*ssa.BasicBlock][]edge) {
		setPhis(h)
		saved := fr.pending
		fr.pending = map[*ssa.BasicBlock][]edge{L.header: {{h.clone(), nil}}}
		var backs []edge
		e.runRegion(fr, L, &backs)
		exits := fr.pending
		fr.pending = saved
		backs = liveEdges(backs)
		var out []edge
		for _, b := range backs {
			s := b.st
			for _, p := range phis {
				v := e.phiEdge(fr, p.phi, L.header, b.pred)
				switch p.mode {
				case 0:
					s.comps[p.name] = e.scalar(v)
				case 1:
					t := v.(*Term)
					for i, nm := range p.parts() {
						s.comps[nm] = Sel(sliceSels[i], t)
					}
				case 2:
					if v != p.init && v != fr.env[p.phi] {
						panic(unsupported("loop-carried value of kind %T", v))
					}
				}
			}
			out = append(out, edge{s, nil})
		}
		if len(out) == 0 {
			return nil, exits
		}
		back, _ := e.mergeStates(out)
		return back, exits
	}
	label := fmt.Sprintf("%s.b%d", fr.fn.Name(), L.header.Index)
	nx0 := len(e.metaExtra)
	defer func() { e.metaExtra = e.metaExtra[:nx0] }()
	e.addMetaExtra(fr, L)
	var it *IterV
	for _, in := range L.header.Instrs {
		if nx, ok := in.(*ssa.Next); ok {
			it, _ = fr.env[nx.Iter].(*IterV)
		}
	}
	e.loopCore(st0, phis, label, it,
		func() func() { // snapshot of frame lists for dry passes
			nr, nd := len(fr.rets), len(fr.defers)
			return func() { fr.rets = fr.rets[:nr]; fr.defers = fr.defers[:nd] }
		},
		func(h *State) (*State, func()) {
			back, exits := run(h)
			return back, func() {
				for b, x := range exits {
					fr.pending[b] = append(fr.pending[b], x...)
				}
			}
		})
}

// addMetaExtra makes the values a loop uses but does not define available to metavariables of invariants.
func (e *Exec) addMetaExtra(fr *Frame, L *loopT) {
	for _, b := range fr.fn.Blocks {
		if !L.blocks[b] {
			continue
		}
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				x := *op
				if x == nil {
					continue
				}
				switch d := x.(type) {
				case *ssa.Const, *ssa.Function, *ssa.Builtin, *ssa.Global:
					continue
				case ssa.Instruction:
					if L.blocks[d.Block()] {
						continue
					}
					if _, isPhi := x.(*ssa.Phi); isPhi {
						hdr := false
						for _, l := range loopsOf(fr.fn).loops {
							hdr = hdr || l.header == d.Block()
						}
						if hdr {
							continue
						}
					}
				}
				switch under(x.Type()).(type) {
				case *types.Slice, *types.Map, *types.Chan, *types.Pointer, *types.Basic:
				default:
					continue
				}
				v, ok := fr.env[x]
				if !ok {
					continue
				}
				t, ok := v.(*Term)
				if !ok {
					continue
				}
				dup := false
				for _, y := range e.metaExtra {
					if y.v.(*Term) == t && types.Identical(y.t, x.Type()) {
						dup = true
					}
				}
				if !dup {
					e.metaExtra = append(e.metaExtra, SVal{v: t, t: x.Type()})
				}
			}
		}
	}
}

func phiVal(h *State, p phiC) Val {
	switch p.mode {
	case 0:
		return h.comps[p.name]
	case 1:
		var a [4]*Term
		for i, nm := range p.parts() {
			a[i] = h.comps[nm]
		}
		return MkSlice(a[0], a[1], a[2], a[3])
	}
	return p.init
}

type cand struct {
	name   string
	assume *Term // fact available at the loop head (iteration n)
	init   *Term // must hold on entry (nil: trivially true)
	step   *Term // must hold at the back edge
	alive  bool
	plain  bool
	tried  map[string]bool
}

// loopCore runs a loop whose body is given by run (state at head -> merged state at back edge, commit of exits).
func (e *Exec) loopCore(st0 *State, phis []phiC, label string, it *IterV, snapshot func() func(), run func(h *State) (*State, func())) {
	if _, ok := e.loopNo[label]; !ok {
		if e.loopNo == nil {
			e.loopNo = map[string]int{}
		}
		e.loopNo[label] = len(e.loopNo) + 1
		if dbgHoudini {
			fmt.Fprintln(os.Stderr, "loop", len(e.loopNo), "is", label)
		}
	}
	e.curIts = append(e.curIts, it)
	ncell, nthr, npend := len(e.cellVars), len(e.threads), len(e.pending)
	defer func() { e.curIts = e.curIts[:len(e.curIts)-1]; e.cellVars = e.cellVars[:ncell] }()

	phiNames := map[string]bool{}
	for _, p := range phis {
		if p.mode < 2 {
			for _, n := range p.parts() {
				phiNames[n] = true
			}
		}
	}
	relevantComp := func(c string) bool {
		if strings.HasPrefix(c, "phi:") || strings.HasPrefix(c, "it:") {
			return st0.comps[c] != nil
		}
		return true
	}
	// pass A: which components change, and how
	mod := map[string]bool{}
	for n := range phiNames {
		mod[n] = true
	}
	lin := map[string]int64{}
	for round := 0; ; round++ {
		if round > 30 {
			panic(unsupported("loop analysis does not converge"))
		}
		restore := e.enterDry()
		undo := snapshot()
		sc := pushScope()
		h := st0.clone()
		for c := range mod {
			h.comps[c] = Fresh("h."+c, compTab[c].sort)
		}
		ref := h.clone()
		back, _ := run(h)
		_ = sc
		popScope()
		undo()
		restore()
		if back == nil { // body never repeats: at most one pass
			h := st0.clone()
			_, commit := run(h)
			commit()
			return
		}
		grew := false
		lin = map[string]int64{}
		for c, t := range back.comps {
			if !relevantComp(c) {
				continue
			}
			var before *Term
			if x, ok := ref.comps[c]; ok {
				before = x
			} else {
				before = e.initComp(c)
			}
			if t == before {
				continue
			}
			if !mod[c] {
				mod[c] = true
				grew = true
				continue
			}
			if t.sort == SInt {
				if d := Sub(t, before); d.op == "int" {
					lin[c] = d.ival
				}
			}
		}
		if !grew {
			// phi parts that never change
			for n := range mod {
				if back.comps[n] == ref.comps[n] {
					delete(mod, n)
				}
			}
			break
		}
	}
	names := sortedKeys(mod)
	n := markIdx(Fresh("n."+label, SInt))
	e.assume(st0, Ge(n, Int(0)))
	hist := map[string]*Term{}
	for _, c := range names {
		if _, ok := lin[c]; ok {
			continue
		}
		hist[c] = Fresh("X."+c, ArrSort(SInt, compTab[c].sort))
		e.assume(st0, Eq(Select(hist[c], Int(0)), e.get(st0, c)))
	}
	at := func(i *Term) *State {
		s := st0.clone()
		for _, c := range names {
			if k, ok := lin[c]; ok {
				s.comps[c] = Add(e.get(st0, c), MulK(k, i))
			} else {
				s.comps[c] = Select(hist[c], i)
			}
		}
		return s
	}
	h := at(n)
	// Go-level well-formedness of the values at the loop head, for every iteration
	{
		i := BV("m", SInt)
		hi := at(i)
		var ws []*Term
		for _, c := range names {
			t, ok := hist[c]
			if !ok {
				continue
			}
			_ = t
			ws = append(ws, wfFacts(compTab[c], hi.comps[c], e.get(hi, allocComp))...)
			if compTab[c].kind == "phi" && compTab[c].elem != nil {
				ws = append(ws, wfScalar(compTab[c].elem, hi.comps[c], e.get(hi, allocComp)))
			}
		}
		if w := And(ws...); w != True {
			e.assume(st0, Hist(i, Imp(And(Ge(i, Int(0)), Le(i, n)), w)))
		}
		// allocation only grows
		if mod[allocComp] {
			j := BV("m", SInt)
			e.assume(st0, Hist(j, Imp(And(Ge(j, Int(0)), Le(j, n)), And(Le(e.get(st0, allocComp), e.get(at(j), allocComp)), Le(e.get(at(j), allocComp), h.comps[allocComp])))))
		}
	}
	slot := len(e.facts)
	e.facts = append(e.facts, True)
	sc := pushScope()
	start := len(e.facts)
	lc := &loopCtx{n: n, init: st0, hdr: h.clone(), at: at, phis: phis}
	e.loops = append(e.loops, lc)
	e.iterC = append(e.iterC, n)
	hdrCopy := h.clone()
	back, commit := run(h)
	e.iterC = e.iterC[:len(e.iterC)-1]
	e.loops = e.loops[:len(e.loops)-1]
	popScope()
	if back == nil {
		commit()
		return
	}
	bodyFacts := append([]*Term{}, e.facts[start:]...)
	if e.shape == 0 {
		// history
		m := BV("m", SInt)
		sub := NewSubst()
		sub.Set(n, m)
		used := map[int]bool{}
		seen := map[int]bool{}
		mark := func(t *Term) {
			walkTerms(t, seen, func(u *Term) {
				if u.op == "const" {
					used[u.id] = true
				}
			})
		}
		for _, f := range bodyFacts {
			mark(f)
		}
		mark(back.reach)
		for _, c := range names {
			mark(e.get(back, c))
		}
		lifted := map[int]bool{}
		for _, g := range e.pending[npend:] {
			for _, c := range g.pend {
				mark(c.assume)
			}
		}
		for _, c := range sc.fresh {
			if used[c.id] && !lifted[c.id] {
				lifted[c.id] = true
				a := Fresh(c.name+"#", ArrSort(SInt, c.sort))
				if idxConsts[c.id] {
					markIdx(a)
				}
				sub.Set(c, Select(a, m))
			}
		}
		end := len(e.facts)
		mkHist := func() *Term {
			var body []*Term
			for _, f := range e.facts[start:end] {
				body = append(body, sub.Apply(f))
			}
			body = append(body, sub.Apply(back.reach))
			for _, c := range names {
				if t, ok := hist[c]; ok {
					body = append(body, Eq(Select(t, Add(m, Int(1))), sub.Apply(e.get(back, c))))
				}
			}
			return Imp(st0.reach, Hist(m, Imp(And(Ge(m, Int(0)), Lt(m, n)), And(body...))))
		}
		e.facts[slot] = mkHist()
		for _, th := range e.threads[nthr:] {
			th.quant = append(th.quant, func(g *Term) *Term {
				return Hist(m, Imp(And(Ge(m, Int(0)), Lt(m, n)), sub.Apply(g)))
			})
		}
		e.cellVars = e.cellVars[:ncell]
		cands := e.loopCands(st0, hdrCopy, back, names, hist, lin, at, n, phis, label)
		e.runHoudini(st0, back, cands, slot, mkHist, n, label)
	}
	commit()
}

func (e *Exec) enterDry() func() {
	e.dry++
	e.shape++
	nf := len(e.facts)
	nt := len(e.threads)
	return func() {
		e.dry--
		e.shape--
		e.facts = e.facts[:nf]
		e.threads = e.threads[:nt]
	}
}

var dbgHoudini = os.Getenv("GOVC_HOUDINI") != ""

func (e *Exec) hyps(n int) []*Term {
	hs := append([]*Term{}, e.entryFacts...)
	return append(hs, e.facts[:n]...)
}

// hgroup: the candidate invariants of one loop.
type hgroup struct {
	st0, back   *State
	cands, pend []*cand // established (or, for the outermost loop, all) and those that may need facts about outer loops
	slot, total int
	mkHist      func() *Term
	hints       []*Term
	label       string
}

// setFacts states the history of the loop and the candidates alive.
func (g *hgroup) setFacts(e *Exec) {
	as := []*Term{g.mkHist()}
	for _, l := range [][]*cand{g.cands, g.pend} {
		for _, c := range l {
			if c.alive {
				as = append(as, Imp(g.st0.reach, c.assume))
			}
		}
	}
	e.facts[g.slot] = And(as...)
}

// runHoudini finds the candidates that hold on entry and are preserved.  Those of an inner loop that fail alone are tried
// again together with the candidates of the loops around it (mutual induction over the execution).
func (e *Exec) runHoudini(st0, back *State, cands []*cand, slot int, mkHist func() *Term, n *Term, label string) {
	hints := []*Term{n, Sub(n, Int(1))}
	for _, c := range e.iterC {
		hints = append(hints, c, Sub(c, Int(1)))
	}
	self := &hgroup{st0: st0, back: back, cands: cands, slot: slot, total: len(e.facts), mkHist: mkHist, hints: hints, label: label}
	outer := len(e.loops) == 0
	groups := []*hgroup{self}
	if outer {
		groups = append(append([]*hgroup{}, e.pending...), self)
		e.pending = nil
	}
	type job struct {
		g    *hgroup
		c    *cand
		init bool
		q    *Query
		v    Verdict
	}
	runAll := func(jobs []*job) (drop int) {
		qs, es := make([]*Query, len(jobs)), make([]int, len(jobs))
		for i, j := range jobs {
			qs[i], es[i] = j.q, candEffort
		}
		for i, v := range cachedBatch(qs, es, time.Time{}) {
			j := jobs[i]
			j.v = v
			if v.Status != "proved" && j.c.alive {
				drop++
				j.c.alive = false
				if dbgHoudini {
					what := "preservation"
					if j.init {
						what = "init"
					}
					fmt.Fprintf(os.Stderr, "houdini %s: %s fails %s (%s)\n", j.g.label, what, j.c.name, v.Detail)
				}
				if w := os.Getenv("GOVC_CAND"); w != "" && w == j.g.label+":"+j.c.name {
					total, goal := j.g.total, Imp(j.g.back.reach, j.c.step)
					if j.init {
						total, goal = j.g.slot, Imp(j.g.st0.reach, j.c.init)
					}
					fh, fg, _ := focus(e.hyps(total), goal, 40)
					fmt.Fprintln(os.Stderr, "CAND", candDump+1, "init", j.init, "GOAL", fg.str(14))
					for _, h := range fh {
						fmt.Fprintln(os.Stderr, "  HYP", h.str(9))
					}
					ft, _, _ := j.q.focused(40)
					candDump++
					os.WriteFile(fmt.Sprintf("/tmp/candf%d.smt2", candDump), []byte(ft), 0o644)
				}
			}
		}
		return
	}
	initJob := func(g *hgroup, c *cand) *job {
		return &job{g: g, c: c, init: true, q: prepare(e.hyps(g.slot), Imp(g.st0.reach, c.init), g.hints)}
	}
	var jobs []*job
	for _, c := range cands {
		c.alive = true
		if c.init != nil && c.init != True {
			jobs = append(jobs, initJob(self, c))
		}
	}
	for _, g := range groups {
		for _, c := range g.pend {
			c.alive = true
		}
	}
	runAll(jobs)
	for round := 0; round < 30; round++ {
		for _, g := range groups {
			g.setFacts(e)
		}
		jobs = nil
		for _, g := range groups {
			l := g.pend
			if g == self {
				l = g.cands
			}
			for _, c := range l {
				if !c.alive {
					continue
				}
				if g != self && c.init != nil && c.init != True {
					jobs = append(jobs, initJob(g, c))
				}
				if c.step != True {
					jobs = append(jobs, &job{g: g, c: c, q: prepare(e.hyps(g.total), Imp(g.back.reach, c.step), g.hints)})
				}
			}
		}
		if dbgHoudini {
			fmt.Fprintf(os.Stderr, "houdini %s: round %d, %d queries\n", label, round, len(jobs))
		}
		if runAll(jobs) == 0 {
			break
		}
		if round == 29 {
			for _, g := range groups {
				for _, c := range append(g.pend, self.cands...) {
					c.alive = false
				}
			}
		}
	}
	for _, g := range groups {
		kept := 0
		for _, l := range [][]*cand{g.cands, g.pend} {
			for _, c := range l {
				if c.alive {
					kept++
					if dbgHoudini {
						fmt.Fprintf(os.Stderr, "houdini %s: keeps %s\n", g.label, c.name)
					}
				}
			}
		}
		g.setFacts(e)
		e.invChecked += kept - e.houdini[g.label]
		e.houdini[g.label] = kept
	}
	if !outer {
		var firm []*cand
		for _, c := range self.cands {
			if c.alive {
				firm = append(firm, c)
			} else {
				self.pend = append(self.pend, c)
			}
		}
		self.cands = firm
		e.pending = append(e.pending, self)
	}
}

var candDump int
var runCache sync.Map

// cachedBatch answers repeated questions from memory.
func cachedBatch(qs []*Query, effort []int, deadline time.Time) []Verdict {
	out := make([]Verdict, len(qs))
	var todo []*Query
	var te, at []int
	keys := make([]string, len(qs))
	for i, q := range qs {
		keys[i] = fmt.Sprint(effort[i]) + q.key()
		if v, ok := runCache.Load(keys[i]); ok && !q.trivly {
			out[i] = v.(Verdict)
			continue
		}
		todo, te, at = append(todo, q), append(te, effort[i]), append(at, i)
	}
	for k, v := range runBatch(todo, te, deadline) {
		out[at[k]] = v
		if v.Detail != "out of time" {
			runCache.Store(keys[at[k]], v)
		}
	}
	return out
}

// storeIdx collects the indices written between base and t (nil if the shape is not a store chain over base).
func storeIdx(t, base *Term, out map[int]*Term) {
	seen := map[int]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == base || seen[t.id] {
			return
		}
		seen[t.id] = true
		switch t.op {
		case "store":
			out[t.args[1].id] = t.args[1]
			rec(t.args[0])
		case "ite":
			rec(t.args[1])
			rec(t.args[2])
		}
	}
	rec(t)
}

// loopCands builds the candidate invariants that the engine knows about, plus those of the contract.
func (e *Exec) loopCands(st0, h, back *State, names []string, hist map[string]*Term, lin map[string]int64, at func(*Term) *State, n *Term, phis []phiC, label string) []*cand {
	var cs []*cand
	inv := map[int]bool{} // terms that may appear in loop-invariant indices
	_ = inv
	isInvariant := func(t *Term) bool { // does not mention this iteration
		ok := true
		walkTerms(t, map[int]bool{}, func(u *Term) {
			if u == n || u.op == "const" && e.scopeHas(u, n) {
				ok = false
			}
		})
		return ok
	}
	type relF func(s *State, y []*Term) (g *Term, q []*Term)
	// relation candidate: for i<=n and all y: G(i,y) => G(n,y) and Q(n,y)=Q(i,y)
	rel := func(name string, sorts []Sort, f relF) {
		c := &cand{name: name}
		i := BV("i", SInt)
		var ys []*Term
		for _, s := range sorts {
			ys = append(ys, BV("y", s))
		}
		si := at(i)
		gi, qi := f(si, ys)
		gn, qn := f(h, ys)
		gb, qb := f(back, ys)
		eqs := func(a, b []*Term) *Term {
			var r []*Term
			for k := range a {
				r = append(r, Eq(a[k], b[k]))
			}
			return And(r...)
		}
		inner := Imp(gi, And(gn, eqs(qn, qi)))
		if len(ys) > 0 {
			var tr [][]*Term
			for _, q := range [][]*Term{qn, qi} {
				for _, x := range q {
					if coversVars(x, ys) && goodPattern(x) {
						tr = append(tr, []*Term{x})
					}
				}
			}
			inner = Forall(ys, inner, tr...)
		}
		i1 := NewSubst()
		i1.Set(i, Add(i, Int(1)))
		c.assume = Hist(i, And(Imp(And(Ge(i, Int(0)), Le(i, n)), inner), Imp(And(Ge(i, Int(-1)), Lt(i, n)), i1.Apply(inner))))
		step := Imp(gn, And(gb, eqs(qb, qn)))
		if len(ys) > 0 {
			step = Forall(ys, step)
		}
		c.step = step
		cs = append(cs, c)
	}
	plain := func(name string, f func(s *State, i *Term) *Term) {
		c := &cand{name: name, plain: true}
		i := BV("i", SInt)
		b := f(at(i), i)
		i1 := NewSubst()
		i1.Set(i, Add(i, Int(1)))
		c.assume = And(f(h, n), Hist(i, And(Imp(And(Ge(i, Int(0)), Le(i, n)), b), Imp(And(Ge(i, Int(-1)), Lt(i, n)), i1.Apply(b)))))
		c.init = f(st0, Int(0))
		c.step = f(back, Add(n, Int(1)))
		cs = append(cs, c)
	}
	alloc := func(s *State) *Term { return e.get(s, allocComp) }
	al0 := alloc(st0)
	// slices carried by the loop
	type slc struct {
		p   phiC
		val func(s *State) *Term
		et  types.Type
	}
	var slices []slc
	for _, p := range phis {
		if p.mode != 1 {
			continue
		}
		p := p
		changed := false
		for _, nm := range p.parts() {
			if _, ok := hist[nm]; ok {
				changed = true
			}
			if _, ok := lin[nm]; ok {
				changed = true
			}
		}
		if !changed {
			continue
		}
		st, ok := under(p.typ).(*types.Slice)
		if !ok || isStruct(st.Elem()) {
			continue
		}
		slices = append(slices, slc{p, func(s *State) *Term { return phiVal(s, p).(*Term) }, st.Elem()})
	}
	// slices held in cells / fields at loop-invariant addresses
	for _, c := range names {
		m := compTab[c]
		if (m.kind == "cell" || m.kind == "field") && m.elem != nil && sortOf(m.elem) == SSlice && hist[c] != nil {
			st := under(m.elem).(*types.Slice)
			if isStruct(st.Elem()) {
				continue
			}
			idx := map[int]*Term{}
			storeIdx(e.get(back, c), e.get(h, c), idx)
			for _, r := range sortTerms(idx) {
				if isInvariant(r) {
					r, c := r, c
					slices = append(slices, slc{phiC{}, func(s *State) *Term { return Select(e.get(s, c), r) }, st.Elem()})
				}
			}
		}
	}
	for k, s := range slices {
		s := s
		nm := fmt.Sprintf("slice%d", k)
		v0 := s.val(st0)
		plain(nm+".owned", func(st *State, i *Term) *Term {
			v := s.val(st)
			r := Sel("s_ref", v)
			return And(Or(And(Eq(r, Int(0)), Eq(Sel("s_cap", v), Int(0))), Eq(r, Sel("s_ref", v0)), Ge(r, al0)), Lt(r, alloc(st)), Le(Sel("s_len", v), Sel("s_cap", v)), Ge(Sel("s_len", v), Int(0)), Eq(Sel("s_off", v), Sel("s_off", v0)))
		})
		rel(nm+".lenmono", nil, func(st *State, y []*Term) (*Term, []*Term) { return True, nil })
		cs = cs[:len(cs)-1]
		plain(nm+".own2", func(st *State, i *Term) *Term {
			r := Sel("s_ref", s.val(st))
			return Or(Eq(r, Int(0)), Ge(r, al0))
		})
		if e.entry != nil {
			if alE := e.initComp(allocComp); alE != al0 { // allocated by this call
				plain(nm+".new", func(st *State, i *Term) *Term {
					r := Sel("s_ref", s.val(st))
					return Or(Eq(r, Int(0)), Ge(r, alE))
				})
			}
		}
		for k2 := k + 1; k2 < len(slices); k2++ {
			s2 := slices[k2]
			plain(fmt.Sprintf("%s.distinct%d", nm, k2), func(st *State, i *Term) *Term {
				a, b := Sel("s_ref", s.val(st)), Sel("s_ref", s2.val(st))
				return Or(Ne(a, b), Eq(a, Int(0)))
			})
		}
		rel(nm+".prefix", []Sort{SInt}, func(st *State, y []*Term) (*Term, []*Term) {
			v := s.val(st)
			return And(Ge(y[0], Int(0)), Lt(y[0], Sel("s_len", v))), []*Term{e.elemAt(st, v, y[0], s.et)}
		})
	}
	// monotone integers
	for _, c := range names {
		if hist[c] == nil || compTab[c].sort != SInt || c == allocComp {
			continue
		}
		c := c
		cs = append(cs, e.monoCand("mono."+c, func(s *State) *Term { return e.get(s, c) }, h, back, at, n))
	}
	// heap components
	for _, c := range names {
		m := compTab[c]
		if hist[c] == nil || !isArr(m.sort) || m.kind == "phi" || m.kind == "ghost" {
			continue
		}
		if is, _ := arrParts(m.sort); is != SInt {
			continue
		}
		c := c
		idx := map[int]*Term{}
		storeIdx(e.get(back, c), e.get(h, c), idx)
		var K []*Term
		for _, r := range sortTerms(idx) {
			if isInvariant(r) {
				K = append(K, r)
			}
		}
		excl := func(s *State, y *Term) *Term {
			var r []*Term
			for _, k := range K {
				r = append(r, Ne(y, k))
			}
			for _, sl := range slices {
				if m.kind == "elem" && elemComp(sl.et) == c {
					r = append(r, Ne(y, Sel("s_ref", sl.val(s))))
				}
			}
			return And(r...)
		}
		rel("frozen."+c, []Sort{SInt}, func(s *State, y []*Term) (*Term, []*Term) {
			return And(oldRef(y[0], alloc(s)), excl(s, y[0])), []*Term{Select(e.get(s, c), y[0])}
		})
		// only the memory that existed when the function was called
		if e.entry != nil && e.initComp(c) != e.get(st0, c) {
			ec, alE := e.initComp(c), e.initComp(allocComp)
			plain("frameE."+c, func(s *State, i *Term) *Term {
				y := BV("y", SInt)
				return Forall([]*Term{y}, Imp(oldRef(y, alE), Eq(Select(e.get(s, c), y), Select(ec, y))), []*Term{Select(e.get(s, c), y)})
			})
		}
		// only the memory that existed before the loop
		{
			cc := &cand{name: "frame0." + c}
			y := BV("y", SInt)
			mkf := func(s *State) *Term {
				g := And(oldRef(y, al0), excl(st0, y))
				return Forall([]*Term{y}, Imp(g, Eq(Select(e.get(s, c), y), Select(e.get(st0, c), y))), []*Term{Select(e.get(s, c), y)})
			}
			mks := func(s *State) *Term {
				g := And(oldRef(y, al0), excl(st0, y))
				return Forall([]*Term{y}, Imp(g, Eq(Select(e.get(s, c), y), Select(e.get(st0, c), y))))
			}
			i := BV("i", SInt)
			cc.assume = And(mkf(h), Hist(i, Imp(And(Ge(i, Int(0)), Le(i, n)), mkf(at(i)))))
			cc.step = mks(back)
			cs = append(cs, cc)
		}
		if m.kind == "mapdom" && m.name != "SMD" || m.name == "SMD" {
			for k, r := range K {
				r := r
				_, row := arrParts(m.sort)
				ks, _ := arrParts(row)
				rel(fmt.Sprintf("domgrows.%s.%d", c, k), []Sort{ks}, func(s *State, y []*Term) (*Term, []*Term) {
					d := Select(Select(e.get(s, c), r), y[0])
					return d, []*Term{d}
				})
			}
		}
		if m.kind == "mapval" || m.kind == "smval" {
			dc := strings.Replace(c, "MV:", "MD:", 1)
			if m.kind == "smval" {
				dc = "SMD"
			}
			for k, r := range K {
				r := r
				_, row := arrParts(m.sort)
				ks, _ := arrParts(row)
				rel(fmt.Sprintf("valfixed.%s.%d", c, k), []Sort{ks}, func(s *State, y []*Term) (*Term, []*Term) {
					return Select(Select(e.get(s, dc), r), y[0]), []*Term{Select(Select(e.get(s, c), r), y[0])}
				})
			}
		}
	}
	// ghost logs: entries below the counter never change
	for _, lg := range e.C.logs {
		cnt := e.ghostComp(lg.counter)
		if !contains(names, cnt) {
			continue
		}
		if hist[cnt] != nil {
			cs = append(cs, e.monoCand("logcount."+lg.counter, func(s *State) *Term { return e.get(s, cnt) }, h, back, at, n))
		}
		for _, f := range lg.fields {
			fc := e.ghostComp(f)
			if hist[fc] == nil {
				continue
			}
			rel("log."+f, []Sort{SInt}, func(s *State, y []*Term) (*Term, []*Term) {
				return And(Ge(y[0], Int(0)), Lt(y[0], e.get(s, cnt))), []*Term{Select(e.get(s, fc), y[0])}
			})
			plain("lognn."+f, func(s *State, i *Term) *Term { return Ge(e.get(s, cnt), Int(0)) })
		}
	}
	if e.rootC != nil && e.rootC.noframe {
		var keep []*cand
		for _, c := range cs {
			auto := false
			for _, p := range []string{"frozen.", "frameE.", "frame0.", "domgrows.", "valfixed.", "mono.G:"} {
				auto = auto || strings.HasPrefix(c.name, p)
			}
			if !auto {
				keep = append(keep, c)
			}
		}
		cs = keep
	}
	e.userCands(label, st0, h, back, at, n, phis, plain)
	return cs
}

func (e *Exec) monoCand(name string, f func(s *State) *Term, h, back *State, at func(*Term) *State, n *Term) *cand {
	i, j := BV("i", SInt), BV("j", SInt)
	two := quant("forall", []*Term{i, j}, Imp(And(Ge(i, Int(0)), Le(i, j), Le(j, n)), Le(f(at(i)), f(at(j)))), "hist", nil)
	two1 := quant("forall", []*Term{i, j}, Imp(And(Ge(i, Int(-1)), Lt(i, j), Le(j, n)), Le(f(at(Add(i, Int(1)))), f(at(j)))), "hist", nil)
	return &cand{name: name, assume: And(two, two1), step: Le(f(h), f(back))}
}

func contains(xs []string, s string) bool {
	for _, x := range xs {
		if x == s {
			return true
		}
	}
	return false
}
func sortTerms(m map[int]*Term) []*Term {
	var out []*Term
	for _, t := range m {
		out = append(out, t)
	}
	sort.Slice(out, func(i, j int) bool { return before(out[i], out[j]) })
	return out
}
func coversVars(t *Term, vs []*Term) bool {
	for _, v := range vs {
		if !containsTerm(t, v) {
			return false
		}
	}
	return true
}

// goodPattern: no boolean connectives / ite / arithmetic over bound variables inside.
func goodPattern(t *Term) bool {
	if !t.hasBV {
		return true
	}
	switch t.op {
	case "var":
		return true
	case "select", "uf", "sel", "ctor":
		for _, a := range t.args {
			if !goodPattern(a) {
				return false
			}
		}
		return true
	case "+", "*":
		return true // matched modulo the solver's arithmetic normal form
	}
	return false
}

// scopeHas: the constant u was created during the body of the loop with counter n (later than n).
func (e *Exec) scopeHas(u, n *Term) bool {
	return u.id > n.id && strings.Contains(u.name, "!") && !strings.HasPrefix(u.name, "H0.") && !e.isHistOf(u, n)
}
func (e *Exec) isHistOf(u, n *Term) bool { return strings.HasPrefix(u.name, "X.") }
