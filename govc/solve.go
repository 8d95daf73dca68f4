package main

// From (hypotheses, goal) to SMT-LIB, and the solver portfolio.

import (
	"context"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

var idxConsts = map[int]bool{} // constants that count loop iterations, or arrays of them
func markIdx(t *Term) *Term    { idxConsts[t.id] = true; return t }
func isIdxTerm(t *Term) bool {
	switch t.op {
	case "const":
		return idxConsts[t.id]
	case "select":
		return isIdxTerm(t.args[0])
	case "uf":
		if recDefs[t.name] != nil { // of an index constant itself
			last := t.args[len(t.args)-1]
			return last.op == "const" && strings.HasPrefix(last.name, "sk_")
		}
	}
	return false
}

type grounder struct {
	nsk     int
	cands   map[Sort][]*Term
	have    map[int]bool
	skol    map[int][]*Term
	inst    map[instKey]*Term
	native  bool
	ninst   int
	limit   int
	memo    [2]map[int]*Term
	emitted map[int]bool
}

func (g *grounder) hasQ(t *Term) bool { return t.hasQ }
func (g *grounder) addCand(t *Term) {
	if g.have[t.id] || t.hasBV {
		return
	}
	g.have[t.id] = true
	g.cands[t.sort] = append(g.cands[t.sort], t)
}

type instKey struct {
	t    *Term
	a, b *Term
}

// instance of the body of a quantifier; the same ones are asked for round after round.
func (g *grounder) instance(t *Term, sel []*Term) *Term {
	k := instKey{t: t}
	if len(sel) <= 2 {
		k.a = sel[0]
		if len(sel) == 2 {
			k.b = sel[1]
		}
		if r, ok := g.inst[k]; ok {
			return r
		}
	}
	s := NewSubst()
	for j, v := range t.bvs {
		s.Set(v, sel[j])
	}
	r := s.Apply(t.args[0])
	if len(sel) <= 2 {
		g.inst[k] = r
	}
	return r
}

func (g *grounder) norm(t *Term, pol bool) *Term {
	if t.sort != SBool || !g.hasQ(t) {
		return t
	}
	pi := 0
	if pol {
		pi = 1
	}
	if r, ok := g.memo[pi][t.id]; ok {
		return r
	}
	r := g.norm1(t, pol)
	g.memo[pi][t.id] = r
	return r
}
func (g *grounder) norm1(t *Term, pol bool) *Term {
	switch t.op {
	case "not":
		return Not(g.norm(t.args[0], !pol))
	case "and", "or":
		as := make([]*Term, len(t.args))
		for i, a := range t.args {
			as[i] = g.norm(a, pol)
		}
		if t.op == "and" {
			return And(as...)
		}
		return Or(as...)
	case "=>":
		return Imp(g.norm(t.args[0], !pol), g.norm(t.args[1], pol))
	case "ite":
		if g.hasQ(t.args[0]) {
			c, a, b := t.args[0], t.args[1], t.args[2]
			return g.norm(And(mk("=>", "", SBool, c, a), mk("=>", "", SBool, Not(c), b)), pol)
		}
		return Ite(t.args[0], g.norm(t.args[1], pol), g.norm(t.args[2], pol))
	case "=":
		a, b := t.args[0], t.args[1]
		return And(mk("or", "", SBool, g.norm(Not(a), pol), g.norm(b, pol)), mk("or", "", SBool, g.norm(a, pol), g.norm(Not(b), pol)))
	case "forall", "exists":
		univ := (t.op == "forall") == pol
		if !univ {
			sk, ok := g.skol[t.id]
			if !ok {
				for _, v := range t.bvs {
					g.nsk++ // names are local to a query, so that equal queries have equal texts
					k := Const(fmt.Sprintf("sk_%s!%d", v.name, g.nsk), v.sort)
					sk = append(sk, k)
					g.addCand(k)
				}
				g.skol[t.id] = sk
			}
			return g.norm(g.instance(t, sk), pol)
		}
		if len(t.trig) > 0 && t.kind != "hist" && !g.hasQ(t.args[0]) {
			return t // solver instantiates by pattern
		}
		var out []*Term
		if (g.native || len(t.trig) > 0) && t.kind != "hist" {
			out = append(out, t)
		}
		// all combinations of candidates
		var rec func(i int, s []*Term)
		rec = func(i int, sel []*Term) {
			if i == len(t.bvs) {
				g.ninst++
				out = append(out, g.norm(g.instance(t, sel), pol))
				return
			}
			for _, c := range g.cands[t.bvs[i].sort] {
				rec(i+1, append(sel, c))
			}
		}
		rec(0, nil)
		if pol {
			return And(out...)
		}
		return Or(out...)
	}
	return t
}

// ground prepares the list of assertions whose unsatisfiability is the claim.
func ground(asserts []*Term, hints []*Term, native bool, rounds int, maxCand int) []*Term {
	if len(recDefs) > 0 {
		unfoldMu.Lock()
		defer unfoldMu.Unlock()
	}
	g := &grounder{cands: map[Sort][]*Term{}, have: map[int]bool{}, skol: map[int][]*Term{}, inst: map[instKey]*Term{}, native: native}
	g.addCand(Int(0))
	for _, h := range hints {
		g.addCand(h)
	}
	var cur []*Term
	anyQ := false
	for _, a := range asserts {
		if g.hasQ(a) {
			anyQ = true
		}
	}
	// recursive specification functions: the defining equation of every ground application, twice deep
	level := map[int]int{}
	var unfolded []*Term
	unfold := func(ts []*Term) {
		for d := 0; d < 3; d++ {
			var apps []*Term
			seen := map[int]bool{}
			for _, t := range ts {
				walkTerms(t, seen, func(u *Term) {
					if u.op == "uf" && !u.hasBV && recDefs[u.name] != nil {
						if _, ok := level[u.id]; !ok {
							level[u.id] = d
							if d < 2 {
								apps = append(apps, u)
							}
						}
					}
				})
			}
			ts = nil
			sort.Slice(apps, func(i, j int) bool { return before(apps[i], apps[j]) })
			for _, u := range apps {
				eq := Eq(u, recDefs[u.name](u.args, recState[u.name]))
				unfolded = append(unfolded, eq)
				ts = append(ts, eq)
			}
		}
	}
	if len(recDefs) > 0 {
		unfold(asserts)
	}
	if !anyQ {
		return append(append([]*Term(nil), asserts...), unfolded...)
	}
	collect := func(ts []*Term) {
		seen := map[int]bool{}
		var found []*Term
		for _, t := range ts {
			walkTerms(t, seen, func(u *Term) {
				if u.sort == SInt && !u.hasBV && isIdxTerm(u) {
					found = append(found, u)
				}
			})
		}
		sort.Slice(found, func(i, j int) bool { return before(found[i], found[j]) })
		for _, u := range found {
			if len(g.cands[SInt]) < maxCand {
				g.addCand(u)
				g.addCand(Sub(u, Int(1)))
			}
		}
	}
	collect(asserts)
	for r := 0; r < rounds; r++ {
		g.memo[0], g.memo[1] = map[int]*Term{}, map[int]*Term{}
		nc := len(g.have)
		cur = cur[:0]
		for _, a := range asserts {
			cur = append(cur, g.norm(a, true))
		}
		for _, a := range unfolded {
			cur = append(cur, g.norm(a, true))
		}
		collect(cur)
		nu := len(unfolded)
		if len(recDefs) > 0 {
			unfold(cur)
		}
		if len(g.have) == nc && len(unfolded) == nu && r > 0 {
			break
		}
	}
	if n := len(unfolded); n > 0 {
		cur = append(cur, unfolded...)
	}
	return cur
}

// ---- printing ----

type printer struct {
	sb    strings.Builder
	refs  map[int]int
	names map[int]string
	decl  map[string]string
	lits  []*Term
	order []string
	pat   map[int]string
	inPat bool
	nd    int
	nlit  int
}

func (p *printer) count(t *Term) {
	p.refs[t.id]++
	if p.refs[t.id] > 1 {
		return
	}
	switch t.op {
	case "const":
		p.declare(t.name, "(declare-fun "+smtName(t.name)+" () "+string(t.sort)+")")
	case "uf":
		if t.name == "rle" || t.name == "rlt" || t.name == "to_real" {
			break
		}
		var ss []string
		for _, a := range t.args {
			ss = append(ss, string(a.sort))
		}
		p.declare(ufName(t), "(declare-fun "+ufName(t)+" ("+strings.Join(ss, " ")+") "+string(t.sort)+")")
	case "str":
		p.lits = append(p.lits, t)
	}
	for _, a := range t.args {
		p.count(a)
	}
	for _, g := range t.trig {
		for _, x := range g {
			p.count(x)
		}
	}
}
func ufName(t *Term) string {
	n := t.name
	for _, a := range t.args {
		n += "~" + string(a.sort)
	}
	n += "~" + string(t.sort)
	return smtName(n)
}
func smtName(n string) string {
	for _, c := range n {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.ContainsRune("_!.-?", c)) {
			return "|" + strings.ReplaceAll(strings.ReplaceAll(n, "|", "!"), "\\", "!") + "|"
		}
	}
	return n
}
func (p *printer) declare(k, d string) {
	if _, ok := p.decl[k]; !ok {
		p.decl[k] = d
		p.order = append(p.order, k)
	}
}
func (p *printer) litName(t *Term) string {
	n, ok := p.names[t.id]
	if !ok {
		p.nlit++
		n = fmt.Sprintf("lit!%d", p.nlit)
		p.names[t.id] = n
	}
	return n
}

func (p *printer) emitDefs(t *Term, done map[int]bool) {
	if done[t.id] {
		return
	}
	done[t.id] = true
	for _, a := range t.args {
		p.emitDefs(a, done)
	}
	for _, g := range t.trig {
		for _, x := range g {
			p.emitDefs(x, done)
		}
		for _, x := range g {
			if cleanPattern(x, map[int]bool{}) {
				p.patNames(x)
			}
		}
	}
	if !t.hasBV && len(t.args) > 0 && p.refs[t.id] > 1 && t.size > 3 {
		p.nd++
		n := fmt.Sprintf("d!%d", p.nd)
		fmt.Fprintf(&p.sb, "(define-fun %s () %s ", n, t.sort)
		p.print(t)
		p.sb.WriteString(")\n")
		p.names[t.id] = n
	}
}

// patNames names the ground parts of a pattern that solvers would not accept inside it.
func (p *printer) patNames(t *Term) {
	if !t.hasBV {
		if p.pat == nil {
			p.pat = map[int]string{}
		}
		if p.pat[t.id] != "" || pureTerm(t) {
			return
		}
		p.nd++
		n := fmt.Sprintf("pt!%d", p.nd)
		fmt.Fprintf(&p.sb, "(declare-fun %s () %s)\n(assert (= %s ", n, t.sort, n)
		p.print(t)
		p.sb.WriteString("))\n")
		p.pat[t.id] = n
		return
	}
	for _, a := range t.args {
		p.patNames(a)
	}
}
func pureTerm(t *Term) bool {
	switch t.op {
	case "ite", "and", "or", "not", "=>", "=", "<=", "forall", "exists", "store":
		return false
	}
	for _, a := range t.args {
		if !pureTerm(a) {
			return false
		}
	}
	return true
}
func (p *printer) print(t *Term) {
	if p.inPat {
		if n, ok := p.pat[t.id]; ok {
			p.sb.WriteString(n)
			return
		}
	}
	if n, ok := p.names[t.id]; ok {
		p.sb.WriteString(n)
		return
	}
	w := p.sb.WriteString
	switch t.op {
	case "const", "var":
		w(smtName(t.name))
	case "int":
		if t.ival < 0 {
			if t.ival == -1<<63 {
				w("(- 9223372036854775808)")
			} else {
				fmt.Fprintf(&p.sb, "(- %d)", -t.ival)
			}
		} else {
			w(t.name)
		}
	case "bool":
		w(t.name)
	case "str":
		w(p.litName(t))
	case "rlit":
		w(t.name)
	case "forall", "exists":
		w("(" + t.op + " (")
		for _, v := range t.bvs {
			w("(" + smtName(v.name) + " " + string(v.sort) + ")")
		}
		w(") ")
		var trig [][]*Term
		for _, g := range t.trig {
			ok := true
			for _, x := range g {
				ok = ok && cleanPattern(x, map[int]bool{}) && x.hasBV
			}
			if ok {
				trig = append(trig, g)
			}
		}
		if len(trig) > 0 {
			w("(! ")
		}
		p.print(t.args[0])
		if len(trig) > 0 {
			for _, g := range trig {
				w(" :pattern (")
				p.inPat = true
				for i, x := range g {
					if i > 0 {
						w(" ")
					}
					p.print(x)
				}
				p.inPat = false
				w(")")
			}
			w(")")
		}
		w(")")
	case "constarr":
		w("((as const " + string(t.sort) + ") ")
		p.print(t.args[0])
		w(")")
	default:
		head := t.op
		switch t.op {
		case "intdiv":
			head = "div"
		case "intmod":
			head = "mod"
		case "ctor", "sel":
			head = t.name
		case "is":
			head = "(_ is " + t.name + ")"
		case "uf":
			head = ufName(t)
			switch t.name {
			case "rle":
				head = "<="
			case "rlt":
				head = "<"
			case "to_real":
				head = "to_real"
			}
		}
		if len(t.args) == 0 {
			w(head)
			return
		}
		w("(" + head)
		for _, a := range t.args {
			w(" ")
			p.print(a)
		}
		w(")")
	}
}

const prelude = `(declare-sort Str 0)
(declare-datatypes ((Slice 0)) (((mkslice (s_ref Int) (s_off Int) (s_len Int) (s_cap Int)))))
(declare-datatypes ((F64 0)) (((mkf (f_nan Bool) (f_ord Real)))))
(declare-datatypes ((Iface 0)) (((inil) (iptr (i_ptag Int) (i_p Int)) (istr (i_stag Int) (i_s Str)) (iint (i_itag Int) (i_i Int)) (ibool (i_btag Int) (i_b Bool)) (iflt (i_ftag Int) (i_f F64)) (islc (i_ltag Int) (i_l Slice)) (iopq (i_otag Int) (i_o Int)))))
`

func smtText(asserts []*Term) string {
	p := &printer{refs: map[int]int{}, names: map[int]string{}, decl: map[string]string{}}
	for _, a := range asserts {
		p.count(a)
	}
	p.sb.WriteString(prelude)
	for _, k := range p.order {
		p.sb.WriteString(p.decl[k] + "\n")
	}
	for _, l := range p.lits {
		fmt.Fprintf(&p.sb, "(declare-fun %s () Str)\n", p.litName(l))
	}
	if len(p.lits) > 1 {
		p.sb.WriteString("(assert (distinct")
		for _, l := range p.lits {
			p.sb.WriteString(" " + p.litName(l))
		}
		p.sb.WriteString("))\n")
	}
	done := map[int]bool{}
	for _, a := range asserts {
		p.emitDefs(a, done)
	}
	for _, a := range asserts {
		p.sb.WriteString("(assert ")
		p.print(a)
		p.sb.WriteString(")\n")
	}
	return p.sb.String()
}

// cleanPattern: solvers refuse connectives and conditionals inside patterns.
func cleanPattern(t *Term, seen map[int]bool) bool {
	if seen[t.id] || !t.hasBV {
		return true // a ground part is named (patName)
	}
	seen[t.id] = true
	switch t.op {
	case "ite", "and", "or", "not", "=>", "=", "<=", "forall", "exists", "store":
		return false
	}
	for _, a := range t.args {
		if !cleanPattern(a, seen) {
			return false
		}
	}
	return true
}

// ---- solver runs ----

type SolveStats struct {
	Queries   int64
	NanosCPU  int64
	BySolver  map[string]int
	MaxMillis int64
	mu        sync.Mutex
}

var stats = SolveStats{BySolver: map[string]int{}}
var solverSem = make(chan struct{}, 8)
var workDir string

type solverCfg struct {
	name   string
	cmd    []string
	pre    string
	rlimit bool
}

var (
	z3new  = solverCfg{"z3-5.3.2", []string{"z3-new", "-smt2"}, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n", true}
	z3old  = solverCfg{"z3-4.8.12", []string{"z3", "-smt2"}, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n", true}
	z3mbqi = solverCfg{"z3-5.3.2-mbqi", []string{"z3-new", "-smt2"}, "", true}
	cvc5   = solverCfg{"cvc5-1.1.2", []string{"cvc5", "--lang=smt2", "--arrays-exp"}, "(set-logic ALL)\n", false}
)

func runSolver(ctx context.Context, c solverCfg, file string, timeout time.Duration) string {
	select {
	case solverSem <- struct{}{}:
	case <-ctx.Done():
		return "cancelled"
	}
	defer func() { <-solverSem }()
	if ctx.Err() != nil {
		return "cancelled"
	}
	args := append([]string{}, c.cmd[1:]...)
	wall := timeout
	if c.rlimit {
		// a deterministic limit (about four million steps a second), so that verdicts do not depend on the load of the machine
		args = append(args, fmt.Sprintf("rlimit=%d", timeout.Milliseconds()*4000), "-memory:6000")
		wall *= 2
	}
	cctx, cancel := context.WithTimeout(ctx, wall)
	defer cancel()
	args = append(args, file)
	cmd := exec.CommandContext(cctx, c.cmd[0], args...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL} // no solver outlives the verifier
	start := time.Now()
	out, _ := cmd.CombinedOutput()
	d := time.Since(start)
	atomic.AddInt64(&stats.Queries, 1)
	atomic.AddInt64(&stats.NanosCPU, int64(d))
	for {
		m := atomic.LoadInt64(&stats.MaxMillis)
		if d.Milliseconds() <= m || atomic.CompareAndSwapInt64(&stats.MaxMillis, m, d.Milliseconds()) {
			break
		}
	}
	s := strings.TrimSpace(string(out))
	first := ""
	for _, l := range strings.Split(s, "\n") {
		if !strings.HasPrefix(l, "WARNING") {
			first = l
			break
		}
	}
	switch first {
	case "unsat", "sat", "unknown":
		return first
	case "timeout", "":
		return "timeout"
	}
	if strings.Contains(s, "interrupted by timeout") || cctx.Err() != nil {
		return "timeout"
	}
	return "error: " + first
}

var fileCnt int64

func writeQuery(cfg solverCfg, text string) string {
	h := sha256.Sum256([]byte(cfg.pre + text))
	f := filepath.Join(workDir, hex.EncodeToString(h[:8])+fmt.Sprintf("-%d.smt2", atomic.AddInt64(&fileCnt, 1)))
	os.WriteFile(f, []byte(cfg.pre+text+"(check-sat)\n"), 0o644)
	return f
}

type Verdict struct {
	Status string // proved, failed, unknown
	Solver string
	Millis int64
	Detail string
	File   string
}

// prove checks hyps |= goal.  Term construction happens in the caller's goroutine (prepare), solving may run in parallel.
// Texts are built lazily: few queries need more than the first stage.
type Query struct {
	hyps   []*Term
	goal   *Term
	hints  []*Term
	trivly bool
	rel    []*Term
	mu     sync.Mutex
}

// Specification functions that unfold use the state of the execution: one query at a time.
var unfoldMu sync.Mutex

func prepare(hyps []*Term, goal *Term, hints []*Term) *Query {
	return &Query{hyps: hyps, goal: goal, hints: hints, trivly: goal == True}
}

func (q *Query) key() string {
	h := sha256.New()
	for _, t := range q.hyps {
		fmt.Fprintf(h, "%d,", t.id)
	}
	fmt.Fprintf(h, ":%d:", q.goal.id)
	for _, t := range q.hints {
		fmt.Fprintf(h, "%d,", t.id)
	}
	return string(h.Sum(nil))
}

func (q *Query) asserts() []*Term {
	q.mu.Lock()
	defer q.mu.Unlock()
	if q.rel == nil {
		q.rel = relevant(append(append([]*Term{}, q.hyps...), Not(q.goal)))
	}
	return q.rel
}

func textOf(g []*Term) (string, bool) {
	for _, t := range g {
		if t == False {
			return "", true
		}
	}
	return smtText(g), false
}

// focused: the same claim from the hypotheses closest to it.
func (q *Query) focused(lim int) (text string, trivial, cut bool) {
	as := q.asserts()
	fh, fg, cut := focus(as[:len(as)-1], q.goal, lim)
	rounds, cands := 3, 24
	if lim < 20 {
		rounds, cands = 2, 10
	}
	as = append(fh, Not(fg))
	g := ground(as, q.hints, false, rounds, cands)
	for k := 0; k < 2 && dagSize(g) > 20000 && cands > 6; k++ { // too many instances: fewer candidates
		cands /= 2
		g = ground(as, q.hints, false, 2, cands)
	}
	text, trivial = textOf(g)
	return
}

func dagSize(ts []*Term) int {
	seen := map[int]bool{}
	n := 0
	for _, t := range ts {
		walkTerms(t, seen, func(*Term) { n++ })
	}
	return n
}

// full: all hypotheses that are connected to the goal.
func (q *Query) full(native bool) (text string, trivial bool) {
	rounds, cands := 3, 24
	if native {
		rounds, cands = 4, 48
	}
	g := ground(q.asserts(), q.hints, native, rounds, cands)
	return textOf(g)
}

// relevant drops hypotheses that share no symbol (transitively) with the goal (last element).
func relevant(as []*Term) []*Term {
	syms := make([]map[string]bool, len(as))
	for i, a := range as {
		m := map[string]bool{}
		walkTerms(a, map[int]bool{}, func(t *Term) {
			if t.op == "const" || t.op == "uf" {
				m[t.name] = true
			}
		})
		syms[i] = m
	}
	in := make([]bool, len(as))
	reach := map[string]bool{}
	in[len(as)-1] = true
	for s := range syms[len(as)-1] {
		reach[s] = true
	}
	for changed := true; changed; {
		changed = false
		for i := range as {
			if in[i] {
				continue
			}
			hit := len(syms[i]) == 0
			for s := range syms[i] {
				if reach[s] {
					hit = true
					break
				}
			}
			if hit {
				in[i] = true
				changed = true
				for s := range syms[i] {
					reach[s] = true
				}
			}
		}
	}
	var out []*Term
	for i := range as {
		if in[i] {
			out = append(out, as[i])
		}
	}
	return out
}

var focusSizes = []int{12, 40, 120, 300}
var focusTO = 2*time.Second + time.Millisecond
var quickTO = 4 * time.Second
var slowTO = 25 * time.Second

func (q *Query) run(effort int) Verdict {
	return runBatch([]*Query{q}, []int{effort}, time.Time{})[0]
}

// efforts: candidates for invariants are tried with the closest hypotheses only; covers (claims that must not be provable)
// with all of them, briefly; obligations (0 and up) with everything.
const (
	candEffort  = -1
	coverEffort = -2
)

// runBatch decides many queries. Terms are built in a fixed order, level by level, and only the solvers run in parallel:
// which queries are asked, and how, does not depend on timing.
func runBatch(qs []*Query, effort []int, deadline time.Time) []Verdict {
	out := make([]Verdict, len(qs))
	start := time.Now()
	ms := func() int64 { return time.Since(start).Milliseconds() }
	var open []int
	for i, q := range qs {
		if q.trivly {
			out[i] = Verdict{Status: "proved", Solver: "simplifier"}
			continue
		}
		open = append(open, i)
	}
	late := func() bool { return !deadline.IsZero() && time.Now().After(deadline) }
	cutAt := make([]bool, len(qs))
	detail := make([]string, len(qs))
	lvl := 0
	level := func(todo []int, to time.Duration, build func(q *Query) (string, bool, bool)) (left []int) {
		var wg sync.WaitGroup
		done := make([]bool, len(qs))
		lvl++
		parPhase = true
		for _, i := range todo {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				solverSem <- struct{}{}
				if late() {
					<-solverSem
					return
				}
				tb := time.Now()
				text, triv, cut := build(qs[i])
				<-solverSem
				if os.Getenv("GOVC_LEVELS") != "" {
					fmt.Fprintf(os.Stderr, "BUILD %d %d ms %d KB %d terms\n", lvl, time.Since(tb).Milliseconds(), len(text)/1024, termCnt)
				}
				cutAt[i] = cut
				if triv {
					out[i] = Verdict{Status: "proved", Solver: "simplifier"}
					done[i] = true
					return
				}
				t0 := time.Now()
				r, f := solveText(text, to)
				detail[i] = r
				if os.Getenv("GOVC_LEVELS") != "" {
					fmt.Fprintf(os.Stderr, "LEVEL %v/%d %s %d ms %d KB\n", to, lvl, r, time.Since(t0).Milliseconds(), len(text)/1024)
				}
				if r == "unsat" {
					out[i] = Verdict{"proved", z3new.name, time.Since(t0).Milliseconds(), "", f}
					done[i] = true
				} else {
					out[i] = Verdict{"unknown", z3new.name, time.Since(t0).Milliseconds(), r, f}
					if strings.HasPrefix(r, "error") {
						out[i].Status = "error"
					}
				}
			}(i)
		}
		wg.Wait()
		parPhase = false
		evict()
		for _, i := range todo {
			if !done[i] {
				left = append(left, i)
			}
		}
		return
	}
	var whole []int
	var covers, some []int
	for _, i := range open {
		if effort[i] == coverEffort {
			covers = append(covers, i)
		} else {
			some = append(some, i)
		}
	}
	open = some
	level(covers, focusTO, func(q *Query) (string, bool, bool) {
		t, triv := q.full(false)
		return t, triv, false
	})
	for _, lim := range focusSizes {
		lim := lim
		rest := level(open, focusTO, func(q *Query) (string, bool, bool) { return q.focused(lim) })
		open = nil
		for _, i := range rest {
			if cutAt[i] {
				open = append(open, i)
			} else {
				whole = append(whole, i)
			}
		}
	}
	open = append(open, whole...)
	sort.Ints(open)
	some = open
	open = nil
	for _, i := range some {
		if effort[i] >= 0 {
			open = append(open, i)
		}
	}
	open = level(open, quickTO, func(q *Query) (string, bool, bool) {
		t, triv := q.full(false)
		return t, triv, false
	})
	var wg sync.WaitGroup
	for _, i := range open {
		if effort[i] == 0 || out[i].Status == "error" {
			continue
		}
		if late() {
			out[i] = Verdict{Status: "unknown", Detail: "out of time"}
			continue
		}
		parPhase = true
		text0, _ := qs[i].full(false)
		text1, triv := qs[i].full(true)
		parPhase = false
		evict()
		if triv {
			out[i] = Verdict{Status: "proved", Solver: "simplifier"}
			continue
		}
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			out[i] = portfolio([2]string{text0, text1}, effort[i], "z3-5.3.2 stage 1: "+detail[i])
			out[i].Millis = ms()
		}(i)
	}
	wg.Wait()
	for _, i := range open {
		if out[i].Status == "" {
			out[i] = Verdict{Status: "unknown", Detail: "out of time"}
		}
	}
	return out
}

var textCache sync.Map

// solveText runs the first solver on a query, once for every text.
func solveText(text string, to time.Duration) (string, string) {
	h := sha256.Sum256([]byte(fmt.Sprint(to) + text))
	if v, ok := textCache.Load(h); ok {
		return v.(string), ""
	}
	f := writeQuery(z3new, text)
	r := runSolver(context.Background(), z3new, f, to)
	if os.Getenv("GOVC_KEEP") == "" {
		os.Remove(f)
	}
	textCache.Store(h, r)
	return r, f
}

func portfolio(texts [2]string, effort int, det string) Verdict {
	start := time.Now()
	ms := func() int64 { return time.Since(start).Milliseconds() }
	f1 := writeQuery(z3new, texts[0])
	if os.Getenv("GOVC_KEEP") == "" {
		defer os.Remove(f1)
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	type res struct{ name, r string }
	type job struct {
		c solverCfg
		t int
	}
	jobs := []job{{z3new, 1}, {z3old, 0}, {cvc5, 0}, {z3mbqi, 1}}
	if effort == 1 {
		jobs = []job{{z3new, 1}, {z3old, 0}}
	}
	ch := make(chan res, len(jobs))
	for _, j := range jobs {
		go func(j job) {
			f := writeQuery(j.c, texts[j.t])
			ch <- res{j.c.name, runSolver(ctx, j.c, f, slowTO)}
			if os.Getenv("GOVC_KEEP") == "" {
				os.Remove(f)
			}
		}(j)
	}
	var late <-chan time.Time
	for range jobs {
		select {
		case x := <-ch:
			if x.r == "unsat" {
				return Verdict{"proved", x.name, ms(), "", f1}
			}
			det += "; " + x.name + ": " + x.r
			if x.r == "sat" && late == nil {
				late = time.After(6 * time.Second) // a counterexample: the others get little time to disagree
			}
		case <-late:
			return Verdict{"unknown", "portfolio", ms(), det, f1}
		}
	}
	return Verdict{"unknown", "portfolio", ms(), det, f1}
}
