package main

// Driver: one property = all obligations tagged with it, from /repo's current source, plus replay on the real code.

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

var repoDir = "/repo"
var verifDir = "/verif"

type fnResult struct {
	name    string
	err     string
	obls    []*Obl
	e       *Exec
	invs    int
	ms      int64
	skipped int
}

// verify generates and discharges the obligations of one function.
func verify(P *Program, C *Contracts, fc *FuncContract, prop string, effort int, deadline time.Time) (res *fnResult) {
	res = &fnResult{name: fc.name}
	start := time.Now()
	defer func() {
		res.ms = time.Since(start).Milliseconds()
		if r := recover(); r != nil {
			if u, ok := r.(unsupportedErr); ok {
				res.err = u.Error()
				return
			}
			res.err = fmt.Sprintf("internal error: %v", r)
			if os.Getenv("GOVC_TRACE") != "" {
				debug.PrintStack()
			}
		}
	}()
	fn := P.funcs[fc.name]
	if fn == nil {
		res.err = "the function " + fc.name + " does not exist in the current source"
		return
	}
	e := &Exec{P: P, C: C, prop: prop, root: shortFn(fc.name), rootC: fc, rootFn: fn, names: map[string]int{}, opaque: map[string]bool{}, trusted: map[string]bool{}, inlined: map[string]bool{}, nonnil: map[int]bool{}, closDefs: map[int]*ClosV{}, notes: map[string]bool{}, houdini: map[string]int{}, noInline: map[string]bool{}, specEnv: map[string]SVal{}, quiet: map[string]bool{}}
	res.e = e
	st := &State{reach: True, comps: map[string]*Term{}}
	e.entry = st.clone()
	e.get(st, allocComp)
	e.noBuild(P, C)
	env := &senv{e: e, st: st, old: e.entry, c: C, vars: map[string]SVal{}}
	var args []Val
	if len(fn.Params) != len(fc.params) {
		res.err = fmt.Sprintf("the contract of %s names %d parameters, the function has %d", fc.name, len(fc.params), len(fn.Params))
		return
	}
	for i, p := range fn.Params {
		v := e.freshWf(st, "p."+fc.params[i], p.Type())
		args = append(args, v)
		env.vars[fc.params[i]] = SVal{v: v, t: p.Type()}
	}
	e.specEnv = env.vars
	e.initGhosts(st, env)
	for _, a := range C.axioms {
		e.fact(env.boolean(a.expr))
	}
	for _, r := range fc.requires {
		e.assume(st, env.boolean(r.expr))
	}
	v, fin := e.callBody(st, fn, args, nil)
	for k, t := range e.entry.comps {
		_ = k
		_ = t
	}
	env2 := &senv{e: e, st: fin, old: e.entry, c: C, vars: map[string]SVal{}}
	for k, x := range env.vars {
		env2.vars[k] = x
	}
	r := resultType(fn.Signature)
	if tt, ok := r.(*types.Tuple); ok {
		if len(fc.results) > 0 && len(fc.results) != tt.Len() {
			res.err = fmt.Sprintf("the contract of %s names %d results, the function has %d", fc.name, len(fc.results), tt.Len())
			return
		}
		if tv, ok := v.(*TupleV); ok {
			for i, n := range fc.results {
				env2.vars[n] = SVal{v: tv.vs[i], t: tt.At(i).Type()}
			}
		}
	} else if len(fc.results) == 1 {
		env2.vars[fc.results[0]] = SVal{v: v, t: r}
	}
	if !fc.maynot {
		e.obligation(&State{reach: True, comps: fin.comps}, "cover", "exit", nil, Not(fin.reach), fn.Pos())
	}
	for _, c := range fc.covers {
		e.obligation(&State{reach: True, comps: fin.comps}, "cover", c.name, propOf(c.name), Not(And(fin.reach, env2.boolean(c.expr))), fn.Pos())
	}
	for _, c := range fc.ensures {
		ps := propOf(c.name)
		if ps == nil {
			ps = fc.allProps()
		}
		if fc.perreturn && len(e.rootRets) > 1 {
			var gs []*Term
			for _, r := range e.rootRets {
				st := &State{reach: r.st.reach, comps: map[string]*Term{}}
				for k, t := range fin.comps {
					st.comps[k] = t
				}
				for k, t := range r.st.comps {
					st.comps[k] = t
				}
				env3 := &senv{e: e, st: st, old: e.entry, c: C, vars: map[string]SVal{}}
				for k, x := range env.vars {
					env3.vars[k] = x
				}
				if tt, ok := resultType(fn.Signature).(*types.Tuple); ok {
					for i, n := range fc.results {
						env3.vars[n] = SVal{v: r.vs[i], t: tt.At(i).Type()}
					}
				} else if len(fc.results) == 1 {
					env3.vars[fc.results[0]] = SVal{v: r.vs[0], t: resultType(fn.Signature)}
				}
				gs = append(gs, Imp(st.reach, env3.boolean(c.expr)))
			}
			e.obligation(&State{reach: True, comps: fin.comps}, "ensures", c.name, ps, And(gs...), fn.Pos())
			continue
		}
		e.obligation(fin, "ensures", c.name, ps, env2.boolean(c.expr), fn.Pos())
	}
	e.discharge(res, prop, effort, deadline)
	return
}

func (e *Exec) noBuild(P *Program, C *Contracts) {}

func (e *Exec) initGhosts(st *State, env *senv) {
	var ns []string
	for n := range e.C.ghosts {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		g := e.C.ghosts[n]
		c := e.ghostComp(n)
		e.get(st, c)
		if g.init != nil {
			x := env.coerce(&node{}, env.eval(g.init), e.C.resolve(e.P, g.typ))
			if g.arr {
				x = ConstArr(e.get(st, c).sort, x)
			}
			st.comps[c] = x
			e.entry.comps[c] = x
		}
	}
}

func (e *Exec) discharge(res *fnResult, prop string, effort int, deadline time.Time) {
	var mine []*Obl
	for _, o := range e.obls {
		if prop == "" || o.Kind == "cover" && o.Props == nil || contains(o.Props, prop) {
			mine = append(mine, o)
		} else {
			res.skipped++
		}
	}
	// split conjunctive goals
	var parts []*Obl
	for _, o := range mine {
		if o.Kind == "cover" {
			parts = append(parts, o)
			continue
		}
		gs := splitGoal(o.Goal)
		for i, g := range gs {
			q := *o
			q.Goal = g
			if len(gs) > 1 {
				q.Name = fmt.Sprintf("%s/%d", o.Name, i+1)
			}
			parts = append(parts, &q)
		}
	}
	mine = parts
	qs, es := make([]*Query, len(mine)), make([]int, len(mine))
	for i, o := range mine {
		if g := os.Getenv("GOVC_GOAL"); g != "" && strings.HasSuffix(o.Name, g) {
			fmt.Println("GOAL", o.Name, o.Goal.str(12))
			for _, h := range e.hyps(o.FactN) {
				fmt.Println("  HYP", h.str(9))
			}
		}
		o.q = prepare(e.hyps(o.FactN), o.Goal, o.Hints)
		if g := os.Getenv("GOVC_FOCUS"); g != "" && strings.HasSuffix(o.Name, g) {
			for _, lim := range focusSizes {
				fh, fg, _ := focus(e.hyps(o.FactN), o.Goal, lim)
				fmt.Println("FOCUS", lim, "GOAL", fg.str(14))
				for _, h := range fh {
					fmt.Println("  HYP", h.str(9))
				}
				ft, _, _ := o.q.focused(lim)
				os.WriteFile(fmt.Sprintf("/tmp/focus%d.smt2", lim), []byte(ft), 0o644)
			}
		}
		qs[i], es[i] = o.q, effort
		if o.Kind == "cover" {
			es[i] = coverEffort
		}
	}
	for i, v := range cachedBatch(qs, es, deadline) {
		o := mine[i]
		o.V = v
		if o.Kind == "cover" && v.Detail != "out of time" {
			// the obligation is that this is NOT provable
			if o.V.Status == "proved" {
				o.V.Status = "vacuous"
			} else {
				o.V.Status = "proved"
			}
		}
	}
	if ck := os.Getenv("GOVC_CORE"); ck != "" {
		for _, o := range mine {
			if o.V.Status == "vacuous" || strings.HasSuffix(o.Name, ck) {
				fmt.Println("GOAL", o.Goal.str(14))
				var hs []*Term
				for _, h := range e.hyps(o.FactN) {
					hs = append(hs, splitGoal(h)...)
				}
				for i := 0; i < len(hs); i++ {
					if h := hs[i]; h.op == "hist" || h.op == "=>" && h.args[1].op == "hist" {
						fmt.Println("HISTFACT", h.op)
					}
				}
				for i := len(hs) - 1; i >= 0; i-- {
					t := append(append([]*Term{}, hs[:i]...), hs[i+1:]...)
					if v := prepare(t, o.Goal, o.Hints).run(0); v.Status == "proved" {
						hs = t
					}
				}
				for _, h := range hs {
					fmt.Println("CORE", o.Name, h)
				}
				q := prepare(hs, o.Goal, o.Hints)
				ft, _ := q.full(false)
				os.WriteFile("/tmp/core.smt2", []byte(ft), 0o644)
				fmt.Println("FINAL", q.trivly, q.run(1).Detail)
			}
		}
	}
	res.obls = mine
	res.invs = e.invChecked
}

// onePoint: forall x: x = t && A(x) ==> B(x) is A(t) ==> B(t).
func onePoint(g *Term) *Term {
	b := g.args[0]
	if b.op != "=>" {
		return g
	}
	for _, c := range conjs(b.args[0]) {
		if c.op != "=" {
			continue
		}
		for k, v := range g.bvs {
			x, t := c.args[0], c.args[1]
			if t == v {
				x, t = t, x
			}
			if x != v || t.hasBV {
				continue
			}
			s := NewSubst()
			s.Set(v, t)
			rest := append(append([]*Term{}, g.bvs[:k]...), g.bvs[k+1:]...)
			nb := s.Apply(b)
			if len(rest) == 0 {
				return nb
			}
			return Forall(rest, nb)
		}
	}
	return g
}

func splitGoal(g *Term) []*Term {
	switch g.op {
	case "and":
		var out []*Term
		for _, a := range g.args {
			out = append(out, splitGoal(a)...)
		}
		return out
	case "=>":
		var out []*Term
		for _, b := range splitGoal(g.args[1]) {
			out = append(out, Imp(g.args[0], b))
		}
		return out
	case "forall":
		if h := onePoint(g); h != g {
			return splitGoal(h)
		}
		bs := splitGoal(g.args[0])
		if len(bs) == 1 {
			return []*Term{g}
		}
		var out []*Term
		for _, b := range bs {
			out = append(out, Forall(g.bvs, b))
		}
		return out
	}
	return []*Term{g}
}

// ---- known findings ----

type finding struct{ prop, key, text string }

// lines: known: property=C02 key=<key> <what fails>      fixed: property=... (suppresses nothing)
func knownFindings() []finding {
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var out []finding
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) < 3 || f[0] != "known:" {
			continue
		}
		out = append(out, finding{strings.TrimPrefix(f[1], "property="), strings.TrimPrefix(f[2], "key="), strings.Join(f[3:], " ")})
	}
	return out
}

// ---- replay harness ----

type harnessOut struct {
	ran    bool
	passed bool
	fails  []string // lines VERIF-FAIL ...
	stats  string
	log    string
	err    string
	ms     int64
}

// a harness directory holds harness.json {"pkg": "./core/internal/filter", "dir": "core/internal/filter"} and *_test.go files.
func runHarness(prop, work, tmp string, seed int64, tier string, budget time.Duration) *harnessOut {
	h := &harnessOut{}
	hd := filepath.Join(verifDir, "harness", prop)
	b, err := os.ReadFile(filepath.Join(hd, "harness.json"))
	if err != nil {
		return nil
	}
	var cfg struct {
		Dir  string
		Race bool
	}
	if err := json.Unmarshal(b, &cfg); err != nil {
		h.err = err.Error()
		return h
	}
	start := time.Now()
	defer func() { h.ms = time.Since(start).Milliseconds() }()
	rep := map[string]string{}
	old, _ := filepath.Glob(filepath.Join(repoDir, cfg.Dir, "*_test.go"))
	for _, f := range old {
		rep[f] = ""
	}
	fs, _ := filepath.Glob(filepath.Join(hd, "*_test.go"))
	more, _ := filepath.Glob(filepath.Join(verifDir, "harness", "lib", filepath.Base(cfg.Dir), "*_test.go"))
	for _, f := range append(fs, more...) {
		rep[filepath.Join(repoDir, cfg.Dir, "zz_verif_"+filepath.Base(f))] = f
	}
	ov, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	of := filepath.Join(tmp, "overlay.json")
	os.WriteFile(of, ov, 0o644)
	bin := filepath.Join(tmp, "harness.test")
	run := func(to time.Duration, dir string, env []string, name string, args ...string) (string, error) {
		ctx, cancel := context.WithTimeout(context.Background(), to)
		defer cancel()
		cmd := exec.CommandContext(ctx, name, args...)
		cmd.Dir = dir
		cmd.Env = env
		cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
		cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
		cmd.WaitDelay = 2 * time.Second
		var out bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &out
		err := cmd.Run()
		return out.String(), err
	}
	env := goEnv(work)
	args := []string{"test", "-c", "-vet=off", "-overlay", of, "-o", bin}
	if cfg.Race {
		args = append(args, "-race")
	}
	args = append(args, "./"+cfg.Dir)
	out, err := run(300*time.Second, repoDir, env, "go", args...)
	if err != nil {
		h.err = "the harness does not build against the current source"
		h.log = out
		return h
	}
	scratch := filepath.Join(tmp, "scratch")
	os.MkdirAll(scratch, 0o755)
	out, err = run(budget+30*time.Second, scratch, append(os.Environ(), fmt.Sprintf("VERIF_SEED=%d", seed), "VERIF_TIER="+tier, fmt.Sprintf("VERIF_BUDGET_MS=%d", budget.Milliseconds())), bin, "-test.run", "^TestVerif_"+prop+"$", "-test.timeout", fmt.Sprintf("%ds", int(budget.Seconds())+25))
	h.ran = true
	h.log = out
	h.passed = err == nil
	for _, l := range strings.Split(out, "\n") {
		if i := strings.Index(l, "VERIF-FAIL "); i >= 0 {
			h.fails = append(h.fails, l[i+len("VERIF-FAIL "):])
		}
		if i := strings.Index(l, "VERIF-STATS "); i >= 0 {
			h.stats = l[i+len("VERIF-STATS "):]
		}
	}
	if !h.passed && len(h.fails) == 0 {
		tail := out
		if i := strings.Index(tail, "panic:"); i >= 0 {
			tail = tail[i:]
		}
		if i := strings.IndexByte(tail, '\n'); i >= 0 {
			tail = tail[:i]
		}
		h.fails = append(h.fails, "key=crash the real code did not survive the replay: "+tail)
	}
	return h
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: govc check -prop C01 | govc fn -spec file -name fn")
		os.Exit(2)
	}
	fs := flag.NewFlagSet("govc", flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	only := fs.String("fn", "", "verify only functions whose name contains this")
	fs.StringVar(&repoDir, "repo", repoDir, "tree to verify")
	fs.StringVar(&verifDir, "verif", verifDir, "framework directory")
	noHarness := fs.Bool("noharness", false, "")
	verbose := fs.Bool("v", false, "")
	fs.Parse(os.Args[2:])
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	seed := int64(1)
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	debug.SetGCPercent(150)
	os.Exit(check(*prop, *only, tier, seed, !*noHarness, *verbose))
}

func contractsFor(prop string) []*Contracts {
	files, _ := filepath.Glob(filepath.Join(verifDir, "contracts", "*.spec"))
	sort.Strings(files)
	var out []*Contracts
	for _, f := range files {
		c := ParseSpec(f)
		for _, n := range c.order {
			if contains(c.funcs[n].allProps(), prop) {
				out = append(out, c)
				break
			}
		}
	}
	return out
}

func check(prop, only, tier string, seed int64, harness, verbose bool) int {
	start := time.Now()
	tmp, err := os.MkdirTemp("", "govc-"+prop+"-")
	if err != nil {
		fmt.Println("error:", err)
		return 2
	}
	defer os.RemoveAll(tmp)
	workDir = filepath.Join(tmp, "smt")
	os.MkdirAll(workDir, 0o755)
	if k := os.Getenv("GOVC_KEEP"); k != "" {
		workDir = k
		os.MkdirAll(k, 0o755)
	}
	work, err := workspace(repoDir, tmp)
	if err != nil {
		fmt.Println("error:", err)
		return 2
	}
	if pf := os.Getenv("GOVC_PROF"); pf != "" {
		f, _ := os.Create(pf)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	effort := 2
	deadline := start.Add(9 * time.Minute)
	if tier == "thorough" {
		slowTO = 120 * time.Second
		quickTO = 8 * time.Second
		deadline = start.Add(60 * time.Minute)
	}
	// replay harness in parallel with the proof
	var h *harnessOut
	var hw sync.WaitGroup
	if harness {
		hw.Add(1)
		go func() {
			defer hw.Done()
			b := 20 * time.Second
			if tier == "thorough" {
				b = 120 * time.Second
			}
			h = runHarness(prop, work, tmp, seed, tier, b)
		}()
	}
	cs := contractsFor(prop)
	var results []*fnResult
	var failures []string
	trusted := map[string]bool{}
	assumptions := map[string]bool{}
	pats := map[string]bool{}
	for _, c := range cs {
		for _, l := range c.load {
			pats[l] = true
		}
		for _, a := range c.assumes {
			assumptions[a] = true
		}
	}
	// the proof runs beside a watch over memory and over the replay's outcome
	var (
		P    *Program
		mu   sync.Mutex
		done = make(chan bool)
	)
	go func() {
		defer close(done)
		p, err := Load(repoDir, work, sortedKeys(pats))
		mu.Lock()
		P = p
		if err != nil {
			failures = append(failures, "obligations cannot be generated: "+err.Error())
		}
		mu.Unlock()
		if err != nil {
			return
		}
		for _, c := range cs {
			for _, n := range c.order {
				fc := c.funcs[n]
				if !contains(fc.allProps(), prop) || only != "" && !strings.Contains(n, only) {
					continue
				}
				r := verify(p, c, fc, prop, effort, deadline)
				mu.Lock()
				results = append(results, r)
				mu.Unlock()
			}
		}
	}()
	settled := make(chan bool)
	if harness && tier != "thorough" {
		go func() {
			hw.Wait()
			if h != nil && len(h.fails) > 0 {
				ks := knownFindings()
				for _, f := range h.fails {
					known := false
					for _, k := range ks {
						known = known || k.prop == prop && "replay:"+failKey(f) == k.key
					}
					if !known {
						time.Sleep(120 * time.Second)
						close(settled)
						return
					}
				}
			}
		}()
	}
	stopped := ""
	for watch := time.NewTicker(300 * time.Millisecond); stopped == ""; {
		select {
		case <-done:
			stopped = "-"
		case <-settled:
			stopped = "the replay found a failing input"
		case <-watch.C:
			if rssMB() > 14000 {
				stopped = "out of memory"
			}
		}
	}
	if stopped != "-" {
		frozen.Store(true)
		killChildren()
		mu.Lock()
		failures = append(failures, "the proof was not finished: "+stopped)
		defer killChildren()
	}
	if len(cs) == 0 {
		fmt.Println("error: no contract for", prop)
		return 2
	}
	known := knownFindings()
	knownHit := map[string]finding{}
	isKnown := func(key string) bool {
		for _, k := range known {
			if k.prop == prop && k.key == key {
				knownHit[k.key] = k
				return true
			}
		}
		return false
	}
	nObl, nDis := 0, 0
	byBack := map[string]int{}
	var fns []interface{}
	var inl = map[string]bool{}
	for _, r := range results {
		n, d := 0, 0
		if r.err != "" {
			failures = append(failures, shortFn(r.name)+"/generate: obligations cannot be generated: "+r.err)
		}
		for _, o := range r.obls {
			key := o.Kind + ":" + o.Name[strings.LastIndex(o.Name, ":")+1:]
			if o.V.Status == "proved" {
				n, d = n+1, d+1
				if o.Kind != "cover" {
					byBack[o.V.Solver]++
				} else {
					byBack["reachability probe (not refutable)"]++
				}
				if verbose {
					fmt.Printf("  ok   %-60s %s %dms\n", o.Name, o.V.Solver, o.V.Millis)
				}
				continue
			}
			if isKnown(key) || isKnown(trimPart(key)) {
				continue
			}
			n++
			failures = append(failures, fmt.Sprintf("%s at %s: %s (%s)", o.Name, o.Pos, o.V.Status, o.V.Detail))
			if verbose {
				fmt.Printf("  FAIL %-60s %s %dms %s\n", o.Name, o.V.Detail, o.V.Millis, o.V.File)
			}
		}
		nObl, nDis = nObl+n, nDis+d
		fi := map[string]interface{}{"function": r.name, "obligations": n, "discharged": d, "wall_ms": r.ms, "loop_invariants_inductive": r.invs}
		if r.err != "" {
			fi["error"] = r.err
		}
		fns = append(fns, fi)
		if r.e != nil {
			for k := range r.e.trusted {
				trusted["model: "+k] = true
			}
			for k := range r.e.opaque {
				assumptions["no effect on the program's own data: "+k] = true
			}
			for k := range r.e.quiet {
				assumptions["log and metric calls have no effect: "+k] = true
			}
			for k := range r.e.notes {
				assumptions[k] = true
			}
			for k := range r.e.inlined {
				inl[k] = true
			}
		}
	}
	if P != nil && nObl == 0 {
		failures = append(failures, "no obligation was generated")
	}
	hw.Wait()
	var concrete []string
	if h != nil {
		for _, f := range h.fails {
			if !isKnown("replay:" + failKey(f)) {
				concrete = append(concrete, f)
			}
		}
	}
	var ks []string
	for k := range knownHit {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	printed := map[string]bool{}
	for _, k := range ks {
		if !printed[knownHit[k].text] {
			printed[knownHit[k].text] = true
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, knownHit[k].text)
		}
	}
	bad := len(failures) > 0 || len(concrete) > 0
	viol := 0
	if bad {
		viol = 1
		os.MkdirAll(filepath.Join(verifDir, "replays"), 0o755)
		rp := filepath.Join(verifDir, "replays", prop+".txt")
		var sb strings.Builder
		fmt.Fprintf(&sb, "property %s is violated in %s\n\n", prop, repoDir)
		if len(concrete) > 0 {
			fmt.Fprintf(&sb, "failing input on the real code (rerun: VERIF_SEED=%d bash /verif/check.sh %s; harness in /verif/harness/%s):\n", seed, prop, prop)
			for _, c := range concrete {
				fmt.Fprintln(&sb, "  "+c)
			}
		}
		fmt.Fprintf(&sb, "\nobligations not discharged:\n")
		for _, f := range failures {
			fmt.Fprintln(&sb, "  "+f)
		}
		if h != nil {
			fmt.Fprintf(&sb, "\nreplay harness: ran=%v passed=%v %s\n%s\n", h.ran, h.passed, h.err, tailOf(h.log, 8000))
		}
		os.WriteFile(rp, []byte(sb.String()), 0o644)
		for i, f := range failures {
			if i == 12 {
				fmt.Printf("... and %d more\n", len(failures)-12)
				break
			}
			fmt.Println("failed obligation:", f)
		}
		for i, c := range concrete {
			if i < 5 {
				fmt.Println("failing input:", c)
			}
		}
		line := fmt.Sprintf("VIOLATION property=%s replay=%s", prop, rp)
		if len(concrete) == 0 {
			line += " no-failing-input-found"
		}
		fmt.Println(line)
	}
	base := []string{"govc, the verification condition generator of /verif/govc, and golang.org/x/tools/go/ssa v0.52.0 as the meaning of the source", "the SMT solvers z3 5.3.2, z3 4.8.12 and cvc5 1.1.2 (any one is believed)"}
	base = append(base, sortedKeys(trusted)...)
	cov := map[string]interface{}{
		"obligations": nObl, "discharged": nDis,
		"checker_cmd":           "bash /verif/check.sh " + prop,
		"trusted_base":          base,
		"functions":             fns,
		"functions_inlined":     sortedKeys(inl),
		"discharged_by":         byBack,
		"solver_calls":          stats.Queries,
		"solver_seconds":        float64(stats.NanosCPU) / 1e9,
		"longest_solver_call_s": float64(stats.MaxMillis) / 1e3,
	}
	if h != nil {
		cov["replay_on_real_code"] = map[string]interface{}{"ran": h.ran, "passed": h.passed, "stats": h.stats, "error": h.err, "wall_ms": h.ms}
	}
	if len(ks) > 0 {
		cov["known_findings_excluded_from_obligations"] = ks
	}
	ev := map[string]interface{}{"property": prop, "tier": tier, "seed": seed, "level": "proof", "coverage": cov, "assumptions": sortedKeys(assumptions), "wall_s": time.Since(start).Seconds(), "violations": viol}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verifDir, "evidence", prop+".json"), b, 0o644)
	fmt.Printf("%s: %d obligations, %d discharged, %d solver calls, %.1fs\n", prop, nObl, nDis, stats.Queries, time.Since(start).Seconds())
	if h != nil && verbose {
		fmt.Printf("replay: ran=%v passed=%v err=%q stats=%s\n", h.ran, h.passed, h.err, h.stats)
		if h.err != "" || !h.passed {
			fmt.Println(tailOf(h.log, 3000))
		}
	}
	if bad {
		return 1
	}
	return 0
}

func failKey(f string) string {
	if strings.HasPrefix(f, "key=") {
		return strings.TrimPrefix(strings.Fields(f)[0], "key=")
	}
	return "replay"
}

func rssMB() int64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	var v, r int64
	fmt.Sscan(string(b), &v, &r)
	return r * int64(os.Getpagesize()) >> 20
}

// killChildren ends the solvers an unfinished proof leaves running.
func killChildren() {
	ds, _ := filepath.Glob("/proc/[0-9]*/stat")
	me := os.Getpid()
	for _, d := range ds {
		b, err := os.ReadFile(d)
		if err != nil {
			continue
		}
		s := string(b)
		i := strings.LastIndexByte(s, ')')
		if i < 0 {
			continue
		}
		var st string
		var pp int
		fmt.Sscan(s[i+1:], &st, &pp)
		if pp == me {
			var pid int
			fmt.Sscan(s, &pid)
			syscall.Kill(pid, syscall.SIGKILL)
		}
	}
}

func trimPart(k string) string {
	if i := strings.LastIndexByte(k, '/'); i >= 0 {
		k = k[:i]
	}
	if i := strings.IndexByte(k, '#'); i >= 0 {
		k = k[:i]
	}
	return k
}
func tailOf(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}
