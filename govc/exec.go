package main

// Symbolic execution of go/ssa with state merging at joins.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Obl struct {
	Name  string
	Kind  string
	Props []string
	Goal  *Term
	Reach *Term
	FactN int
	Hints []*Term
	Pos   string
	V     Verdict
	q     *Query
}

type Exec struct {
	rootRets   []retRec          // the returns of the function under contract
	varr       map[*Term][]*Term // elements of variadic operands kept out of the heap
	P          *Program
	C          *Contracts
	facts      []*Term
	obls       []*Obl
	dry        int
	root       string
	prop       string
	rootC      *FuncContract
	names      map[string]int
	opaque     map[string]bool // calls treated as having no effect
	trusted    map[string]bool // models / contracts assumed
	inlined    map[string]bool
	nonnil     map[int]bool
	stack      []*ssa.Function
	entry      *State
	threads    []*thread
	closDefs   map[int]*ClosV
	notes      map[string]bool
	callSeq    int
	loops      []*loopCtx
	houdini    map[string]int
	noInline   map[string]bool
	specEnv    map[string]SVal
	pending    []*hgroup // loops inside the loops being analysed
	entryFacts []*Term
	loopNo     map[string]int // loops in the order they are met
	shape      int
	invChecked int
	iterC      []*Term // iteration counters of enclosing loops
	curIts     []*IterV
	cellVars   []cellVar
	metaExtra  []SVal
	curPos     token.Pos
	curThread  *thread
	rootFn     *ssa.Function
	quiet      map[string]bool
}

type deferRec struct {
	reach *Term
	call  *ssa.CallCommon
	args  []Val
	fnv   Val
	inst  ssa.Instruction
}

type edge struct {
	st   *State
	pred *ssa.BasicBlock
}

type Frame struct {
	fn      *ssa.Function
	env     map[ssa.Value]Val
	id      int
	defers  []deferRec
	rets    []retRec
	pending map[*ssa.BasicBlock][]edge
	loops   *loopInfo
	fvs     []Val
	results []Val
	varr    map[*ssa.Alloc][]*Term // operands of a variadic call, kept out of the heap
}
type retRec struct {
	st *State
	vs []Val
}

func (e *Exec) assume(st *State, f *Term) {
	f = Imp(st.reach, f)
	if f != True {
		e.facts = append(e.facts, f)
	}
}
func (e *Exec) fact(f *Term) {
	if f != True {
		e.facts = append(e.facts, f)
	}
}

func (e *Exec) obligation(st *State, kind, name string, props []string, goal *Term, pos token.Pos) {
	if e.dry > 0 {
		return
	}
	e.names[kind+"/"+name]++
	n := e.names[kind+"/"+name]
	full := e.root + "/" + kind
	if name != "" {
		full += ":" + name
	}
	if n > 1 || kind == "safe" {
		full += fmt.Sprintf("#%d", n)
	}
	o := &Obl{Name: full, Kind: kind, Props: props, Goal: Imp(st.reach, goal), Reach: st.reach, FactN: len(e.facts)}
	for _, c := range e.iterC {
		o.Hints = append(o.Hints, c, Sub(c, Int(1)))
	}
	if pos.IsValid() {
		p := e.P.prog.Fset.Position(pos)
		o.Pos = fmt.Sprintf("%s:%d", p.Filename, p.Line)
	}
	e.obls = append(e.obls, o)
}

// safe: a run-time panic must not happen; afterwards it is assumed not to have happened.
func (e *Exec) safe(st *State, what string, goal *Term, pos token.Pos) {
	if goal == True {
		return
	}
	if e.rootC != nil && len(e.rootC.safety) > 0 {
		e.obligation(st, "safe", what, e.rootC.safety, goal, pos)
	}
	e.assume(st, goal)
}

// ---- components ----

func (e *Exec) get(st *State, c string) *Term {
	if t, ok := st.comps[c]; ok {
		return t
	}
	t := e.initComp(c)
	st.comps[c] = t
	return t
}
func (e *Exec) set(st *State, c string, t *Term) { st.comps[c] = t }

var initDone = map[string]bool{}

// initComp is the (shared) initial value of a component.
func (e *Exec) initComp(c string) *Term {
	if e.entry != nil {
		if t, ok := e.entry.comps[c]; ok {
			return t
		}
	}
	m := compTab[c]
	if m == nil {
		panic("unknown component " + c)
	}
	t := Const("H0."+c, m.sort)
	if e.entry != nil {
		e.entry.comps[c] = t
	}
	if c == allocComp {
		e.entryFact(Ge(t, Int(1000)))
		return t
	}
	al := Const("H0."+allocComp, SInt)
	if e.entry != nil {
		e.initComp(allocComp)
	}
	for _, w := range wfFacts(m, t, al) {
		e.entryFact(w)
	}
	return t
}

// entry facts are valid everywhere; they are kept in a list of their own so that facts stays a prefix order
func (e *Exec) entryFact(f *Term) { e.entryFacts = append(e.entryFacts, f) }

// wfFacts: what the Go type system guarantees about every value of a heap component.
func wfFacts(m *compMeta, t *Term, al *Term) []*Term {
	var out []*Term
	q1 := func(s Sort, f func(x *Term) (*Term, *Term)) {
		x := BV("w", s)
		p, b := f(x)
		if b != True {
			out = append(out, Forall([]*Term{x}, b, []*Term{p}))
		}
	}
	switch m.kind {
	case "field", "cell":
		if b := wfScalar(m.elem, mk("var", "dummy", sortOf(m.elem)), al); b != True {
			q1(SInt, func(x *Term) (*Term, *Term) {
				p := mk("select", "", sortOf(m.elem), t, x)
				return p, wfScalar(m.elem, p, al)
			})
		}
	case "elem":
		if b := wfScalar(m.elem, mk("var", "dummy", sortOf(m.elem)), al); b != True {
			x, y := BV("w", SInt), BV("w", SInt)
			p := mk("select", "", sortOf(m.elem), mk("select", "", ArrSort(SInt, sortOf(m.elem)), t, x), y)
			out = append(out, Forall([]*Term{x, y}, wfScalar(m.elem, p, al), []*Term{p}))
		}
	case "mapval":
		if b := wfScalar(m.elem, mk("var", "dummy", sortOf(m.elem)), al); b != True {
			_, row := arrParts(m.sort)
			ks, vs := arrParts(row)
			x, y := BV("w", SInt), BV("w", ks)
			p := mk("select", "", vs, mk("select", "", row, t, x), y)
			out = append(out, Forall([]*Term{x, y}, wfScalar(m.elem, p, al), []*Term{p}))
		}
	case "mapdom":
		// the nil map is empty
		if m.name != "SMD" {
			_, row := arrParts(m.sort)
			ks, _ := arrParts(row)
			y := BV("w", ks)
			p := mk("select", "", SBool, mk("select", "", row, t, Int(0)), y)
			out = append(out, Forall([]*Term{y}, Not(p), []*Term{p}))
		}
	case "maplen":
		q1(SInt, func(x *Term) (*Term, *Term) {
			p := mk("select", "", SInt, t, x)
			return p, Ge(p, Int(0))
		})
		out = append(out, Eq(mk("select", "", SInt, t, Int(0)), Int(0)))
	case "smval":
		x, y := BV("w", SInt), BV("w", SIface)
		p := mk("select", "", SIface, mk("select", "", ArrSort(SIface, SIface), t, x), y)
		out = append(out, Forall([]*Term{x, y}, wfIface(p, al), []*Term{p}))
	}
	return out
}
func wfIface(p, al *Term) *Term {
	return Imp(IsCtor("iptr", p), And(Ge(Sel("i_p", p), Int(0)), Lt(Sel("i_p", p), al)))
}
func wfScalar(t types.Type, x *Term, al *Term) *Term {
	if t == nil || isTime(t) {
		return True
	}
	switch u := under(t).(type) {
	case *types.Pointer:
		if isStruct(u.Elem()) {
			return And(Lt(x, al), Le(MulK(-64, al), x)) // may point to an embedded struct
		}
		return And(Ge(x, Int(0)), Lt(x, al))
	case *types.Map, *types.Chan:
		return And(Ge(x, Int(0)), Lt(x, al))
	case *types.Slice:
		return wfSlice(x, al)
	case *types.Interface:
		return wfIface(x, al)
	case *types.Basic:
		switch u.Kind() {
		case types.Int32:
			return And(Le(Int(math.MinInt32), x), Le(x, Int(math.MaxInt32)))
		case types.Uint8:
			return And(Le(Int(0), x), Le(x, Int(255)))
		case types.Int16:
			return And(Le(Int(math.MinInt16), x), Le(x, Int(math.MaxInt16)))
		case types.Int8:
			return And(Le(Int(-128), x), Le(x, Int(127)))
		case types.Uint16:
			return And(Le(Int(0), x), Le(x, Int(65535)))
		case types.Uint32:
			return And(Le(Int(0), x), Le(x, Int(math.MaxUint32)))
		case types.Uint, types.Uint64, types.Uintptr:
			return Le(Int(0), x)
		case types.Int64, types.Int:
			return And(Le(Int(math.MinInt64), x), Le(x, Int(math.MaxInt64)))
		}
	}
	return True
}
func wfSlice(x, al *Term) *Term {
	r, o, l, c := Sel("s_ref", x), Sel("s_off", x), Sel("s_len", x), Sel("s_cap", x)
	return And(Ge(r, Int(0)), Lt(r, al), Ge(o, Int(0)), Ge(l, Int(0)), Le(l, c), Imp(Eq(r, Int(0)), Eq(c, Int(0))))
}

// fresh value of a Go type, well formed.
func (e *Exec) freshWf(st *State, prefix string, t types.Type) Val {
	v := freshVal(prefix, t)
	e.wfVal(st, v, t)
	return v
}
func (e *Exec) wfVal(st *State, v Val, t types.Type) {
	switch v := v.(type) {
	case *Term:
		e.assume(st, wfScalar(t, v, e.get(st, allocComp)))
	case *StructV:
		s := under(v.typ).(*types.Struct)
		for i, f := range v.fs {
			if f != nil {
				e.wfVal(st, f, s.Field(i).Type())
			}
		}
	case *TupleV:
		tt := t.(*types.Tuple)
		for i, f := range v.vs {
			e.wfVal(st, f, tt.At(i).Type())
		}
	}
}

// alloc returns a fresh object reference.
func (e *Exec) alloc(st *State) *Term {
	a := e.get(st, allocComp)
	e.set(st, allocComp, Add(a, Int(1)))
	e.nonnil[a.id] = true
	return a
}

// ---- memory ----

func (e *Exec) loadPtr(st *State, p Val, t types.Type) Val {
	if a, ok := p.(*AddrV); ok {
		if isStruct(t) || isArrayT(t) && a.idx == nil {
			panic(unsupported("load of %s through field address", t))
		}
		row := Select(e.get(st, a.comp), a.ref)
		if a.idx != nil {
			return Select(row, a.idx)
		}
		return row
	}
	ref := p.(*Term)
	if isStruct(t) {
		return e.loadStruct(st, ref, t)
	}
	if isArrayT(t) {
		return Select(e.get(st, elemComp(under(t).(*types.Array).Elem())), ref)
	}
	if _, ok := under(t).(*types.Signature); ok {
		x := Select(e.get(st, cellComp(t)), ref)
		if c, ok := e.closDefs[x.id]; ok {
			return c
		}
		return x
	}
	return Select(e.get(st, cellComp(t)), ref)
}
func (e *Exec) loadStruct(st *State, ref *Term, t types.Type) Val {
	s := under(t).(*types.Struct)
	sv := &StructV{typ: t}
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		switch {
		case isOpaqueStruct(ft):
			sv.fs = append(sv.fs, nil)
		case isStruct(ft):
			sv.fs = append(sv.fs, e.loadStruct(st, emb(ref, i), ft))
		case isArrayT(ft):
			sv.fs = append(sv.fs, Select(e.get(st, elemComp(under(ft).(*types.Array).Elem())), emb(ref, i)))
		default:
			sv.fs = append(sv.fs, e.closOr(Select(e.get(st, fieldComp(t, i)), ref)))
		}
	}
	return sv
}
func (e *Exec) closOr(t *Term) Val {
	if c, ok := e.closDefs[t.id]; ok {
		return c
	}
	return t
}
func (e *Exec) storePtr(st *State, p Val, v Val, t types.Type) {
	if a, ok := p.(*AddrV); ok {
		h := e.get(st, a.comp)
		x := e.scalar(v)
		if a.idx != nil {
			e.set(st, a.comp, Store(h, a.ref, Store(Select(h, a.ref), a.idx, x)))
		} else {
			e.set(st, a.comp, Store(h, a.ref, x))
		}
		return
	}
	ref := p.(*Term)
	if isStruct(t) {
		sv, ok := v.(*StructV)
		if !ok {
			panic(unsupported("store of %T as struct", v))
		}
		e.storeStruct(st, ref, sv, t)
		return
	}
	c := ""
	if isArrayT(t) {
		c = elemComp(under(t).(*types.Array).Elem())
	} else {
		c = cellComp(t)
	}
	e.set(st, c, Store(e.get(st, c), ref, e.scalar(v)))
}
func (e *Exec) storeStruct(st *State, ref *Term, sv *StructV, t types.Type) {
	s := under(t).(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		switch {
		case isOpaqueStruct(ft):
			// the zero value of sync.Map is an empty map
			if typeKey(ft) == "sync.Map" {
				d, _ := syncComps()
				e.set(st, d, Store(e.get(st, d), emb(ref, i), ConstArr(ArrSort(SIface, SBool), False)))
			}
		case isStruct(ft):
			e.storeStruct(st, emb(ref, i), sv.fs[i].(*StructV), ft)
		case isArrayT(ft):
			c := elemComp(under(ft).(*types.Array).Elem())
			e.set(st, c, Store(e.get(st, c), emb(ref, i), sv.fs[i].(*Term)))
		default:
			c := fieldComp(t, i)
			e.set(st, c, Store(e.get(st, c), ref, e.scalar(sv.fs[i])))
		}
	}
}

// scalar turns a value into a term; closures get an identity.
func (e *Exec) scalar(v Val) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case *ClosV:
		t := Fresh("clos", SInt)
		e.closDefs[t.id] = v
		return t
	}
	panic(unsupported("value of kind %T stored in memory", v))
}

// newObject allocates and zeroes an object of type t; returns the pointer value.
func (e *Exec) newObject(st *State, t types.Type) Val {
	r := e.alloc(st)
	e.zeroInit(st, r, t)
	return r
}
func (e *Exec) zeroInit(st *State, r *Term, t types.Type) {
	if isOpaqueStruct(t) {
		if typeKey(t) == "sync.Map" {
			d, _ := syncComps()
			e.set(st, d, Store(e.get(st, d), r, ConstArr(ArrSort(SIface, SBool), False)))
		}
		return
	}
	if _, ok := under(t).(*types.Signature); ok {
		e.storePtr(st, r, Int(0), t)
		return
	}
	e.storePtr(st, r, zeroVal(t), t)
}

func (e *Exec) elemAt(st *State, s *Term, i *Term, et types.Type) *Term {
	if vs := e.varr[Sel("s_ref", s)]; vs != nil {
		if x := Add(Sel("s_off", s), i); x.op == "int" && x.ival >= 0 && x.ival < int64(len(vs)) {
			return vs[x.ival]
		}
	}
	h := e.get(st, elemComp(et))
	return Select(Select(h, Sel("s_ref", s)), Add(Sel("s_off", s), i))
}

// ---- maps ----

func (e *Exec) mapLookup(st *State, m *Term, k *Term, mt *types.Map) (*Term, *Term) {
	d, v, _ := mapComps(mt)
	ok := And(Ne(m, Int(0)), Select(Select(e.get(st, d), m), k))
	val := Select(Select(e.get(st, v), m), k)
	return Ite(ok, val, zeroOf(val.sort)), ok
}
func (e *Exec) mapUpdate(st *State, m *Term, k, v *Term, mt *types.Map) {
	d, vc, l := mapComps(mt)
	hd, hv, hl := e.get(st, d), e.get(st, vc), e.get(st, l)
	was := Select(Select(hd, m), k)
	e.set(st, d, Store(hd, m, Store(Select(hd, m), k, True)))
	e.set(st, vc, Store(hv, m, Store(Select(hv, m), k, v)))
	nl := Ite(was, Select(hl, m), Add(Select(hl, m), Int(1)))
	e.set(st, l, Store(hl, m, nl))
	e.assume(st, Ge(nl, Int(1)))
}
func (e *Exec) mapDelete(st *State, m *Term, k *Term, mt *types.Map) {
	d, _, l := mapComps(mt)
	hd, hl := e.get(st, d), e.get(st, l)
	was := And(Ne(m, Int(0)), Select(Select(hd, m), k))
	e.set(st, d, Store(hd, m, Store(Select(hd, m), k, False)))
	e.set(st, l, Store(hl, m, Ite(was, Sub(Select(hl, m), Int(1)), Select(hl, m))))
}
func (e *Exec) mapLen(st *State, m *Term, mt *types.Map) *Term {
	d, _, l := mapComps(mt)
	n := Select(e.get(st, l), m)
	row := Select(e.get(st, d), m)
	ks, _ := arrParts(row.sort)
	x := BV("k", ks)
	e.assume(st, Ge(n, Int(0)))
	// empty iff no key
	e.assume(st, Imp(Eq(n, Int(0)), Forall([]*Term{x}, Not(Select(row, x)))))
	if !row.hasBV {
		w := Fresh("mapwit", ks)
		e.assume(st, Imp(Ne(n, Int(0)), Select(row, w)))
	}
	return n
}
func (e *Exec) makeMap(st *State, mt *types.Map) *Term {
	r := e.alloc(st)
	d, _, l := mapComps(mt)
	hd, hl := e.get(st, d), e.get(st, l)
	_, row := arrParts(hd.sort)
	e.set(st, d, Store(hd, r, ConstArr(row, False)))
	e.set(st, l, Store(hl, r, Int(0)))
	return r
}

// ---- slices ----

// append of k elements given as terms.
func (e *Exec) appendElems(st *State, s *Term, et types.Type, vs []*Term) *Term {
	if len(vs) == 0 {
		return s
	}
	c := elemComp(et)
	h := e.get(st, c)
	ref, off, ln, cp := Sel("s_ref", s), Sel("s_off", s), Sel("s_len", s), Sel("s_cap", s)
	k := int64(len(vs))
	nl := Add(ln, Int(k))
	fit := Le(nl, cp)
	fr := e.alloc(st)
	nr := Ite(fit, ref, fr)
	row := Select(h, ref)
	for i, v := range vs {
		row = Store(row, Add(off, ln, Int(int64(i))), v)
	}
	e.set(st, c, Store(h, nr, row))
	ncap := cp
	if fit != True {
		nc := Fresh("cap", SInt)
		e.assume(st, Ge(nc, nl))
		ncap = Ite(fit, cp, nc)
	}
	return MkSlice(nr, off, nl, ncap)
}

// append(s, t...)
func (e *Exec) appendSlice(st *State, s, t *Term, et types.Type) *Term {
	tl := Sel("s_len", t)
	if tl.op == "int" && tl.ival <= 16 {
		var vs []*Term
		for i := int64(0); i < tl.ival; i++ {
			vs = append(vs, e.elemAt(st, t, Int(i), et))
		}
		return e.appendElems(st, s, et, vs)
	}
	c := elemComp(et)
	h := e.get(st, c)
	ref, off, ln, cp := Sel("s_ref", s), Sel("s_off", s), Sel("s_len", s), Sel("s_cap", s)
	nl := Add(ln, tl)
	fit := Le(nl, cp)
	fr := e.alloc(st)
	nr := Ite(fit, ref, fr)
	row := Fresh("approw", ArrSort(SInt, sortOf(et)))
	x := BV("x", SInt)
	sx := mk("select", "", sortOf(et), row, x)
	oldrow := Select(h, ref)
	trow := Select(h, Sel("s_ref", t))
	lo := Add(off, ln)
	e.assume(st, Forall([]*Term{x}, Imp(Or(Lt(x, lo), Ge(x, Add(lo, tl))), Eq(sx, Select(oldrow, x))), []*Term{sx}))
	e.assume(st, Forall([]*Term{x}, Imp(And(Ge(x, lo), Lt(x, Add(lo, tl))), Eq(sx, Select(trow, Add(x, Sel("s_off", t), MulK(-1, lo))))), []*Term{sx}))
	// the same fact seen from the appended slice
	y := BV("y", SInt)
	sy := mk("select", "", sortOf(et), trow, y)
	e.assume(st, Forall([]*Term{y}, Imp(And(Ge(y, Sel("s_off", t)), Lt(y, Add(Sel("s_off", t), tl))), Eq(Select(row, Add(y, lo, MulK(-1, Sel("s_off", t)))), sy)), []*Term{sy}))
	e.set(st, c, Store(h, nr, row))
	nc := Fresh("cap", SInt)
	e.assume(st, Ge(nc, nl))
	// append(nil, empty...) stays nil
	empty := And(Eq(tl, Int(0)))
	r := MkSlice(nr, off, nl, Ite(fit, cp, nc))
	return Ite(empty, s, r)
}

func (e *Exec) makeSlice(st *State, et types.Type, ln, cp *Term) *Term {
	r := e.alloc(st)
	if isStruct(et) {
		return MkSlice(r, Int(0), ln, cp)
	}
	c := elemComp(et)
	h := e.get(st, c)
	_, row := arrParts(h.sort)
	e.set(st, c, Store(h, r, ConstArr(row, zeroOf(sortOf(et)))))
	return MkSlice(r, Int(0), ln, cp)
}

// ---- merging ----

func mergeReach(es []edge) (*Term, []*Term) {
	if len(es) == 1 {
		return es[0].st.reach, []*Term{True}
	}
	// common conjuncts
	cnt := map[int]int{}
	for _, x := range es {
		seen := map[int]bool{}
		for _, t := range conj(x.st.reach) {
			if !seen[t.id] {
				cnt[t.id]++
				seen[t.id] = true
			}
		}
	}
	var conds []*Term
	var all []*Term
	for _, x := range es {
		var rest []*Term
		for _, t := range conj(x.st.reach) {
			if cnt[t.id] < len(es) {
				rest = append(rest, t)
			}
		}
		conds = append(conds, And(rest...))
		all = append(all, x.st.reach)
	}
	return Or(all...), conds
}

func (e *Exec) mergeStates(es []edge) (*State, []*Term) {
	if len(es) == 1 {
		return es[0].st.clone(), []*Term{True}
	}
	reach, conds := mergeReach(es)
	st := &State{reach: reach, comps: map[string]*Term{}}
	keys := map[string]bool{}
	for _, x := range es {
		for k := range x.st.comps {
			keys[k] = true
		}
	}
	for _, k := range sortedKeys(keys) {
		if strings.HasPrefix(k, "phi:") || strings.HasPrefix(k, "it:") {
			ok := true
			for _, x := range es {
				if x.st.comps[k] == nil {
					ok = false
				}
			}
			if !ok {
				continue
			}
		}
		var acc *Term
		for i := len(es) - 1; i >= 0; i-- {
			v := e.get(es[i].st, k)
			if acc == nil {
				acc = v
			} else {
				acc = Ite(conds[i], v, acc)
			}
		}
		st.comps[k] = acc
	}
	return st, conds
}

// ---- functions ----

var frameCnt int

func (e *Exec) newFrame(fn *ssa.Function) *Frame {
	frameCnt++
	return &Frame{fn: fn, env: map[ssa.Value]Val{}, id: frameCnt, pending: map[*ssa.BasicBlock][]edge{}, loops: loopsOf(fn)}
}

// call executes fn on args; returns the merged result (nil state reach False if it never returns).
func (e *Exec) callBody(st *State, fn *ssa.Function, args []Val, binds []Val) (Val, *State) {
	if len(fn.Blocks) == 0 {
		panic(unsupported("no body for %s", fn))
	}
	for _, f := range e.stack {
		if f == fn {
			panic(unsupported("recursive call of %s", fn))
		}
	}
	if len(e.stack) > 60 {
		panic(unsupported("call depth"))
	}
	e.stack = append(e.stack, fn)
	defer func() { e.stack = e.stack[:len(e.stack)-1] }()
	if e.P.repo[pkgPath(fn)] {
		e.inlined[fn.RelString(nil)] = true
	}
	fr := e.newFrame(fn)
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		fr.env[fv] = binds[i]
	}
	fr.pending[fn.Blocks[0]] = []edge{{st.clone(), nil}}
	e.runRegion(fr, nil, nil)
	if len(fr.rets) == 0 {
		return zeroVal(fn.Signature.Results()), &State{reach: False, comps: st.comps}
	}
	var es []edge
	for _, r := range fr.rets {
		es = append(es, edge{r.st, nil})
	}
	if len(e.stack) == 1 {
		e.rootRets = fr.rets
	}
	ms, conds := e.mergeStates(es)
	nres := fn.Signature.Results().Len()
	res := make([]Val, nres)
	for i := 0; i < nres; i++ {
		var acc Val
		for j := len(fr.rets) - 1; j >= 0; j-- {
			if acc == nil {
				acc = fr.rets[j].vs[i]
			} else {
				acc = iteVal(conds[j], fr.rets[j].vs[i], acc)
			}
		}
		res[i] = acc
	}
	for k := range ms.comps {
		if strings.HasPrefix(k, fmt.Sprintf("phi:%d:", fr.id)) {
			delete(ms.comps, k)
		}
	}
	if nres == 1 {
		return res[0], ms
	}
	return &TupleV{res}, ms
}
func pkgPath(fn *ssa.Function) string {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if fn.Origin() != nil && fn.Origin().Pkg != nil {
		return fn.Origin().Pkg.Pkg.Path()
	}
	if fn.Parent() != nil {
		return pkgPath(fn.Parent())
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

// runRegion processes the blocks of the function (lp == nil) or of one loop body.
// Edges leaving the loop are appended to fr.pending; edges back to the header are returned.
func (e *Exec) runRegion(fr *Frame, lp *loopT, backs *[]edge) {
	order := fr.loops.rpo
	for _, b := range order {
		if lp != nil && !lp.blocks[b] {
			continue
		}
		if lp != nil && b == lp.header {
			// handled by caller (header entered with phis set)
		} else if inner := fr.loops.innermost(b, lp); inner != nil {
			if b != inner.header {
				continue // executed as part of the inner loop
			}
			es := fr.pending[b]
			delete(fr.pending, b)
			es = liveEdges(es)
			if len(es) > 0 {
				e.execLoop(fr, inner, es)
				if lp != nil { // the inner loop may leave straight to our header
					*backs = append(*backs, fr.pending[lp.header]...)
					delete(fr.pending, lp.header)
				}
			}
			continue
		}
		es := liveEdges(fr.pending[b])
		delete(fr.pending, b)
		if len(es) == 0 {
			continue
		}
		st, conds := e.mergeStates(es)
		if lp == nil || b != lp.header {
			e.phis(fr, b, es, conds)
		}
		e.execBlock(fr, b, st, lp, backs)
	}
	for b, es := range fr.pending {
		if (lp == nil || lp.blocks[b]) && len(liveEdges(es)) > 0 {
			panic(unsupported("control flow edge to block " + b.String() + " of " + fr.fn.Name() + " was not followed"))
		}
	}
}
func liveEdges(es []edge) []edge {
	var out []edge
	for _, x := range es {
		if x.st.reach != False {
			out = append(out, x)
		}
	}
	return out
}

func (e *Exec) phis(fr *Frame, b *ssa.BasicBlock, es []edge, conds []*Term) {
	type pv struct {
		p *ssa.Phi
		v Val
	}
	var out []pv
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		var acc Val
		for i := len(es) - 1; i >= 0; i-- {
			v := e.phiEdge(fr, p, b, es[i].pred)
			if acc == nil {
				acc = v
			} else {
				acc = iteVal(conds[i], v, acc)
			}
		}
		out = append(out, pv{p, acc})
	}
	for _, x := range out {
		fr.env[x.p] = x.v
	}
}
func (e *Exec) phiEdge(fr *Frame, p *ssa.Phi, b, pred *ssa.BasicBlock) Val {
	for i, q := range b.Preds {
		if q == pred {
			return e.val(fr, p.Edges[i])
		}
	}
	panic("phi edge")
}

func (e *Exec) goEdge(fr *Frame, st *State, from, to *ssa.BasicBlock, lp *loopT, backs *[]edge) {
	if st.reach == False {
		return
	}
	if lp != nil && to == lp.header {
		*backs = append(*backs, edge{st, from})
		return
	}
	fr.pending[to] = append(fr.pending[to], edge{st, from})
}

var traceExec = os.Getenv("GOVC_TRACE") != ""

func (e *Exec) execBlock(fr *Frame, b *ssa.BasicBlock, st *State, lp *loopT, backs *[]edge) {
	for _, in := range b.Instrs {
		if traceExec {
			fmt.Fprintf(os.Stderr, "%s%s b%d %v\n", strings.Repeat(" ", len(e.stack)), fr.fn.Name(), b.Index, in)
		}
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Jump:
			e.goEdge(fr, st, b, b.Succs[0], lp, backs)
			return
		case *ssa.If:
			c := e.term(fr, in.Cond)
			t, f := st.clone(), st
			t.reach = And(st.reach, c)
			f.reach = And(st.reach, Not(c))
			t.under(c)
			f.under(Not(c))
			e.goEdge(fr, t, b, b.Succs[0], lp, backs)
			e.goEdge(fr, f, b, b.Succs[1], lp, backs)
			return
		case *ssa.Return:
			var vs []Val
			for _, r := range in.Results {
				vs = append(vs, e.val(fr, r))
			}
			fr.rets = append(fr.rets, retRec{st, vs})
			return
		case *ssa.Panic:
			e.safe(st, "panic", False, in.Pos())
			return
		default:
			e.instr(fr, st, in)
			if st.reach == False {
				return
			}
		}
	}
}

// under simplifies the state with a condition that holds on its path.
func (st *State) under(c *Term) {
	if c.op == "bool" || st.reach == False {
		return
	}
	sub := NewSubst()
	var lit func(c *Term)
	lit = func(c *Term) {
		switch c.op {
		case "and":
			for _, x := range c.args {
				lit(x)
			}
		case "not":
			sub.Set(c.args[0], False)
		default:
			sub.Set(c, True)
		}
	}
	lit(c)
	for k, t := range st.comps {
		if len(t.args) == 0 {
			continue
		}
		if u := sub.Apply(t); u != t {
			st.comps[k] = u
		}
	}
}

func (e *Exec) term(fr *Frame, v ssa.Value) *Term {
	x := e.val(fr, v)
	if t, ok := x.(*Term); ok {
		return t
	}
	return e.scalar(x)
}

// globals: fixed small references
var globalRef = map[*ssa.Global]int64{}

func (e *Exec) val(fr *Frame, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return e.constVal(v)
	case *ssa.Global:
		n, ok := globalRef[v]
		if !ok {
			n = int64(len(globalRef) + 1)
			globalRef[v] = n
		}
		return Int(n)
	case *ssa.Function:
		return &ClosV{fn: v}
	case *ssa.Builtin:
		return &BuiltinV{v.Name()}
	}
	x, ok := fr.env[v]
	if !ok {
		panic(unsupported("value %s of %s not available", v.Name(), fr.fn))
	}
	return x
}

func (e *Exec) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		if _, ok := t.(*types.Tuple); ok {
			return zeroVal(t)
		}
		if _, ok := under(t).(*types.Signature); ok {
			return Int(0)
		}
		return zeroVal(t)
	}
	return constTerm(c.Value, t)
}
func constTerm(v constant.Value, t types.Type) *Term {
	switch sortOf(t) {
	case SBool:
		return Bool(constant.BoolVal(v))
	case SStr:
		return StrLit(constant.StringVal(v))
	case SF64:
		return floatLit(v)
	}
	i := constant.ToInt(v)
	if n, ok := constant.Int64Val(i); ok {
		return Int(n)
	}
	if b, ok := constant.Val(i).(*big.Int); ok {
		return mk("uf", "bigint_"+b.String(), SInt)
	}
	panic(unsupported("constant %s", v))
}
func floatLit(v constant.Value) *Term {
	f := constant.ToFloat(v)
	num, den := constant.Num(f), constant.Denom(f)
	if num.Kind() == constant.Unknown {
		x, _ := constant.Float64Val(f)
		return Ctor("mkf", False, rlit(fmt.Sprintf("%f", x)))
	}
	s := fmt.Sprintf("(/ %s.0 %s.0)", num.ExactString(), den.ExactString())
	if constant.Sign(num) < 0 {
		s = fmt.Sprintf("(/ (- %s.0) %s.0)", constant.UnaryOp(token.SUB, num, 0).ExactString(), den.ExactString())
	}
	if constant.Sign(num) == 0 {
		s = "0.0"
	}
	return Ctor("mkf", False, rlit(s))
}

func (e *Exec) instr(fr *Frame, st *State, in ssa.Instruction) {
	set := func(v Val) {
		if x, ok := in.(ssa.Value); ok {
			fr.env[x] = v
		}
	}
	switch in := in.(type) {
	case *ssa.Alloc:
		et := in.Type().(*types.Pointer).Elem()
		if virtualVarargs(in) {
			if fr.varr == nil {
				fr.varr = map[*ssa.Alloc][]*Term{}
			}
			fr.varr[in] = make([]*Term, under(et).(*types.Array).Len())
			return
		}
		p := e.newObject(st, et)
		if t, ok := p.(*Term); ok && !isStruct(et) && !isArrayT(et) {
			e.cellVars = append(e.cellVars, cellVar{t, et})
		}
		set(p)
	case *ssa.BinOp:
		set(e.binop(st, in.Op, e.val(fr, in.X), e.val(fr, in.Y), in.X.Type(), in.Y.Type(), in.Pos()))
	case *ssa.UnOp:
		e.unop(fr, st, in)
	case *ssa.Call:
		set(e.call(fr, st, &in.Call, in.Pos(), in.Type()))
	case *ssa.ChangeType:
		set(e.val(fr, in.X))
	case *ssa.ChangeInterface:
		set(e.val(fr, in.X))
	case *ssa.MakeInterface:
		set(toIface(e.val(fr, in.X), in.X.Type()))
	case *ssa.Convert:
		set(e.convert(st, e.val(fr, in.X), in.X.Type(), in.Type()))
	case *ssa.MultiConvert:
		set(e.convert(st, e.val(fr, in.X), in.X.Type(), in.Type()))
	case *ssa.MakeClosure:
		c := &ClosV{fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			c.binds = append(c.binds, e.val(fr, b))
		}
		set(c)
	case *ssa.MakeMap:
		set(e.makeMap(st, under(in.Type()).(*types.Map)))
	case *ssa.MakeChan:
		r := e.alloc(st)
		e.hookMakeChan(st, r, in.Type(), e.term(fr, in.Size))
		set(r)
	case *ssa.MakeSlice:
		ln, cp := e.term(fr, in.Len), e.term(fr, in.Cap)
		e.safe(st, "makeslice", And(Ge(ln, Int(0)), Le(ln, cp)), in.Pos())
		set(e.makeSlice(st, under(in.Type()).(*types.Slice).Elem(), ln, cp))
	case *ssa.Slice:
		set(e.slice(fr, st, in))
	case *ssa.FieldAddr:
		p := e.term(fr, in.X)
		e.nilCheck(st, p, in.Pos())
		t := in.X.Type().Underlying().(*types.Pointer).Elem()
		s := under(t).(*types.Struct)
		ft := s.Field(in.Field).Type()
		if isStruct(ft) || isArrayT(ft) {
			set(emb(p, in.Field))
		} else {
			set(&AddrV{comp: fieldComp(t, in.Field), ref: p, typ: ft})
		}
	case *ssa.Field:
		sv, ok := e.val(fr, in.X).(*StructV)
		if !ok {
			panic(unsupported("field of %T", e.val(fr, in.X)))
		}
		set(sv.fs[in.Field])
	case *ssa.IndexAddr:
		if a, ok := in.X.(*ssa.Alloc); ok && fr.varr[a] != nil {
			return
		}
		i := e.term(fr, in.Index)
		switch t := in.X.Type().Underlying().(type) {
		case *types.Slice:
			s := e.term(fr, in.X)
			e.safe(st, "index", And(Ge(i, Int(0)), Lt(i, Sel("s_len", s))), in.Pos())
			if isStruct(t.Elem()) {
				set(elemStruct(Sel("s_ref", s), Add(Sel("s_off", s), i)))
				return
			}
			set(&AddrV{comp: elemComp(t.Elem()), ref: Sel("s_ref", s), idx: Add(Sel("s_off", s), i), typ: t.Elem()})
		case *types.Pointer:
			at := under(t.Elem()).(*types.Array)
			p := e.term(fr, in.X)
			e.nilCheck(st, p, in.Pos())
			e.safe(st, "index", And(Ge(i, Int(0)), Lt(i, Int(at.Len()))), in.Pos())
			if isStruct(at.Elem()) {
				set(elemStruct(p, i))
				return
			}
			set(&AddrV{comp: elemComp(at.Elem()), ref: p, idx: i, typ: at.Elem()})
		default:
			panic(unsupported("IndexAddr on %s", in.X.Type()))
		}
	case *ssa.Index:
		i := e.term(fr, in.Index)
		switch t := in.X.Type().Underlying().(type) {
		case *types.Array:
			e.safe(st, "index", And(Ge(i, Int(0)), Lt(i, Int(t.Len()))), in.Pos())
			set(Select(e.term(fr, in.X), i))
		default: // string
			s := e.term(fr, in.X)
			e.safe(st, "index", And(Ge(i, Int(0)), Lt(i, strLen(s))), in.Pos())
			b := UF("byteAt", SInt, s, i)
			e.assume(st, And(Ge(b, Int(0)), Le(b, Int(255))))
			set(b)
		}
	case *ssa.Lookup:
		if mt, ok := in.X.Type().Underlying().(*types.Map); ok {
			k := e.keyTerm(e.val(fr, in.Index), mt.Key())
			v, ok := e.mapLookup(st, e.term(fr, in.X), k, mt)
			if in.CommaOk {
				set(&TupleV{[]Val{v, ok}})
			} else {
				set(v)
			}
			return
		}
		s, i := e.term(fr, in.X), e.term(fr, in.Index)
		e.safe(st, "index", And(Ge(i, Int(0)), Lt(i, strLen(s))), in.Pos())
		set(UF("byteAt", SInt, s, i))
	case *ssa.MapUpdate:
		mt := in.Map.Type().Underlying().(*types.Map)
		m := e.term(fr, in.Map)
		e.safe(st, "nilmap", Ne(m, Int(0)), in.Pos())
		e.mapUpdate(st, m, e.keyTerm(e.val(fr, in.Key), mt.Key()), e.scalar(e.val(fr, in.Value)), mt)
	case *ssa.Store:
		if ia, ok := in.Addr.(*ssa.IndexAddr); ok {
			if a, ok := ia.X.(*ssa.Alloc); ok && fr.varr[a] != nil {
				i, _ := constant.Int64Val(ia.Index.(*ssa.Const).Value)
				fr.varr[a][i] = e.scalar(e.val(fr, in.Val))
				return
			}
		}
		p := e.val(fr, in.Addr)
		if t, ok := p.(*Term); ok {
			e.nilCheck(st, t, in.Pos())
		}
		e.storePtr(st, p, e.val(fr, in.Val), in.Val.Type())
	case *ssa.Range:
		set(e.rangeStart(st, e.val(fr, in.X), in.X.Type()))
	case *ssa.Next:
		set(e.rangeNext(fr, st, in))
	case *ssa.TypeAssert:
		e.typeAssert(fr, st, in)
	case *ssa.Extract:
		switch tv := e.val(fr, in.Tuple).(type) {
		case *TupleV:
			set(tv.vs[in.Index])
		default:
			panic(unsupported("extract from %T", tv))
		}
	case *ssa.Send:
		e.send(st, e.term(fr, in.Chan), e.val(fr, in.X), in.Chan.Type(), in.Pos())
	case *ssa.Select:
		set(e.selectStmt(fr, st, in))
	case *ssa.Go:
		e.goStmt(fr, st, in)
	case *ssa.Defer:
		d := deferRec{reach: st.reach, call: &in.Call, inst: in}
		for _, a := range in.Call.Args {
			d.args = append(d.args, e.val(fr, a))
		}
		d.fnv = e.val(fr, in.Call.Value)
		fr.defers = append(fr.defers, d)
	case *ssa.RunDefers:
		e.runDefers(fr, st)
	default:
		panic(unsupported("instruction %T %v", in, in))
	}
}

func elemStruct(ref, i *Term) *Term { return UF("elemref", SInt, ref, i) }

func (e *Exec) keyTerm(v Val, t types.Type) *Term { return e.scalar(v) }

func strLen(s *Term) *Term {
	if s.op == "str" {
		return Int(int64(len(s.name)))
	}
	return UF("strlen", SInt, s)
}

func (e *Exec) nilCheck(st *State, p *Term, pos token.Pos) {
	if e.isNonNil(p) {
		return
	}
	e.safe(st, "nil", Ne(p, Int(0)), pos)
}
func (e *Exec) isNonNil(p *Term) bool {
	if p.op == "int" {
		return p.ival != 0
	}
	if e.nonnil[p.id] {
		return true
	}
	if p.op == "ite" {
		return e.isNonNil(p.args[1]) && e.isNonNil(p.args[2])
	}
	// embedded struct: -64*r - k
	l := toLin(p)
	if len(l.ks) == 1 && l.m[l.ks[0].id] == -64 && l.c < 0 && l.c > -64 {
		return true // nil base already checked at FieldAddr
	}
	if len(l.ks) == 1 && l.m[l.ks[0].id] == 1 && l.c >= 0 && e.nonnil[l.ks[0].id] {
		return true
	}
	return false
}

func (e *Exec) runDefers(fr *Frame, st *State) {
	ds := fr.defers
	for i := len(ds) - 1; i >= 0; i-- {
		d := ds[i]
		// executed only on paths that passed the defer statement
		cond := relCond(d.reach, st.reach)
		if cond == False {
			continue
		}
		if cond == True {
			e.callDeferred(fr, st, d)
			continue
		}
		on := st.clone()
		on.reach = And(st.reach, cond)
		off := st.clone()
		off.reach = And(st.reach, Not(cond))
		e.callDeferred(fr, on, d)
		ms, _ := e.mergeStates([]edge{{on, nil}, {off, nil}})
		*st = *ms
	}
}

// relCond: the part of d that does not already follow from r (r syntactically implies the common conjuncts).
func relCond(d, r *Term) *Term {
	have := map[int]bool{}
	for _, c := range conj(r) {
		have[c.id] = true
	}
	var rest []*Term
	for _, c := range conj(d) {
		if !have[c.id] {
			if have[Not(c).id] {
				return False
			}
			rest = append(rest, c)
		}
	}
	return And(rest...)
}
func (e *Exec) callDeferred(fr *Frame, st *State, d deferRec) {
	e.callCommon(fr, st, d.call, d.fnv, d.args, d.inst.Pos(), nil)
}

func (e *Exec) binop(st *State, op token.Token, a, b Val, ta, tb types.Type, pos token.Pos) Val {
	if op == token.EQL || op == token.NEQ {
		t := e.eqVal(st, a, b, ta, tb)
		if op == token.NEQ {
			return Not(t)
		}
		return t
	}
	x, y := e.scalar(a), e.scalar(b)
	switch x.sort {
	case SInt:
		switch op {
		case token.ADD:
			return Add(x, y)
		case token.SUB:
			return Sub(x, y)
		case token.MUL:
			return Mul(x, y)
		case token.QUO:
			e.safe(st, "div", Ne(y, Int(0)), pos)
			return e.divmod(st, x, y, true)
		case token.REM:
			e.safe(st, "div", Ne(y, Int(0)), pos)
			return e.divmod(st, x, y, false)
		case token.LSS:
			return Lt(x, y)
		case token.LEQ:
			return Le(x, y)
		case token.GTR:
			return Gt(x, y)
		case token.GEQ:
			return Ge(x, y)
		}
		return UF("intop"+op.String(), SInt, x, y)
	case SF64:
		switch op {
		case token.LSS:
			return fcmp("rlt", x, y)
		case token.LEQ:
			return fcmp("rle", x, y)
		case token.GTR:
			return fcmp("rlt", y, x)
		case token.GEQ:
			return fcmp("rle", y, x)
		}
		return UF("fop"+op.String(), SF64, x, y)
	case SStr:
		switch op {
		case token.ADD:
			return strConcat(x, y)
		}
		return UF("strcmp"+op.String(), SBool, x, y)
	case SBool:
		switch op {
		case token.AND, token.LAND:
			return And(x, y)
		case token.OR, token.LOR:
			return Or(x, y)
		}
	}
	panic(unsupported("binop %s on %s", op, ta))
}
func strConcat(x, y *Term) *Term { return concat2(x, y) }

// fcmp on F64: false if either is NaN.
func fcmp(op string, x, y *Term) *Term {
	return And(Not(Sel("f_nan", x)), Not(Sel("f_nan", y)), mk("uf", op, SBool, Sel("f_ord", x), Sel("f_ord", y)))
}

// Go division truncates toward zero.
func (e *Exec) divmod(st *State, x, y *Term, quo bool) *Term {
	if x.op == "int" && y.op == "int" && y.ival != 0 {
		if quo {
			return Int(x.ival / y.ival)
		}
		return Int(x.ival % y.ival)
	}
	d := mk("intdiv", "", SInt, x, y) // SMT div: floor for positive divisor
	m := mk("intmod", "", SInt, x, y)
	if y.op == "int" && y.ival > 0 {
		if quo {
			return Ite(Or(Ge(x, Int(0)), Eq(m, Int(0))), d, Add(d, Int(1)))
		}
		return Ite(Or(Ge(x, Int(0)), Eq(m, Int(0))), m, Sub(m, y))
	}
	if quo {
		return UF("goquo", SInt, x, y)
	}
	return UF("gorem", SInt, x, y)
}

func (e *Exec) eqVal(st *State, a, b Val, ta, tb types.Type) *Term {
	if sa, ok := a.(*StructV); ok {
		sb := b.(*StructV)
		var cs []*Term
		s := under(sa.typ).(*types.Struct)
		for i := range sa.fs {
			if sa.fs[i] == nil {
				continue
			}
			cs = append(cs, e.eqVal(st, sa.fs[i], sb.fs[i], s.Field(i).Type(), s.Field(i).Type()))
		}
		return And(cs...)
	}
	if _, ok := a.(*ClosV); ok {
		return False // compared with nil only
	}
	if _, ok := b.(*ClosV); ok {
		return False
	}
	x, y := e.scalar(a), e.scalar(b)
	_, ia := under(ta).(*types.Interface)
	_, ib := under(tb).(*types.Interface)
	if ia && !ib {
		y = toIface(y, tb)
	}
	if ib && !ia {
		x = toIface(x, ta)
	}
	if x.sort == SSlice { // comparison with nil
		return Eq(Sel("s_ref", ite2(x, y)), Int(0))
	}
	if x.sort == SF64 {
		return And(Not(Sel("f_nan", x)), Not(Sel("f_nan", y)), Eq2(Sel("f_ord", x), Sel("f_ord", y)))
	}
	return Eq(x, y)
}
func Eq2(a, b *Term) *Term {
	if a == b {
		return True
	}
	if before(b, a) {
		a, b = b, a
	}
	return mk("=", "", SBool, a, b)
}
func ite2(x, y *Term) *Term {
	if x == NilSlice {
		return y
	}
	return x
}

func (e *Exec) unop(fr *Frame, st *State, in *ssa.UnOp) {
	switch in.Op {
	case token.MUL:
		p := e.val(fr, in.X)
		if t, ok := p.(*Term); ok {
			e.nilCheck(st, t, in.Pos())
		}
		v := e.loadPtr(st, p, in.Type())
		if t, ok := v.(*Term); ok {
			if c, ok := e.closDefs[t.id]; ok {
				v = c
			}
		}
		fr.env[in] = v
	case token.NOT:
		fr.env[in] = Not(e.term(fr, in.X))
	case token.SUB:
		x := e.term(fr, in.X)
		if x.sort == SF64 {
			fr.env[in] = UF("fneg", SF64, x)
			return
		}
		fr.env[in] = MulK(-1, x)
	case token.ARROW:
		v, ok := e.recv(st, e.term(fr, in.X), in.X.Type(), in.Pos())
		if in.CommaOk {
			fr.env[in] = &TupleV{[]Val{v, ok}}
		} else {
			fr.env[in] = v
		}
	default:
		fr.env[in] = UF("intun"+in.Op.String(), SInt, e.term(fr, in.X))
	}
}

func (e *Exec) convert(st *State, v Val, from, to types.Type) Val {
	fs, ts := sortOf(from), sortOf(to)
	x := e.scalar(v)
	if fs == SInt && ts == SInt {
		fb, ok1 := under(from).(*types.Basic)
		tb, ok2 := under(to).(*types.Basic)
		if ok1 && ok2 && narrows(fb, tb) {
			if x.op == "int" {
				return Int(wrapInt(x.ival, tb))
			}
			return e.wrap(st, x, tb)
		}
		return x
	}
	if fs == ts {
		return x
	}
	switch {
	case fs == SSlice && ts == SStr: // []byte -> string
		et := under(from).(*types.Slice).Elem()
		row := Select(e.get(st, elemComp(et)), Sel("s_ref", x))
		return e.bytesToStr(st, row, Sel("s_off", x), Sel("s_len", x))
	case fs == SStr && ts == SSlice:
		et := under(to).(*types.Slice).Elem()
		r := e.alloc(st)
		c := elemComp(et)
		row := UF("strbytes", ArrSort(SInt, SInt), x)
		e.set(st, c, Store(e.get(st, c), r, row))
		n := strLen(x)
		e.assume(st, Ge(n, Int(0)))
		return MkSlice(r, Int(0), n, n)
	case fs == SInt && ts == SStr:
		return UF("runestr", SStr, x)
	case fs == SInt && ts == SF64:
		if x.op == "int" {
			return floatLit(constant.MakeInt64(x.ival))
		}
		return Ctor("mkf", False, mk("uf", "to_real", "Real", x))
	case fs == SF64 && ts == SInt:
		return UF("f2i", SInt, x)
	}
	panic(unsupported("conversion %s -> %s", from, to))
}

// string(b) and []byte(s) are inverse
func (e *Exec) bytesToStr(st *State, row, off, ln *Term) *Term {
	if row.op == "uf" && row.name == "strbytes" && off == Int(0) && ln == strLen(row.args[0]) {
		return row.args[0]
	}
	s := UF("bytestr", SStr, row, off, ln)
	e.assume(st, Eq(strLen(s), ln))
	return s
}
func narrows(f, t *types.Basic) bool {
	fl, fh := intRange(f)
	tl, th := intRange(t)
	return fl < tl || fh > th
}
func intRange(b *types.Basic) (float64, float64) {
	switch b.Kind() {
	case types.Int8:
		return -128, 127
	case types.Int16:
		return -32768, 32767
	case types.Int32, types.UntypedRune:
		return math.MinInt32, math.MaxInt32
	case types.Uint8:
		return 0, 255
	case types.Uint16:
		return 0, 65535
	case types.Uint32:
		return 0, math.MaxUint32
	case types.Uint, types.Uint64, types.Uintptr:
		return 0, math.MaxUint64
	}
	return math.MinInt64, math.MaxInt64
}
func wrapInt(n int64, b *types.Basic) int64 {
	switch b.Kind() {
	case types.Int8:
		return int64(int8(n))
	case types.Int16:
		return int64(int16(n))
	case types.Int32:
		return int64(int32(n))
	case types.Uint8:
		return int64(uint8(n))
	case types.Uint16:
		return int64(uint16(n))
	case types.Uint32:
		return int64(uint32(n))
	}
	return n
}
func (e *Exec) wrap(st *State, x *Term, b *types.Basic) *Term {
	lo, hi := intRange(b)
	if hi > 1e15 {
		// 64-bit: same-width reinterpretation; exact on the common range
		w := UF("wrap64_"+b.Name(), SInt, x)
		e.assume(st, Imp(Ge(x, Int(0)), Eq(w, x)))
		return w
	}
	w := UF("wrap_"+b.Name(), SInt, x)
	e.assume(st, Imp(And(Ge(x, Int(int64(lo))), Le(x, Int(int64(hi)))), Eq(w, x)))
	e.assume(st, And(Ge(w, Int(int64(lo))), Le(w, Int(int64(hi)))))
	return w
}

// virtualVarargs: the array go/ssa makes for the operands of a variadic call. It is only written
// here, sliced whole, and handed to an append or to a call that does not keep it, so its elements
// need no place in the heap.
func virtualVarargs(a *ssa.Alloc) bool {
	if a.Comment != "varargs" {
		return false
	}
	at, ok := under(a.Type().(*types.Pointer).Elem()).(*types.Array)
	if !ok || isStruct(at.Elem()) || isArrayT(at.Elem()) || at.Len() > 16 {
		return false
	}
	stored := map[int64]bool{}
	slices := 0
	for _, r := range *a.Referrers() {
		switch r := r.(type) {
		case *ssa.IndexAddr:
			k, ok := r.Index.(*ssa.Const)
			if !ok || r.Block() != a.Block() || len(*r.Referrers()) != 1 {
				return false
			}
			w, ok := (*r.Referrers())[0].(*ssa.Store)
			if !ok || w.Addr != r || w.Block() != a.Block() {
				return false
			}
			i, _ := constant.Int64Val(k.Value)
			if stored[i] {
				return false
			}
			stored[i] = true
		case *ssa.Slice:
			slices++
			if r.Low != nil || r.High != nil || r.Max != nil || r.Block() != a.Block() || len(*r.Referrers()) != 1 {
				return false
			}
			c, ok := (*r.Referrers())[0].(*ssa.Call)
			if !ok || c.Block() != a.Block() {
				return false
			}
			cc := c.Common()
			if b, ok := cc.Value.(*ssa.Builtin); ok {
				if b.Name() != "append" || cc.Args[1] != r || cc.Args[0] == r {
					return false
				}
			} else if cc.IsInvoke() {
				if !isLogger("(" + typeKey(cc.Value.Type()) + ")." + cc.Method.Name()) {
					return false
				}
			} else if fn := cc.StaticCallee(); fn == nil || !(isLogger(fnName(fn)) || fnName(fn) == "fmt.Sprintf" || fnName(fn) == "fmt.Errorf" || fnName(fn) == "fmt.Sprint") {
				return false
			}
		default:
			return false
		}
	}
	return slices == 1 && int64(len(stored)) == at.Len()
}

func (e *Exec) slice(fr *Frame, st *State, in *ssa.Slice) Val {
	if a, ok := in.X.(*ssa.Alloc); ok && fr.varr[a] != nil {
		r := Fresh("varargs", SInt)
		e.assume(st, Gt(r, Int(0)))
		if e.varr == nil {
			e.varr = map[*Term][]*Term{}
		}
		e.varr[r] = fr.varr[a]
		n := Int(int64(len(fr.varr[a])))
		return MkSlice(r, Int(0), n, n)
	}
	var lo, hi, mx *Term
	if in.Low != nil {
		lo = e.term(fr, in.Low)
	} else {
		lo = Int(0)
	}
	if in.High != nil {
		hi = e.term(fr, in.High)
	}
	if in.Max != nil {
		mx = e.term(fr, in.Max)
	}
	switch t := in.X.Type().Underlying().(type) {
	case *types.Slice:
		s := e.term(fr, in.X)
		if hi == nil {
			hi = Sel("s_len", s)
		}
		cp := Sel("s_cap", s)
		if mx == nil {
			mx = cp
		}
		e.safe(st, "slice", And(Ge(lo, Int(0)), Le(lo, hi), Le(hi, mx), Le(mx, cp)), in.Pos())
		return MkSlice(Sel("s_ref", s), Add(Sel("s_off", s), lo), Sub(hi, lo), Sub(mx, lo))
	case *types.Pointer:
		at := under(t.Elem()).(*types.Array)
		p := e.term(fr, in.X)
		n := Int(at.Len())
		if hi == nil {
			hi = n
		}
		if mx == nil {
			mx = n
		}
		e.safe(st, "slice", And(Ge(lo, Int(0)), Le(lo, hi), Le(hi, mx), Le(mx, n)), in.Pos())
		return MkSlice(p, lo, Sub(hi, lo), Sub(mx, lo))
	case *types.Basic:
		s := e.term(fr, in.X)
		if hi == nil {
			hi = strLen(s)
		}
		e.safe(st, "slice", And(Ge(lo, Int(0)), Le(lo, hi), Le(hi, strLen(s))), in.Pos())
		if lo == Int(0) && hi == strLen(s) {
			return s
		}
		r := UF("substr", SStr, s, lo, hi)
		e.assume(st, Eq(strLen(r), Sub(hi, lo)))
		return r
	}
	panic(unsupported("slice of %s", in.X.Type()))
}

func (e *Exec) typeAssert(fr *Frame, st *State, in *ssa.TypeAssert) {
	x := e.term(fr, in.X)
	if _, ok := under(in.AssertedType).(*types.Interface); ok {
		var okT *Term
		if types.IsInterface(in.X.Type()) && types.AssignableTo(in.X.Type(), in.AssertedType) {
			okT = Ne(x, INil)
		} else {
			okT = And(Ne(x, INil), UF("implements_"+typeKey(in.AssertedType), SBool, x))
		}
		if in.CommaOk {
			fr.env[in] = &TupleV{[]Val{Ite(okT, x, INil), okT}}
			return
		}
		e.safe(st, "typeassert", okT, in.Pos())
		fr.env[in] = x
		return
	}
	v, ok := fromIface(x, in.AssertedType)
	if in.CommaOk {
		fr.env[in] = &TupleV{[]Val{iteVal(ok, v, zeroVal(in.AssertedType)), ok}}
		return
	}
	e.safe(st, "typeassert", ok, in.Pos())
	fr.env[in] = v
}

// ---- ranging over maps and strings ----

func (e *Exec) rangeStart(st *State, x Val, t types.Type) Val {
	mt, ok := under(t).(*types.Map)
	if !ok {
		panic(unsupported("range over %s", t))
	}
	m := e.scalar(x)
	frameCnt++
	pos := comp(fmt.Sprintf("it:%d", frameCnt), SInt, nil, "iter")
	e.set(st, pos, Int(0))
	d, v, _ := mapComps(mt)
	dom := Select(e.get(st, d), m)
	n := e.mapLen(st, m, mt)
	keys, pidx := e.permutation2(st, dom, n, sortOf(mt.Key()))
	return &IterV{m: m, mt: mt, keys: keys, n: n, pos: pos, dom0: dom, vcmp: v, pidx: pidx}
}

// permutation: keys[0..n) enumerates dom, each key once.
func (e *Exec) permutation2(st *State, dom, n *Term, ks Sort) (*Term, *Term) {
	keys := Fresh("keys", ArrSort(SInt, ks))
	pidx := Fresh("pidx", ArrSort(ks, SInt))
	i := BV("i", SInt)
	ki := Select(keys, i)
	e.assume(st, Forall([]*Term{i}, Imp(And(Ge(i, Int(0)), Lt(i, n)), And(Select(dom, ki), Eq(Select(pidx, ki), i))), []*Term{ki}))
	k := BV("k", ks)
	pk := Select(pidx, k)
	body := Imp(Select(dom, k), And(Ge(pk, Int(0)), Lt(pk, n), Eq(Select(keys, pk), k)))
	e.assume(st, Forall([]*Term{k}, body, []*Term{pk}))
	dk := Select(dom, k)
	if dk.op == "select" {
		e.assume(st, Forall([]*Term{k}, body, []*Term{dk}))
	} else {
		e.assume(st, Forall([]*Term{k}, body))
	}
	markIdx(pidx)
	return keys, pidx
}

func (e *Exec) rangeNext(fr *Frame, st *State, in *ssa.Next) Val {
	it, ok := e.val(fr, in.Iter).(*IterV)
	if !ok {
		panic(unsupported("range iterator"))
	}
	p := e.get(st, it.pos)
	more := Lt(p, it.n)
	e.assume(st, Ge(p, Int(0)))
	k := Select(it.keys, p)
	e.assume(st, Imp(more, Select(it.dom0, k)))
	e.wfVal(st, k, it.mt.Key())
	// a key deleted during iteration is skipped; the value is read now
	cur := Select(e.get(st, it.vcmp), it.m)
	v := Select(cur, k)
	e.set(st, it.pos, Add(p, Int(1)))
	d, _, _ := mapComps(it.mt)
	if Select(e.get(st, d), it.m) != it.dom0 {
		// entries added or removed during iteration: enumeration is only known for the initial keys
		e.note("map modified during iteration in " + fr.fn.Name())
	}
	if e.hasHook("maprange") && more != False {
		on, off := st.clone(), st.clone()
		on.reach, off.reach = And(st.reach, more), And(st.reach, Not(more))
		e.runHooks(on, "maprange", it.mt, "", []SVal{{v: it.m, t: it.mt}, {v: k, t: it.mt.Key()}, {v: v, t: it.mt.Elem()}}, nil, true)
		ms, _ := e.mergeStates([]edge{{on, nil}, {off, nil}})
		*st = *ms
	}
	return &TupleV{[]Val{more, k, v}}
}

func (e *Exec) note(s string) { e.notes[s] = true }

func sortObls(os []*Obl) { sort.Slice(os, func(i, j int) bool { return os[i].Name < os[j].Name }) }
