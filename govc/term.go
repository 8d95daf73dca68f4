package main

// Hash-consed SMT terms with light simplification.

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
)

type Sort string

const (
	SInt   Sort = "Int"
	SBool  Sort = "Bool"
	SStr   Sort = "Str"
	SSlice Sort = "Slice"
	SIface Sort = "Iface"
	SF64   Sort = "F64"
)

func ArrSort(i, e Sort) Sort { return Sort("(Array " + string(i) + " " + string(e) + ")") }

// arrParts splits "(Array I E)".
func arrParts(s Sort) (Sort, Sort) {
	str := string(s)
	if !strings.HasPrefix(str, "(Array ") {
		panic("not an array sort: " + str)
	}
	str = str[7 : len(str)-1]
	// first sort
	depth := 0
	for i, c := range str {
		if c == '(' {
			depth++
		} else if c == ')' {
			depth--
		} else if c == ' ' && depth == 0 {
			return Sort(str[:i]), Sort(str[i+1:])
		}
	}
	panic("bad array sort " + string(s))
}
func isArr(s Sort) bool { return strings.HasPrefix(string(s), "(Array ") }

type Term struct {
	id    int
	op    string // const, var, int, bool, str, + * < <= = and or not ite select store forall exists uf ctor:<..> sel:<..>
	name  string
	args  []*Term
	sort  Sort
	ival  int64
	bvs   []*Term
	trig  [][]*Term
	kind  string // for quantifiers: "hist" (engine instantiated) or ""
	hasBV bool
	hasQ  bool
	par   bool // made while queries are prepared in parallel: its number says nothing
	size  int
	ord   uint64 // a hash of the content, the order of such terms
	next  *Term  // in the hash-cons table
}

// before is a total order that does not depend on timing: terms of the program by age, those of queries by content.
func before(a, b *Term) bool {
	if a.par != b.par {
		return !a.par
	}
	if !a.par || a.ord == b.ord {
		return a.id < b.id
	}
	return a.ord < b.ord
}

const nShards = 256

type shard struct {
	mu  sync.Mutex
	tab map[uint64]*Term
	par []uint64 // hashes of the chains with terms made in parallel
}

var shards [nShards]shard

func init0() bool {
	for i := range shards {
		shards[i].tab = map[uint64]*Term{}
	}
	return true
}

var shardsReady = init0()
var parPhase bool // set and cleared while a single goroutine runs

// evict forgets the terms made in parallel.
func evict() {
	for i := range shards {
		sh := &shards[i]
		for _, h := range sh.par {
			var head *Term
			var tail *Term
			for t := sh.tab[h]; t != nil; {
				n := t.next
				if !t.par {
					t.next = nil
					if tail == nil {
						head = t
					} else {
						tail.next = t
					}
					tail = t
				}
				t = n
			}
			if head == nil {
				delete(sh.tab, h)
			} else {
				sh.tab[h] = head
			}
		}
		sh.par = nil
	}
}

func strHash(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}
func mix(h, x uint64) uint64 {
	h ^= x + 0x9e3779b97f4a7c15 + h<<6 + h>>2
	h *= 0xff51afd7ed558ccd
	return h ^ h>>32
}

var (
	termCnt  int64
	freshCnt int
)

func mk(op, name string, s Sort, args ...*Term) *Term { return mkInit(op, name, s, args, nil) }

// frozen: the proof has been given up; no more terms are built while the outcome is reported.
var frozen atomic.Bool

func mkInit(op, name string, s Sort, args []*Term, set func(t *Term)) *Term {
	if frozen.Load() {
		select {}
	}
	ordName := name
	if op == "forall" || op == "exists" {
		ordName = name[:strings.IndexByte(name, '#')]
	}
	o := mix(mix(strHash(op), strHash(ordName)), strHash(string(s)))
	h := strHash(name)
	for _, a := range args {
		o = mix(o, a.ord)
	}
	h = mix(h, o)
	sh := &shards[h%nShards]
	sh.mu.Lock()
	defer sh.mu.Unlock()
	head := sh.tab[h]
scan:
	for t := head; t != nil; t = t.next {
		if len(t.args) != len(args) || t.op != op || t.name != name || t.sort != s {
			continue
		}
		for i, a := range args {
			if t.args[i] != a {
				continue scan
			}
		}
		return t
	}
	t := &Term{id: int(atomic.AddInt64(&termCnt, 1)), op: op, name: name, sort: s, args: args, size: 1, par: parPhase, ord: o}
	for _, a := range args {
		if a.hasBV {
			t.hasBV = true
		}
		if a.hasQ {
			t.hasQ = true
		}
		t.size += a.size
		if t.size > 1<<40 {
			t.size = 1 << 40
		}
	}
	if op == "var" {
		t.hasBV = true
	}
	if set != nil {
		set(t)
	}
	t.next = head
	sh.tab[h] = t
	if t.par {
		sh.par = append(sh.par, h)
	}
	return t
}

var (
	_     = shardsReady
	True  = mk("bool", "true", SBool)
	False = mk("bool", "false", SBool)
)

func Bool(b bool) *Term {
	if b {
		return True
	}
	return False
}

// intAtom: numbers too large for the overflow-free linear normal form are kept as opaque numerals.
func intAtom(n int64) *Term {
	if n < 0 {
		return mk("rlit", "(- "+strings.TrimPrefix(fmt.Sprint(n), "-")+")", SInt)
	}
	return mk("rlit", fmt.Sprint(n), SInt)
}
func ckMul(a, b int64) int64 {
	if a == 0 || b == 0 {
		return 0
	}
	c := a * b
	if c/b != a || a == -1<<63 || b == -1<<63 {
		panic(unsupported("numeral overflow in the verifier"))
	}
	return c
}
func ckAdd(a, b int64) int64 {
	c := a + b
	if (c > a) != (b > 0) && b != 0 {
		panic(unsupported("numeral overflow in the verifier"))
	}
	return c
}

func Int(n int64) *Term {
	if n > 1<<61 || n < -1<<61 {
		return intAtom(n)
	}

	return mkInit("int", strconv.FormatInt(n, 10), SInt, nil, func(t *Term) { t.ival = n })
}
func Const(name string, s Sort) *Term { return mk("const", name, s) }
func Fresh(prefix string, s Sort) *Term {
	freshCnt++
	t := Const(fmt.Sprintf("%s!%d", cleanName(prefix), freshCnt), s)
	if curScope != nil {
		curScope.fresh = append(curScope.fresh, t)
	}
	return t
}
func BV(prefix string, s Sort) *Term {
	freshCnt++
	return mk("var", fmt.Sprintf("%s?%d", cleanName(prefix), freshCnt), s)
}
func cleanName(s string) string {
	var sb strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' || c == '-' {
			sb.WriteRune(c)
		} else {
			sb.WriteByte('_')
		}
	}
	return sb.String()
}
func StrLit(s string) *Term { return mk("str", s, SStr) }

// scope collects fresh constants created while executing a loop body.
type scope struct {
	fresh  []*Term
	parent *scope
}

var curScope *scope

func pushScope() *scope {
	s := &scope{parent: curScope}
	curScope = s
	return s
}
func popScope() {
	s := curScope
	curScope = s.parent
	if curScope != nil {
		curScope.fresh = append(curScope.fresh, s.fresh...)
	}
}

func isLit(t *Term) bool { return t.op == "int" || t.op == "bool" || t.op == "str" }

func Not(t *Term) *Term {
	switch {
	case t == True:
		return False
	case t == False:
		return True
	case t.op == "not":
		return t.args[0]
	}
	return mk("not", "", SBool, t)
}
func And(ts ...*Term) *Term { return nary("and", ts) }
func Or(ts ...*Term) *Term  { return nary("or", ts) }
func nary(op string, ts []*Term) *Term {
	unit, zero := True, False
	if op == "or" {
		unit, zero = False, True
	}
	var out []*Term
	seen := map[int]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == unit {
			return true
		}
		if t == zero {
			return false
		}
		if t.op == op {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if t.op == "not" && t.args[0].op == dual(op) && len(t.args[0].args) <= 12 {
			for _, a := range t.args[0].args {
				if !add(Not(a)) {
					return false
				}
			}
			return true
		}
		if seen[t.id] {
			return true
		}
		if seen[Not(t).id] {
			return false
		}
		seen[t.id] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	// unit resolution: a or (not a and x) is a or x; a and (not a or x) is a and x
	if len(out) <= 60 {
		for i, t := range out {
			ls := lits(t, dual(op))
			if len(ls) < 2 || len(ls) > 60 {
				continue
			}
			var keep []*Term
			for _, l := range ls {
				if seen[l.id] {
					keep = nil // absorbed: a or (a and x) is a
					ls = nil
					break
				}
				if !seen[Not(l).id] {
					keep = append(keep, l)
				}
			}
			if ls == nil || len(keep) < len(ls) {
				rest := append(append([]*Term{}, out[:i]...), out[i+1:]...)
				if ls != nil {
					rest = append(rest, nary(dual(op), keep))
				}
				return nary(op, rest)
			}
		}
	}
	if op == "or" && len(out) > 2 {
		// common conjuncts of all alternatives
		cnt := map[int]int{}
		for _, t := range out {
			for _, l := range conj(t) {
				cnt[l.id]++
			}
		}
		var common, alts []*Term
		for _, l := range conj(out[0]) {
			if cnt[l.id] == len(out) {
				common = append(common, l)
			}
		}
		if len(common) > 0 {
			for _, t := range out {
				var rest []*Term
				for _, l := range conj(t) {
					if cnt[l.id] < len(out) {
						rest = append(rest, l)
					}
				}
				alts = append(alts, And(rest...))
			}
			return And(append(common, Or(alts...))...)
		}
		// a pair that merges
		if len(out) <= 30 {
			for i := range out {
				for j := i + 1; j < len(out); j++ {
					if r := mergeExact(out[i], out[j]); r != nil {
						rest := append(append([]*Term{}, out[:i]...), out[i+1:j]...)
						rest = append(append(rest, out[j+1:]...), r)
						return Or(rest...)
					}
				}
			}
		}
	}
	// absorption: in an "or", (and x a) or (and x (not a)) is left to the solver
	// except for the common two-element case that merging branches produces
	if op == "or" && len(out) == 2 {
		if r := mergeOr(out[0], out[1]); r != nil {
			return r
		}
	}
	return mk(op, "", SBool, out...)
}

func dual(op string) string {
	if op == "and" {
		return "or"
	}
	return "and"
}
func lits(t *Term, op string) []*Term {
	if t.op == op {
		return t.args
	}
	if t.op == "not" && t.args[0].op == dual(op) {
		var out []*Term
		for _, a := range t.args[0].args {
			out = append(out, Not(a))
		}
		return out
	}
	return []*Term{t}
}

// mergeExact: (A and c) or (A and not c) = A, A or (A and x) = A; nil when neither applies.
func mergeExact(a, b *Term) *Term {
	ca, cb := conj(a), conj(b)
	if len(ca) > 60 || len(cb) > 60 {
		return nil
	}
	inb := map[int]bool{}
	for _, t := range cb {
		inb[t.id] = true
	}
	var common, da []*Term
	for _, t := range ca {
		if inb[t.id] {
			common = append(common, t)
		} else {
			da = append(da, t)
		}
	}
	nb := len(cb) - len(common)
	if len(da) == 0 {
		return a
	}
	if nb == 0 {
		return b
	}
	if len(da) == 1 && nb == 1 && inb[Not(da[0]).id] {
		return And(common...)
	}
	return nil
}

// mergeOr simplifies (A and c) or (A and not c) to A.
func mergeOr(a, b *Term) *Term {
	ca, cb := conj(a), conj(b)
	inb := map[int]bool{}
	for _, t := range cb {
		inb[t.id] = true
	}
	ina := map[int]bool{}
	for _, t := range ca {
		ina[t.id] = true
	}
	var common, da, db []*Term
	for _, t := range ca {
		if inb[t.id] {
			common = append(common, t)
		} else {
			da = append(da, t)
		}
	}
	for _, t := range cb {
		if !ina[t.id] {
			db = append(db, t)
		}
	}
	if len(da) == 0 || len(db) == 0 {
		return And(common...)
	}
	if len(da) == 1 && len(db) == 1 && Not(da[0]) == db[0] {
		return And(common...)
	}
	if len(common) > 0 {
		return And(append(common, Or(And(da...), And(db...)))...)
	}
	return nil
}
func conj(t *Term) []*Term {
	return lits(t, "and")

}
func Imp(a, b *Term) *Term {
	if a == True {
		return b
	}
	if a == False || b == True {
		return True
	}
	if b.op == "=>" {
		return Imp(And(a, b.args[0]), b.args[1])
	}
	if b == False {
		return Not(a)
	}
	if a == b {
		return True
	}
	return mk("=>", "", SBool, a, b)
}
func Iff(a, b *Term) *Term { return Eq(a, b) }

func Ite(c, a, b *Term) *Term {
	if a.sort != b.sort {
		panic(fmt.Sprintf("ite sorts differ: %s vs %s (%s / %s)", a.sort, b.sort, a, b))
	}
	switch {
	case c == True:
		return a
	case c == False:
		return b
	case a == b:
		return a
	}
	if c.op == "not" {
		return Ite(c.args[0], b, a)
	}
	if a.sort == SBool {
		switch {
		case a == True && b == False:
			return c
		case a == False && b == True:
			return Not(c)
		case a == True:
			return Or(c, b)
		case a == False:
			return And(Not(c), b)
		case b == True:
			return Or(Not(c), a)
		case b == False:
			return And(c, a)
		}
	}
	if a.op == "ite" && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == "ite" && b.args[0] == c {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	if b.op == "ite" && b.args[1] == a {
		return Ite(Or(c, b.args[0]), a, b.args[2])
	}
	// pull a common store structure out of array merges
	if a.op == "store" && a.args[0] == b {
		return Store(b, a.args[1], Ite(c, a.args[2], Select(b, a.args[1])))
	}
	if b.op == "store" && b.args[0] == a {
		return Store(a, b.args[1], Ite(c, Select(a, b.args[1]), b.args[2]))
	}
	if a.op == "store" && b.op == "store" && a.args[1] == b.args[1] {
		return Store(Ite(c, a.args[0], b.args[0]), a.args[1], Ite(c, a.args[2], b.args[2]))
	}
	if strings.HasPrefix(a.op, "ctor") && a.op == b.op && a.name == b.name && len(a.args) > 0 {
		as := make([]*Term, len(a.args))
		for i := range as {
			as[i] = Ite(c, a.args[i], b.args[i])
		}
		return mk(a.op, a.name, a.sort, as...)
	}
	return mk("ite", "", a.sort, c, a, b)
}

// ---- linear arithmetic ----

type lin struct {
	c  int64
	ks []*Term
	m  map[int]int64
}

func toLin(t *Term) *lin {
	l := &lin{m: map[int]int64{}}
	l.add(t, 1)
	return l
}
func (l *lin) add(t *Term, k int64) {
	switch t.op {
	case "int":
		l.c = ckAdd(l.c, ckMul(k, t.ival))
	case "+":
		for _, a := range t.args {
			l.add(a, k)
		}
	case "*":
		if t.args[0].op == "int" {
			l.add(t.args[1], ckMul(k, t.args[0].ival))
			return
		}
		l.addAtom(t, k)
	default:
		l.addAtom(t, k)
	}
}
func (l *lin) addAtom(t *Term, k int64) {
	if _, ok := l.m[t.id]; !ok {
		l.ks = append(l.ks, t)
	}
	l.m[t.id] = ckAdd(l.m[t.id], k)
}
func (l *lin) term() *Term {
	sort.Slice(l.ks, func(i, j int) bool { return before(l.ks[i], l.ks[j]) })
	var out []*Term
	for _, t := range l.ks {
		k := l.m[t.id]
		if k == 0 {
			continue
		}
		if k == 1 {
			out = append(out, t)
		} else {
			out = append(out, mk("*", "", SInt, Int(k), t))
		}
	}
	if l.c != 0 || len(out) == 0 {
		out = append(out, Int(l.c))
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("+", "", SInt, out...)
}
func Add(ts ...*Term) *Term {
	l := &lin{m: map[int]int64{}}
	for _, t := range ts {
		if t.sort != SInt {
			panic("Add on " + string(t.sort) + " " + t.String())
		}
		l.add(t, 1)
	}
	return l.term()
}
func Sub(a, b *Term) *Term {
	l := &lin{m: map[int]int64{}}
	l.add(a, 1)
	l.add(b, -1)
	return l.term()
}
func MulK(k int64, t *Term) *Term {
	l := &lin{m: map[int]int64{}}
	l.add(t, k)
	return l.term()
}
func Mul(a, b *Term) *Term {
	if a.op == "int" {
		return MulK(a.ival, b)
	}
	if b.op == "int" {
		return MulK(b.ival, a)
	}
	if before(b, a) {
		a, b = b, a
	}
	return mk("*", "", SInt, a, b)
}
func Le(a, b *Term) *Term {
	d := Sub(a, b)
	if d.op == "int" {
		return Bool(d.ival <= 0)
	}
	l := toLin(d)
	// canonical: terms <= const
	c := l.c
	l.c = 0
	return mk("<=", "", SBool, l.term(), Int(-c))
}
func Lt(a, b *Term) *Term { return Le(Add(a, Int(1)), b) }
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq sorts differ: %s:%s vs %s:%s", a, a.sort, b, b.sort))
	}
	switch a.sort {
	case SBool:
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
		if a == Not(b) {
			return False
		}
	case SInt:
		d := Sub(a, b)
		if d.op == "int" {
			return Bool(d.ival == 0)
		}
		if a.op == "ite" && b.op == "int" || b.op == "ite" && a.op == "int" {
			if b.op == "ite" {
				a, b = b, a
			}
			x, y := Eq(a.args[1], b), Eq(a.args[2], b)
			if isLit(x) || isLit(y) {
				return Ite(a.args[0], x, y)
			}
		}
	case SStr:
		if a.op == "str" && b.op == "str" {
			return Bool(a.name == b.name)
		}
		if a.op == "ite" && b.op == "str" || b.op == "ite" && a.op == "str" {
			if b.op == "ite" {
				a, b = b, a
			}
			x, y := Eq(a.args[1], b), Eq(a.args[2], b)
			if isLit(x) || isLit(y) {
				return Ite(a.args[0], x, y)
			}
		}
	}
	if a.op == "ctor" && b.op == "ctor" {
		if a.name != b.name {
			return False
		}
		var cs []*Term
		for i := range a.args {
			cs = append(cs, Eq(a.args[i], b.args[i]))
		}
		return And(cs...)
	}
	if a.op == "ite" && b.op == "ctor" || b.op == "ite" && a.op == "ctor" {
		if b.op == "ite" {
			a, b = b, a
		}
		return Ite(a.args[0], Eq(a.args[1], b), Eq(a.args[2], b))
	}
	if before(b, a) {
		a, b = b, a
	}
	return mk("=", "", SBool, a, b)
}
func Ne(a, b *Term) *Term { return Not(Eq(a, b)) }

// provablyDistinct: syntactic disequality.
func provablyDistinct(a, b *Term) bool { return a != b && Eq(a, b) == False }

func Select(a, i *Term) *Term {
	is, es := arrParts(a.sort)
	if i.sort != is {
		panic(fmt.Sprintf("select index sort %s on %s: %s[%s]", i.sort, a.sort, a, i))
	}
	switch a.op {
	case "store":
		if a.args[1] == i {
			return a.args[2]
		}
		if provablyDistinct(a.args[1], i) {
			return Select(a.args[0], i)
		}
		e := Eq(a.args[1], i)
		if e == True {
			return a.args[2]
		}
		return Ite(e, a.args[2], Select(a.args[0], i))
	case "ite":
		return Ite(a.args[0], Select(a.args[1], i), Select(a.args[2], i))
	case "constarr":
		return a.args[0]
	}
	return mk("select", "", es, a, i)
}
func Store(a, i, v *Term) *Term {
	is, es := arrParts(a.sort)
	if i.sort != is || v.sort != es {
		panic(fmt.Sprintf("store sorts: %s <- [%s]=%s", a.sort, i.sort, v.sort))
	}
	if a.op == "store" && a.args[1] == i {
		return Store(a.args[0], i, v)
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	return mk("store", "", a.sort, a, i, v)
}
func ConstArr(s Sort, v *Term) *Term { return mk("constarr", "", s, v) }

// ---- datatypes ----

type ctorInfo struct {
	sort Sort
	sels []string
	srts []Sort
}

var ctors = map[string]*ctorInfo{
	"mkslice": {SSlice, []string{"s_ref", "s_off", "s_len", "s_cap"}, []Sort{SInt, SInt, SInt, SInt}},
	"inil":    {SIface, nil, nil},
	"iptr":    {SIface, []string{"i_ptag", "i_p"}, []Sort{SInt, SInt}},
	"istr":    {SIface, []string{"i_stag", "i_s"}, []Sort{SInt, SStr}},
	"iint":    {SIface, []string{"i_itag", "i_i"}, []Sort{SInt, SInt}},
	"ibool":   {SIface, []string{"i_btag", "i_b"}, []Sort{SInt, SBool}},
	"iflt":    {SIface, []string{"i_ftag", "i_f"}, []Sort{SInt, SF64}},
	"islc":    {SIface, []string{"i_ltag", "i_l"}, []Sort{SInt, SSlice}},
	"iopq":    {SIface, []string{"i_otag", "i_o"}, []Sort{SInt, SInt}},
	"mkf":     {SF64, []string{"f_nan", "f_ord"}, []Sort{SBool, "Real"}},
}
var selOf = map[string]struct {
	ctor string
	idx  int
}{}

func init() {
	for c, in := range ctors {
		for i, s := range in.sels {
			selOf[s] = struct {
				ctor string
				idx  int
			}{c, i}
		}
	}
}
func Ctor(name string, args ...*Term) *Term {
	return mk("ctor", name, ctors[name].sort, args...)
}
func Sel(name string, t *Term) *Term {
	in := selOf[name]
	if t.op == "ctor" && t.name == in.ctor {
		return t.args[in.idx]
	}
	if t.op == "ite" {
		return Ite(t.args[0], Sel(name, t.args[1]), Sel(name, t.args[2]))
	}
	return mk("sel", name, ctors[in.ctor].srts[in.idx], t)
}
func IsCtor(name string, t *Term) *Term {
	if t.op == "ctor" {
		return Bool(t.name == name)
	}
	if t.op == "ite" {
		return Ite(t.args[0], IsCtor(name, t.args[1]), IsCtor(name, t.args[2]))
	}
	return mk("is", name, SBool, t)
}
func MkSlice(ref, off, ln, cp *Term) *Term { return Ctor("mkslice", ref, off, ln, cp) }

var NilSlice = MkSlice(Int(0), Int(0), Int(0), Int(0))
var INil = Ctor("inil")

func UF(name string, s Sort, args ...*Term) *Term { return mk("uf", name, s, args...) }

func Forall(bvs []*Term, body *Term, trig ...[]*Term) *Term {
	return quant("forall", bvs, body, "", trig)
}
func Exists(bvs []*Term, body *Term) *Term { return quant("exists", bvs, body, "", nil) }
func quant(op string, bvs []*Term, body *Term, kind string, trig [][]*Term) *Term {
	if body == True || body == False {
		return body
	}
	if !body.hasBV {
		return body
	}
	name := kind
	var tn []string
	for _, v := range bvs {
		name += ":" + v.name
	}
	for _, g := range trig {
		for _, p := range g {
			tn = append(tn, strconv.Itoa(p.id))
		}
		tn = append(tn, "/")
	}
	name += "#" + strings.Join(tn, ",")
	other := hasOtherBV(body, bvs)
	return mkInit(op, name, SBool, []*Term{body}, func(t *Term) {
		t.bvs = bvs
		t.trig = trig
		t.kind = kind
		t.hasQ = true
		t.hasBV = other
		for _, g := range trig {
			for _, p := range g {
				t.ord = mix(t.ord, p.ord)
			}
		}
	})
}
func hasOtherBV(t *Term, bvs []*Term) bool {
	bound := map[int]int{}
	for _, b := range bvs {
		bound[b.id]++
	}
	seen := map[int]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if !t.hasBV {
			return false
		}
		if t.op == "var" {
			return bound[t.id] == 0
		}
		if len(bound) == len(bvs) && seen[t.id] {
			return false
		}
		seen[t.id] = true
		for _, b := range t.bvs {
			bound[b.id]++
		}
		r := false
		for _, a := range t.args {
			if walk(a) {
				r = true
				break
			}
		}
		for _, b := range t.bvs {
			bound[b.id]--
		}
		return r
	}
	return walk(t)
}

// Hist makes an engine-instantiated universal statement.
func Hist(bv *Term, body *Term) *Term { return quant("forall", []*Term{bv}, body, "hist", nil) }

// ---- substitution (rebuilds through the simplifying constructors) ----

type Subst struct {
	bvOnly bool
	m      map[int]*Term
	memo   map[int]*Term
}

func NewSubst() *Subst { return &Subst{m: map[int]*Term{}, memo: map[int]*Term{}, bvOnly: true} }
func (s *Subst) Set(from, to *Term) {
	s.m[from.id] = to
	if from.op != "var" {
		s.bvOnly = false
	}
	s.memo = map[int]*Term{}
}
func (s *Subst) Apply(t *Term) *Term {
	if r, ok := s.m[t.id]; ok {
		return r
	}
	if len(t.args) == 0 || s.bvOnly && !t.hasBV {
		return t
	}
	if r, ok := s.memo[t.id]; ok {
		return r
	}
	changed := false
	as := make([]*Term, len(t.args))
	for i, a := range t.args {
		as[i] = s.Apply(a)
		if as[i] != a {
			changed = true
		}
	}
	r := t
	if t.op == "forall" || t.op == "exists" {
		tr := t.trig
		if len(tr) > 0 {
			tr = nil
			for _, g := range t.trig {
				var ng []*Term
				for _, p := range g {
					np := s.Apply(p)
					if np != p {
						changed = true
					}
					ng = append(ng, np)
				}
				tr = append(tr, ng)
			}
		}
		if changed {
			r = quant(t.op, t.bvs, as[0], t.kind, tr)
		}
	} else if changed {
		r = rebuild(t, as)
	}
	s.memo[t.id] = r
	return r
}
func rebuild(t *Term, as []*Term) *Term {
	switch t.op {
	case "and":
		return And(as...)
	case "or":
		return Or(as...)
	case "not":
		return Not(as[0])
	case "=>":
		return Imp(as[0], as[1])
	case "ite":
		return Ite(as[0], as[1], as[2])
	case "=":
		return Eq(as[0], as[1])
	case "+":
		return Add(as...)
	case "*":
		return Mul(as[0], as[1])
	case "<=":
		return Le(as[0], as[1])
	case "select":
		return Select(as[0], as[1])
	case "store":
		return Store(as[0], as[1], as[2])
	case "sel":
		return Sel(t.name, as[0])
	case "is":
		return IsCtor(t.name, as[0])
	case "ctor":
		return Ctor(t.name, as...)
	}
	return mk(t.op, t.name, t.sort, as...)
}

// consts collects constants of a term.
func walkTerms(t *Term, seen map[int]bool, f func(*Term)) {
	if seen[t.id] {
		return
	}
	seen[t.id] = true
	f(t)
	for _, a := range t.args {
		walkTerms(a, seen, f)
	}
	for _, g := range t.trig {
		for _, p := range g {
			walkTerms(p, seen, f)
		}
	}
}
func containsTerm(t *Term, x *Term) bool {
	found := false
	walkTerms(t, map[int]bool{}, func(u *Term) {
		if u == x {
			found = true
		}
	})
	return found
}

func (t *Term) String() string {
	s := t.str(6)
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	return s
}
func (t *Term) str(d int) string {
	switch t.op {
	case "const", "var":
		return t.name
	case "int", "bool":
		return t.name
	case "str":
		return strconv.Quote(t.name)
	}
	if d == 0 {
		return "…"
	}
	var ps []string
	for _, a := range t.args {
		ps = append(ps, a.str(d-1))
	}
	n := t.op
	if t.op == "uf" || t.op == "ctor" || t.op == "sel" || t.op == "is" {
		n = t.name
	}
	if t.op == "select" {
		return ps[0] + "[" + ps[1] + "]"
	}
	return "(" + n + " " + strings.Join(ps, " ") + ")"
}
