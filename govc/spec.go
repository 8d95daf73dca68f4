package main

// The contract language: parsing and evaluation to terms.

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode"
)

// ---- lexer ----

type tok struct {
	k    byte // i ident, n number, s string, o operator, e eof
	s    string
	line int
}

func lex(src, file string) []tok {
	var out []tok
	line := 1
	i := 0
	ops := []string{"<==>", "==>", "::", ":=", "&&", "||", "==", "!=", "<=", ">=", "++"}
	for i < len(src) {
		c := src[i]
		switch {
		case c == '\n':
			line++
			i++
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case c == '#' || strings.HasPrefix(src[i:], "//"):
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case c == '"' || c == '`':
			j := i + 1
			for j < len(src) && src[j] != c {
				if src[j] == '\\' && c == '"' {
					j++
				}
				j++
			}
			s, err := strconv.Unquote(src[i : j+1])
			if err != nil {
				panic(fmt.Sprintf("%s:%d: bad string %s", file, line, src[i:j+1]))
			}
			out = append(out, tok{'s', s, line})
			i = j + 1
		case unicode.IsLetter(rune(c)) || c == '_' || c == '$':
			j := i + 1
			for j < len(src) && (unicode.IsLetter(rune(src[j])) || unicode.IsDigit(rune(src[j])) || src[j] == '_') {
				j++
			}
			out = append(out, tok{'i', src[i:j], line})
			i = j
		case unicode.IsDigit(rune(c)):
			j := i + 1
			for j < len(src) && (unicode.IsDigit(rune(src[j])) || src[j] == '.' || src[j] == '_') {
				j++
			}
			out = append(out, tok{'n', strings.ReplaceAll(src[i:j], "_", ""), line})
			i = j
		default:
			op := string(c)
			for _, o := range ops {
				if strings.HasPrefix(src[i:], o) {
					op = o
					break
				}
			}
			out = append(out, tok{'o', op, line})
			i += len(op)
		}
	}
	return append(out, tok{'e', "", line})
}

// ---- AST ----

type node struct {
	op   string // lit int str ident call index field unop binop quant old let slice
	s    string
	kids []*node
	bs   []binding
	line int
}
type binding struct {
	name string
	typ  *typeNode
}
type typeNode struct {
	op   string // name ptr slice map chan
	name string
	a, b *typeNode
}

type clause struct {
	loops []int // ordinals of the loops an invariant is meant for (none: all)
	name  string
	expr  *node
	metas []binding
	line  int
}
type stmt struct {
	op   string // set append assert assume let
	name string
	exps map[string]*node
	keys []string
	e    *node
	line int
}
type hook struct {
	kind  string // send recv call close
	typ   *typeNode
	fn    string
	binds []string
	outs  []string
	pre   []stmt
	post  []stmt
	when  *node
}
type FuncContract struct {
	name      string
	params    []string
	results   []string
	requires  []clause
	ensures   []clause
	invs      []clause
	covers    []clause
	safety    []string
	perreturn bool
	modular   bool
	pure      bool
	props     []string
	file      *Contracts
	maynot    bool
	noframe   bool // no automatic frame invariants: the contract's own suffice
	line      int
}
type ghostVar struct {
	name string
	typ  *typeNode
	init *node
	arr  bool // indexed by int, or by key
	key  *typeNode
}
type logDef struct {
	name    string
	counter string
	fields  []string
}
type funDef struct {
	name   string
	params []binding
	ret    *typeNode
	body   *node
	rec    bool
}
type Contracts struct {
	file    string
	imports map[string]string
	ghosts  map[string]*ghostVar
	logs    []*logDef
	funs    map[string]*funDef
	hooks   []*hook
	funcs   map[string]*FuncContract
	order   []string
	opaque  map[string]bool
	load    []string
	axioms  []clause
	assumes []string
}

type parser struct {
	ts   []tok
	p    int
	file string
}

func (p *parser) peek() tok { return p.ts[p.p] }
func (p *parser) next() tok { t := p.ts[p.p]; p.p++; return t }
func (p *parser) is(s string) bool {
	t := p.peek()
	return (t.k == 'o' || t.k == 'i') && t.s == s
}
func (p *parser) acc(s string) bool {
	if p.is(s) {
		p.p++
		return true
	}
	return false
}
func (p *parser) fail(f string, a ...interface{}) {
	panic(fmt.Sprintf("%s:%d: %s", p.file, p.peek().line, fmt.Sprintf(f, a...)))
}
func (p *parser) expect(s string) {
	if !p.acc(s) {
		p.fail("expected %q, found %q", s, p.peek().s)
	}
}
func (p *parser) ident() string {
	t := p.next()
	if t.k != 'i' {
		p.p--
		p.fail("expected a name, found %q", t.s)
	}
	return t.s
}
func (p *parser) str() string {
	t := p.next()
	if t.k != 's' {
		p.p--
		p.fail("expected a string, found %q", t.s)
	}
	return t.s
}
func (p *parser) typ() *typeNode {
	switch {
	case p.acc("*"):
		return &typeNode{op: "ptr", a: p.typ()}
	case p.acc("["):
		p.expect("]")
		return &typeNode{op: "slice", a: p.typ()}
	case p.acc("map"):
		p.expect("[")
		k := p.typ()
		p.expect("]")
		return &typeNode{op: "map", a: k, b: p.typ()}
	case p.acc("chan"):
		return &typeNode{op: "chan", a: p.typ()}
	}
	n := p.ident()
	if p.acc(".") {
		n += "." + p.ident()
	}
	return &typeNode{op: "name", name: n}
}
func (p *parser) bindings() []binding {
	var out []binding
	p.expect("(")
	for !p.acc(")") {
		n := p.ident()
		out = append(out, binding{n, p.typ()})
		if !p.acc(",") {
			p.expect(")")
			break
		}
	}
	return out
}
func (p *parser) names() []string {
	var out []string
	p.expect("(")
	for !p.acc(")") {
		out = append(out, p.ident())
		if !p.acc(",") {
			p.expect(")")
			break
		}
	}
	return out
}

var prec = map[string]int{"<==>": 1, "==>": 2, "||": 3, "&&": 4, "==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5, "in": 5, "+": 6, "-": 6, "++": 6, "*": 7, "/": 7, "%": 7}

func (p *parser) expr() *node { return p.bin(1) }
func (p *parser) bin(min int) *node {
	l := p.unary()
	for {
		t := p.peek()
		pr, ok := prec[t.s]
		if !ok || t.k == 's' || t.k == 'e' || pr < min {
			return l
		}
		p.p++
		var r *node
		if t.s == "==>" {
			r = p.bin(pr)
		} else {
			r = p.bin(pr + 1)
		}
		l = &node{op: "bin", s: t.s, kids: []*node{l, r}, line: t.line}
	}
}
func (p *parser) unary() *node {
	t := p.peek()
	if p.acc("!") {
		return &node{op: "not", kids: []*node{p.unary()}, line: t.line}
	}
	if p.acc("-") {
		return &node{op: "neg", kids: []*node{p.unary()}, line: t.line}
	}
	if p.is("forall") || p.is("exists") {
		q := p.next().s
		var bs []binding
		for {
			n := p.ident()
			bs = append(bs, binding{n, p.typ()})
			if !p.acc(",") {
				break
			}
		}
		p.expect("::")
		return &node{op: q, bs: bs, kids: []*node{p.expr()}, line: t.line}
	}
	if p.is("let") {
		p.next()
		n := p.ident()
		p.expect(":=")
		v := p.expr()
		p.expect("in")
		b := p.expr()
		return &node{op: "let", s: n, kids: []*node{v, b}, line: t.line}
	}
	return p.postfix(p.primary())
}
func (p *parser) postfix(x *node) *node {
	for {
		t := p.peek()
		switch {
		case p.acc("."):
			x = &node{op: "field", s: p.ident(), kids: []*node{x}, line: t.line}
		case p.is("[") && t.k == 'o':
			p.p++
			i := p.expr()
			p.expect("]")
			x = &node{op: "index", kids: []*node{x, i}, line: t.line}
		case p.is("(") && x.op == "ident":
			p.p++
			c := &node{op: "call", s: x.s, line: t.line}
			for !p.acc(")") {
				if (x.s == "typeis" || x.s == "as") && len(c.kids) == 1 {
					c.bs = []binding{{"", p.typ()}}
				} else {
					c.kids = append(c.kids, p.expr())
				}
				if !p.acc(",") {
					p.expect(")")
					break
				}
			}
			x = c
		default:
			return x
		}
	}
}
func (p *parser) primary() *node {
	t := p.next()
	switch t.k {
	case 'n':
		return &node{op: "num", s: t.s, line: t.line}
	case 's':
		return &node{op: "str", s: t.s, line: t.line}
	case 'i':
		return &node{op: "ident", s: t.s, line: t.line}
	}
	if t.s == "(" {
		e := p.expr()
		p.expect(")")
		return e
	}
	p.p--
	p.fail("unexpected %q", t.s)
	return nil
}
func (p *parser) clause() clause {
	c := clause{line: p.peek().line}
	for p.acc("@") {
		n, _ := strconv.Atoi(p.next().s)
		c.loops = append(c.loops, n)
	}
	for p.is("$") || strings.HasPrefix(p.peek().s, "$") && p.peek().k == 'i' {
		n := p.ident()
		c.metas = append(c.metas, binding{n, p.typ()})
		p.acc(",")
	}
	name := p.ident()
	for p.acc(".") {
		name += "." + p.ident()
	}
	c.name = name
	p.expect(":")
	c.expr = p.expr()
	return c
}
func (p *parser) stmts() []stmt {
	var out []stmt
	p.expect("{")
	for !p.acc("}") {
		s := stmt{line: p.peek().line, exps: map[string]*node{}}
		s.op = p.ident()
		switch s.op {
		case "set":
			s.name = p.ident()
			if p.acc("[") {
				s.exps["idx"] = p.expr()
				p.expect("]")
			}
			p.expect(":=")
			s.e = p.expr()
		case "let":
			s.name = p.ident()
			p.expect(":=")
			s.e = p.expr()
		case "append":
			s.name = p.ident()
			p.expect("{")
			for !p.acc("}") {
				k := p.ident()
				p.expect(":")
				s.keys = append(s.keys, k)
				s.exps[k] = p.expr()
				p.acc(",")
			}
		case "assert", "assume":
			n := p.ident()
			for p.acc(".") {
				n += "." + p.ident()
			}
			s.name = n
			p.expect(":")
			s.e = p.expr()
		default:
			p.fail("unknown statement %q", s.op)
		}
		out = append(out, s)
		p.acc(";")
	}
	return out
}

func ParseSpec(file string) *Contracts {
	b, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	p := &parser{ts: lex(string(b), file), file: file}
	c := &Contracts{file: strings.TrimSuffix(filepath.Base(file), ".spec"), imports: map[string]string{}, ghosts: map[string]*ghostVar{}, funs: map[string]*funDef{}, funcs: map[string]*FuncContract{}, opaque: map[string]bool{}}
	for p.peek().k != 'e' {
		t := p.ident()
		switch t {
		case "load":
			c.load = append(c.load, p.str())
		case "import":
			n := p.ident()
			c.imports[n] = p.str()
		case "opaque":
			c.opaque[p.str()] = true
		case "assumption":
			c.assumes = append(c.assumes, p.str())
		case "axiom":
			c.axioms = append(c.axioms, p.clause())
		case "ghost":
			switch k := p.ident(); k {
			case "var":
				g := &ghostVar{name: p.ident(), typ: p.typ()}
				if p.acc("=") {
					g.init = p.expr()
				}
				c.ghosts[g.name] = g
			case "array": // ghost array name K T = initial value of every entry
				g := &ghostVar{name: p.ident(), key: p.typ(), typ: p.typ(), arr: true}
				if p.acc("=") {
					g.init = p.expr()
				}
				c.ghosts[g.name] = g
			case "log":
				l := &logDef{name: p.ident()}
				l.counter = l.name + ".n"
				c.ghosts[l.counter] = &ghostVar{name: l.counter, typ: &typeNode{op: "name", name: "int"}, init: &node{op: "num", s: "0"}}
				p.expect("{")
				for !p.acc("}") {
					f := l.name + "." + p.ident()
					c.ghosts[f] = &ghostVar{name: f, typ: p.typ(), arr: true}
					l.fields = append(l.fields, f)
					p.acc(",")
					p.acc(";")
				}
				c.logs = append(c.logs, l)
			default:
				p.fail("ghost %s", k)
			}
		case "rec", "fun":
			f := &funDef{rec: t == "rec"}
			if f.rec {
				p.expect("fun")
			}
			f.name = p.ident()
			f.params = p.bindings()
			f.ret = p.typ()
			if p.acc("=") {
				f.body = p.expr()
			}
			c.funs[f.name] = f
		case "on":
			h := &hook{kind: p.ident()}
			switch h.kind {
			case "send", "recv", "maprange":
				h.typ = p.typ()
				h.binds = p.names()
			case "makechan", "close", "select", "smrange":
				if h.kind == "makechan" && !p.is("(") {
					h.typ = p.typ() // element type
				}
				h.binds = p.names()
			case "call":
				h.fn = p.str()
				h.binds = p.names()
				if p.is("(") {
					h.outs = p.names()
				}
			default:
				p.fail("hook %s", h.kind)
			}
			if p.acc("when") {
				h.when = p.expr()
			}
			if p.acc("before") {
				h.pre = p.stmts()
				if p.acc("after") {
					h.post = p.stmts()
				}
			} else {
				h.post = p.stmts()
			}
			c.hooks = append(c.hooks, h)
		case "func":
			f := &FuncContract{line: p.peek().line, name: p.str(), file: c}
			f.params = p.names()
			if p.is("(") {
				f.results = p.names()
			}
			p.expect("{")
			for !p.acc("}") {
				switch k := p.ident(); k {
				case "requires":
					f.requires = append(f.requires, p.clause())
				case "ensures":
					f.ensures = append(f.ensures, p.clause())
				case "inv":
					f.invs = append(f.invs, p.clause())
				case "cover":
					f.covers = append(f.covers, p.clause())
				case "safety":
					for {
						f.safety = append(f.safety, p.ident())
						if !p.acc(",") {
							break
						}
					}
				case "perreturn":
					f.perreturn = true
				case "modular":
					f.modular = true
				case "pure":
					f.pure, f.modular = true, true
				case "noreturn":
					f.maynot = true
				case "noframe":
					f.noframe = true
				case "props":
					for {
						f.props = append(f.props, p.ident())
						if !p.acc(",") {
							break
						}
					}
				default:
					p.fail("unknown clause %q", k)
				}
				p.acc(";")
			}
			c.funcs[f.name] = f
			c.order = append(c.order, f.name)
		default:
			p.fail("unknown item %q", t)
		}
	}
	return c
}

func propOf(name string) []string {
	if i := strings.IndexByte(name, '.'); i > 0 {
		return []string{name[:i]}
	}
	if len(name) == 3 && name[0] == 'C' {
		return []string{name}
	}
	return nil
}

// propsOf lists the properties a function contract contributes to.
func (f *FuncContract) allProps() []string {
	m := map[string]bool{}
	for _, c := range f.ensures {
		for _, p := range propOf(c.name) {
			m[p] = true
		}
	}
	for _, p := range f.safety {
		m[p] = true
	}
	for _, p := range f.props {
		m[p] = true
	}
	return sortedKeys(m)
}

// ---- evaluation ----

type SVal struct {
	v   Val
	t   types.Type
	arr bool // ghost array indexed by int; t is the element type
	ks  types.Type
}

type senv struct {
	e     *Exec
	st    *State
	old   *State
	start *State
	vars  map[string]SVal
	c     *Contracts
	iters []*Term // innermost last
	its   []*IterV
	depth int
	line  int
}

func (v *senv) with(n string, x SVal) *senv {
	w := *v
	w.vars = make(map[string]SVal, len(v.vars)+1)
	for k, y := range v.vars {
		w.vars[k] = y
	}
	w.vars[n] = x
	return &w
}

func (v *senv) fail(n *node, f string, a ...interface{}) {
	panic(unsupported("contract %s:%d: %s", v.c.file, n.line, fmt.Sprintf(f, a...)))
}

func (c *Contracts) resolve(P *Program, t *typeNode) types.Type {
	switch t.op {
	case "ptr":
		return types.NewPointer(c.resolve(P, t.a))
	case "slice":
		return types.NewSlice(c.resolve(P, t.a))
	case "map":
		return types.NewMap(c.resolve(P, t.a), c.resolve(P, t.b))
	case "chan":
		return types.NewChan(types.SendRecv, c.resolve(P, t.a))
	}
	switch t.name {
	case "int", "string", "bool", "float64", "int32", "int64", "byte", "uint8":
		return types.Universe.Lookup(t.name).Type()
	case "error":
		return types.Universe.Lookup("error").Type()
	case "any":
		return types.Universe.Lookup("any").Type()
	}
	if i := strings.IndexByte(t.name, '.'); i > 0 {
		path, ok := c.imports[t.name[:i]]
		if !ok {
			panic(unsupported("contract %s: unknown import %s", c.file, t.name))
		}
		pk := P.typesPkg(path)
		if pk == nil {
			panic(unsupported("contract %s: package %s is not loaded", c.file, path))
		}
		o := pk.Scope().Lookup(t.name[i+1:])
		if o == nil {
			panic(unsupported("contract %s: %s has no %s", c.file, path, t.name[i+1:]))
		}
		return o.Type()
	}
	panic(unsupported("contract %s: unknown type %s", c.file, t.name))
}

var tInt = types.Typ[types.Int]
var tBool = types.Typ[types.Bool]
var tString = types.Typ[types.String]
var tFloat = types.Typ[types.Float64]

func (v *senv) boolean(n *node) *Term {
	x := v.eval(n)
	t, ok := x.v.(*Term)
	if !ok || t.sort != SBool {
		v.fail(n, "a condition is expected")
	}
	return t
}
func (v *senv) term(n *node) *Term {
	x := v.eval(n)
	t, ok := x.v.(*Term)
	if !ok {
		if c, isC := x.v.(*ClosV); isC {
			return v.e.scalar(c)
		}
		v.fail(n, "a scalar is expected, not %T", x.v)
	}
	return t
}

func (e *Exec) ghostName(n string) string { return "G:" + e.C.file + ":" + n }
func (e *Exec) ghostInit(P *Program, g *ghostVar) string {
	s := sortOf(e.C.resolve(P, g.typ))
	if g.arr {
		ks := SInt
		if g.key != nil {
			ks = sortOf(e.C.resolve(P, g.key))
		}
		s = ArrSort(ks, s)
	}
	return comp(e.ghostName(g.name), s, nil, "ghost")
}
func (g *ghostVar) keyType(e *Exec) types.Type {
	if g.key == nil {
		return nil
	}
	return e.C.resolve(e.P, g.key)
}
func (e *Exec) ghostComp(name string) string {
	g := e.C.ghosts[name]
	if g == nil {
		panic(unsupported("no ghost %s", name))
	}
	return e.ghostInit(e.P, g)
}

func (v *senv) eval(n *node) SVal {
	e := v.e
	switch n.op {
	case "num":
		if strings.Contains(n.s, ".") {
			c := constant.MakeFromLiteral(n.s, 6, 0)
			return SVal{v: floatLit(c), t: tFloat}
		}
		i, err := strconv.ParseInt(n.s, 10, 64)
		if err != nil {
			v.fail(n, "bad number")
		}
		return SVal{v: Int(i), t: tInt}
	case "str":
		return SVal{v: StrLit(n.s), t: tString}
	case "ident":
		return v.ident(n)
	case "not":
		return SVal{v: Not(v.boolean(n.kids[0])), t: tBool}
	case "neg":
		return SVal{v: MulK(-1, v.term(n.kids[0])), t: tInt}
	case "let":
		return v.with(n.s, v.eval(n.kids[0])).eval(n.kids[1])
	case "forall", "exists":
		var bvs []*Term
		w := v
		var guards []*Term
		for _, b := range n.bs {
			t := v.c.resolve(e.P, b.typ)
			x := BV(b.name, sortOf(t))
			bvs = append(bvs, x)
			w = w.with(b.name, SVal{v: x, t: t})
		}
		_ = guards
		body := w.boolean(n.kids[0])
		if n.op == "forall" {
			return SVal{v: Forall(bvs, body, autoTrig(bvs, body)...), t: tBool}
		}
		return SVal{v: Exists(bvs, body), t: tBool}
	case "field":
		return v.field(n)
	case "index":
		return v.index(n)
	case "call":
		return v.callExpr(n)
	case "bin":
		return v.binary(n)
	}
	v.fail(n, "cannot evaluate %s", n.op)
	return SVal{}
}

// autoTrig picks patterns: select/uf terms that mention every bound variable and nothing but uninterpreted structure.
func autoTrig(bvs []*Term, body *Term) [][]*Term {
	var cs []*Term
	walkTerms(body, map[int]bool{}, func(t *Term) {
		if (t.op == "select" || t.op == "uf" && t.name != "rle" && t.name != "rlt") && goodPattern(t) && coversVars(t, bvs) {
			// all bound variables inside must be ours
			if !hasOtherBV(t, bvs) {
				cs = append(cs, t)
			}
		}
	})
	// minimal ones only
	var out [][]*Term
	for _, t := range cs {
		min := true
		for _, u := range cs {
			if u != t && containsTerm(t, u) {
				min = false
			}
		}
		if min && len(out) < 6 {
			out = append(out, []*Term{t})
		}
	}
	return out
}

func (v *senv) ident(n *node) SVal {
	e := v.e
	if x, ok := v.vars[n.s]; ok {
		return x
	}
	switch n.s {
	case "true":
		return SVal{v: True, t: tBool}
	case "false":
		return SVal{v: False, t: tBool}
	case "nil":
		return SVal{v: nil, t: types.Typ[types.UntypedNil]}
	case "iter", "iter1", "iter2", "iter3":
		k := 0
		if len(n.s) > 4 {
			k = int(n.s[4] - '0')
		}
		if k >= len(v.iters) {
			v.fail(n, "%s outside a loop", n.s)
		}
		return SVal{v: v.iters[len(v.iters)-1-k], t: tInt}
	case "now":
		return SVal{v: e.get(v.st, nowComp), t: e.timeType()}
	}
	if g, ok := v.c.ghosts[n.s]; ok {
		return SVal{v: e.get(v.st, e.ghostComp(n.s)), t: v.c.resolve(e.P, g.typ), arr: g.arr, ks: g.keyType(e)}
	}
	if f, ok := v.c.funs[n.s]; ok && len(f.params) == 0 {
		return v.callFun(n, f, nil)
	}
	v.fail(n, "unknown name %s", n.s)
	return SVal{}
}

func (e *Exec) timeType() types.Type {
	if p := e.P.typesPkg("time"); p != nil {
		return p.Scope().Lookup("Time").Type()
	}
	return tInt
}

// safeLoad reads a field of a possibly nil pointer: getter semantics.
func (v *senv) loadField(st *State, p *Term, strct types.Type, i int) Val {
	e := v.e
	s := under(strct).(*types.Struct)
	ft := s.Field(i).Type()
	if isOpaqueStruct(ft) {
		return emb(p, i)
	}
	if isStruct(ft) {
		return e.loadStruct(st, emb(p, i), ft)
	}
	if isArrayT(ft) {
		return Select(e.get(st, elemComp(under(ft).(*types.Array).Elem())), emb(p, i))
	}
	x := Select(e.get(st, fieldComp(strct, i)), p)
	if c, ok := e.closDefs[x.id]; ok {
		return c
	}
	if e.isNonNil(p) {
		return x
	}
	return Ite(Eq(p, Int(0)), zeroOf(x.sort), x)
}

func fieldIndex(s *types.Struct, name string) int {
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

func (v *senv) field(n *node) SVal {
	e := v.e
	k := n.kids[0]
	if k.op == "ident" {
		if _, shadow := v.vars[k.s]; !shadow {
			if _, ok := v.c.ghosts[k.s+"."+n.s]; ok {
				g := v.c.ghosts[k.s+"."+n.s]
				return SVal{v: e.get(v.st, e.ghostComp(g.name)), t: v.c.resolve(e.P, g.typ), arr: g.arr}
			}
			if path, ok := v.c.imports[k.s]; ok {
				return v.global(n, path, n.s)
			}
		}
	}
	x := v.eval(k)
	t := x.t
	if pt, ok := under(t).(*types.Pointer); ok {
		s, ok := under(pt.Elem()).(*types.Struct)
		if !ok {
			v.fail(n, "no fields in %s", t)
		}
		i := fieldIndex(s, n.s)
		if i < 0 {
			v.fail(n, "%s has no field %s", t, n.s)
		}
		ft := s.Field(i).Type()
		r := v.loadField(v.st, x.v.(*Term), pt.Elem(), i)
		if isOpaqueStruct(ft) {
			ft = types.NewPointer(ft)
		}
		return SVal{v: r, t: ft}
	}
	if sv, ok := x.v.(*StructV); ok {
		s := under(sv.typ).(*types.Struct)
		i := fieldIndex(s, n.s)
		if i < 0 {
			v.fail(n, "%s has no field %s", t, n.s)
		}
		return SVal{v: sv.fs[i], t: s.Field(i).Type()}
	}
	v.fail(n, "no field %s of %s", n.s, t)
	return SVal{}
}

func (v *senv) global(n *node, path, name string) SVal {
	e := v.e
	pk := e.P.typesPkg(path)
	if pk == nil {
		v.fail(n, "package %s is not loaded", path)
	}
	o := pk.Scope().Lookup(name)
	switch o := o.(type) {
	case *types.Const:
		return SVal{v: constTerm(o.Val(), o.Type()), t: o.Type()}
	case *types.Var:
		sp := e.P.prog.ImportedPackage(path)
		g := sp.Var(name)
		if g == nil {
			v.fail(n, "no variable %s.%s", path, name)
		}
		ref := e.val(nil, g).(*Term)
		if isStruct(o.Type()) {
			return SVal{v: ref, t: types.NewPointer(o.Type())}
		}
		return SVal{v: e.loadPtr(v.st, ref, o.Type()), t: o.Type()}
	}
	v.fail(n, "no %s in %s", name, path)
	return SVal{}
}

func (v *senv) index(n *node) SVal {
	e := v.e
	x := v.eval(n.kids[0])
	if x.arr {
		if x.ks != nil {
			return SVal{v: Select(x.v.(*Term), v.coerce(n, v.eval(n.kids[1]), x.ks)), t: x.t}
		}
		return SVal{v: Select(x.v.(*Term), v.term(n.kids[1])), t: x.t}
	}
	switch t := under(x.t).(type) {
	case *types.Slice:
		i := v.term(n.kids[1])
		return SVal{v: e.elemAt(v.st, x.v.(*Term), i, t.Elem()), t: t.Elem()}
	case *types.Map:
		k := v.coerce(n, v.eval(n.kids[1]), t.Key())
		d, vc, _ := mapComps(t)
		m := x.v.(*Term)
		ok := And(Ne(m, Int(0)), Select(Select(e.get(v.st, d), m), k))
		val := Select(Select(e.get(v.st, vc), m), k)
		return SVal{v: Ite(ok, val, zeroOf(val.sort)), t: t.Elem()}
	case *types.Array:
		return SVal{v: Select(x.v.(*Term), v.term(n.kids[1])), t: t.Elem()}
	}
	v.fail(n, "cannot index %s", x.t)
	return SVal{}
}

// coerce brings a value to Go type t (boxing into interfaces).
func (v *senv) coerce(n *node, x SVal, t types.Type) *Term {
	if x.v == nil {
		return zeroOf(sortOf(t))
	}
	if _, ok := under(t).(*types.Interface); ok {
		if _, isI := under(x.t).(*types.Interface); !isI {
			return toIface(x.v, x.t)
		}
	}
	r, ok := x.v.(*Term)
	if !ok {
		return v.e.scalar(x.v)
	}
	if r.sort != sortOf(t) {
		if r.sort == SInt && sortOf(t) == SF64 && r.op == "int" {
			return floatLit(constant.MakeInt64(r.ival))
		}
		v.fail(n, "a %s is expected, not %s", t, x.t)
	}
	return r
}

func (v *senv) binary(n *node) SVal {
	switch n.s {
	case "&&":
		return SVal{v: And(v.boolean(n.kids[0]), v.boolean(n.kids[1])), t: tBool}
	case "||":
		return SVal{v: Or(v.boolean(n.kids[0]), v.boolean(n.kids[1])), t: tBool}
	case "==>":
		return SVal{v: Imp(v.boolean(n.kids[0]), v.boolean(n.kids[1])), t: tBool}
	case "<==>":
		return SVal{v: Eq(v.boolean(n.kids[0]), v.boolean(n.kids[1])), t: tBool}
	}
	a, b := v.eval(n.kids[0]), v.eval(n.kids[1])
	switch n.s {
	case "==", "!=":
		var r *Term
		switch {
		case a.v == nil && b.v == nil:
			r = True
		case a.v == nil || b.v == nil:
			if a.v == nil {
				a, b = b, a
			}
			x := a.v
			if _, ok := x.(*ClosV); ok {
				r = False
			} else if x.(*Term).sort == SSlice {
				r = Eq(Sel("s_ref", x.(*Term)), Int(0))
			} else {
				r = Eq(x.(*Term), zeroOf(x.(*Term).sort))
			}
		default:
			r = v.eqS(n, a, b)
		}
		if n.s == "!=" {
			r = Not(r)
		}
		return SVal{v: r, t: tBool}
	case "++":
		return SVal{v: strConcat(a.v.(*Term), b.v.(*Term)), t: tString}
	}
	x, ok1 := a.v.(*Term)
	y, ok2 := b.v.(*Term)
	if !ok1 || !ok2 {
		v.fail(n, "operands of %s", n.s)
	}
	if x.sort == SF64 || y.sort == SF64 {
		x, y = v.coerce(n, a, tFloat), v.coerce(n, b, tFloat)
		switch n.s {
		case "<":
			return SVal{v: fcmp("rlt", x, y), t: tBool}
		case "<=":
			return SVal{v: fcmp("rle", x, y), t: tBool}
		case ">":
			return SVal{v: fcmp("rlt", y, x), t: tBool}
		case ">=":
			return SVal{v: fcmp("rle", y, x), t: tBool}
		}
		v.fail(n, "float operator %s", n.s)
	}
	if x.sort != SInt || y.sort != SInt {
		v.fail(n, "operands of %s are %s and %s", n.s, x.sort, y.sort)
	}
	switch n.s {
	case "<":
		return SVal{v: Lt(x, y), t: tBool}
	case "<=":
		return SVal{v: Le(x, y), t: tBool}
	case ">":
		return SVal{v: Gt(x, y), t: tBool}
	case ">=":
		return SVal{v: Ge(x, y), t: tBool}
	case "+":
		return SVal{v: Add(x, y), t: a.t}
	case "-":
		return SVal{v: Sub(x, y), t: a.t}
	case "*":
		return SVal{v: Mul(x, y), t: a.t}
	case "/":
		return SVal{v: v.e.divmod(v.st, x, y, true), t: a.t}
	case "%":
		return SVal{v: v.e.divmod(v.st, x, y, false), t: a.t}
	}
	v.fail(n, "operator %s", n.s)
	return SVal{}
}

func (v *senv) eqS(n *node, a, b SVal) *Term {
	if sa, ok := a.v.(*StructV); ok {
		return v.e.eqVal(v.st, sa, b.v, a.t, b.t)
	}
	_, ia := under(a.t).(*types.Interface)
	_, ib := under(b.t).(*types.Interface)
	x, y := v.e.scalar(a.v), v.e.scalar(b.v)
	if ia && !ib {
		y = toIface(y, b.t)
	}
	if ib && !ia {
		x = toIface(x, a.t)
	}
	if x.sort != y.sort {
		v.fail(n, "comparing %s with %s", a.t, b.t)
	}
	return Eq(x, y)
}

func (v *senv) callFun(n *node, f *funDef, args []SVal) SVal {
	if v.depth > 40 {
		v.fail(n, "definition of %s is too deep", f.name)
	}
	ret := v.c.resolve(v.e.P, f.ret)
	if f.body == nil { // uninterpreted
		var as []*Term
		for i, a := range args {
			as = append(as, v.coerce(n, a, v.c.resolve(v.e.P, f.params[i].typ)))
		}
		return SVal{v: UF("fun:"+v.c.file+"."+f.name, sortOf(ret), as...), t: ret}
	}
	w := *v
	w.depth++
	w.vars = map[string]SVal{}
	for i, a := range args {
		pt := v.c.resolve(v.e.P, f.params[i].typ)
		if _, ok := a.v.(*StructV); ok {
			w.vars[f.params[i].name] = SVal{v: a.v, t: pt}
		} else if a.arr {
			w.vars[f.params[i].name] = a
		} else {
			w.vars[f.params[i].name] = SVal{v: v.coerce(n, a, pt), t: pt}
		}
	}
	if !f.rec {
		r := w.eval(f.body)
		return SVal{v: r.v, t: ret}
	}
	// recursive: an uninterpreted function of the arguments (a slice is passed by content), unfolded on demand
	var flat []*Term
	type shape struct {
		name string
		t    types.Type
		n    int
		arr  bool
	}
	var sh []shape
	for i := range args {
		x := w.vars[f.params[i].name]
		t := x.v.(*Term)
		if t.sort == SSlice {
			et := under(x.t).(*types.Slice).Elem()
			flat = append(flat, Select(v.e.get(v.st, elemComp(et)), Sel("s_ref", t)), Sel("s_off", t))
			sh = append(sh, shape{f.params[i].name, x.t, 2, false})
		} else {
			flat = append(flat, t)
			sh = append(sh, shape{f.params[i].name, x.t, 1, x.arr})
		}
	}
	name := "rec:" + v.c.file + "." + f.name
	if _, ok := recDefs[name]; !ok {
		e, c := v.e, v.c
		recDefs[name] = nil
		recDefs[name] = func(as []*Term, st *State) *Term {
			env := &senv{e: e, st: st, old: st, c: c, vars: map[string]SVal{}}
			k := 0
			for _, s := range sh {
				if s.n == 2 {
					// a private slice whose row is the given content
					et := under(s.t).(*types.Slice).Elem()
					cn := elemComp(et)
					ref := Int(-1 - int64(1000000+k))
					ns := st.clone()
					ns.comps[cn] = Store(e.get(ns, cn), ref, as[k])
					st = ns
					env.st, env.old = st, st
					env.vars[s.name] = SVal{v: MkSlice(ref, as[k+1], Const("anylen", SInt), Const("anylen", SInt)), t: s.t}
					k += 2
				} else {
					env.vars[s.name] = SVal{v: as[k], t: s.t, arr: s.arr}
					k++
				}
			}
			return env.eval(f.body).v.(*Term)
		}
	}
	recState[name] = v.e.entry
	return SVal{v: UF(name, sortOf(ret), flat...), t: ret}
}

var recDefs = map[string]func(as []*Term, st *State) *Term{}
var recState = map[string]*State{}

func (v *senv) callExpr(n *node) SVal {
	e := v.e
	if n.s == "old" || n.s == "start" {
		w := *v
		if n.s == "old" {
			w.st = v.old
		} else {
			if v.start == nil {
				v.fail(n, "start() outside a loop")
			}
			w.st = v.start
		}
		return w.eval(n.kids[0])
	}
	if n.s == "ite" {
		c := v.boolean(n.kids[0])
		a, b := v.eval(n.kids[1]), v.eval(n.kids[2])
		if a.v == nil {
			a = SVal{v: zeroOf(b.v.(*Term).sort), t: b.t}
		}
		if b.v == nil {
			b = SVal{v: zeroOf(a.v.(*Term).sort), t: a.t}
		}
		return SVal{v: iteVal(c, a.v, b.v), t: a.t}
	}
	var args []SVal
	for i, k := range n.kids {
		if n.s == "unmarshaled" && i > 1 {
			break // names of fields
		}
		args = append(args, v.eval(k))
	}
	tm := func(i int) *Term {
		t, ok := args[i].v.(*Term)
		if !ok {
			v.fail(n, "argument %d of %s", i, n.s)
		}
		return t
	}
	switch n.s {
	case "len":
		x := args[0]
		if x.v == nil {
			return SVal{v: Int(0), t: tInt}
		}
		switch t := under(x.t).(type) {
		case *types.Slice:
			return SVal{v: Sel("s_len", tm(0)), t: tInt}
		case *types.Map:
			_, _, l := mapComps(t)
			return SVal{v: Select(e.get(v.st, l), tm(0)), t: tInt}
		case *types.Basic:
			return SVal{v: strLen(tm(0)), t: tInt}
		}
	case "cap":
		return SVal{v: Sel("s_cap", tm(0)), t: tInt}
	case "has":
		mt := under(args[0].t).(*types.Map)
		d, _, _ := mapComps(mt)
		return SVal{v: And(Ne(tm(0), Int(0)), Select(Select(e.get(v.st, d), tm(0)), v.coerce(n, args[1], mt.Key()))), t: tBool}
	case "smhas":
		d, _ := syncComps()
		return SVal{v: Select(Select(e.get(v.st, d), tm(0)), v.coerce(n, args[1], types.Universe.Lookup("any").Type())), t: tBool}
	case "smget":
		_, vc := syncComps()
		at := types.Universe.Lookup("any").Type()
		return SVal{v: Select(Select(e.get(v.st, vc), tm(0)), v.coerce(n, args[1], at)), t: at}
	case "typeis":
		t := v.c.resolve(e.P, n.bs[0].typ)
		_, ok := fromIface(tm(0), t)
		return SVal{v: ok, t: tBool}
	case "as":
		t := v.c.resolve(e.P, n.bs[0].typ)
		x, _ := fromIface(tm(0), t)
		return SVal{v: x, t: t}
	case "any":
		return SVal{v: toIface(args[0].v, args[0].t), t: types.Universe.Lookup("any").Type()}
	case "isnan":
		return SVal{v: Sel("f_nan", tm(0)), t: tBool}
	case "code": // gRPC status code of an error (0 for nil)
		return SVal{v: e.errCode(v.st, tm(0)), t: tInt}
	case "sent": // number of values this execution has sent on a channel
		return SVal{v: Select(e.get(v.st, sentComp), tm(0)), t: tInt}
	case "rcvd":
		return SVal{v: Select(e.get(v.st, rcvdComp), tm(0)), t: tInt}
	case "closed":
		return SVal{v: Select(e.get(v.st, closedComp), tm(0)), t: tBool}
	case "msg": // the k-th value carried by a channel
		ct := under(args[0].t).(*types.Chan)
		return SVal{v: e.chanVal(tm(0), tm(1), ct.Elem()), t: ct.Elem()}
	case "cfgint":
		return SVal{v: UF("cfgInt", SInt, tm(0), tm(1)), t: tInt}
	case "cfgbool":
		return SVal{v: UF("cfgBool", SBool, tm(0), tm(1)), t: tBool}
	case "cfgstring":
		return SVal{v: UF("cfgString", SStr, tm(0), tm(1)), t: tString}
	case "bytestr":
		return SVal{v: e.strOfBytes(v.st, tm(0)), t: tString}
	case "itoa":
		return SVal{v: itoa(tm(0)), t: tString}
	case "tolower":
		return SVal{v: UF("strings.ToLower", SStr, tm(0)), t: tString}
	case "unixsec":
		return SVal{v: floorDiv(tm(0), 1000000000), t: tInt}
	case "isint":
		return SVal{v: UF("isint10", SBool, tm(0)), t: tBool}
	case "parseint":
		return SVal{v: UF("parseint10", SInt, tm(0)), t: tInt}
	case "splithead":
		return SVal{v: Select(UF("splitrow", ArrSort(SInt, SStr), tm(0), tm(1)), Int(0)), t: tString}
	case "matches":
		return SVal{v: UF("rematch", SBool, tm(0), tm(1)), t: tBool}
	case "fresh": // allocated during this execution
		return SVal{v: Ge(tm(0), e.get(v.old, allocComp)), t: tBool}
	case "ref":
		x := tm(0)
		switch x.sort {
		case SSlice:
			return SVal{v: Sel("s_ref", x), t: tInt}
		}
		return SVal{v: x, t: tInt}
	case "off":
		return SVal{v: Sel("s_off", tm(0)), t: tInt}
	case "visited": // key already enumerated by the innermost (or k-th enclosing) map loop
		k := 0
		if len(args) > 1 {
			k = int(tm(1).ival)
		}
		if k >= len(v.its) || v.its[len(v.its)-1-k] == nil {
			v.fail(n, "visited() outside a map loop")
		}
		it := v.its[len(v.its)-1-k]
		pos := v.iters[len(v.iters)-1-k]
		x := args[0].v.(*Term)
		ks, _ := arrParts(it.dom0.sort)
		if ks == SIface && x.sort != SIface {
			x = toIface(x, args[0].t)
		}
		if x.sort != ks {
			v.fail(n, "visited() key sort")
		}
		pi := Select(it.pidx, x)
		return SVal{v: And(Select(it.dom0, x), Lt(pi, pos)), t: tBool}
	case "keypos": // position of a key in the enumeration order of the map loop
		k := 0
		if len(args) > 1 {
			k = int(tm(1).ival)
		}
		if k >= len(v.its) || v.its[len(v.its)-1-k] == nil {
			v.fail(n, "keypos() outside a map loop")
		}
		it := v.its[len(v.its)-1-k]
		x := args[0].v.(*Term)
		ks, _ := arrParts(it.dom0.sort)
		if ks == SIface && x.sort != SIface {
			x = toIface(x, args[0].t)
		}
		return SVal{v: Select(it.pidx, x), t: tInt}
	case "unmarshaled": // every field of *p except the named ones is what decoding string s into it produced
		return SVal{v: e.unmarshaledPred(v, n, args), t: tBool}
	case "pbsize":
		return SVal{v: UF("pbsize", SInt, tm(0)), t: tInt}
	case "payload": // the wrapper value stored in an Any
		return SVal{v: Select(e.get(v.st, anyComp), tm(0)), t: types.Universe.Lookup("any").Type()}
	case "iopq":
		return SVal{v: tm(0), t: tInt}
	case "errof":
		return SVal{v: UF("errtext", SStr, tm(0)), t: tString}
	case "wraps":
		return SVal{v: UF("wraps", SBool, tm(0), tm(1)), t: tBool}
	case "nowrap":
		return args[0]
	case "eqslice": // same length and elements, the second read in the old state if nested in old()
		et := under(args[0].t).(*types.Slice).Elem()
		i := BV("i", SInt)
		a, b := tm(0), tm(1)
		g := And(Ge(i, Int(0)), Lt(i, Sel("s_len", a)))
		return SVal{v: And(Eq(Sel("s_len", a), Sel("s_len", b)), Forall([]*Term{i}, Imp(g, Eq(e.elemAt(v.st, a, i, et), e.elemAt(v.st, b, i, et))))), t: tBool}
	case "samekeys":
		mt := under(args[0].t).(*types.Map)
		d, _, _ := mapComps(mt)
		return SVal{v: Eq(Select(e.get(v.st, d), tm(0)), Select(e.get(v.st, d), tm(1))), t: tBool}
	case "raw": // uninterpreted function: raw("name", args...)
		nm := n.kids[0].s
		var as []*Term
		for _, a := range args[1:] {
			as = append(as, e.scalar(a.v))
		}
		return SVal{v: UF(nm, SInt, as...), t: tInt}
	case "rawb":
		nm := n.kids[0].s
		var as []*Term
		for _, a := range args[1:] {
			as = append(as, e.scalar(a.v))
		}
		return SVal{v: UF(nm, SBool, as...), t: tBool}
	case "raws":
		nm := n.kids[0].s
		var as []*Term
		for _, a := range args[1:] {
			as = append(as, e.scalar(a.v))
		}
		return SVal{v: UF(nm, SStr, as...), t: tString}
	}
	if f, ok := v.c.funs[n.s]; ok {
		if len(f.params) != len(args) {
			v.fail(n, "%s takes %d arguments", n.s, len(f.params))
		}
		return v.callFun(n, f, args)
	}
	v.fail(n, "unknown function %s", n.s)
	return SVal{}
}

// ---- hooks ----

func (e *Exec) runStmts(st *State, env *senv, ss []stmt, pos string) *senv {
	for _, s := range ss {
		env.st = st
		nd := &node{line: s.line}
		switch s.op {
		case "let":
			env = env.with(s.name, env.eval(s.e))
		case "set":
			c := e.ghostComp(s.name)
			g := e.C.ghosts[s.name]
			t := e.C.resolve(e.P, g.typ)
			x := env.coerce(nd, env.eval(s.e), t)
			if ix := s.exps["idx"]; ix != nil {
				k := env.term
				if g.key != nil {
					k = func(n *node) *Term { return env.coerce(nd, env.eval(n), g.keyType(e)) }
				}
				e.set(st, c, Store(e.get(st, c), k(ix), x))
			} else {
				e.set(st, c, x)
			}
		case "append":
			cnt := e.ghostComp(s.name + ".n")
			n := e.get(st, cnt)
			for _, k := range s.keys {
				fc := e.ghostComp(s.name + "." + k)
				t := e.C.resolve(e.P, e.C.ghosts[s.name+"."+k].typ)
				e.set(st, fc, Store(e.get(st, fc), n, env.coerce(nd, env.eval(s.exps[k]), t)))
			}
			e.set(st, cnt, Add(n, Int(1)))
		case "assert":
			g := env.boolean(s.e)
			e.obligation(st, "assert", s.name, propOf(s.name), g, e.curPos)
			e.assume(st, g)
		case "assume":
			e.assume(st, env.boolean(s.e))
		}
	}
	return env
}

func (e *Exec) hookEnv(st *State) *senv {
	old := e.entry
	env := &senv{e: e, st: st, old: old, c: e.C, vars: map[string]SVal{}}
	for k, x := range e.specEnv {
		env.vars[k] = x
	}
	return env
}

func (e *Exec) hasHook(kind string) bool {
	for _, h := range e.C.hooks {
		if h.kind == kind {
			return true
		}
	}
	return false
}

func (e *Exec) runHooks(st *State, kind string, typ types.Type, fn string, args []SVal, outs []SVal, after bool) {
	for _, h := range e.C.hooks {
		if h.kind != kind {
			continue
		}
		if h.typ != nil && !types.Identical(e.C.resolve(e.P, h.typ), typ) {
			continue
		}
		if h.fn != fn {
			continue
		}
		env := e.hookEnv(st)
		for i, b := range h.binds {
			if i < len(args) {
				env.vars[b] = args[i]
			}
		}
		if after {
			for i, b := range h.outs {
				if i < len(outs) {
					env.vars[b] = outs[i]
				}
			}
		}
		ss := h.pre
		if after {
			ss = h.post
		}
		if len(ss) == 0 {
			continue
		}
		if h.when != nil {
			c := env.boolean(h.when)
			if c == False {
				continue
			}
			if c != True {
				on := st.clone()
				on.reach = And(st.reach, c)
				off := st.clone()
				off.reach = And(st.reach, Not(c))
				env.st = on
				e.runStmts(on, env, ss, "")
				ms, _ := e.mergeStates([]edge{{on, nil}, {off, nil}})
				*st = *ms
				continue
			}
		}
		e.runStmts(st, env, ss, "")
	}
}

// userCands instantiates the contract's candidate invariants at a loop.
func containsInt(l []int, x int) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

func (e *Exec) userCands(label string, st0, h, back *State, at func(*Term) *State, n *Term, phis []phiC, plain func(name string, f func(s *State, i *Term) *Term)) {
	if e.rootC == nil {
		return
	}
	for _, c := range e.rootC.invs {
		c := c
		if ps := propOf(c.name); e.prop != "" && len(ps) > 0 && !contains(ps, e.prop) {
			continue // an invariant only another property needs
		}
		if len(c.loops) > 0 && !containsInt(c.loops, e.loopNo[label]) {
			continue
		}
		// metavariables range over the loop-carried variables of their type
		var assign func(k int, env map[string]func(s *State) SVal)
		assign = func(k int, env map[string]func(s *State) SVal) {
			if k == len(c.metas) {
				m := map[string]func(s *State) SVal{}
				for a, b := range env {
					m[a] = b
				}
				suffix := ""
				f := func(s *State, i *Term) *Term {
					iters := append(append([]*Term{}, e.iterC...), i)
					v := &senv{e: e, st: s, old: e.entry, start: st0, c: e.C, vars: map[string]SVal{}, iters: iters, its: e.curIts}
					for a, b := range e.specEnv {
						v.vars[a] = b
					}
					for a, b := range m {
						v.vars[a] = b(s)
					}
					return v.boolean(c.expr)
				}
				func() {
					defer func() {
						if r := recover(); r != nil {
							if u, ok := r.(unsupportedErr); ok {
								if dbgHoudini {
									fmt.Fprintln(os.Stderr, "candidate", c.name, "not applicable:", u.msg)
								}
								return // the candidate does not make sense at this loop
							}
							panic(r)
						}
					}()
					plain("user."+c.name+suffix, f)
				}()
				return
			}
			b := c.metas[k]
			t := e.C.resolve(e.P, b.typ)
			for _, g := range e.metaVals(t, phis) {
				env[b.name] = g
				assign(k+1, env)
			}
			delete(env, b.name)
		}
		assign(0, map[string]func(s *State) SVal{})
	}
}

// metaVals: the variables of type t visible at the current loop head: its own phis, those of the enclosing loops, and cells.
func (e *Exec) metaVals(t types.Type, phis []phiC) []func(s *State) SVal {
	var out []func(s *State) SVal
	add := func(ps []phiC) {
		for _, p := range ps {
			if p.mode == 2 || !types.Identical(p.typ, t) {
				continue
			}
			p := p
			out = append(out, func(s *State) SVal { return SVal{v: phiVal(s, p), t: p.typ} })
		}
	}
	add(phis)
	for i := len(e.loops) - 1; i >= 0; i-- {
		lc := e.loops[i]
		add(lc.phis)
	}
	for _, x := range e.metaExtra {
		if types.Identical(x.t, t) {
			x := x
			out = append(out, func(s *State) SVal { return x })
		}
	}
	// named captured / address-taken locals
	for _, cv := range e.cellVars {
		if types.Identical(cv.t, t) {
			cv := cv
			out = append(out, func(s *State) SVal { return SVal{v: e.loadPtr(s, cv.ref, cv.t), t: cv.t} })
		}
	}
	if len(out) > 12 {
		out = out[:12]
	}
	return out
}

type cellVar struct {
	ref *Term
	t   types.Type
}

func sortedFuns(m map[string]*FuncContract) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
