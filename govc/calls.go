package main

// Calls, channels, goroutines.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	sentComp   = "CH.sent"
	rcvdComp   = "CH.rcvd"
	closedComp = "CH.closed"
	capComp    = "CH.cap"
	nowComp    = "$now"
	anyComp    = "ANY.payload"
	codeComp   = "ERR.code"
	wgAdded    = "WG.added"
	wgClaimed  = "WG.claimed"
	pbSrcComp  = "PB.src"
)

func init() {
	comp(sentComp, ArrSort(SInt, SInt), nil, "chan")
	comp(rcvdComp, ArrSort(SInt, SInt), nil, "chan")
	comp(closedComp, ArrSort(SInt, SBool), nil, "chan")
	comp(capComp, ArrSort(SInt, SInt), nil, "chan")
	comp(nowComp, SInt, nil, "now")
	comp(anyComp, ArrSort(SInt, SIface), nil, "chan")
	comp(codeComp, ArrSort(SInt, SInt), nil, "chan")
	comp(wgAdded, ArrSort(SInt, SInt), nil, "chan")
	comp(wgClaimed, ArrSort(SInt, SInt), nil, "chan")
	comp(pbSrcComp, ArrSort(SInt, SStr), nil, "chan")
}

func (e *Exec) call(fr *Frame, st *State, c *ssa.CallCommon, pos token.Pos, typ types.Type) Val {
	var args []Val
	for _, a := range c.Args {
		args = append(args, e.val(fr, a))
	}
	return e.callCommon(fr, st, c, e.val(fr, c.Value), args, pos, typ)
}

func resultType(sig *types.Signature) types.Type {
	if sig.Results().Len() == 1 {
		return sig.Results().At(0).Type()
	}
	return sig.Results()
}

type callCtx struct {
	e      *Exec
	st     *State
	name   string
	args   []Val
	types  []types.Type // argument types, receiver first
	res    types.Type
	pos    token.Pos
	common *ssa.CallCommon
}

func (e *Exec) callCommon(fr *Frame, st *State, c *ssa.CallCommon, fnv Val, args []Val, pos token.Pos, typ types.Type) Val {
	saved := e.curPos
	if pos.IsValid() {
		e.curPos = pos
	}
	defer func() { e.curPos = saved }()
	res := resultType(c.Signature())
	if c.IsInvoke() {
		recv := fnv.(*Term)
		name := "(" + typeKey(c.Value.Type()) + ")." + c.Method.Name()
		// known dynamic type: go to the concrete method
		if recv.op == "ctor" && recv.name == "iptr" || recv.op == "ctor" && recv.name != "inil" && recv.name != "iptr" {
			if t := typeOfTag(recv.args[0]); t != nil {
				if m := e.P.prog.LookupMethod(t, c.Method.Pkg(), c.Method.Name()); m != nil && (e.P.repo[pkgPath(m)]) {
					v, _ := fromIface(recv, t)
					return e.callFn(st, m, append([]Val{v}, args...), nil, pos)
				}
			}
		}
		cc := &callCtx{e: e, st: st, name: name, args: append([]Val{recv}, args...), res: res, pos: pos, common: c}
		cc.types = append(cc.types, c.Value.Type())
		for i := 0; i < c.Signature().Params().Len(); i++ {
			cc.types = append(cc.types, c.Signature().Params().At(i).Type())
		}
		return e.external(cc, nil)
	}
	switch f := fnv.(type) {
	case *BuiltinV:
		return e.builtin(fr, st, f.name, c, args, pos, typ)
	case *ClosV:
		if f.recv != nil {
			args = append([]Val{f.recv}, args...)
		}
		return e.callFn(st, f.fn, args, f.binds, pos)
	case *Term:
		if cl, ok := e.closDefs[f.id]; ok {
			return e.callFn(st, cl.fn, args, cl.binds, pos)
		}
		// a function value the verifier does not know: no visible effect is assumed and recorded
		e.safe(st, "nilfunc", Ne(f, Int(0)), pos)
		e.opaque["call through an unknown function value of type "+typeKey(c.Value.Type())] = true
		return e.freshWf(st, "dyn", res)
	}
	panic(unsupported("call of %T", fnv))
}

var tagTypes = map[int64]types.Type{}

func typeOfTag(t *Term) types.Type {
	if t.op != "int" {
		return nil
	}
	return tagTypes[t.ival]
}

// fnName is the full name used by models and contracts; instances of generics use the generic's name.
func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.RelString(nil)
	}
	return fn.RelString(nil)
}

func (e *Exec) callFn(st *State, fn *ssa.Function, args []Val, binds []Val, pos token.Pos) Val {
	// wrappers around promoted or bound methods
	name := fnName(fn)
	sig := fn.Signature
	cc := &callCtx{e: e, st: st, name: name, args: args, res: resultType(sig), pos: pos}
	if sig.Recv() != nil {
		cc.types = append(cc.types, sig.Recv().Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		cc.types = append(cc.types, sig.Params().At(i).Type())
	}
	return e.external(cc, func() (Val, bool) {
		if e.C.opaque[name] {
			return nil, false
		}
		if fc := e.C.funcs[name]; fc != nil && fc.modular && fn != e.rootFn {
			return e.applyContract(st, fc, fn, args, pos), true
		}
		path := pkgPath(fn)
		if len(fn.Blocks) > 0 && (e.P.repo[path] || inlinable(path) || strings.HasPrefix(fn.Synthetic, "bound") || strings.HasPrefix(fn.Synthetic, "wrapper") || fn.Synthetic != "" && fn.Pkg == nil) {
			if fn.Synthetic != "" && !e.P.repo[path] && !inlinable(path) && !strings.Contains(fn.Synthetic, "instantiation") {
				// a thunk or wrapper: execute it, its callee is handled on its own
				v, s := e.callBody(st, fn, args, binds)
				*st = *s
				return v, true
			}
			v, s := e.callBody(st, fn, args, binds)
			*st = *s
			return v, true
		}
		if len(fn.Blocks) > 0 && fn.Parent() != nil {
			v, s := e.callBody(st, fn, args, binds)
			*st = *s
			return v, true
		}
		return nil, false
	})
}

func (cc *callCtx) svals() []SVal {
	var out []SVal
	for i, a := range cc.args {
		var t types.Type
		if i < len(cc.types) {
			t = cc.types[i]
		}
		out = append(out, SVal{v: a, t: t})
	}
	return out
}

// external: hooks around, then model, then body, then opaque.
func (e *Exec) external(cc *callCtx, body func() (Val, bool)) Val {
	hooked := e.C.hooked(cc.name)
	if hooked {
		e.runHooks(cc.st, "call", nil, cc.name, cc.svals(), nil, false)
	}
	v := e.external1(cc, body)
	if hooked {
		var outs []SVal
		if tt, ok := cc.res.(*types.Tuple); ok {
			if tv, ok := v.(*TupleV); ok {
				for i, x := range tv.vs {
					outs = append(outs, SVal{v: x, t: tt.At(i).Type()})
				}
			}
		} else {
			outs = append(outs, SVal{v: v, t: cc.res})
		}
		e.runHooks(cc.st, "call", nil, cc.name, cc.svals(), outs, true)
	}
	return v
}
func (c *Contracts) hooked(fn string) bool {
	for _, h := range c.hooks {
		if h.kind == "call" && h.fn == fn {
			return true
		}
	}
	return false
}

func (e *Exec) external1(cc *callCtx, body func() (Val, bool)) Val {
	if m := findModel(cc.name); m != nil {
		if v, ok := m(cc); ok {
			if cc.name[0] != '(' || !strings.Contains(cc.name, "logrus") {
				e.trusted[cc.name] = true
			}
			return v
		}
	}
	if body != nil {
		if v, ok := body(); ok {
			return v
		}
	}
	if isLogger(cc.name) {
		e.quiet[pkgOfName(cc.name)] = true
		return e.opaqueResult(cc)
	}
	e.opaque[cc.name] = true
	e.havocArgs(cc)
	return e.opaqueResult(cc)
}

// opaqueResult: any well-formed value; pointer results of library constructors are not nil.
func (e *Exec) opaqueResult(cc *callCtx) Val {
	v := e.freshWf(cc.st, "ret."+lastName(cc.name), cc.res)
	nn := func(v Val, t types.Type) {
		if x, ok := v.(*Term); ok {
			switch under(t).(type) {
			case *types.Pointer, *types.Chan:
				e.assume(cc.st, Ne(x, Int(0)))
			case *types.Interface:
				if typeKey(t) != "error" {
					e.assume(cc.st, Ne(x, INil))
				}
			}
		}
	}
	if tt, ok := cc.res.(*types.Tuple); ok {
		tv := v.(*TupleV)
		for i := range tv.vs {
			nn(tv.vs[i], tt.At(i).Type())
		}
	} else {
		nn(v, cc.res)
	}
	return v
}
func lastName(s string) string {
	if i := strings.LastIndexAny(s, "./"); i >= 0 {
		return s[i+1:]
	}
	return s
}
func pkgOfName(s string) string {
	s = strings.TrimLeft(s, "(*")
	j := strings.LastIndexByte(s, '/')
	k := strings.IndexAny(s[j+1:], ".)")
	if k < 0 {
		return s
	}
	return s[:j+1+k]
}
func isLogger(n string) bool {
	p := pkgOfName(n)
	return strings.HasPrefix(p, "github.com/sirupsen/logrus") || strings.HasPrefix(p, "go.opentelemetry.io/") || p == "github.com/davecgh/go-spew/spew" || p == "fmt" && (strings.HasPrefix(lastName(n), "Print") || strings.HasPrefix(lastName(n), "Fprint"))
}

// havocArgs: an unmodelled library function may overwrite the elements of the slices it is given.
func (e *Exec) havocArgs(cc *callCtx) {
	for i, a := range cc.args {
		if i >= len(cc.types) || cc.types[i] == nil {
			continue
		}
		x, ok := a.(*Term)
		if !ok {
			continue
		}
		t := cc.types[i]
		if x.sort == SIface && x.op == "ctor" && x.name == "islc" {
			t = typeOfTag(x.args[0])
			x = x.args[1]
		}
		if t == nil {
			continue
		}
		if s, ok := under(t).(*types.Slice); ok && x.sort == SSlice && !isStruct(s.Elem()) {
			if _, isVar := under(s.Elem()).(*types.Interface); isVar {
				continue // variadic operands
			}
			c := elemComp(s.Elem())
			h := e.get(cc.st, c)
			_, row := arrParts(h.sort)
			e.set(cc.st, c, Store(h, Sel("s_ref", x), Fresh("havoc", row)))
			e.note("elements of a slice given to " + cc.name + " are unknown afterwards")
		}
	}
}

// applyContract: a caller sees the callee through its contract.
func (e *Exec) applyContract(st *State, fc *FuncContract, fn *ssa.Function, args []Val, pos token.Pos) Val {
	env := &senv{e: e, st: st, old: st, c: e.C, vars: map[string]SVal{}}
	var ts []types.Type
	if fn.Signature.Recv() != nil {
		ts = append(ts, fn.Signature.Recv().Type())
	}
	for i := 0; i < fn.Signature.Params().Len(); i++ {
		ts = append(ts, fn.Signature.Params().At(i).Type())
	}
	for i, p := range fc.params {
		env.vars[p] = SVal{v: args[i], t: ts[i]}
	}
	for _, r := range fc.requires {
		e.obligation(st, "pre", shortFn(fc.name)+"."+r.name, e.allProps(), env.boolean(r.expr), pos)
	}
	e.trusted["contract of "+fc.name+" (proved separately)"] = true
	res := resultType(fn.Signature)
	v := e.freshWf(st, "res."+fn.Name(), res)
	if len(fc.results) == 1 {
		env.vars[fc.results[0]] = SVal{v: v, t: res}
	} else if tv, ok := v.(*TupleV); ok {
		tt := res.(*types.Tuple)
		for i, r := range fc.results {
			env.vars[r] = SVal{v: tv.vs[i], t: tt.At(i).Type()}
		}
	}
	for _, c := range fc.ensures {
		e.assume(st, env.boolean(c.expr))
	}
	return v
}
func (e *Exec) allProps() []string {
	if e.rootC != nil {
		return e.rootC.allProps()
	}
	return nil
}

// ---- builtins ----

func (e *Exec) builtin(fr *Frame, st *State, name string, c *ssa.CallCommon, args []Val, pos token.Pos, typ types.Type) Val {
	switch name {
	case "len", "cap":
		x := e.scalar(args[0])
		switch t := under(c.Args[0].Type()).(type) {
		case *types.Slice:
			if name == "cap" {
				return Sel("s_cap", x)
			}
			return Sel("s_len", x)
		case *types.Map:
			return e.mapLen(st, x, t)
		case *types.Basic:
			n := strLen(x)
			e.assume(st, Ge(n, Int(0)))
			if x.op != "str" {
				e.assume(st, Eq(Eq(n, Int(0)), Eq(x, StrLit(""))))
			}
			return n
		case *types.Array:
			return Int(t.Len())
		case *types.Pointer:
			return Int(under(t.Elem()).(*types.Array).Len())
		case *types.Chan:
			if name == "cap" {
				return Select(e.get(st, capComp), x)
			}
			n := Fresh("chanlen", SInt)
			e.assume(st, Ge(n, Int(0)))
			return n
		}
		panic(unsupported("%s of %s", name, c.Args[0].Type()))
	case "append":
		s := e.scalar(args[0])
		stt := under(c.Args[0].Type()).(*types.Slice)
		if isStruct(stt.Elem()) {
			panic(unsupported("append to a slice of structs"))
		}
		y := e.scalar(args[1])
		if y.sort == SStr { // append([]byte, string...)
			y = e.convert(st, y, c.Args[1].Type(), c.Args[0].Type()).(*Term)
		}
		return e.appendSlice(st, s, y, stt.Elem())
	case "copy":
		return e.copyBuiltin(st, e.scalar(args[0]), e.scalar(args[1]), c)
	case "delete":
		mt := under(c.Args[0].Type()).(*types.Map)
		e.mapDelete(st, e.scalar(args[0]), e.keyTerm(args[1], mt.Key()), mt)
		return &TupleV{}
	case "close":
		e.closeChan(st, e.scalar(args[0]), pos)
		return &TupleV{}
	case "panic":
		e.safe(st, "panic", False, pos)
		st.reach = False
		return &TupleV{}
	case "recover":
		panic(unsupported("recover"))
	case "print", "println":
		return &TupleV{}
	case "min", "max":
		acc := e.scalar(args[0])
		for _, a := range args[1:] {
			x := e.scalar(a)
			if acc.sort != SInt {
				panic(unsupported("min/max on %s", acc.sort))
			}
			if name == "min" {
				acc = Ite(Le(acc, x), acc, x)
			} else {
				acc = Ite(Le(acc, x), x, acc)
			}
		}
		return acc
	case "clear":
		if mt, ok := under(c.Args[0].Type()).(*types.Map); ok {
			d, _, l := mapComps(mt)
			m := e.scalar(args[0])
			hd, hl := e.get(st, d), e.get(st, l)
			_, row := arrParts(hd.sort)
			e.set(st, d, Store(hd, m, ConstArr(row, False)))
			e.set(st, l, Store(hl, m, Int(0)))
			return &TupleV{}
		}
	case "ssa:wrapnilchk":
		p := e.scalar(args[0])
		e.nilCheck(st, p, pos)
		return p
	}
	panic(unsupported("builtin %s", name))
}

func (e *Exec) copyBuiltin(st *State, d, s *Term, c *ssa.CallCommon) Val {
	et := under(c.Args[0].Type()).(*types.Slice).Elem()
	if isStruct(et) {
		panic(unsupported("copy of structs"))
	}
	if s.sort == SStr {
		s = e.convert(st, s, c.Args[1].Type(), c.Args[0].Type()).(*Term)
	}
	cn := elemComp(et)
	h := e.get(st, cn)
	dl, sl := Sel("s_len", d), Sel("s_len", s)
	n := Ite(Le(dl, sl), dl, sl)
	row := Fresh("cprow", ArrSort(SInt, sortOf(et)))
	x := BV("x", SInt)
	sx := mk("select", "", sortOf(et), row, x)
	lo := Sel("s_off", d)
	old := Select(h, Sel("s_ref", d))
	src := Select(h, Sel("s_ref", s))
	e.assume(st, Forall([]*Term{x}, Imp(Or(Lt(x, lo), Ge(x, Add(lo, n))), Eq(sx, Select(old, x))), []*Term{sx}))
	e.assume(st, Forall([]*Term{x}, Imp(And(Ge(x, lo), Lt(x, Add(lo, n))), Eq(sx, Select(src, Add(x, Sel("s_off", s), MulK(-1, lo))))), []*Term{sx}))
	e.set(st, cn, Store(h, Sel("s_ref", d), row))
	return n
}

// ---- channels ----

// chanVal: the k-th value carried by channel c (a fixed, unknown sequence; first-in first-out).
func (e *Exec) chanVal(c, k *Term, et types.Type) Val {
	s := SInt
	if !isStruct(et) {
		s = sortOf(et)
	}
	q := Const("CQ."+typeKey(et), ArrSort(SInt, ArrSort(SInt, s)))
	x := Select(Select(q, c), k)
	if isStruct(et) {
		return boxed(x, et)
	}
	return x
}

// boxed: a struct value identified by an integer.
func boxed(id *Term, t types.Type) Val {
	st := under(t).(*types.Struct)
	sv := &StructV{typ: t}
	for i := 0; i < st.NumFields(); i++ {
		ft := st.Field(i).Type()
		if isOpaqueStruct(ft) {
			sv.fs = append(sv.fs, nil)
			continue
		}
		if isStruct(ft) {
			sv.fs = append(sv.fs, boxed(UF("box:"+typeKey(t)+"."+st.Field(i).Name(), SInt, id), ft))
			continue
		}
		sv.fs = append(sv.fs, UF("box:"+typeKey(t)+"."+st.Field(i).Name(), sortOf(ft), id))
	}
	return sv
}

func (e *Exec) eqVals(a, b Val) *Term {
	switch x := a.(type) {
	case *StructV:
		y := b.(*StructV)
		var cs []*Term
		for i := range x.fs {
			if x.fs[i] != nil {
				cs = append(cs, e.eqVals(x.fs[i], y.fs[i]))
			}
		}
		return And(cs...)
	}
	return Eq(e.scalar(a), e.scalar(b))
}

func (e *Exec) send(st *State, c *Term, v Val, ct types.Type, pos token.Pos) {
	t := under(ct).(*types.Chan).Elem()
	saved := e.curPos
	e.curPos = pos
	defer func() { e.curPos = saved }()
	e.assume(st, Ne(c, Int(0))) // a nil channel blocks for ever
	e.safe(st, "sendclosed", Not(Select(e.get(st, closedComp), c)), pos)
	k := Select(e.get(st, sentComp), c)
	e.assume(st, Ge(k, Int(0)))
	e.assume(st, e.eqVals(e.chanVal(c, k, t), v))
	e.runHooks(st, "send", t, "", []SVal{{v: c, t: ct}, {v: v, t: t}}, nil, false)
	e.set(st, sentComp, Store(e.get(st, sentComp), c, Add(k, Int(1))))
	if e.curThread != nil {
		e.curThread.sends = append(e.curThread.sends, sendRec{c, st.reach})
	}
	e.runHooks(st, "send", t, "", []SVal{{v: c, t: ct}, {v: v, t: t}}, nil, true)
}

func (e *Exec) recv(st *State, c *Term, ct types.Type, pos token.Pos) (Val, *Term) {
	t := under(ct).(*types.Chan).Elem()
	saved := e.curPos
	e.curPos = pos
	defer func() { e.curPos = saved }()
	e.assume(st, Ne(c, Int(0)))
	rn := e.get(st, rcvdComp)
	k := Select(rn, c)
	e.assume(st, Ge(k, Int(0)))
	v := e.chanVal(c, k, t)
	cl := Select(e.get(st, closedComp), c)
	ok := Or(Not(cl), Lt(k, Select(e.get(st, sentComp), c)))
	if ok != True {
		v = iteVal(ok, v, zeroVal(t))
	}
	e.set(st, rcvdComp, Store(rn, c, Ite(ok, Add(k, Int(1)), k)))
	e.wfVal(st, v, t)
	e.runHooks(st, "recv", t, "", []SVal{{v: c, t: ct}, {v: v, t: t}, {v: ok, t: tBool}}, nil, true)
	return v, ok
}

func (e *Exec) closeChan(st *State, c *Term, pos token.Pos) {
	e.safe(st, "closenil", Ne(c, Int(0)), pos)
	e.safe(st, "closeclosed", Not(Select(e.get(st, closedComp), c)), pos)
	// nobody may still be about to send
	for _, th := range e.threads {
		for _, s := range th.sends {
			g := Imp(And(Eq(s.ch, c), s.reach), th.ran)
			g = th.lift(g)
			e.safe(st, "pendingsend", g, pos)
		}
	}
	e.set(st, closedComp, Store(e.get(st, closedComp), c, True))
	e.runHooks(st, "close", nil, "", []SVal{{v: c, t: types.NewChan(types.SendRecv, tInt)}}, nil, true)
}

func (e *Exec) hookMakeChan(st *State, r *Term, t types.Type, size *Term) {
	e.set(st, sentComp, Store(e.get(st, sentComp), r, Int(0)))
	e.set(st, rcvdComp, Store(e.get(st, rcvdComp), r, Int(0)))
	e.set(st, closedComp, Store(e.get(st, closedComp), r, False))
	e.set(st, capComp, Store(e.get(st, capComp), r, size))
	e.runHooks(st, "makechan", under(t).(*types.Chan).Elem(), "", []SVal{{v: r, t: t}, {v: size, t: tInt}}, nil, true)
}

func (e *Exec) selectStmt(fr *Frame, st *State, in *ssa.Select) Val {
	idx := Fresh("sel", SInt)
	n := len(in.States)
	lo := int64(0)
	if !in.Blocking {
		lo = -1
	}
	e.assume(st, And(Ge(idx, Int(lo)), Lt(idx, Int(int64(n)))))
	var es []edge
	type rv struct {
		ok *Term
		vs []Val
	}
	var rs []rv
	var recvT []types.Type
	for _, s := range in.States {
		if s.Dir == types.RecvOnly {
			recvT = append(recvT, under(s.Chan.Type()).(*types.Chan).Elem())
		}
	}
	zero := func() []Val {
		var vs []Val
		for _, t := range recvT {
			vs = append(vs, zeroVal(t))
		}
		return vs
	}
	ri := 0
	for i, s := range in.States {
		b := st.clone()
		b.reach = And(st.reach, Eq(idx, Int(int64(i))))
		vs := zero()
		ok := False
		c := e.term(fr, s.Chan)
		if s.Dir == types.RecvOnly {
			v, k := e.recv(b, c, s.Chan.Type(), s.Pos)
			vs[ri] = v
			ok = k
			ri++
		} else {
			e.send(b, c, e.val(fr, s.Send), s.Chan.Type(), s.Pos)
		}
		es = append(es, edge{b, nil})
		rs = append(rs, rv{ok, vs})
	}
	if !in.Blocking {
		b := st.clone()
		b.reach = And(st.reach, Eq(idx, Int(-1)))
		e.runHooks(b, "select", nil, "", []SVal{{v: Int(-1), t: tInt}}, nil, true)
		es = append(es, edge{b, nil})
		rs = append(rs, rv{False, zero()})
	}
	ms, _ := e.mergeStates(es)
	ms.reach = st.reach // the choices are exhaustive
	var okT *Term
	out := zero()
	for i := len(rs) - 1; i >= 0; i-- {
		cond := Eq(idx, Int(int64(i)))
		if i == n {
			cond = Eq(idx, Int(-1))
		}
		if okT == nil {
			okT = rs[i].ok
			copy(out, rs[i].vs)
			continue
		}
		okT = Ite(cond, rs[i].ok, okT)
		for j := range out {
			out[j] = iteVal(cond, rs[i].vs[j], out[j])
		}
	}
	*st = *ms
	return &TupleV{append([]Val{idx, okT}, out...)}
}

// ---- goroutines ----

type sendRec struct {
	ch    *Term
	reach *Term
}
type doneRec struct {
	wg    *Term
	comps map[string]*Term
	reach *Term
}

type thread struct {
	ran   *Term // the goroutine has run (to completion, if join says so)
	join  []joinRec
	sends []sendRec
	dones []doneRec
	quant []func(*Term) *Term // lifting over the iterations of the loops it was started in
}
type joinRec struct {
	wg   *Term
	fact *Term
}

func (t *thread) lift(g *Term) *Term {
	for _, q := range t.quant {
		g = q(g)
	}
	return g
}

func (e *Exec) goStmt(fr *Frame, st *State, in *ssa.Go) {
	c := &in.Call
	var args []Val
	for _, a := range c.Args {
		args = append(args, e.val(fr, a))
	}
	fnv := e.val(fr, c.Value)
	ran := Fresh("ran", SBool)
	th := &thread{ran: ran}
	prev := e.curThread
	e.curThread = th
	before := st.clone()
	ts := st.clone()
	ts.reach = And(st.reach, ran)
	e.callCommon(fr, ts, c, fnv, args, in.Pos(), nil)
	e.curThread = prev
	if prev != nil {
		prev.sends = append(prev.sends, th.sends...)
	}
	// join facts: Wait on a group whose Done is the last thing the goroutine does
	for _, d := range th.dones {
		last := true
		for k, v := range ts.comps {
			if d.comps[k] != v && !(strings.HasPrefix(k, "WG.") || k == allocComp || k == nowComp) {
				if d.comps[k] == nil && e.initComp(k) == v {
					continue
				}
				last = false
			}
		}
		if !last {
			e.note("a goroutine signals its wait group before it has finished")
			continue
		}
		added := Select(e.get(before, wgAdded), d.wg)
		claimed := Select(e.get(before, wgClaimed), d.wg)
		// every Add that covers this goroutine happened before it was started
		th.join = append(th.join, joinRec{d.wg, Imp(And(before.reach, Gt(added, claimed)), And(ran, ts.reach))})
		e.set(st, wgClaimed, Store(e.get(st, wgClaimed), d.wg, Add(claimed, Int(1))))
	}
	e.threads = append(e.threads, th)
	if ts.reach == False {
		return
	}
	cond := relCond(ts.reach, st.reach)
	keys := map[string]bool{}
	for k := range ts.comps {
		keys[k] = true
	}
	for _, k := range sortedKeys(keys) {
		if k == wgClaimed || k == wgAdded {
			continue
		}
		if strings.HasPrefix(k, "phi:") || strings.HasPrefix(k, "it:") {
			continue
		}
		a, b := ts.comps[k], e.get(st, k)
		if a != b {
			e.set(st, k, Ite(cond, a, b))
		}
	}
}

func (e *Exec) wgAdd(st *State, wg, n *Term) {
	h := e.get(st, wgAdded)
	e.set(st, wgAdded, Store(h, wg, Add(Select(h, wg), n)))
}
func (e *Exec) wgDone(st *State, wg *Term) {
	if e.curThread == nil {
		h := e.get(st, wgAdded)
		e.set(st, wgAdded, Store(h, wg, Sub(Select(h, wg), Int(1))))
		return
	}
	e.curThread.dones = append(e.curThread.dones, doneRec{wg, st.clone().comps, st.reach})
}
func (e *Exec) wgWait(st *State, wg *Term) {
	for _, t := range e.threads {
		for _, j := range t.join {
			f := j.fact
			if j.wg != wg {
				f = Imp(Eq(j.wg, wg), f)
			}
			e.assume(st, t.lift(f))
		}
	}
}

func (e *Exec) describe(v Val) string { return fmt.Sprint(v) }
