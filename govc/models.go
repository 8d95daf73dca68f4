package main

// Assumed behaviour of library functions (the trusted base).

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type model func(cc *callCtx) (Val, bool)

var models = map[string]model{}

func findModel(name string) model {
	if m, ok := models[name]; ok {
		return m
	}
	return nil
}

func (cc *callCtx) t(i int) *Term { return cc.e.scalar(cc.args[i]) }

func tuple(vs ...Val) Val { return &TupleV{vs} }

var errType = types.Universe.Lookup("error").Type()

// newError: a fresh non-nil error value with a gRPC code.
func (e *Exec) newError(st *State, code *Term) *Term {
	r := e.alloc(st)
	if code != nil {
		e.set(st, codeComp, Store(e.get(st, codeComp), r, code))
	}
	return Ctor("iptr", Int(errTag), r)
}

const errTag = 900001

// errCode: what status.Code reports; 0 (OK) for nil, 2 (Unknown) for foreign errors.
func (e *Exec) errCode(st *State, err *Term) *Term {
	own := And(IsCtor("iptr", err), Eq(Sel("i_ptag", err), Int(errTag)))
	return Ite(Eq(err, INil), Int(0), Ite(own, Select(e.get(st, codeComp), Sel("i_p", err)), UF("foreigncode", SInt, err)))
}

func floorDiv(x *Term, k int64) *Term {
	if x.op == "int" {
		q := x.ival / k
		if x.ival%k < 0 {
			q--
		}
		return Int(q)
	}
	// (k*a + b) div k with constants
	l := toLin(x)
	if l.c%k == 0 && len(l.ks) > 0 {
		all := true
		for _, t := range l.ks {
			if l.m[t.id]%k != 0 {
				all = false
			}
		}
		if all {
			var ts []*Term
			for _, t := range l.ks {
				ts = append(ts, MulK(l.m[t.id]/k, t))
			}
			ts = append(ts, Int(l.c/k))
			return Add(ts...)
		}
	}
	return mk("intdiv", "", SInt, x, Int(k))
}
func floorMod(x *Term, k int64) *Term { return Sub(x, MulK(k, floorDiv(x, k))) }

func itoa(x *Term) *Term {
	if x.op == "int" {
		return StrLit(fmt.Sprint(x.ival))
	}
	return UF("itoa", SStr, x)
}

func (e *Exec) clock(st *State) *Term {
	t := Fresh("now", SInt)
	e.assume(st, And(Ge(t, e.get(st, nowComp)), Gt(t, Int(1000000000)), Lt(t, Int(9000000000000000000))))
	e.set(st, nowComp, t)
	return t
}

// display: the text fmt prints for an operand with %v (known for strings and integers only).
func display(x *Term) *Term {
	if x.op == "ctor" {
		switch x.name {
		case "istr":
			return x.args[1]
		case "iint":
			return itoa(x.args[1])
		}
	}
	if v, ok := fromIface(x, tString); x.op != "ctor" {
		if t, y := v.(*Term); y {
			return Ite(ok, t, UF("display", SStr, x))
		}
	}
	return UF("display", SStr, x)
}

// sprintf expands a constant format into a concatenation.
func (e *Exec) sprintf(st *State, format *Term, args *Term) *Term {
	if format.op != "str" || Sel("s_len", args).op != "int" {
		return UF("sprintf", SStr, format, Fresh("fmtargs", SInt))
	}
	n := int(Sel("s_len", args).ival)
	anyT := types.Universe.Lookup("any").Type()
	var vals []*Term
	for i := 0; i < n; i++ {
		vals = append(vals, e.elemAt(st, args, Int(int64(i)), anyT))
	}
	f := format.name
	out := StrLit("")
	k := 0
	lit := ""
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit += string(f[i])
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
			j++
		}
		if j >= len(f) {
			break
		}
		verb := f[i : j+1]
		i = j
		if verb == "%%" {
			lit += "%"
			continue
		}
		if k >= len(vals) {
			lit += "%!" + verb + "(MISSING)"
			continue
		}
		x := vals[k]
		k++
		var p *Term
		switch {
		case verb == "%v" || verb == "%s" && x.op == "ctor" && x.name == "istr" || verb == "%d" && x.op == "ctor" && x.name == "iint":
			p = display(x)
		default:
			p = UF("display"+verb, SStr, x)
		}
		out = concat2(out, StrLit(lit))
		lit = ""
		out = concat2(out, p)
	}
	return concat2(out, StrLit(lit))
}

// concat2 keeps concatenations right nested with adjacent literals merged.
func concat2(a, b *Term) *Term {
	ps := append(strParts(a), strParts(b)...)
	var m []*Term
	for _, p := range ps {
		if p.op == "str" && p.name == "" {
			continue
		}
		if len(m) > 0 && p.op == "str" && m[len(m)-1].op == "str" {
			m[len(m)-1] = StrLit(m[len(m)-1].name + p.name)
			continue
		}
		m = append(m, p)
	}
	if len(m) == 0 {
		return StrLit("")
	}
	r := m[len(m)-1]
	for i := len(m) - 2; i >= 0; i-- {
		r = UF("concat", SStr, m[i], r)
	}
	return r
}
func strParts(a *Term) []*Term {
	if a.op == "uf" && a.name == "concat" {
		return append(strParts(a.args[0]), strParts(a.args[1])...)
	}
	return []*Term{a}
}

// unmarshal sets every field of *p to what decoding s gives.
func (e *Exec) unmarshal(st *State, s, p *Term, pt types.Type) {
	t := under(pt).(*types.Pointer).Elem()
	sv := under(t).(*types.Struct)
	before := e.get(st, allocComp)
	e.set(st, pbSrcComp, Store(e.get(st, pbSrcComp), p, s))
	na := Fresh("alloc", SInt)
	e.assume(st, Ge(na, before))
	e.set(st, allocComp, na)
	for i := 0; i < sv.NumFields(); i++ {
		f := sv.Field(i)
		if isOpaqueStruct(f.Type()) || !f.Exported() {
			continue
		}
		if isStruct(f.Type()) || isArrayT(f.Type()) {
			panic(unsupported("decoding into %s", t))
		}
		c := fieldComp(t, i)
		x := pbField(t, f.Name(), sortOf(f.Type()), p, s)
		e.assume(st, wfScalar(f.Type(), x, na))
		// decoded sub-objects are new
		switch under(f.Type()).(type) {
		case *types.Pointer, *types.Map:
			e.assume(st, Or(Eq(x, Int(0)), Ge(x, before)))
		}
		e.set(st, c, Store(e.get(st, c), p, x))
	}
}
func pbField(t types.Type, f string, s Sort, p, src *Term) *Term {
	return UF("pb:"+typeKey(t)+"."+f, s, p, src)
}

func (e *Exec) unmarshaledPred(v *senv, n *node, args []SVal) *Term {
	p := args[0].v.(*Term)
	s := args[1].v.(*Term)
	except := map[string]bool{}
	for _, k := range n.kids[2:] {
		except[k.s] = true
	}
	t := under(args[0].t).(*types.Pointer).Elem()
	sv := under(t).(*types.Struct)
	cs := []*Term{Ne(p, Int(0)), Eq(Select(e.get(v.st, pbSrcComp), p), s)}
	for i := 0; i < sv.NumFields(); i++ {
		f := sv.Field(i)
		if isOpaqueStruct(f.Type()) || !f.Exported() || except[f.Name()] {
			continue
		}
		cs = append(cs, Eq(Select(e.get(v.st, fieldComp(t, i)), p), pbField(t, f.Name(), sortOf(f.Type()), p, s)))
	}
	return And(cs...)
}

// strOfBytes: the string with the contents of a byte slice.
func (e *Exec) strOfBytes(st *State, b *Term) *Term {
	row := Select(e.get(st, elemComp(types.Typ[types.Uint8])), Sel("s_ref", b))
	return e.bytesToStr(st, row, Sel("s_off", b), Sel("s_len", b))
}

func fresh(cc *callCtx) (Val, bool) { return cc.e.opaqueResult(cc), true }

func init() {
	def := func(names string, m model) {
		for _, n := range strings.Fields(names) {
			models[n] = m
		}
	}
	none := func(cc *callCtx) (Val, bool) { return &TupleV{}, true }
	// errors
	def("errors.New", func(cc *callCtx) (Val, bool) {
		return cc.e.newError(cc.st, Int(2)), true
	})
	def("fmt.Errorf github.com/pkg/errors.Errorf github.com/pkg/errors.New", func(cc *callCtx) (Val, bool) {
		return cc.e.newError(cc.st, Int(2)), true
	})
	def("github.com/pkg/errors.Wrap github.com/pkg/errors.Wrapf github.com/pkg/errors.WithStack github.com/pkg/errors.WithMessage", func(cc *callCtx) (Val, bool) {
		n := cc.e.newError(cc.st, Int(2))
		return Ite(Eq(cc.t(0), INil), INil, n), true
	})
	def("errors.Is github.com/pkg/errors.Is", func(cc *callCtx) (Val, bool) {
		a, b := cc.t(0), cc.t(1)
		return Or(Eq(a, b), And(Ne(a, INil), UF("wraps", SBool, a, b))), true
	})
	def("google.golang.org/grpc/status.Error google.golang.org/grpc/status.Errorf", func(cc *callCtx) (Val, bool) {
		n := cc.e.newError(cc.st, cc.t(0))
		return Ite(Eq(cc.t(0), Int(0)), INil, n), true
	})
	def("google.golang.org/grpc/status.New google.golang.org/grpc/status.Newf", func(cc *callCtx) (Val, bool) {
		r := cc.e.alloc(cc.st)
		cc.e.set(cc.st, codeComp, Store(cc.e.get(cc.st, codeComp), r, cc.t(0)))
		return r, true
	})
	stErr := func(cc *callCtx) (Val, bool) {
		r := cc.t(0)
		c := Select(cc.e.get(cc.st, codeComp), r)
		return Ite(Eq(c, Int(0)), INil, Ctor("iptr", Int(errTag), r)), true
	}
	def("(*google.golang.org/grpc/internal/status.Status).Err (*google.golang.org/grpc/status.Status).Err", stErr)
	stDet := func(cc *callCtx) (Val, bool) {
		// a non-OK status can always carry details (an OK one cannot: nil status and an error)
		r := cc.t(0)
		c := Select(cc.e.get(cc.st, codeComp), r)
		n := cc.e.alloc(cc.st)
		cc.e.set(cc.st, codeComp, Store(cc.e.get(cc.st, codeComp), n, c))
		er := cc.e.newError(cc.st, Int(2))
		fail := Fresh("detfail", SBool)
		cc.e.assume(cc.st, Imp(Ne(c, Int(0)), Not(fail)))
		cc.e.assume(cc.st, Imp(Eq(c, Int(0)), fail))
		return tuple(Ite(fail, Int(0), n), Ite(fail, er, INil)), true
	}
	def("(*google.golang.org/grpc/internal/status.Status).WithDetails (*google.golang.org/grpc/status.Status).WithDetails", stDet)
	def("(error).Error", func(cc *callCtx) (Val, bool) {
		cc.e.safe(cc.st, "nilerror", Ne(cc.t(0), INil), cc.pos)
		return UF("errtext", SStr, cc.t(0)), true
	})
	// fmt
	def("fmt.Sprintf", func(cc *callCtx) (Val, bool) { return cc.e.sprintf(cc.st, cc.t(0), cc.t(1)), true })
	def("fmt.Sprint", func(cc *callCtx) (Val, bool) {
		a := cc.t(0)
		if Sel("s_len", a) == Int(1) {
			return display(cc.e.elemAt(cc.st, a, Int(0), types.Universe.Lookup("any").Type())), true
		}
		return Fresh("sprint", SStr), true
	})
	// strings, strconv
	def("strconv.FormatInt", func(cc *callCtx) (Val, bool) {
		if cc.t(1) == Int(10) {
			return itoa(cc.t(0)), true
		}
		return UF("formatint", SStr, cc.t(0), cc.t(1)), true
	})
	def("strconv.Itoa", func(cc *callCtx) (Val, bool) { return itoa(cc.t(0)), true })
	parse := func(cc *callCtx) (Val, bool) {
		s := cc.t(0)
		ok := UF("isint10", SBool, s)
		val := UF("parseint10", SInt, s)
		if len(cc.args) > 1 && cc.t(1) != Int(10) && cc.t(1) != Int(0) {
			return nil, false
		}
		cc.e.assume(cc.st, And(Ge(val, Int(-1<<63)), Le(val, Int(1<<63-1))))
		bad := Fresh("badint", SInt)
		er := cc.e.newError(cc.st, Int(2))
		return tuple(Ite(ok, val, bad), Ite(ok, INil, er)), true
	}
	def("strconv.ParseInt strconv.Atoi", parse)
	def("strings.Split", func(cc *callCtx) (Val, bool) {
		s, sep := cc.t(0), cc.t(1)
		e := cc.e
		n := UF("splitlen", SInt, s, sep)
		e.assume(cc.st, Imp(Ne(sep, StrLit("")), Ge(n, Int(1))))
		e.assume(cc.st, Ge(n, Int(0)))
		r := e.alloc(cc.st)
		c := elemComp(tString)
		e.set(cc.st, c, Store(e.get(cc.st, c), r, UF("splitrow", ArrSort(SInt, SStr), s, sep)))
		return MkSlice(r, Int(0), n, n), true
	})
	def("strings.Cut", func(cc *callCtx) (Val, bool) {
		s, sep := cc.t(0), cc.t(1)
		n := UF("splitlen", SInt, s, sep)
		row := UF("splitrow", ArrSort(SInt, SStr), s, sep)
		return tuple(Select(row, Int(0)), Fresh("cutafter", SStr), Gt(n, Int(1))), true
	})
	for _, n := range []string{"strings.ToLower", "strings.ToUpper", "strings.TrimSpace"} {
		n := n
		def(n, func(cc *callCtx) (Val, bool) { return UF(n, SStr, cc.t(0)), true })
	}
	for _, n := range []string{"strings.TrimPrefix", "strings.TrimSuffix"} {
		n := n
		def(n, func(cc *callCtx) (Val, bool) { return UF(n, SStr, cc.t(0), cc.t(1)), true })
	}
	for _, n := range []string{"strings.HasPrefix", "strings.HasSuffix", "strings.Contains", "strings.EqualFold"} {
		n := n
		def(n, func(cc *callCtx) (Val, bool) {
			if n == "strings.EqualFold" {
				// against a literal of ASCII letters: the same as comparing in lower case
				for i := 0; i < 2; i++ {
					if x := cc.t(i); x.op == "str" && asciiLetters(x.name) {
						return Eq(UF("strings.ToLower", SStr, cc.t(1-i)), StrLit(strings.ToLower(x.name))), true
					}
				}
			}
			return UF(n, SBool, cc.t(0), cc.t(1)), true
		})
	}
	// regexp
	def("regexp.MustCompile", func(cc *callCtx) (Val, bool) {
		r := UF("regexp", SInt, cc.t(0))
		cc.e.assume(cc.st, Gt(r, Int(0)))
		return r, true
	})
	def("(*regexp.Regexp).MatchString", func(cc *callCtx) (Val, bool) {
		r := cc.t(0)
		if r.op == "uf" && r.name == "regexp" {
			return UF("rematch", SBool, r.args[0], cc.t(1)), true
		}
		return UF("rematchref", SBool, r, cc.t(1)), true
	})
	def("regexp.MatchString", func(cc *callCtx) (Val, bool) {
		return tuple(UF("rematch", SBool, cc.t(0), cc.t(1)), INil), true
	})
	// time
	def("time.Now", func(cc *callCtx) (Val, bool) { return cc.e.clock(cc.st), true })
	def("(time.Time).Add", func(cc *callCtx) (Val, bool) { return Add(cc.t(0), cc.t(1)), true })
	def("(time.Time).Sub", func(cc *callCtx) (Val, bool) { return Sub(cc.t(0), cc.t(1)), true })
	def("(time.Time).After", func(cc *callCtx) (Val, bool) { return Gt(cc.t(0), cc.t(1)), true })
	def("(time.Time).Before", func(cc *callCtx) (Val, bool) { return Lt(cc.t(0), cc.t(1)), true })
	def("(time.Time).Equal", func(cc *callCtx) (Val, bool) { return Eq(cc.t(0), cc.t(1)), true })
	def("(time.Time).Compare", func(cc *callCtx) (Val, bool) {
		return Ite(Lt(cc.t(0), cc.t(1)), Int(-1), Ite(Eq(cc.t(0), cc.t(1)), Int(0), Int(1))), true
	})
	def("(time.Time).IsZero", func(cc *callCtx) (Val, bool) { return Eq(cc.t(0), Int(zeroTimeNs)), true })
	def("(time.Time).Unix", func(cc *callCtx) (Val, bool) { return floorDiv(cc.t(0), 1e9), true })
	def("(time.Time).UnixNano", func(cc *callCtx) (Val, bool) { return cc.t(0), true })
	def("(time.Time).UnixMilli", func(cc *callCtx) (Val, bool) { return floorDiv(cc.t(0), 1e6), true })
	def("(time.Time).Nanosecond", func(cc *callCtx) (Val, bool) { return floorMod(cc.t(0), 1e9), true })
	def("(time.Time).UTC (time.Time).Local (time.Time).Round (time.Time).Truncate", func(cc *callCtx) (Val, bool) {
		if len(cc.args) > 1 {
			return nil, false
		}
		return cc.t(0), true
	})
	def("(time.Time).Format", func(cc *callCtx) (Val, bool) { return UF("timefmt", SStr, cc.t(0), cc.t(1)), true })
	def("time.Unix", func(cc *callCtx) (Val, bool) { return Add(MulK(1e9, cc.t(0)), cc.t(1)), true })
	def("time.UnixMilli", func(cc *callCtx) (Val, bool) { return MulK(1e6, cc.t(0)), true })
	def("time.Since", func(cc *callCtx) (Val, bool) { return Sub(cc.e.clock(cc.st), cc.t(0)), true })
	def("time.Until", func(cc *callCtx) (Val, bool) { return Sub(cc.t(0), cc.e.clock(cc.st)), true })
	def("(time.Duration).Seconds (time.Duration).Minutes", func(cc *callCtx) (Val, bool) { return UF("durf", SF64, cc.t(0)), true })
	def("(time.Duration).Microseconds", func(cc *callCtx) (Val, bool) { return cc.e.divmod(cc.st, cc.t(0), Int(1000), true), true })
	def("(time.Duration).Milliseconds", func(cc *callCtx) (Val, bool) { return cc.e.divmod(cc.st, cc.t(0), Int(1000000), true), true })
	def("time.Sleep runtime.Gosched", func(cc *callCtx) (Val, bool) {
		if len(cc.args) > 0 {
			cc.e.clock(cc.st)
		}
		return &TupleV{}, true
	})
	def("time.After time.Tick", func(cc *callCtx) (Val, bool) {
		r := cc.e.alloc(cc.st)
		cc.e.hookMakeChan(cc.st, r, types.NewChan(types.RecvOnly, cc.e.timeType()), Int(1))
		return r, true
	})
	// viper
	cfgv := func(uf string, s Sort) model {
		return func(cc *callCtx) (Val, bool) {
			x := UF(uf, s, cc.t(0), cc.t(1))
			if s == SInt {
				cc.e.assume(cc.st, And(Ge(x, Int(-1<<63)), Le(x, Int(1<<63-1))))
			}
			return x, true
		}
	}
	V := "(*github.com/spf13/viper.Viper)."
	def(V+"GetInt "+V+"GetInt64 "+V+"GetInt32", cfgv("cfgInt", SInt))
	def(V+"GetDuration", cfgv("cfgDur", SInt))
	def(V+"GetString", cfgv("cfgString", SStr))
	def(V+"GetBool", cfgv("cfgBool", SBool))
	// protobuf
	def("google.golang.org/protobuf/proto.Marshal", func(cc *callCtx) (Val, bool) {
		e := cc.e
		r := e.alloc(cc.st)
		// the encoding is some string; a failed call returns an unspecified slice (callers look at the error)
		p := Fresh("pbdata", SStr)
		n := strLen(p)
		c := elemComp(types.Typ[types.Uint8])
		e.set(cc.st, c, Store(e.get(cc.st, c), r, UF("strbytes", ArrSort(SInt, SInt), p)))
		fail := Fresh("pbfail", SBool)
		er := e.newError(cc.st, Int(2))
		return tuple(MkSlice(r, Int(0), n, n), Ite(fail, er, INil)), true
	})
	def("google.golang.org/protobuf/proto.Unmarshal", func(cc *callCtx) (Val, bool) {
		e := cc.e
		m := cc.t(1)
		if m.op != "ctor" || m.name != "iptr" || typeOfTag(m.args[0]) == nil {
			panic(unsupported("proto.Unmarshal into an unknown message type"))
		}
		s := e.strOfBytes(cc.st, cc.t(0))
		e.unmarshal(cc.st, s, m.args[1], typeOfTag(m.args[0]))
		er := e.newError(cc.st, Int(2))
		return Ite(UF("pbvalid", SBool, s, m.args[0]), INil, er), true
	})
	def("google.golang.org/protobuf/proto.Size", func(cc *callCtx) (Val, bool) {
		m := cc.t(0)
		var x *Term
		if m.op == "ctor" && m.name == "iptr" {
			if typeKey(typeOfTag(m.args[0])) == "*open-match.dev/pkg/pb/v2.Ticket" {
				x = UF("pbsize", SInt, m.args[1])
			}
		}
		if x == nil {
			x = Fresh("pbsize", SInt)
		}
		cc.e.assume(cc.st, And(Ge(x, Int(0)), Lt(x, Int(1<<40))))
		return x, true
	})
	def("google.golang.org/protobuf/types/known/anypb.New", func(cc *callCtx) (Val, bool) {
		e := cc.e
		p := e.newObject(cc.st, under(cc.res.(*types.Tuple).At(0).Type()).(*types.Pointer).Elem()).(*Term)
		e.set(cc.st, anyComp, Store(e.get(cc.st, anyComp), p, cc.t(0)))
		fail := Fresh("anyfail", SBool)
		e.assume(cc.st, Not(fail)) // marshalling a well-known wrapper into an Any does not fail
		return tuple(p, INil), true
	})
	// sync
	def("(*sync.WaitGroup).Add", func(cc *callCtx) (Val, bool) { cc.e.wgAdd(cc.st, cc.t(0), cc.t(1)); return &TupleV{}, true })
	def("(*sync.WaitGroup).Done", func(cc *callCtx) (Val, bool) { cc.e.wgDone(cc.st, cc.t(0)); return &TupleV{}, true })
	def("(*sync.WaitGroup).Wait", func(cc *callCtx) (Val, bool) { cc.e.wgWait(cc.st, cc.t(0)); return &TupleV{}, true })
	def("(*sync.Mutex).Lock (*sync.Mutex).Unlock (*sync.RWMutex).Lock (*sync.RWMutex).Unlock (*sync.RWMutex).RLock (*sync.RWMutex).RUnlock", none)
	def("(*sync.Map).Load", func(cc *callCtx) (Val, bool) {
		v, ok := cc.e.smLoad(cc.st, cc.t(0), cc.t(1))
		return tuple(v, ok), true
	})
	def("(*sync.Map).Store", func(cc *callCtx) (Val, bool) {
		cc.e.smStore(cc.st, cc.t(0), cc.t(1), cc.t(2))
		return &TupleV{}, true
	})
	def("(*sync.Map).Delete", func(cc *callCtx) (Val, bool) { cc.e.smDelete(cc.st, cc.t(0), cc.t(1)); return &TupleV{}, true })
	def("(*sync.Map).LoadAndDelete", func(cc *callCtx) (Val, bool) {
		v, ok := cc.e.smLoad(cc.st, cc.t(0), cc.t(1))
		cc.e.smDelete(cc.st, cc.t(0), cc.t(1))
		return tuple(v, ok), true
	})
	def("(*sync.Map).LoadOrStore", func(cc *callCtx) (Val, bool) {
		e := cc.e
		v, ok := e.smLoad(cc.st, cc.t(0), cc.t(1))
		d, vc := syncComps()
		m, k := cc.t(0), cc.t(1)
		hd, hv := e.get(cc.st, d), e.get(cc.st, vc)
		nv := Ite(ok, Select(Select(hv, m), k), cc.t(2))
		e.set(cc.st, d, Store(hd, m, Store(Select(hd, m), k, True)))
		e.set(cc.st, vc, Store(hv, m, Store(Select(hv, m), k, nv)))
		return tuple(Ite(ok, v, cc.t(2)), ok), true
	})
	def("(*sync.Map).Range", func(cc *callCtx) (Val, bool) {
		cl, ok := cc.args[1].(*ClosV)
		if !ok {
			if t, isT := cc.args[1].(*Term); isT {
				cl = cc.e.closDefs[t.id]
			}
		}
		if cl == nil {
			panic(unsupported("sync.Map.Range with an unknown callback"))
		}
		cc.e.smRange(cc.st, cc.t(0), cl, cc.pos)
		return &TupleV{}, true
	})
	// context, grpc plumbing: opaque, not nil
	def("context.Background context.TODO", func(cc *callCtx) (Val, bool) {
		return Ctor("iopq", Int(900002), Int(0)), true
	})
	def("context.WithTimeout context.WithCancel context.WithDeadline", fresh)
	def("google.golang.org/grpc.WithConnectParams google.golang.org/grpc.WithTransportCredentials google.golang.org/grpc/credentials/insecure.NewCredentials go.opentelemetry.io/otel/attribute.String", func(cc *callCtx) (Val, bool) {
		return cc.e.opaqueResult(cc), true
	})
}

// ---- sync.Map ----

func (e *Exec) smLoad(st *State, m, k *Term) (*Term, *Term) {
	d, v := syncComps()
	ok := Select(Select(e.get(st, d), m), k)
	x := Select(Select(e.get(st, v), m), k)
	e.assume(st, wfIface(x, e.get(st, allocComp)))
	return Ite(ok, x, INil), ok
}
func (e *Exec) smStore(st *State, m, k, x *Term) {
	d, v := syncComps()
	hd, hv := e.get(st, d), e.get(st, v)
	e.set(st, d, Store(hd, m, Store(Select(hd, m), k, True)))
	e.set(st, v, Store(hv, m, Store(Select(hv, m), k, x)))
}
func (e *Exec) smDelete(st *State, m, k *Term) {
	d, _ := syncComps()
	hd := e.get(st, d)
	e.set(st, d, Store(hd, m, Store(Select(hd, m), k, False)))
}

// smRange: f is called once for every key of the map (in some order) that is still present when its turn comes.
func (e *Exec) smRange(st *State, m *Term, f *ClosV, pos interface{}) {
	dc, vc := syncComps()
	dom := Select(e.get(st, dc), m)
	n := Fresh("smlen", SInt)
	e.assume(st, Ge(n, Int(0)))
	keys, pidx := e.permutation2(st, dom, n, SIface)
	it := &IterV{keys: keys, n: n, dom0: dom, pidx: pidx}
	frameCnt++
	posc := comp(fmt.Sprintf("it:%d", frameCnt), SInt, nil, "iter")
	e.set(st, posc, Int(0))
	st0 := st.clone()
	var exits []edge
	e.loopCore(st0, nil, "Range@"+f.fn.Name(), it,
		func() func() { return func() {} },
		func(h *State) (*State, func()) {
			p := e.get(h, posc)
			e.assume(h, Ge(p, Int(0)))
			done := h.clone()
			done.reach = And(h.reach, Ge(p, n))
			b := h.clone()
			b.reach = And(h.reach, Lt(p, n))
			k := Select(keys, p)
			e.assume(b, Select(dom, k))
			e.set(b, posc, Add(p, Int(1)))
			e.assume(b, wfIface(k, e.get(b, allocComp)))
			present := Select(Select(e.get(b, dc), m), k)
			skip := b.clone()
			skip.reach = And(b.reach, Not(present))
			run := b.clone()
			run.reach = And(b.reach, present)
			x := Select(Select(e.get(run, vc), m), k)
			e.assume(run, wfIface(x, e.get(run, allocComp)))
			if e.hasHook("smrange") {
				at := types.Universe.Lookup("any").Type()
				mt := types.NewPointer(e.P.typesPkg("sync").Scope().Lookup("Map").Type())
				e.runHooks(run, "smrange", nil, "", []SVal{{v: m, t: mt}, {v: k, t: at}, {v: x, t: at}}, nil, true)
			}
			r := e.callFn(run, f.fn, []Val{k, x}, f.binds, f.fn.Pos())
			cont := e.scalar(r)
			stop := run.clone()
			stop.reach = And(run.reach, Not(cont))
			run.reach = And(run.reach, cont)
			var out []edge
			for _, s := range []*State{skip, run} {
				if s.reach != False {
					out = append(out, edge{s, nil})
				}
			}
			my := liveEdges([]edge{{done, nil}, {stop, nil}})
			commit := func() { exits = append(exits, my...) }
			if len(out) == 0 {
				return nil, commit
			}
			back, _ := e.mergeStates(out)
			return back, commit
		})
	ms, _ := e.mergeStates(exits)
	delete(ms.comps, posc)
	*st = *ms
}

var _ = ssa.BuilderMode(0)

func asciiLetters(s string) bool {
	for i := 0; i < len(s); i++ {
		if c := s[i] | 32; c < 'a' || c > 'z' || c == 'k' || c == 's' || c == 'i' {
			return false
		}
	}
	return true
}
