package main

// Symbolic values, types, state.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

type StructV struct {
	typ types.Type
	fs  []Val
}
type TupleV struct{ vs []Val }
type ClosV struct {
	fn    *ssa.Function
	binds []Val
	recv  Val // bound method receiver
}
type AddrV struct { // lvalue that is not an object reference
	comp string
	ref  *Term
	idx  *Term // nil for a field or cell
	typ  types.Type
}
type IterV struct {
	m    *Term
	mt   *types.Map
	keys *Term // Array Int K
	n    *Term
	pos  string // component holding the position
	dom0 *Term
	vcmp string
	pidx *Term
}
type BuiltinV struct{ name string }

type State struct {
	reach *Term
	comps map[string]*Term
}

func (s *State) clone() *State {
	m := make(map[string]*Term, len(s.comps))
	for k, v := range s.comps {
		m[k] = v
	}
	return &State{s.reach, m}
}

// identical types must have identical keys: aliases (byte, any, ...) are resolved first
func typeKey(t types.Type) string {
	if k, ok := typeKeys[t]; ok {
		return k
	}
	k := types.TypeString(canonType(t), func(p *types.Package) string { return p.Path() })
	typeKeys[t] = k
	return k
}

var typeKeys = map[types.Type]string{}

func canonType(t types.Type) types.Type {
	switch t := types.Unalias(t).(type) {
	case *types.Basic:
		return types.Typ[t.Kind()]
	case *types.Pointer:
		return types.NewPointer(canonType(t.Elem()))
	case *types.Slice:
		return types.NewSlice(canonType(t.Elem()))
	case *types.Array:
		return types.NewArray(canonType(t.Elem()), t.Len())
	case *types.Map:
		return types.NewMap(canonType(t.Key()), canonType(t.Elem()))
	case *types.Chan:
		return types.NewChan(t.Dir(), canonType(t.Elem()))
	case *types.Tuple:
		return canonTuple(t)
	case *types.Signature:
		return types.NewSignatureType(nil, nil, nil, canonTuple(t.Params()), canonTuple(t.Results()), t.Variadic())
	case *types.Struct:
		var fs []*types.Var
		var tags []string
		for i := 0; i < t.NumFields(); i++ {
			f := t.Field(i)
			fs = append(fs, types.NewField(f.Pos(), f.Pkg(), f.Name(), canonType(f.Type()), f.Embedded()))
			tags = append(tags, t.Tag(i))
		}
		return types.NewStruct(fs, tags)
	default:
		return t
	}
}
func canonTuple(t *types.Tuple) *types.Tuple {
	var vs []*types.Var
	for i := 0; i < t.Len(); i++ {
		vs = append(vs, types.NewVar(t.At(i).Pos(), t.At(i).Pkg(), "", canonType(t.At(i).Type())))
	}
	return types.NewTuple(vs...)
}
func under(t types.Type) types.Type { return t.Underlying() }

func isTime(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Time"
}

// opaque struct types: never copied, no visible fields
func isOpaqueStruct(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Path() {
	case "sync", "sync/atomic", "google.golang.org/protobuf/internal/impl", "google.golang.org/protobuf/runtime/protoimpl", "google.golang.org/protobuf/internal/pragma":
		return true
	}
	return false
}
func isStruct(t types.Type) bool {
	if isTime(t) {
		return false
	}
	_, ok := under(t).(*types.Struct)
	return ok
}
func isArrayT(t types.Type) bool { _, ok := under(t).(*types.Array); return ok }

// sortOf gives the SMT sort of a scalar (non-struct, non-tuple, non-func) type.
func sortOf(t types.Type) Sort {
	if isTime(t) {
		return SInt
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsInteger != 0:
			return SInt
		case u.Info()&types.IsString != 0:
			return SStr
		case u.Info()&types.IsFloat != 0:
			return SF64
		case u.Kind() == types.UnsafePointer:
			return SInt
		case u.Kind() == types.UntypedNil:
			return SInt
		}
		return SInt
	case *types.Pointer, *types.Map, *types.Chan:
		return SInt
	case *types.Slice:
		return SSlice
	case *types.Interface:
		return SIface
	case *types.Array:
		return ArrSort(SInt, sortOf(u.Elem()))
	case *types.Signature:
		return SInt
	}
	if isStruct(t) {
		return SInt // boxed (used for map / channel elements of struct type only through opaque ids)
	}
	panic("no sort for " + t.String())
}

func zeroOf(s Sort) *Term {
	switch s {
	case SInt:
		return Int(0)
	case SBool:
		return False
	case SStr:
		return StrLit("")
	case SSlice:
		return NilSlice
	case SIface:
		return INil
	case SF64:
		return Ctor("mkf", False, rlit("0.0"))
	}
	if isArr(s) {
		_, e := arrParts(s)
		return ConstArr(s, zeroOf(e))
	}
	panic("zero of " + string(s))
}
func rlit(s string) *Term { return mk("rlit", s, "Real") }

func zeroVal(t types.Type) Val {
	if tt, ok := t.(*types.Tuple); ok {
		tv := &TupleV{}
		for i := 0; i < tt.Len(); i++ {
			tv.vs = append(tv.vs, zeroVal(tt.At(i).Type()))
		}
		return tv
	}
	if isStruct(t) {
		st := under(t).(*types.Struct)
		sv := &StructV{typ: t}
		for i := 0; i < st.NumFields(); i++ {
			if isOpaqueStruct(st.Field(i).Type()) {
				sv.fs = append(sv.fs, nil)
				continue
			}
			sv.fs = append(sv.fs, zeroVal(st.Field(i).Type()))
		}
		return sv
	}
	if isTime(t) {
		return Int(zeroTimeNs)
	}
	return zeroOf(sortOf(t))
}

// time.Time{} is year 1; as nanoseconds it does not fit int64, any fixed sentinel far below all stamps will do.
const zeroTimeNs = -6213559680000000000

// ---- components (the heap is split into typed arrays) ----

type compMeta struct {
	name string
	sort Sort
	elem types.Type // type of the stored scalar, for well-formedness facts
	kind string     // field, cell, elem, mapdom, mapval, maplen, global, ghost
}

var compTab = map[string]*compMeta{}

func comp(name string, s Sort, elem types.Type, kind string) string {
	if c, ok := compTab[name]; ok {
		if c.sort != s {
			panic("component sort clash " + name)
		}
		return name
	}
	compTab[name] = &compMeta{name, s, elem, kind}
	return name
}
func fieldComp(st types.Type, i int) string {
	s := under(st).(*types.Struct)
	f := s.Field(i)
	return comp("F:"+typeKey(st)+"."+f.Name(), ArrSort(SInt, sortOf(f.Type())), f.Type(), "field")
}
func cellComp(t types.Type) string {
	return comp("C:"+typeKey(t), ArrSort(SInt, sortOf(t)), t, "cell")
}
func elemComp(t types.Type) string {
	if isStruct(t) {
		panic(unsupported("slice of struct values %s", t))
	}
	return comp("E:"+sortKey(t), ArrSort(SInt, ArrSort(SInt, sortOf(t))), t, "elem")
}

// element arrays are shared between all element types of the same underlying shape
func sortKey(t types.Type) string { return typeKey(t) }
func mapComps(m *types.Map) (dom, val, ln string) {
	k := typeKey(m.Key()) + "]" + typeKey(m.Elem())
	ks, vs := sortOf(m.Key()), sortOf(m.Elem())
	return comp("MD:"+k, ArrSort(SInt, ArrSort(ks, SBool)), nil, "mapdom"),
		comp("MV:"+k, ArrSort(SInt, ArrSort(ks, vs)), m.Elem(), "mapval"),
		comp("ML:"+k, ArrSort(SInt, SInt), nil, "maplen")
}
func syncComps() (dom, val string) {
	return comp("SMD", ArrSort(SInt, ArrSort(SIface, SBool)), nil, "mapdom"),
		comp("SMV", ArrSort(SInt, ArrSort(SIface, SIface)), nil, "smval")
}

const allocComp = "$alloc"

func init() { comp(allocComp, SInt, nil, "alloc") }

type unsupportedErr struct{ msg string }

func (u unsupportedErr) Error() string { return "unsupported: " + u.msg }
func unsupported(f string, a ...interface{}) unsupportedErr {
	return unsupportedErr{fmt.Sprintf(f, a...)}
}

// type tags for interface payloads
var tagTab = map[string]int64{}

func tagOf(t types.Type) *Term {
	k := typeKey(t)
	if n, ok := tagTab[k]; ok {
		return Int(n)
	}
	n := int64(len(tagTab) + 1)
	tagTab[k] = n
	tagTypes[n] = t
	return Int(n)
}

func toIface(v Val, t types.Type) *Term {
	if t == nil {
		return INil
	}
	if _, ok := under(t).(*types.Interface); ok {
		return v.(*Term)
	}
	if sv, ok := v.(*StructV); ok {
		_ = sv
		return Ctor("iopq", tagOf(t), Fresh("box", SInt))
	}
	if _, ok := v.(*ClosV); ok {
		return Ctor("iopq", tagOf(t), Fresh("box", SInt))
	}
	if _, ok := v.(*AddrV); ok {
		return Ctor("iopq", tagOf(t), Fresh("box", SInt))
	}
	x := v.(*Term)
	switch x.sort {
	case SInt:
		switch under(t).(type) {
		case *types.Pointer, *types.Map, *types.Chan:
			return Ctor("iptr", tagOf(t), x)
		}
		return Ctor("iint", tagOf(t), x)
	case SStr:
		return Ctor("istr", tagOf(t), x)
	case SBool:
		return Ctor("ibool", tagOf(t), x)
	case SF64:
		return Ctor("iflt", tagOf(t), x)
	case SSlice:
		return Ctor("islc", tagOf(t), x)
	}
	return Ctor("iopq", tagOf(t), Fresh("box", SInt))
}

// fromIface extracts the payload of concrete type t and the condition that the dynamic type is t.
func fromIface(x *Term, t types.Type) (Val, *Term) {
	if isStruct(t) {
		ok := And(IsCtor("iopq", x), Eq(Sel("i_otag", x), tagOf(t)))
		return freshVal("unboxed", t), ok
	}
	get := func(ctor, tag, pay string) (Val, *Term) {
		if x.op == "ctor" && x.name != ctor {
			return zeroVal(t), False
		}
		return Sel(pay, x), And(IsCtor(ctor, x), Eq(Sel(tag, x), tagOf(t)))
	}
	switch sortOf(t) {
	case SInt:
		switch under(t).(type) {
		case *types.Pointer, *types.Map, *types.Chan:
			return get("iptr", "i_ptag", "i_p")
		}
		return get("iint", "i_itag", "i_i")
	case SStr:
		return get("istr", "i_stag", "i_s")
	case SBool:
		return get("ibool", "i_btag", "i_b")
	case SF64:
		return get("iflt", "i_ftag", "i_f")
	case SSlice:
		return get("islc", "i_ltag", "i_l")
	}
	panic(unsupported("type assertion to %s", t))
}

func freshVal(prefix string, t types.Type) Val {
	if tt, ok := t.(*types.Tuple); ok {
		tv := &TupleV{}
		for i := 0; i < tt.Len(); i++ {
			tv.vs = append(tv.vs, freshVal(prefix, tt.At(i).Type()))
		}
		return tv
	}
	if isStruct(t) {
		st := under(t).(*types.Struct)
		sv := &StructV{typ: t}
		for i := 0; i < st.NumFields(); i++ {
			if isOpaqueStruct(st.Field(i).Type()) {
				sv.fs = append(sv.fs, nil)
				continue
			}
			sv.fs = append(sv.fs, freshVal(prefix+"."+st.Field(i).Name(), st.Field(i).Type()))
		}
		return sv
	}
	return Fresh(prefix, sortOf(t))
}

// iteVal merges two values.
func iteVal(c *Term, a, b Val) Val {
	if a == b {
		return a
	}
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok {
			panic(unsupported("merging incompatible values %T %T", a, b))
		}
		return Ite(c, x, y)
	case *StructV:
		y := b.(*StructV)
		r := &StructV{typ: x.typ}
		for i := range x.fs {
			if x.fs[i] == nil {
				r.fs = append(r.fs, nil)
				continue
			}
			r.fs = append(r.fs, iteVal(c, x.fs[i], y.fs[i]))
		}
		return r
	case *TupleV:
		y := b.(*TupleV)
		r := &TupleV{}
		for i := range x.vs {
			r.vs = append(r.vs, iteVal(c, x.vs[i], y.vs[i]))
		}
		return r
	case *ClosV:
		y, ok := b.(*ClosV)
		if ok && x.fn == y.fn && len(x.binds) == len(y.binds) {
			r := &ClosV{fn: x.fn, recv: x.recv}
			for i := range x.binds {
				r.binds = append(r.binds, iteVal(c, x.binds[i], y.binds[i]))
			}
			return r
		}
	case *AddrV:
		y, ok := b.(*AddrV)
		if ok && x.comp == y.comp && (x.idx == nil) == (y.idx == nil) {
			r := &AddrV{comp: x.comp, ref: Ite(c, x.ref, y.ref), typ: x.typ}
			if x.idx != nil {
				r.idx = Ite(c, x.idx, y.idx)
			}
			return r
		}
	}
	if c == True {
		return a
	}
	panic(unsupported("merging values of kind %T/%T", a, b))
}

// emb is the reference of a struct embedded by value as field i of object r.
func emb(r *Term, i int) *Term {
	if i > 62 {
		panic(unsupported("field index > 62"))
	}
	return Sub(Int(int64(-1-i)), MulK(64, r))
}

// oldRef: x (or the object it is embedded in) was allocated below watermark a.
func oldRef(x, a *Term) *Term {
	return And(Lt(x, a), Le(MulK(-64, a), x))
}

func sortedKeys(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
func shortFn(s string) string {
	if i := strings.LastIndexByte(s, '/'); i >= 0 {
		return s[i+1:]
	}
	return s
}
