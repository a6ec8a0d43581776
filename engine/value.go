package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// V is a value of the interpreted program.
//
//	bool/int/uint: n (zero-extended), or p = *Term when symbolic
//	float:         n = float64 bits, or p = *Fix when symbolic
//	string:        p = string, SStr (symbolic bytes) or nil (empty)
//	pointer:       p = *V, *SymPtr, *SliceData or nil
//	struct/array:  p = *Agg
//	slice:         p = []V or nil
//	map:           p = *Map or nil
//	chan:          p = *Chan or nil
//	func:          p = *Closure or nil
//	interface:     p = *Iface or nil
//	tuple:         p = *Agg
type V struct {
	n uint64
	p any
}

type SStr []V
type Agg struct{ f []V }
type Fix struct{ t *Term }

// SymPtr is the address of an element of s, or of a field of it (only to load from).
type SymPtr struct {
	s    []V
	idx  *Term
	ti   tinfo
	path []int
}
type SliceData struct{ s []V }
type Iface struct {
	tid int
	t   types.Type
	v   V
}
type Closure struct {
	fn     *ssa.Function
	fv     []V
	native func(w *W, g *G, args []V) V
}

type ment struct {
	k, v V
	live bool
}
type Map struct {
	ents   []ment
	idx    map[any]int
	nsym   int
	n      int
	kt, vt types.Type
}

type Chan struct {
	buf    []V
	cap    int
	closed bool
	recvq  int // receivers waiting (unbuffered handshake)
	vc     []VC
	cvc    VC
}

const fixBits = 10

type kind uint8

const (
	kInt kind = iota
	kBool
	kFloat
	kString
	kPtr
	kAgg
	kSlice
	kMap
	kChan
	kFunc
	kIface
	kTuple
	kUnsafe
	kComplex
)

type tinfo struct {
	k      kind
	w      uint8
	signed bool
	f32    bool
}

func infoOf(t types.Type) tinfo {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return tinfo{k: kBool}
		case types.Int, types.Int64, types.UntypedInt:
			return tinfo{kInt, 64, true, false}
		case types.Int8:
			return tinfo{kInt, 8, true, false}
		case types.Int16:
			return tinfo{kInt, 16, true, false}
		case types.Int32, types.UntypedRune:
			return tinfo{kInt, 32, true, false}
		case types.Uint, types.Uint64, types.Uintptr:
			return tinfo{kInt, 64, false, false}
		case types.Uint8:
			return tinfo{kInt, 8, false, false}
		case types.Uint16:
			return tinfo{kInt, 16, false, false}
		case types.Uint32:
			return tinfo{kInt, 32, false, false}
		case types.Float64, types.UntypedFloat:
			return tinfo{k: kFloat}
		case types.Float32:
			return tinfo{k: kFloat, f32: true}
		case types.String, types.UntypedString:
			return tinfo{k: kString}
		case types.UnsafePointer:
			return tinfo{k: kUnsafe}
		case types.UntypedNil:
			return tinfo{k: kPtr}
		case types.Complex64, types.Complex128, types.UntypedComplex:
			return tinfo{k: kComplex}
		}
	case *types.Pointer:
		return tinfo{k: kPtr}
	case *types.Struct, *types.Array:
		return tinfo{k: kAgg}
	case *types.Slice:
		return tinfo{k: kSlice}
	case *types.Map:
		return tinfo{k: kMap}
	case *types.Chan:
		return tinfo{k: kChan}
	case *types.Signature:
		return tinfo{k: kFunc}
	case *types.Interface:
		return tinfo{k: kIface}
	case *types.Tuple:
		return tinfo{k: kTuple}
	case *types.TypeParam:
		panic(unsupported("type parameter at run time"))
	}
	panic(unsupported(fmt.Sprintf("type %v", t)))
}

func unsupported(s string) inconclusive { return inconclusive{"unsupported: " + s} }

func zero(t types.Type) V {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		a := &Agg{make([]V, u.NumFields())}
		for i := range a.f {
			if needsZero(u.Field(i).Type()) {
				a.f[i] = zero(u.Field(i).Type())
			}
		}
		return V{p: a}
	case *types.Array:
		a := &Agg{make([]V, u.Len())}
		if needsZero(u.Elem()) {
			for i := range a.f {
				a.f[i] = zero(u.Elem())
			}
		}
		return V{p: a}
	case *types.Tuple:
		a := &Agg{make([]V, u.Len())}
		for i := range a.f {
			a.f[i] = zero(u.At(i).Type())
		}
		return V{p: a}
	}
	return V{}
}

func needsZero(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func copyVal(v V) V {
	if a, ok := v.p.(*Agg); ok {
		b := &Agg{make([]V, len(a.f))}
		for i, x := range a.f {
			b.f[i] = copyVal(x)
		}
		return V{p: b}
	}
	return v
}

func cint(x int) V { return V{n: uint64(x)} }
func cbool(b bool) V {
	if b {
		return V{n: 1}
	}
	return V{}
}
func cstr(s string) V {
	if s == "" {
		return V{}
	}
	return V{p: s}
}
func cfloat(f float64) V { return V{n: math.Float64bits(f)} }

func tuple(vs ...V) V { return V{p: &Agg{vs}} }

func strLen(v V) int {
	switch s := v.p.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case SStr:
		return len(s)
	}
	panic(unsupported(fmt.Sprintf("strLen of %T", v.p)))
}

func strAt(v V, i int) V {
	switch s := v.p.(type) {
	case string:
		return V{n: uint64(s[i])}
	case SStr:
		return s[i]
	}
	panic("strAt")
}

func strBytes(v V) []V {
	switch s := v.p.(type) {
	case nil:
		return nil
	case string:
		r := make([]V, len(s))
		for i := range r {
			r[i].n = uint64(s[i])
		}
		return r
	case SStr:
		return s
	}
	panic(unsupported(fmt.Sprintf("strBytes of %T", v.p)))
}

// mkStr builds a string from bytes (b is copied when concrete, else aliased and must not change).
func mkStr(b []V) V {
	if len(b) == 0 {
		return V{}
	}
	for i := range b {
		if b[i].p != nil {
			return V{p: SStr(b)}
		}
	}
	var sb strings.Builder
	for i := range b {
		sb.WriteByte(byte(b[i].n))
	}
	return V{p: sb.String()}
}

func strSlice(v V, lo, hi int) V {
	if lo == hi {
		return V{}
	}
	switch s := v.p.(type) {
	case string:
		return V{p: s[lo:hi]}
	case SStr:
		return mkStr(s[lo:hi:hi])
	}
	panic("strSlice")
}

func concStr(v V) (string, bool) {
	switch s := v.p.(type) {
	case nil:
		return "", true
	case string:
		return s, true
	}
	return "", false
}

func slc(v V) []V {
	if v.p == nil {
		return nil
	}
	if s, ok := v.p.([]V); ok {
		return s
	}
	panic(unsupported(fmt.Sprintf("slice value %T", v.p)))
}

func mkSlice(s []V) V {
	if s == nil {
		return V{}
	}
	return V{p: s}
}

// term returns the term for a scalar.
func (w *W) term(v V, ti tinfo) *Term {
	if v.p == nil {
		if ti.k == kBool {
			return w.tb.Bool(v.n != 0)
		}
		return w.tb.Const(ti.w, v.n)
	}
	if t, ok := v.p.(*Term); ok {
		return t
	}
	panic(unsupported(fmt.Sprintf("scalar of %T", v.p)))
}

func fromTerm(t *Term) V {
	if t.op == OConst {
		return V{n: t.val}
	}
	return V{p: t}
}

func isSym(v V) bool {
	switch v.p.(type) {
	case *Term, *Fix, SStr:
		return true
	}
	return false
}

// fixOf converts a float to the fixed-point term (value * 2^fixBits); ok is false when not exact.
func (w *W) fixOf(v V) (*Term, bool) {
	if f, ok := v.p.(*Fix); ok {
		return f.t, true
	}
	x := math.Float64frombits(v.n) * (1 << fixBits)
	if x != math.Trunc(x) || math.Abs(x) > 1<<50 {
		return nil, false
	}
	return w.tb.Const(64, uint64(int64(x))), true
}
