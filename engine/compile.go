package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type opc uint8

const (
	iNop opc = iota
	iAlloc
	iAllocLocal
	iPhi
	iCall
	iBin
	iUn
	iLoad
	iChangeType
	iConvert
	iMakeInterface
	iMakeClosure
	iMakeMap
	iMakeChan
	iMakeSlice
	iSlice
	iSliceToArr
	iFieldAddr
	iField
	iIndexAddr
	iIndex
	iLookup
	iSelect
	iRange
	iNext
	iTypeAssert
	iExtract
	iJump
	iIf
	iReturn
	iRunDefers
	iPanic
	iGo
	iDefer
	iSend
	iStore
	iMapUpdate
	iRecv
	iUnsupported
)

type opnd struct {
	slot int32 // <0: constant k
	k    V
}

type callInfo struct {
	static  *ssa.Function
	builtin string
	invoke  *types.Func
	bt      []types.Type // argument types for builtins
	resT    types.Type
	pos     token.Pos
}

type ins struct {
	op      opc
	dst     int32
	n       int
	a, b, c opnd
	args    []opnd
	tok     token.Token
	ti, ti2 tinfo
	t, t2   types.Type
	x       any
	pos     token.Pos
	commaOk bool
}

type block struct {
	ins    []ins
	succs  [2]int
	nsucc  int
	preds  []int
	nphi   int
	region *region
}

type region struct {
	blocks []int // topological order, excluding head, excluding join
	join   int
}

type Fn struct {
	fn     *ssa.Function
	blocks []block
	nregs  int
	params []int32
	fvs    []int32
	hasDef bool
	recov  int
	nres   int
	pure   bool
	mergeK int // 0: not mergeable, 1: scalar results
	resTI  []tinfo
	memo   map[string]V
	memoOK bool
	name   string
	icount int
}

func (w *W) getFn(f *ssa.Function) *Fn {
	if c, ok := w.fns[f]; ok {
		return c
	}
	c := w.compile(f)
	w.fns[f] = c
	return c
}

func (w *W) compile(f *ssa.Function) *Fn {
	c := &Fn{fn: f, name: f.String()}
	w.eng.noteFn(f)
	slots := map[ssa.Value]int32{}
	next := int32(0)
	slotOf := func(v ssa.Value) int32 {
		if s, ok := slots[v]; ok {
			return s
		}
		s := next
		next++
		slots[v] = s
		return s
	}
	for _, p := range f.Params {
		c.params = append(c.params, slotOf(p))
	}
	for _, p := range f.FreeVars {
		c.fvs = append(c.fvs, slotOf(p))
	}
	opOf := func(v ssa.Value) opnd {
		switch v := v.(type) {
		case nil:
			return opnd{slot: -1}
		case *ssa.Const:
			return opnd{slot: -1, k: constV(v)}
		case *ssa.Global:
			return opnd{slot: -1, k: V{p: w.global(v)}}
		case *ssa.Function:
			return opnd{slot: -1, k: V{p: &Closure{fn: v}}}
		case *ssa.Builtin:
			return opnd{slot: -1}
		}
		return opnd{slot: slotOf(v)}
	}
	c.recov = -1
	if f.Recover != nil {
		c.recov = f.Recover.Index
	}
	c.nres = f.Signature.Results().Len()
	for i := 0; i < c.nres; i++ {
		c.resTI = append(c.resTI, infoOf(f.Signature.Results().At(i).Type()))
	}
	c.blocks = make([]block, len(f.Blocks))
	for bi, b := range f.Blocks {
		cb := &c.blocks[bi]
		for i, s := range b.Succs {
			if i < 2 {
				cb.succs[i] = s.Index
			}
		}
		cb.nsucc = len(b.Succs)
		for _, p := range b.Preds {
			cb.preds = append(cb.preds, p.Index)
		}
		for _, si := range b.Instrs {
			in := ins{dst: -1, pos: si.Pos()}
			if v, ok := si.(ssa.Value); ok {
				in.dst = slotOf(v)
				in.t = v.Type()
			}
			switch x := si.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.Alloc:
				in.op = iAlloc
				in.t = x.Type().Underlying().(*types.Pointer).Elem()
			case *ssa.Phi:
				in.op = iPhi
				for _, e := range x.Edges {
					in.args = append(in.args, opOf(e))
				}
				in.ti = infoOf(x.Type())
				cb.nphi++
			case *ssa.Call:
				in.op = iCall
				w.compileCall(&in, &x.Call, opOf)
				in.x.(*callInfo).resT = x.Type()
			case *ssa.Go:
				in.op = iGo
				w.compileCall(&in, &x.Call, opOf)
			case *ssa.Defer:
				in.op = iDefer
				if x.DeferStack != nil {
					in.op = iUnsupported
					in.x = "defer stack"
				}
				w.compileCall(&in, &x.Call, opOf)
				c.hasDef = true
			case *ssa.BinOp:
				in.op = iBin
				in.tok = x.Op
				in.a, in.b = opOf(x.X), opOf(x.Y)
				in.t = x.X.Type()
				in.t2 = x.Y.Type()
				in.ti = infoOf(x.X.Type())
				in.ti2 = infoOf(x.Y.Type())
			case *ssa.UnOp:
				in.a = opOf(x.X)
				in.tok = x.Op
				in.commaOk = x.CommaOk
				in.ti = infoOf(x.X.Type())
				switch x.Op {
				case token.MUL:
					in.op = iLoad
					in.ti = infoOf(x.Type())
					in.t2 = x.X.Type()
				case token.ARROW:
					in.op = iRecv
					in.t2 = x.X.Type().Underlying().(*types.Chan).Elem()
				default:
					in.op = iUn
				}
			case *ssa.ChangeType:
				in.op = iChangeType
				in.a = opOf(x.X)
			case *ssa.ChangeInterface:
				in.op = iChangeType
				in.a = opOf(x.X)
			case *ssa.Convert:
				in.op = iConvert
				in.a = opOf(x.X)
				in.t2 = x.X.Type()
				in.ti = infoOf(x.Type())
				in.ti2 = infoOf(x.X.Type())
			case *ssa.MakeInterface:
				in.op = iMakeInterface
				in.a = opOf(x.X)
				in.t2 = x.X.Type()
				in.n = w.tidOf(x.X.Type())
			case *ssa.MakeClosure:
				in.op = iMakeClosure
				in.x = x.Fn.(*ssa.Function)
				for _, e := range x.Bindings {
					in.args = append(in.args, opOf(e))
				}
			case *ssa.MakeMap:
				in.op = iMakeMap
			case *ssa.MakeChan:
				in.op = iMakeChan
				in.a = opOf(x.Size)
			case *ssa.MakeSlice:
				in.op = iMakeSlice
				in.a, in.b = opOf(x.Len), opOf(x.Cap)
				in.t2 = x.Type().Underlying().(*types.Slice).Elem()
			case *ssa.Slice:
				in.op = iSlice
				in.a, in.b, in.c = opOf(x.X), opOf(x.Low), opOf(x.High)
				in.args = []opnd{opOf(x.Max)}
				in.n = 0
				if x.Low != nil {
					in.n |= 1
				}
				if x.High != nil {
					in.n |= 2
				}
				if x.Max != nil {
					in.n |= 4
				}
				in.t2 = x.X.Type()
				in.ti = infoOf(x.X.Type())
			case *ssa.SliceToArrayPointer:
				in.op = iSliceToArr
				in.a = opOf(x.X)
				in.n = int(x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
			case *ssa.FieldAddr:
				in.op = iFieldAddr
				in.a = opOf(x.X)
				in.n = x.Field
			case *ssa.Field:
				in.op = iField
				in.a = opOf(x.X)
				in.n = x.Field
			case *ssa.IndexAddr:
				in.op = iIndexAddr
				in.a, in.b = opOf(x.X), opOf(x.Index)
				in.ti = infoOf(x.X.Type())
				in.ti2 = infoOf(x.Index.Type())
				if onlyLoaded(x, 0) {
					in.n = 1
				}
			case *ssa.Index:
				in.op = iIndex
				in.a, in.b = opOf(x.X), opOf(x.Index)
				in.ti = infoOf(x.X.Type())
				in.ti2 = infoOf(x.Index.Type())
			case *ssa.Lookup:
				in.op = iLookup
				in.a, in.b = opOf(x.X), opOf(x.Index)
				in.ti = infoOf(x.X.Type())
				in.ti2 = infoOf(x.Index.Type())
				in.t2 = x.X.Type()
				in.commaOk = x.CommaOk
			case *ssa.Select:
				in.op = iSelect
				in.x = x
				for _, s := range x.States {
					in.args = append(in.args, opOf(s.Chan), opOf(s.Send))
				}
			case *ssa.Range:
				in.op = iRange
				in.a = opOf(x.X)
				in.ti = infoOf(x.X.Type())
			case *ssa.Next:
				in.op = iNext
				in.a = opOf(x.Iter)
				in.commaOk = x.IsString
			case *ssa.TypeAssert:
				in.op = iTypeAssert
				in.a = opOf(x.X)
				in.t2 = x.AssertedType
				in.commaOk = x.CommaOk
				if _, ok := x.AssertedType.Underlying().(*types.Interface); !ok {
					in.n = w.tidOf(x.AssertedType)
				} else {
					in.n = -1
				}
			case *ssa.Extract:
				in.op = iExtract
				in.a = opOf(x.Tuple)
				in.n = x.Index
			case *ssa.Jump:
				in.op = iJump
			case *ssa.If:
				in.op = iIf
				in.a = opOf(x.Cond)
			case *ssa.Return:
				in.op = iReturn
				for _, e := range x.Results {
					in.args = append(in.args, opOf(e))
				}
			case *ssa.RunDefers:
				in.op = iRunDefers
			case *ssa.Panic:
				in.op = iPanic
				in.a = opOf(x.X)
			case *ssa.Send:
				in.op = iSend
				in.a, in.b = opOf(x.Chan), opOf(x.X)
			case *ssa.Store:
				in.op = iStore
				in.a, in.b = opOf(x.Addr), opOf(x.Val)
			case *ssa.MapUpdate:
				in.op = iMapUpdate
				in.a, in.b, in.c = opOf(x.Map), opOf(x.Key), opOf(x.Value)
				in.t2 = x.Map.Type()
			default:
				in.op = iUnsupported
				in.x = fmt.Sprintf("%T", si)
			}
			cb.ins = append(cb.ins, in)
			c.icount++
		}
	}
	c.nregs = int(next)
	w.findRegions(c)
	if w.isPure(f) {
		c.pure = true
		if c.nres >= 1 {
			c.mergeK = 1
			for _, r := range c.resTI {
				if r.k != kInt && r.k != kBool {
					c.mergeK = 0
				}
			}
		}
		c.memoOK = c.mergeK == 1 && !w.readsMemory(f)
	}
	return c
}

func (w *W) compileCall(in *ins, c *ssa.CallCommon, opOf func(ssa.Value) opnd) {
	ci := &callInfo{pos: c.Pos()}
	in.x = ci
	if c.IsInvoke() {
		ci.invoke = c.Method
		in.a = opOf(c.Value)
	} else {
		switch f := c.Value.(type) {
		case *ssa.Function:
			ci.static = f
		case *ssa.Builtin:
			ci.builtin = f.Name()
			for _, a := range c.Args {
				ci.bt = append(ci.bt, a.Type())
			}
		default:
			in.a = opOf(c.Value)
		}
	}
	for _, a := range c.Args {
		in.args = append(in.args, opOf(a))
	}
}

func constV(c *ssa.Const) V {
	if c.Value == nil {
		return zero(c.Type())
	}
	ti := infoOf(c.Type())
	switch ti.k {
	case kBool:
		return cbool(constant.BoolVal(c.Value))
	case kInt:
		v := constant.ToInt(c.Value)
		if u, ok := constant.Uint64Val(v); ok {
			return V{n: u & mask(ti.w)}
		}
		i, _ := constant.Int64Val(v)
		return V{n: uint64(i) & mask(ti.w)}
	case kFloat:
		f, _ := constant.Float64Val(constant.ToFloat(c.Value))
		if ti.f32 {
			f = float64(float32(f))
		}
		return V{n: math.Float64bits(f)}
	case kString:
		if c.Value.Kind() == constant.String {
			return cstr(constant.StringVal(c.Value))
		}
		i, _ := constant.Int64Val(c.Value)
		return cstr(string(rune(i)))
	case kUnsafe:
		return V{}
	case kComplex:
		return V{p: "complex"}
	case kIface:
		return V{}
	}
	panic(unsupported(fmt.Sprintf("const %v", c)))
}

// ---- purity ----

func (w *W) isPure(f *ssa.Function) bool {
	if v, ok := w.pureMemo[f]; ok {
		return v == 1
	}
	w.pureMemo[f] = 0 // recursion: not pure
	p := w.computePure(f)
	if p {
		w.pureMemo[f] = 1
	}
	return p
}

func localRoot(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.Alloc:
			return true
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			if _, ok := x.X.Type().Underlying().(*types.Pointer); !ok {
				return false
			}
			v = x.X
		default:
			return false
		}
	}
}

// onlyLoaded tells whether an address is used for nothing but to load from it, or from a field of what is there.
func onlyLoaded(x ssa.Value, depth int) bool {
	for _, r := range *x.Referrers() {
		switch r := r.(type) {
		case *ssa.DebugRef:
		case *ssa.UnOp:
			if r.Op != token.MUL {
				return false
			}
			if _, ok := r.Type().Underlying().(*types.Struct); ok {
				return false
			}
		case *ssa.FieldAddr:
			if depth > 3 || !onlyLoaded(r, depth+1) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func (w *W) computePure(f *ssa.Function) bool {
	if in, ok := intrinsics[f.String()]; ok && in != nil {
		return pureIntrinsics[f.String()]
	}
	if len(f.Blocks) == 0 || f.Recover != nil || len(f.FreeVars) > 0 {
		return false
	}
	if f.Pkg != nil && strings.HasSuffix(f.Pkg.Pkg.Path(), "zzverif/vp") {
		return false
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.BinOp, *ssa.Phi, *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Convert, *ssa.ChangeType, *ssa.Extract,
				*ssa.Field, *ssa.FieldAddr, *ssa.Index, *ssa.IndexAddr, *ssa.Slice, *ssa.DebugRef, *ssa.Lookup, *ssa.Panic, *ssa.MakeInterface:
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					return false
				}
			case *ssa.Alloc:
			case *ssa.Range:
				if _, ok := x.X.Type().Underlying().(*types.Basic); !ok {
					return false
				}
			case *ssa.Next:
			case *ssa.Store:
				if !localRoot(x.Addr) {
					return false
				}
			case *ssa.Call:
				if x.Call.IsInvoke() {
					return false
				}
				switch c := x.Call.Value.(type) {
				case *ssa.Builtin:
					switch c.Name() {
					case "len", "cap", "min", "max":
					default:
						return false
					}
				case *ssa.Function:
					if !w.isPure(c) {
						return false
					}
				default:
					return false
				}
			default:
				return false
			}
		}
	}
	return true
}

// readsMemory reports whether a pure function's result can depend on anything but its scalar/string arguments and
// immutable package tables of the standard library.
func (w *W) readsMemory(f *ssa.Function) bool {
	for _, p := range f.Params {
		switch infoOf(p.Type()).k {
		case kInt, kBool, kString:
		default:
			return true
		}
	}
	seen := map[*ssa.Function]bool{}
	var visit func(g *ssa.Function) bool
	visit = func(g *ssa.Function) bool {
		if seen[g] {
			return false
		}
		seen[g] = true
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				for _, op := range i.Operands(nil) {
					if gl, ok := (*op).(*ssa.Global); ok {
						if p := gl.Pkg.Pkg.Path(); p != "unicode" && p != "unicode/utf8" {
							return true
						}
					}
				}
				if c, ok := i.(*ssa.Call); ok {
					if h, ok := c.Call.Value.(*ssa.Function); ok && visit(h) {
						return true
					}
				}
			}
		}
		return false
	}
	return visit(f)
}

// ---- hammock regions ----

func (w *W) pureIns(in *ins) bool {
	switch in.op {
	case iNop, iPhi, iUn, iChangeType, iConvert, iField, iExtract, iJump, iIf, iLoad, iFieldAddr, iIndexAddr, iIndex, iLookup:
		return true
	case iBin:
		return true
	case iCall:
		ci := in.x.(*callInfo)
		if ci.builtin == "len" || ci.builtin == "cap" {
			return true
		}
		if ci.static != nil && w.isPure(ci.static) {
			sig := ci.static.Signature
			if sig.Results().Len() != 1 {
				return false
			}
			k := infoOf(sig.Results().At(0).Type()).k
			return k == kInt || k == kBool
		}
	}
	return false
}

const maxRegion = 24

func (w *W) findRegions(c *Fn) {
	n := len(c.blocks)
	pureB := make([]bool, n)
	for i := range c.blocks {
		b := &c.blocks[i]
		ok := true
		for j := range b.ins {
			if !w.pureIns(&b.ins[j]) {
				ok = false
				break
			}
		}
		pureB[i] = ok && len(b.ins) > 0
	}
	for h := range c.blocks {
		b := &c.blocks[h]
		if b.nsucc != 2 {
			continue
		}
		// try to find the smallest closed region: grow from the successors.
		if r := w.tryRegion(c, h, pureB); r != nil {
			b.region = r
		}
	}
}

// tryRegion finds an acyclic single-entry region headed by h in which all blocks are pure, joined at one block.
func (w *W) tryRegion(c *Fn, h int, pureB []bool) *region {
	in := map[int]bool{}
	var frontier []int
	s0, s1 := c.blocks[h].succs[0], c.blocks[h].succs[1]
	if s0 == s1 {
		return nil
	}
	frontier = append(frontier, s0, s1)
	var order []int
	for {
		// unique frontier
		uniq := map[int]bool{}
		for _, f := range frontier {
			if !in[f] {
				uniq[f] = true
			}
		}
		if len(uniq) == 1 {
			for j := range uniq {
				if j == h {
					return nil
				}
				// join must be reached by at least two edges of the region
				return &region{blocks: order, join: j}
			}
		}
		if len(uniq) == 0 || len(order) > maxRegion {
			return nil
		}
		// absorb a frontier block all of whose preds are in the region (or h) and which is pure
		var cand = -1
		for f := range uniq {
			if f == h || !pureB[f] {
				continue
			}
			ok := true
			for _, p := range c.blocks[f].preds {
				if p != h && !in[p] {
					ok = false
				}
			}
			if ok && (cand < 0 || f < cand) {
				cand = f
			}
		}
		if cand < 0 {
			return nil
		}
		in[cand] = true
		order = append(order, cand)
		nf := frontier[:0:0]
		for _, f := range frontier {
			if f != cand {
				nf = append(nf, f)
			}
		}
		for k := 0; k < c.blocks[cand].nsucc; k++ {
			nf = append(nf, c.blocks[cand].succs[k])
		}
		frontier = nf
	}
}
