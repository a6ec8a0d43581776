package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// W is one exploration worker: an interpreter instance with its own heap, term table and solver.
type W struct {
	curFr    *Frame // only with debugForks
	trace    int
	env      bool
	eng      *Engine
	prog     *ssa.Program
	tb       *TB
	smt      *SMT
	fns      map[*ssa.Function]*Fn
	pureMemo map[*ssa.Function]int
	globals  map[*ssa.Global]*V
	tids     typeutil.Map
	tidN     int
	tidT     []types.Type
	meth     map[methKey]*ssa.Function

	undo   []undoRec
	undoOn bool
	PathStats

	// path state
	prefix  []Dec
	pos     int
	dec     []Dec
	pc      []*Term
	known   map[*Term]bool
	model   []uint64
	vars    []*Term
	nondets []ndet
	nofork  int
	nest    *nest
	steps   int64
	runes   map[*Term][]V
	runeOf  map[*Term]runeEnc
	obs     []obsRec
	depth   int
	mapMode int
	// 0: every schedule, 1: switch only when blocked, to the oldest goroutine that can run, 2: to the newest
	schedMode int
	fsched    bool // operations on files are interleaved
	sleep     []*G
	strLits   map[string]bool

	// concurrency
	gs       []*G
	cur      *G
	conc     bool
	abortV   any
	mainWake chan struct{}
	side     map[any]any
	shadow   map[any]*shadowCell
	maxSteps int64
	local    []item
	nowNs    int64
}

type PathStats struct {
	Paths, Steps, Asserts, TrivAsserts, Merges, MergeAborts, Branches int64
}

type undoRec struct {
	addr *V
	old  V
	f    func()
}

type methKey struct {
	tid int
	m   *types.Func
}

type Frame struct {
	fn     *Fn
	regs   []V
	g      *G
	caller *Frame
	defers []deferred
	pan    *targetPanic
	rec    bool
	result V
	bi     int
	prev   int
	pos    token.Pos
}

type deferred struct {
	ci   *callInfo
	fnv  V
	args []V
}

// targetPanic is a Go panic of the interpreted program.
type targetPanic struct {
	v    V
	msg  string
	kind string // "panic", "exit", "deadlock", "race"
}

type pathAbort struct{ why string } // infeasible path or stop
type mergeAbort struct{}

func (fr *Frame) get(o *opnd) V {
	if o.slot < 0 {
		return o.k
	}
	return fr.regs[o.slot]
}

func (w *W) global(g *ssa.Global) *V {
	if a, ok := w.globals[g]; ok {
		return a
	}
	a := new(V)
	*a = zero(g.Type().Underlying().(*types.Pointer).Elem())
	w.globals[g] = a
	return a
}

func (w *W) tidOf(t types.Type) int {
	if x := w.tids.At(t); x != nil {
		return x.(int)
	}
	w.tidN++
	w.tids.Set(t, w.tidN)
	for len(w.tidT) <= w.tidN {
		w.tidT = append(w.tidT, nil)
	}
	w.tidT[w.tidN] = t
	return w.tidN
}

func (w *W) mkIface(t types.Type, v V) V {
	return V{p: &Iface{tid: w.tidOf(t), t: t, v: v}}
}

// rtPanic raises a Go run-time error.
func (w *W) rtPanic(msg string) {
	t := w.eng.rtErr
	if t == nil {
		panic(&targetPanic{v: w.mkIface(types.Typ[types.String], cstr("runtime error: "+msg)), msg: "runtime error: " + msg, kind: "panic"})
	}
	panic(&targetPanic{v: w.mkIface(t, cstr(msg)), msg: "runtime error: " + msg, kind: "panic"})
}

func (w *W) setCell(a *V, v V) {
	if w.undoOn {
		w.undo = append(w.undo, undoRec{addr: a, old: *a})
	}
	*a = v
}

func (w *W) store(a *V, v V) {
	if d, ok := a.p.(*Agg); ok {
		s, ok := v.p.(*Agg)
		if !ok || len(s.f) != len(d.f) {
			panic(unsupported("aggregate store mismatch"))
		}
		if d == s {
			return
		}
		for i := range d.f {
			w.store(&d.f[i], s.f[i])
		}
		return
	}
	w.setCell(a, v)
}

func (w *W) undoTo(n int) {
	for i := len(w.undo) - 1; i >= n; i-- {
		u := &w.undo[i]
		if u.f != nil {
			u.f()
		} else {
			*u.addr = u.old
		}
		u.f, u.addr, u.old = nil, nil, V{}
	}
	w.undo = w.undo[:n]
}

func (w *W) loadPtr(fr *Frame, p V) V {
	switch a := p.p.(type) {
	case *V:
		if w.conc {
			w.raceRead(fr.g, a)
		}
		return copyVal(*a)
	case *SymPtr:
		s := a.s
		if len(a.path) > 0 {
			s = make([]V, len(a.s))
			for i, v := range a.s {
				for _, f := range a.path {
					v = v.p.(*Agg).f[f]
				}
				s[i] = v
			}
		}
		return w.muxReadTI(s, a.idx, a.ti)
	case nil:
		w.rtPanic("invalid memory address or nil pointer dereference")
	}
	panic(unsupported(fmt.Sprintf("load via %T", p.p)))
}

func (w *W) storePtr(fr *Frame, p, v V) {
	switch a := p.p.(type) {
	case *V:
		if w.conc {
			w.raceWrite(fr.g, a)
		}
		w.store(a, v)
		return
	case *SymPtr:
		for i := range a.s {
			c := w.tb.Eq(a.idx, w.tb.Const(a.idx.w, uint64(i)))
			if c == w.tb.F {
				continue
			}
			w.setCell(&a.s[i], fromTerm(w.tb.Ite(c, w.term(v, a.ti), w.term(a.s[i], a.ti))))
		}
		return
	case nil:
		w.rtPanic("invalid memory address or nil pointer dereference")
	}
	panic(unsupported(fmt.Sprintf("store via %T", p.p)))
}

func sameP(a, b any) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case []V:
		y, ok := b.([]V)
		return ok && len(x) == len(y) && cap(x) == cap(y) && (len(x) > 0 && &x[0] == &y[0])
	case SStr:
		y, ok := b.(SStr)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if x[i] != y[i] {
				return false
			}
		}
		return true
	case string:
		y, ok := b.(string)
		return ok && x == y
	case *Iface:
		y, ok := b.(*Iface)
		return ok && (x == y || x.tid == y.tid && x.v.n == y.v.n && sameP(x.v.p, y.v.p))
	case *Fix:
		y, ok := b.(*Fix)
		return ok && x.t == y.t
	case *V, *Term, *Agg, *Map, *Chan, *Closure:
		return a == b
	}
	return false
}

// iteV merges two values; widths of scalars are taken from the symbolic side or from ti.
func (w *W) iteV(c *Term, a, b V, ti *tinfo) (V, bool) {
	if c == w.tb.T {
		return a, true
	}
	if c == w.tb.F {
		return b, true
	}
	if a.n == b.n && sameP(a.p, b.p) {
		return a, true
	}
	at, aok := a.p.(*Term)
	bt, bok := b.p.(*Term)
	if aok || bok {
		if !aok {
			if a.p != nil {
				return V{}, false
			}
			at = w.tb.Const(bt.w, a.n)
		}
		if !bok {
			if b.p != nil {
				return V{}, false
			}
			bt = w.tb.Const(at.w, b.n)
		}
		return fromTerm(w.tb.Ite(c, at, bt)), true
	}
	if ti == nil {
		ti = &w.eng.muxTI
	}
	_, af := a.p.(*Fix)
	_, bf := b.p.(*Fix)
	if ti.k == kFloat || af || bf {
		x, ok1 := w.fixOf(a)
		y, ok2 := w.fixOf(b)
		if ok1 && ok2 {
			return V{p: &Fix{w.tb.Ite(c, x, y)}}, true
		}
		return V{}, false
	}
	if a.p == nil && b.p == nil && (ti.k == kInt || ti.k == kBool) {
		return fromTerm(w.tb.Ite(c, w.term(a, *ti), w.term(b, *ti))), true
	}
	if ti.k == kString && strLen(a) == strLen(b) {
		x, y := strBytes(a), strBytes(b)
		r := make([]V, len(x))
		bti := tinfo{k: kInt, w: 8}
		for i := range x {
			r[i], _ = w.iteV(c, x[i], y[i], &bti)
		}
		return mkStr(r), true
	}
	return V{}, false
}

// call invokes a function value.
func (w *W) callFn(g *G, caller *Frame, f *ssa.Function, args []V, fv []V) V {
	fn := w.getFn(f)
	if fn.mergeK == 1 && len(fv) == 0 {
		if r, ok := w.mergeCall(g, caller, fn, args); ok {
			return r
		}
	}
	return w.callRaw(g, caller, fn, args, fv)
}

func (w *W) callRaw(g *G, caller *Frame, fn *Fn, args []V, fv []V) V {
	f := fn.fn
	if in, ok := intrinsics[fn.name]; ok {
		return in(w, g, caller, args)
	}
	if in := w.eng.pkgStub(f); in != nil {
		return in(w, g, caller, args, f)
	}
	if len(f.Blocks) == 0 {
		if f.Origin() != nil {
			if in, ok := intrinsics[f.Origin().String()]; ok {
				return in(w, g, caller, args)
			}
		}
		panic(unsupported("external function " + fn.name))
	}
	if f.Synthetic == "package initializer" && !w.eng.initAllowed(f.Pkg.Pkg.Path()) {
		return V{}
	}
	w.depth++
	if w.depth > 5000 {
		w.depth = 0
		panic(&targetPanic{kind: "exit", msg: "stack overflow"})
	}
	fr := &Frame{fn: fn, regs: make([]V, fn.nregs), g: g, caller: caller, prev: -1}
	for i, s := range fn.params {
		fr.regs[s] = args[i]
	}
	for i, s := range fn.fvs {
		fr.regs[s] = fv[i]
	}
	if fn.hasDef {
		w.runDeferFrame(fr)
	} else {
		w.run(fr)
	}
	w.depth--
	return fr.result
}

// runDeferFrame runs a frame that has deferred calls.
func (w *W) runDeferFrame(fr *Frame) {
	d := w.depth
	func() {
		defer func() {
			if fr.bi < 0 {
				return // normal return
			}
			r := recover()
			tp, ok := r.(*targetPanic)
			if !ok || tp.kind != "panic" {
				panic(r)
			}
			w.depth = d
			fr.pan = tp
			w.runDefers(fr)
			if fr.pan != nil {
				panic(fr.pan)
			}
			// recovered
			if fr.fn.recov >= 0 {
				fr.bi = fr.fn.recov
				fr.prev = -1
				fr.rec = true
			} else {
				fr.result = zero(fr.fn.fn.Signature.Results())
				if fr.fn.nres == 1 {
					fr.result = zero(fr.fn.fn.Signature.Results().At(0).Type())
				}
			}
		}()
		w.run(fr)
		fr.bi = -1
	}()
	if fr.rec {
		w.runFrom(fr, fr.bi)
	}
}

func (w *W) runDefers(fr *Frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			ok := false
			defer func() {
				if !ok {
					r := recover()
					tp, isT := r.(*targetPanic)
					if !isT || tp.kind != "panic" {
						panic(r)
					}
					fr.pan = tp
				}
			}()
			w.doCall(fr, d.ci, d.fnv, d.args)
			ok = true
		}()
	}
	if fr.pan != nil {
		panic(fr.pan)
	}
}

func (w *W) run(fr *Frame) { w.runFrom(fr, 0) }

func (w *W) runFrom(fr *Frame, bi int) {
	fn := fr.fn
	if debugStack {
		defer func() {
			if e := recover(); e != nil {
				if ic, ok := e.(inconclusive); ok && w.trace < 40 {
					w.trace++
					fmt.Fprintln(os.Stderr, "  in", fn.name, w.prog.Fset.Position(fr.pos), ic.msg)
				}
				panic(e)
			}
		}()
	}
	prev := fr.prev
	skipPhi := false
	for {
		b := &fn.blocks[bi]
		i := 0
		if b.nphi > 0 {
			if !skipPhi {
				k := 0
				for pi, p := range b.preds {
					if p == prev {
						k = pi
						break
					}
				}
				if b.nphi == 1 {
					in := &b.ins[0]
					fr.regs[in.dst] = fr.get(&in.args[k])
				} else {
					var tmp [16]V
					t := tmp[:0]
					for j := 0; j < b.nphi; j++ {
						t = append(t, fr.get(&b.ins[j].args[k]))
					}
					for j := 0; j < b.nphi; j++ {
						fr.regs[b.ins[j].dst] = t[j]
					}
				}
			}
			i = b.nphi
		}
		skipPhi = false
		w.steps += int64(len(b.ins))
		if w.steps > w.maxSteps {
			w.overBudget(fr)
		}
		for ; i < len(b.ins); i++ {
			in := &b.ins[i]
			switch in.op {
			case iJump:
				prev = bi
				bi = b.succs[0]
				goto next
			case iIf:
				c := fr.get(&in.a)
				var taken bool
				if c.p == nil {
					taken = c.n != 0
				} else {
					ct := c.p.(*Term)
					if b.region != nil && w.knownVal(ct) == 0 {
						if j, ok := w.mergeRegion(fr, bi, ct); ok {
							prev = -1
							bi = j
							skipPhi = true
							goto next
						}
					}
					fr.pos = in.pos
					if debugForks {
						w.curFr = fr
					}
					taken = w.branch(ct)
				}
				prev = bi
				if taken {
					bi = b.succs[0]
				} else {
					bi = b.succs[1]
				}
				goto next
			case iReturn:
				switch len(in.args) {
				case 0:
					fr.result = V{}
				case 1:
					fr.result = fr.get(&in.args[0])
				default:
					r := &Agg{make([]V, len(in.args))}
					for j := range in.args {
						r.f[j] = fr.get(&in.args[j])
					}
					fr.result = V{p: r}
				}
				return
			default:
				if debugForks {
					w.curFr = fr
				}
				w.exec(fr, in)
			}
		}
		panic(unsupported("fell off block in " + fn.name))
	next:
	}
}

func (w *W) exec(fr *Frame, in *ins) {
	switch in.op {
	case iNop:
	case iAlloc:
		a := new(V)
		if in.ti.k == 0 && needsZero(in.t) {
			*a = zero(in.t)
		}
		fr.regs[in.dst] = V{p: a}
	case iBin:
		fr.regs[in.dst] = w.binop(fr, in, fr.get(&in.a), fr.get(&in.b))
	case iUn:
		fr.regs[in.dst] = w.unop(in, fr.get(&in.a))
	case iLoad:
		p := fr.get(&in.a)
		if a, ok := p.p.(*V); ok && !w.conc {
			if _, agg := a.p.(*Agg); !agg {
				fr.regs[in.dst] = *a
				return
			}
		}
		fr.pos = in.pos
		fr.regs[in.dst] = w.loadPtr(fr, p)
	case iStore:
		fr.pos = in.pos
		w.storePtr(fr, fr.get(&in.a), fr.get(&in.b))
	case iChangeType:
		fr.regs[in.dst] = fr.get(&in.a)
	case iConvert:
		fr.regs[in.dst] = w.convert(fr, in, fr.get(&in.a))
	case iMakeInterface:
		fr.regs[in.dst] = V{p: &Iface{tid: in.n, t: in.t2, v: copyVal(fr.get(&in.a))}}
	case iMakeClosure:
		fv := make([]V, len(in.args))
		for j := range in.args {
			fv[j] = fr.get(&in.args[j])
		}
		fr.regs[in.dst] = V{p: &Closure{fn: in.x.(*ssa.Function), fv: fv}}
	case iMakeMap:
		mt := in.t.Underlying().(*types.Map)
		fr.regs[in.dst] = V{p: &Map{idx: map[any]int{}, kt: mt.Key(), vt: mt.Elem()}}
	case iMakeChan:
		fr.regs[in.dst] = V{p: &Chan{cap: int(int64(w.concInt(fr.get(&in.a))))}}
	case iMakeSlice:
		fr.pos = in.pos
		n := int64(w.concInt(fr.get(&in.a)))
		c := int64(w.concInt(fr.get(&in.b)))
		if n < 0 || n > 1<<28 {
			w.rtPanic("makeslice: len out of range")
		}
		if n == 0 && c > 1<<24 && c < 1<<40 {
			c = 1 << 16 // an empty buffer of huge capacity: the capacity is not observed
		}
		if c < n || c > 1<<28 {
			w.rtPanic("makeslice: cap out of range")
		}
		s := make([]V, n, c)
		if needsZero(in.t2) {
			f := s[:c]
			for j := range f {
				f[j] = zero(in.t2)
			}
		}
		fr.regs[in.dst] = V{p: s}
	case iSlice:
		fr.pos = in.pos
		fr.regs[in.dst] = w.sliceOp(fr, in)
	case iSliceToArr:
		fr.pos = in.pos
		s := slc(fr.get(&in.a))
		if len(s) < in.n {
			w.rtPanic(fmt.Sprintf("cannot convert slice with length %d to array or pointer to array with length %d", len(s), in.n))
		}
		if fr.get(&in.a).p == nil {
			fr.regs[in.dst] = V{}
			return
		}
		fr.regs[in.dst] = V{p: &V{p: &Agg{s[:in.n:in.n]}}}
	case iFieldAddr:
		p := fr.get(&in.a)
		a, ok := p.p.(*V)
		if !ok {
			if p.p == nil {
				fr.pos = in.pos
				w.rtPanic("invalid memory address or nil pointer dereference")
			}
			if sp, ok := p.p.(*SymPtr); ok {
				ti := infoOf(in.t.Underlying().(*types.Pointer).Elem())
				fr.regs[in.dst] = V{p: &SymPtr{s: sp.s, idx: sp.idx, ti: ti, path: append(sp.path[:len(sp.path):len(sp.path)], in.n)}}
				return
			}
			panic(unsupported(fmt.Sprintf("field of %T in %s", p.p, fr.fn.name)))
		}
		ag, ok := a.p.(*Agg)
		if !ok {
			panic(unsupported(fmt.Sprintf("field of cell %T in %s", a.p, fr.fn.name)))
		}
		fr.regs[in.dst] = V{p: &ag.f[in.n]}
	case iField:
		fr.regs[in.dst] = fr.get(&in.a).p.(*Agg).f[in.n]
	case iIndexAddr:
		fr.pos = in.pos
		fr.regs[in.dst] = w.indexAddr(fr, in)
	case iIndex:
		fr.pos = in.pos
		x := fr.get(&in.a)
		ix := fr.get(&in.b)
		var s []V
		if in.ti.k == kString {
			if ix.p == nil {
				i := int64(sext(ix.n, in.ti2.w))
				if i < 0 || i >= int64(strLen(x)) {
					w.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, strLen(x)))
				}
				fr.regs[in.dst] = strAt(x, int(i))
				return
			}
			s = strBytes(x)
		} else {
			s = x.p.(*Agg).f
		}
		i, sym := w.boundIdx(ix, in.ti2, len(s))
		if sym != nil {
			fr.regs[in.dst] = w.muxRead8(s, sym, in)
		} else {
			fr.regs[in.dst] = s[i]
		}
	case iLookup:
		fr.pos = in.pos
		x := fr.get(&in.a)
		ix := fr.get(&in.b)
		if in.ti.k == kString {
			if ix.p == nil {
				i := int64(sext(ix.n, in.ti2.w))
				if i < 0 || i >= int64(strLen(x)) {
					w.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, strLen(x)))
				}
				fr.regs[in.dst] = strAt(x, int(i))
				return
			}
			s := strBytes(x)
			i, sym := w.boundIdx(ix, in.ti2, len(s))
			if sym != nil {
				fr.regs[in.dst] = w.muxRead8(s, sym, in)
			} else {
				fr.regs[in.dst] = s[i]
			}
			return
		}
		mt := in.t2.Underlying().(*types.Map)
		m, _ := x.p.(*Map)
		if w.conc && m != nil {
			w.raceRead(fr.g, m)
		}
		v, ok := w.mapGet(m, ix, mt)
		if in.commaOk {
			fr.regs[in.dst] = tuple(v, ok)
		} else {
			fr.regs[in.dst] = v
		}
	case iMapUpdate:
		fr.pos = in.pos
		m, _ := fr.get(&in.a).p.(*Map)
		if m == nil {
			w.goPanicStr("assignment to entry in nil map")
		}
		if w.conc {
			w.raceWrite(fr.g, m)
		}
		w.mapSet(m, fr.get(&in.b), copyVal(fr.get(&in.c)))
	case iRange:
		x := fr.get(&in.a)
		if in.ti.k == kString {
			fr.regs[in.dst] = V{p: &strIter{s: x}}
		} else {
			m, _ := x.p.(*Map)
			if w.conc && m != nil {
				w.raceRead(fr.g, m)
			}
			fr.regs[in.dst] = V{p: w.newMapIter(m)}
		}
	case iNext:
		switch it := fr.get(&in.a).p.(type) {
		case *strIter:
			if it.i >= strLen(it.s) {
				fr.regs[in.dst] = tuple(V{}, V{}, V{})
				return
			}
			r, n := w.decodeRune(it.s, it.i)
			fr.regs[in.dst] = tuple(cbool(true), cint(it.i), r)
			it.i += n
		case *mapIter:
			fr.regs[in.dst] = it.next(w)
		}
	case iTypeAssert:
		fr.pos = in.pos
		fr.regs[in.dst] = w.typeAssert(in, fr.get(&in.a))
	case iExtract:
		t, ok := fr.get(&in.a).p.(*Agg)
		if !ok {
			panic(unsupported("extract of non-tuple in " + fr.fn.name))
		}
		fr.regs[in.dst] = t.f[in.n]
	case iRunDefers:
		w.runDefers(fr)
	case iPanic:
		v := fr.get(&in.a)
		panic(&targetPanic{v: v, msg: w.panicText(fr, v), kind: "panic"})
	case iCall:
		ci := in.x.(*callInfo)
		args := make([]V, len(in.args))
		for j := range in.args {
			args[j] = fr.get(&in.args[j])
		}
		var fnv V
		if ci.static == nil && ci.builtin == "" {
			fnv = fr.get(&in.a)
		}
		fr.pos = in.pos
		fr.regs[in.dst] = w.doCall(fr, ci, fnv, args)
	case iDefer:
		ci := in.x.(*callInfo)
		args := make([]V, len(in.args))
		for j := range in.args {
			args[j] = fr.get(&in.args[j])
		}
		fr.defers = append(fr.defers, deferred{ci, fr.get(&in.a), args})
	case iGo:
		ci := in.x.(*callInfo)
		args := make([]V, len(in.args))
		for j := range in.args {
			args[j] = fr.get(&in.args[j])
		}
		fnv := fr.get(&in.a)
		w.spawn(fr, ci, fnv, args)
	case iSend:
		w.chanSend(fr, fr.get(&in.a), fr.get(&in.b))
	case iRecv:
		v, ok := w.chanRecv(fr, fr.get(&in.a), in.t2)
		if in.commaOk {
			fr.regs[in.dst] = tuple(v, cbool(ok))
		} else {
			fr.regs[in.dst] = v
		}
	case iSelect:
		fr.regs[in.dst] = w.selectOp(fr, in)
	default:
		panic(unsupported(fmt.Sprintf("instruction %v in %s", in.x, fr.fn.name)))
	}
}

func (w *W) goPanicStr(msg string) {
	panic(&targetPanic{v: w.mkIface(types.Typ[types.String], cstr(msg)), msg: msg, kind: "panic"})
}

func (w *W) doCall(fr *Frame, ci *callInfo, fnv V, args []V) V {
	if ci.static != nil {
		return w.callFn(fr.g, fr, ci.static, args, nil)
	}
	if ci.builtin != "" {
		return w.builtin(fr, ci, args)
	}
	if ci.invoke != nil {
		ifc, _ := fnv.p.(*Iface)
		if ifc == nil {
			w.rtPanic("invalid memory address or nil pointer dereference")
		}
		m := w.findMethod(ifc, ci.invoke)
		return w.callFn(fr.g, fr, m, append([]V{ifc.v}, args...), nil)
	}
	return w.callClosure(fr, fnv, args)
}

func (w *W) callClosure(fr *Frame, fnv V, args []V) V {
	c, _ := fnv.p.(*Closure)
	if c == nil {
		w.rtPanic("invalid memory address or nil pointer dereference")
	}
	if c.native != nil {
		return c.native(w, fr.g, args)
	}
	return w.callFn(fr.g, fr, c.fn, args, c.fv)
}

func (w *W) findMethod(ifc *Iface, m *types.Func) *ssa.Function {
	k := methKey{ifc.tid, m}
	if f, ok := w.meth[k]; ok {
		return f
	}
	sel := w.prog.MethodSets.MethodSet(ifc.t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		panic(unsupported(fmt.Sprintf("method %s of %v not found", m.Name(), ifc.t)))
	}
	w.eng.ssaMu.Lock()
	f := w.prog.MethodValue(sel)
	w.eng.ssaMu.Unlock()
	if f == nil {
		panic(unsupported("no method value for " + m.String()))
	}
	w.meth[k] = f
	return f
}

func (w *W) lookupMethodByName(ifc *Iface, name string) *ssa.Function {
	sel := w.prog.MethodSets.MethodSet(ifc.t).Lookup(nil, name)
	if sel == nil {
		return nil
	}
	w.eng.ssaMu.Lock()
	defer w.eng.ssaMu.Unlock()
	return w.prog.MethodValue(sel)
}

func (w *W) panicText(fr *Frame, v V) string {
	defer func() { recover() }()
	s := w.fmtVerb(fr, 'v', "", v, true)
	c, ok := concStr(mkStr(s))
	if !ok {
		return "panic(<symbolic>)"
	}
	return c
}

func (w *W) typeAssert(in *ins, x V) V {
	ifc, _ := x.p.(*Iface)
	ok := false
	var v V
	if in.n >= 0 {
		if ifc != nil && ifc.tid == in.n {
			ok = true
			v = ifc.v
		} else {
			v = zero(in.t2)
		}
	} else if ifc != nil {
		it := in.t2.Underlying().(*types.Interface)
		if types.Implements(ifc.t, it) {
			ok = true
			v = x
		}
	}
	if in.commaOk {
		return tuple(v, cbool(ok))
	}
	if !ok {
		var dyn string = "nil"
		if ifc != nil {
			dyn = ifc.t.String()
		}
		w.rtPanic(fmt.Sprintf("interface conversion: interface is %s, not %s", dyn, in.t2))
	}
	return v
}

// boundIdx checks 0 <= ix < n; returns either a concrete index or a symbolic one.
func (w *W) boundIdx(ix V, ti tinfo, n int) (int, *Term) {
	if ix.p == nil {
		var i int64
		if ti.signed {
			i = sext(ix.n, ti.w)
		} else {
			i = int64(ix.n)
		}
		if i < 0 || i >= int64(n) {
			w.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return int(i), nil
	}
	t := ix.p.(*Term)
	if n == 0 {
		w.rtPanic("index out of range with length 0")
	}
	var inb *Term
	if ti.w < 64 {
		if ti.signed {
			t = w.tb.Sext(t, 64)
		} else {
			t = w.tb.Zext(t, 64)
		}
	}
	inb = w.tb.Ult(t, w.tb.Const(64, uint64(n)))
	if !w.branch(inb) {
		w.rtPanic(fmt.Sprintf("index out of range with length %d", n))
	}
	if t.isConst() {
		return int(t.val), nil
	}
	return 0, t
}

const maxMux = 1100

func (w *W) muxable(s []V) bool {
	if len(s) > maxMux {
		return false
	}
	for i := range s {
		switch s[i].p.(type) {
		case nil, *Term:
		default:
			return false
		}
	}
	return true
}

func (w *W) muxRead8(s []V, idx *Term, in *ins) V {
	if !w.muxable(s) {
		i := w.concretize(idx)
		return s[i]
	}
	return w.muxReadTI(s, idx, infoOf(in.t))
}

func (w *W) muxReadTI(s []V, idx *Term, ti tinfo) V {
	if ti.k == kString {
		if v, ok := w.sliceTable(s, idx); ok {
			return v
		}
	}
	if ti.k != kInt && ti.k != kBool || !w.muxable(s) {
		return copyVal(s[w.concretize(idx)])
	}
	var res *Term
	for i := len(s) - 1; i >= 0; i-- {
		if uint64(i) < idx.lo || uint64(i) > idx.hi {
			continue
		}
		v := w.term(s[i], ti)
		if res == nil {
			res = v
			continue
		}
		res = w.tb.Ite(w.tb.Eq(idx, w.tb.Const(idx.w, uint64(i))), v, res)
	}
	return fromTerm(res)
}

func (w *W) indexAddr(fr *Frame, in *ins) V {
	x := fr.get(&in.a)
	ix := fr.get(&in.b)
	var s []V
	if in.ti.k == kSlice {
		s = slc(x)
	} else {
		a, ok := x.p.(*V)
		if !ok {
			w.rtPanic("invalid memory address or nil pointer dereference")
		}
		s = a.p.(*Agg).f
	}
	i, sym := w.boundIdx(ix, in.ti2, len(s))
	if sym != nil {
		et := in.t.Underlying().(*types.Pointer).Elem()
		k := infoOf(et)
		if (k.k == kInt || k.k == kBool) && w.muxable(s) {
			return V{p: &SymPtr{s: s, idx: sym, ti: k}}
		}
		if in.n == 1 && !w.conc && len(s) >= leastTable && (k.k == kString || k.k == kAgg && s[0].p != nil) {
			return V{p: &SymPtr{s: s, idx: sym, ti: k}}
		}
		i = int(w.concretize(sym))
	}
	return V{p: &s[i]}
}

func (w *W) sliceOp(fr *Frame, in *ins) V {
	x := fr.get(&in.a)
	var n, c int
	var s []V
	switch in.ti.k {
	case kString:
		n = strLen(x)
		c = n
	case kSlice:
		s = slc(x)
		n, c = len(s), cap(s)
	case kPtr:
		a, ok := x.p.(*V)
		if !ok {
			w.rtPanic("invalid memory address or nil pointer dereference")
		}
		s = a.p.(*Agg).f
		n, c = len(s), len(s)
	}
	lo, hi, mx := 0, n, c
	if in.n&1 != 0 {
		lo = int(int64(w.concInt(fr.get(&in.b))))
	}
	if in.n&2 != 0 {
		hi = int(int64(w.concInt(fr.get(&in.c))))
	}
	if in.n&4 != 0 {
		mx = int(int64(w.concInt(fr.get(&in.args[0]))))
	}
	if mx < 0 || mx > c || hi < 0 || hi > mx || lo < 0 || lo > hi {
		w.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with capacity %d", lo, hi, c))
	}
	if in.ti.k == kString {
		return strSlice(x, lo, hi)
	}
	if x.p == nil {
		return V{}
	}
	return V{p: s[lo:hi:mx]}
}

// concInt forces an integer to be concrete (forking over its feasible values).
func (w *W) concInt(v V) uint64 {
	if v.p == nil {
		return v.n
	}
	return w.concretize(v.p.(*Term))
}
