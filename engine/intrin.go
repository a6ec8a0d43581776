package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strconv"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(w *W, g *G, fr *Frame, a []V) V

var intrinsics map[string]intrinsic

// pureIntrinsics may be called while merging.
var pureIntrinsics = map[string]bool{
	"unicode.is16": true, "unicode.is32": true, "unicode.to": true,
	"math.Float64bits": false,
}

const vpPath = "github.com/sugarme/tokenizer/zzverif/vp"

func (w *W) nondet(kind string, width uint8, lo, hi int64) V {
	if lo > hi {
		panic(pathAbort{"empty range"})
	}
	if w.nest != nil || w.nofork > 0 {
		panic(mergeAbort{})
	}
	span := uint64(hi - lo)
	bw := uint8(1)
	for bw < 64 && mask(bw) < span {
		bw++
	}
	v := w.newVar(bw, span, kind)
	t := w.tb.Bin(OAdd, w.tb.Zext(v, width), w.tb.Const(width, uint64(lo)))
	w.nondets = append(w.nondets, ndet{kind, t, width})
	return fromTerm(t)
}

func nop(w *W, g *G, fr *Frame, a []V) V { return V{} }

func (w *W) cstrArg(v V) string {
	s, ok := concStr(v)
	if !ok {
		panic(unsupported("symbolic string where a literal is needed"))
	}
	return s
}

func (w *W) indexSub(s, sub []V, from int) int {
	for i := from; i+len(sub) <= len(s); i++ {
		c := w.tb.T
		for j := range sub {
			if s[i+j].p == nil && sub[j].p == nil {
				if s[i+j].n != sub[j].n {
					c = w.tb.F
					break
				}
				continue
			}
			c = w.tb.And(c, w.tb.Eq(w.term(s[i+j], tiByte), w.term(sub[j], tiByte)))
			if c == w.tb.F {
				break
			}
		}
		if w.branch(c) {
			return i
		}
	}
	return -1
}

func (w *W) rangeTest(tab []V, r *Term) *Term {
	// tab elements are Range16/Range32 structs {Lo, Hi, Stride}
	tb := w.tb
	if !sortedRanges(tab) {
		return w.unsortedRangeTest(tab, r)
	}
	res := tb.F
	for i := range tab {
		f := tab[i].p.(*Agg).f
		lo, hi, st := f[0].n, f[1].n, f[2].n
		if hi < r.lo || lo > r.hi {
			continue
		}
		c := tb.And(tb.Ule(tb.Const(r.w, lo), r), tb.Ule(r, tb.Const(r.w, hi)))
		if st > 1 {
			c = tb.And(c, tb.Eq(tb.Bin(OURem, tb.Bin(OSub, r, tb.Const(r.w, lo)), tb.Const(r.w, st)), tb.Const(r.w, 0)))
		}
		res = tb.Or(res, c)
	}
	return res
}

// sortedRanges tells whether a table of ranges is what package unicode asks for; then searching it is membership.
func sortedRanges(tab []V) bool {
	for i := range tab {
		f := tab[i].p.(*Agg).f
		if f[0].n > f[1].n || i > 0 && tab[i-1].p.(*Agg).f[1].n >= f[0].n {
			return false
		}
	}
	return true
}

// unsortedRangeTest follows the searches of unicode.is16 and is32: linear for small tables and Latin-1 characters, otherwise
// binary.
func (w *W) unsortedRangeTest(tab []V, r *Term) *Term {
	tb := w.tb
	at := func(i int, below, above *Term) *Term {
		f := tab[i].p.(*Agg).f
		lo, hi, st := tb.Const(r.w, f[0].n), tb.Const(r.w, f[1].n), f[2].n
		in := tb.T
		if st != 1 {
			in = tb.Eq(tb.Bin(OURem, tb.Bin(OSub, r, lo), tb.Const(r.w, st)), tb.Const(r.w, 0))
		}
		return tb.Ite(tb.Ult(r, lo), below, tb.Ite(tb.Ule(r, hi), in, above))
	}
	linear := tb.F
	for i := len(tab) - 1; i >= 0; i-- {
		linear = at(i, tb.F, linear)
	}
	if len(tab) <= 18 {
		return linear
	}
	var search func(lo, hi int) *Term
	search = func(lo, hi int) *Term {
		if lo >= hi {
			return tb.F
		}
		m := int(uint(lo+hi) >> 1)
		return at(m, search(lo, m), search(m+1, hi))
	}
	return tb.Ite(tb.Ule(r, tb.Const(r.w, 0xFF)), linear, search(0, len(tab)))
}

func (w *W) errString(msg []V) V {
	p := w.prog.ImportedPackage("errors")
	t := p.Type("errorString").Type()
	cell := new(V)
	*cell = V{p: &Agg{[]V{mkStr(msg)}}}
	return w.mkIface(types.NewPointer(t), V{p: cell})
}

func syncGate(w *W, g *G) {
	if w.nest != nil || w.nofork > 0 {
		panic(mergeAbort{})
	}
}

func atomicRMW(f func(w *W, old V, a []V) (nv V, ret V)) intrinsic {
	return func(w *W, g *G, fr *Frame, a []V) V {
		p, ok := a[0].p.(*V)
		if !ok {
			w.rtPanic("invalid memory address or nil pointer dereference")
		}
		syncGate(w, g)
		w.schedPoint(g, a[0].p)
		if w.conc {
			s := w.so(p)
			w.acquire(g, s)
			w.release(g, s)
		}
		nv, ret := f(w, *p, a)
		w.setCell(p, nv)
		return ret
	}
}

func math1(f func(float64) float64) intrinsic {
	return func(w *W, g *G, fr *Frame, a []V) V {
		if a[0].p != nil {
			panic(unsupported("symbolic float in math function"))
		}
		return cfloat(f(math.Float64frombits(a[0].n)))
	}
}

func init() {
	I := map[string]intrinsic{}
	intrinsics = I
	vp := func(n string, f intrinsic) { I[vpPath+"."+n] = f }
	vp("Int", func(w *W, g *G, fr *Frame, a []V) V {
		return w.nondet("int", 64, int64(a[0].n), int64(a[1].n))
	})
	vp("Byte", func(w *W, g *G, fr *Frame, a []V) V { return w.nondet("byte", 8, 0, 255) })
	vp("ByteIn", func(w *W, g *G, fr *Frame, a []V) V { return w.nondet("byte", 8, int64(a[0].n), int64(a[1].n)) })
	vp("Rune", func(w *W, g *G, fr *Frame, a []V) V {
		return w.nondet("rune", 32, int64(int32(a[0].n)), int64(int32(a[1].n)))
	})
	vp("Bool", func(w *W, g *G, fr *Frame, a []V) V {
		if w.nest != nil || w.nofork > 0 {
			panic(mergeAbort{})
		}
		v := w.newVar(0, 1, "bool")
		w.nondets = append(w.nondets, ndet{"bool", v, 2})
		return fromTerm(v)
	})
	vp("Float", func(w *W, g *G, fr *Frame, a []V) V { // value k/den for k in [lo,hi]
		lo, hi, den := int64(a[0].n), int64(a[1].n), int64(a[2].n)
		if den <= 0 || (1<<fixBits)%den != 0 {
			panic(unsupported("vp.Float denominator"))
		}
		v := w.nondet("int", 64, lo, hi)
		t := w.term(v, tiInt)
		return V{p: &Fix{w.tb.Bin(OMul, t, w.tb.Const(64, uint64((1<<fixBits)/den)))}}
	})
	vp("Assume", func(w *W, g *G, fr *Frame, a []V) V { w.assume(w.term(a[0], tiBool)); return V{} })
	vp("Assert", func(w *W, g *G, fr *Frame, a []V) V {
		w.assert(w.term(a[0], tiBool), w.cstrArg(a[1]))
		return V{}
	})
	vp("Reach", func(w *W, g *G, fr *Frame, a []V) V { w.eng.reach(w.cstrArg(a[0])); return V{} })
	vp("Observe", func(w *W, g *G, fr *Frame, a []V) V {
		var vs []V
		for _, x := range slc(a[1]) {
			vs = append(vs, w.snapshot(x))
		}
		w.obs = append(w.obs, obsRec{w.cstrArg(a[0]), vs})
		return V{}
	})
	vp("Concrete", func(w *W, g *G, fr *Frame, a []V) V { return V{n: w.concInt(a[0])} })
	vp("Bound", func(w *W, g *G, fr *Frame, a []V) V {
		if thorough {
			return a[1]
		}
		return a[0]
	})
	vp("MapOrder", func(w *W, g *G, fr *Frame, a []V) V { w.mapMode = int(a[0].n); return V{} })
	vp("Sched", func(w *W, g *G, fr *Frame, a []V) V {
		w.schedMode, w.sleep, w.fsched = int(a[0].n), nil, false
		if w.schedMode == 3 {
			w.schedMode, w.fsched = 0, true
		}
		return V{}
	})
	vp("Steps", func(w *W, g *G, fr *Frame, a []V) V { w.maxSteps = int64(a[0].n); return V{} })
	// And/Or/Ite: branch-free connectives for specifications
	vp("And", func(w *W, g *G, fr *Frame, a []V) V {
		r := w.tb.T
		for _, x := range slc(a[0]) {
			r = w.tb.And(r, w.term(x, tiBool))
		}
		return fromTerm(r)
	})
	vp("Or", func(w *W, g *G, fr *Frame, a []V) V {
		r := w.tb.F
		for _, x := range slc(a[0]) {
			r = w.tb.Or(r, w.term(x, tiBool))
		}
		return fromTerm(r)
	})
	vp("IteInt", func(w *W, g *G, fr *Frame, a []V) V {
		return fromTerm(w.tb.Ite(w.term(a[0], tiBool), w.term(a[1], tiInt), w.term(a[2], tiInt)))
	})
	vp("FileLimit", func(w *W, g *G, fr *Frame, a []V) V {
		if n := int(int64(w.concInt(a[0]))); n < 0 {
			delete(w.side, "fsize")
		} else {
			w.side["fsize"] = n
		}
		return V{}
	})
	vp("Advance", func(w *W, g *G, fr *Frame, a []V) V { w.nowNs += int64(a[0].n); return V{} })
	vp("Symbolic", func(w *W, g *G, fr *Frame, a []V) V { return cbool(true) })

	// ---- strings / bytes ----
	idx := func(w *W, g *G, fr *Frame, a []V) V {
		return cint(w.indexSub(strBytes(a[0]), strBytes(a[1]), 0))
	}
	I["strings.Index"] = idx
	I["internal/stringslite.Index"] = idx
	I["internal/bytealg.IndexString"] = idx
	bidx := func(w *W, g *G, fr *Frame, a []V) V { return cint(w.indexSub(slc(a[0]), slc(a[1]), 0)) }
	I["bytes.Index"] = bidx
	I["internal/bytealg.Index"] = bidx
	lidx := func(s, sub []V, w *W) V {
		for i := len(s) - len(sub); i >= 0; i-- {
			if w.indexSub(s[i:i+len(sub)], sub, 0) == 0 {
				return cint(i)
			}
		}
		return cint(-1)
	}
	I["strings.LastIndex"] = func(w *W, g *G, fr *Frame, a []V) V { return lidx(strBytes(a[0]), strBytes(a[1]), w) }
	I["bytes.LastIndex"] = func(w *W, g *G, fr *Frame, a []V) V { return lidx(slc(a[0]), slc(a[1]), w) }
	I["strings.Count"] = func(w *W, g *G, fr *Frame, a []V) V {
		s, sub := a[0], strBytes(a[1])
		if len(sub) == 0 {
			n := 0
			for i := 0; i < strLen(s); {
				_, k := w.decodeRune(s, i)
				i += k
				n++
			}
			return cint(n + 1)
		}
		b := strBytes(s)
		n, at := 0, 0
		for {
			i := w.indexSub(b, sub, at)
			if i < 0 {
				return cint(n)
			}
			n++
			at = i + len(sub)
		}
	}
	ib := func(b []V, c V, w *W) V { return cint(w.indexSub(b, []V{c}, 0)) }
	for _, n := range []string{"internal/bytealg.IndexByteString", "strings.IndexByte", "internal/stringslite.IndexByte"} {
		I[n] = func(w *W, g *G, fr *Frame, a []V) V { return ib(strBytes(a[0]), a[1], w) }
	}
	for _, n := range []string{"internal/bytealg.IndexByte", "bytes.IndexByte"} {
		I[n] = func(w *W, g *G, fr *Frame, a []V) V { return ib(slc(a[0]), a[1], w) }
	}
	cnt := func(b []V, c V, w *W) V {
		r := w.tb.Const(64, 0)
		for i := range b {
			r = w.tb.Bin(OAdd, r, w.tb.Zext(w.tb.Eq(w.term(b[i], tiByte), w.term(c, tiByte)), 64))
		}
		return fromTerm(r)
	}
	I["internal/bytealg.CountString"] = func(w *W, g *G, fr *Frame, a []V) V { return cnt(strBytes(a[0]), a[1], w) }
	I["internal/bytealg.Count"] = func(w *W, g *G, fr *Frame, a []V) V { return cnt(slc(a[0]), a[1], w) }
	beq := func(w *W, g *G, fr *Frame, a []V) V { return fromTerm(w.strEq(mkStr(slc(a[0])), mkStr(slc(a[1])))) }
	I["bytes.Equal"] = beq
	I["internal/bytealg.Equal"] = beq
	cmp := func(w *W, x, y V) V {
		eq, lt := w.strEq(x, y), w.strLess(x, y)
		c := func(i int64) *Term { return w.tb.Const(64, uint64(i)) }
		return fromTerm(w.tb.Ite(eq, c(0), w.tb.Ite(lt, c(-1), c(1))))
	}
	I["internal/bytealg.Compare"] = func(w *W, g *G, fr *Frame, a []V) V { return cmp(w, mkStr(slc(a[0])), mkStr(slc(a[1]))) }
	I["internal/bytealg.CompareString"] = func(w *W, g *G, fr *Frame, a []V) V { return cmp(w, a[0], a[1]) }
	I["strings.Compare"] = I["internal/bytealg.CompareString"]
	I["bytes.Compare"] = I["internal/bytealg.Compare"]
	I["cmp.runtime_cmpstring"] = I["internal/bytealg.CompareString"]
	I["internal/bytealg.MakeNoZero"] = func(w *W, g *G, fr *Frame, a []V) V {
		n := int(w.concInt(a[0]))
		return V{p: make([]V, n, max(n, roundCap(n, 1)))}
	}
	I["internal/abi.NoEscape"] = func(w *W, g *G, fr *Frame, a []V) V { return a[0] }
	I["internal/abi.Escape"] = I["internal/abi.NoEscape"]
	I["strings.noescape"] = I["internal/abi.NoEscape"]
	I["internal/stringslite.Clone"] = func(w *W, g *G, fr *Frame, a []V) V { return a[0] }
	I["strings.Clone"] = I["internal/stringslite.Clone"]
	I["(*strings.Builder).String"] = func(w *W, g *G, fr *Frame, a []V) V {
		p, _ := a[0].p.(*V)
		if p == nil {
			w.rtPanic("invalid memory address or nil pointer dereference")
		}
		return mkStr(append([]V(nil), slc(p.p.(*Agg).f[1])...))
	}
	for _, n := range []string{"fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln"} {
		mode := n[4:]
		I[n] = func(w *W, g *G, fr *Frame, a []V) V { return mkStr(w.sprint(fr, mode, a, false)) }
	}
	I["fmt.Errorf"] = func(w *W, g *G, fr *Frame, a []V) V {
		msg := w.sprint(fr, "Sprintf", a, true)
		if f, ok := concStr(a[0]); ok && strings.Contains(f, "%w") {
			// wrap the (first) %w operand
			k := 0
			for i := 0; i+1 < len(f); i++ {
				if f[i] == '%' {
					if f[i+1] == '%' {
						i++
						continue
					}
					j := i + 1
					for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
						j++
					}
					if j < len(f) && f[j] == 'w' {
						break
					}
					k++
				}
			}
			args := slc(a[1])
			t := w.prog.ImportedPackage("fmt").Type("wrapError").Type()
			cell := new(V)
			e := V{}
			if k < len(args) {
				e = args[k]
			}
			*cell = V{p: &Agg{[]V{mkStr(msg), e}}}
			return w.mkIface(types.NewPointer(t), V{p: cell})
		}
		return w.errString(msg)
	}
	for _, n := range []string{"fmt.Printf", "fmt.Println", "fmt.Print"} {
		I[n] = func(w *W, g *G, fr *Frame, a []V) V { return tuple(V{}, V{}) }
	}
	// the progress bar only writes to the terminal
	for _, n := range []string{"Add", "Add64", "Set", "Set64", "Finish", "Clear", "RenderBlank"} {
		I["(*github.com/schollz/progressbar/v2.ProgressBar)."+n] = func(w *W, g *G, fr *Frame, a []V) V { return V{} }
	}
	I["github.com/schollz/progressbar/v2.New"] = func(w *W, g *G, fr *Frame, a []V) V {
		t := w.prog.ImportedPackage("github.com/schollz/progressbar/v2").Type("ProgressBar").Type()
		cell := new(V)
		*cell = zero(t)
		return V{p: cell}
	}
	for _, n := range []string{"fmt.Fprintf", "fmt.Fprintln", "fmt.Fprint"} {
		mode := "S" + strings.ToLower(n[5:])
		I[n] = func(w *W, g *G, fr *Frame, a []V) V {
			i, _ := a[0].p.(*Iface)
			if i == nil || strings.Contains(i.t.String(), "os.File") && w.fd(i.v) == nil {
				return tuple(V{}, V{})
			}
			s := w.sprint(fr, mode, a[1:], false)
			m := w.lookupMethodByName(i, "Write")
			return w.callFn(g, fr, m, []V{i.v, mkSlice(s)}, nil)
		}
	}
	var each func(w *W, g *G, fr *Frame, e V, f func(*Iface) bool) bool // the tree of errors of e, in order
	each = func(w *W, g *G, fr *Frame, e V, f func(*Iface) bool) bool {
		ei, _ := e.p.(*Iface)
		if ei == nil {
			return false
		}
		if f(ei) {
			return true
		}
		m := w.lookupMethodByName(ei, "Unwrap")
		if m == nil {
			return false
		}
		u := w.callFn(g, fr, m, []V{ei.v}, nil)
		if _, many := m.Signature.Results().At(0).Type().Underlying().(*types.Slice); !many {
			return each(w, g, fr, u, f)
		}
		for _, x := range slc(u) {
			if each(w, g, fr, x, f) {
				return true
			}
		}
		return false
	}
	I["errors.Is"] = func(w *W, g *G, fr *Frame, a []V) V {
		ti, _ := a[1].p.(*Iface)
		if ti == nil || a[0].p == nil {
			return cbool(ti == nil && a[0].p == nil)
		}
		return cbool(each(w, g, fr, a[0], func(ei *Iface) bool {
			if ti.tid == ei.tid && types.Comparable(ei.t) && w.branch(w.eqVal(ei.t, ei.v, ti.v)) {
				return true
			}
			m := w.lookupMethodByName(ei, "Is")
			return m != nil && m.Signature.Params().Len() == 1 && w.branch(w.term(w.callFn(g, fr, m, []V{ei.v, a[1]}, nil), tiBool))
		}))
	}
	I["errors.As"] = func(w *W, g *G, fr *Frame, a []V) V {
		ti, _ := a[1].p.(*Iface)
		if ti == nil {
			w.goPanicStr("errors: target cannot be nil")
		}
		pt, ok := ti.t.Underlying().(*types.Pointer)
		if !ok || ti.v.p == nil {
			w.goPanicStr("errors: target must be a non-nil pointer")
		}
		it, isIface := pt.Elem().Underlying().(*types.Interface)
		return cbool(each(w, g, fr, a[0], func(ei *Iface) bool {
			switch {
			case isIface && types.Implements(ei.t, it):
				w.storePtr(fr, ti.v, V{p: ei})
				return true
			case !isIface && types.Identical(ei.t, pt.Elem()):
				w.storePtr(fr, ti.v, copyVal(ei.v))
				return true
			}
			m := w.lookupMethodByName(ei, "As")
			return m != nil && m.Signature.Params().Len() == 1 && w.branch(w.term(w.callFn(g, fr, m, []V{ei.v, a[1]}, nil), tiBool))
		}))
	}
	I["maps.clone"] = func(w *W, g *G, fr *Frame, a []V) V {
		i := a[0].p.(*Iface)
		m, _ := i.v.p.(*Map)
		if m == nil {
			return a[0]
		}
		if w.conc {
			w.raceRead(g, m)
		}
		c := &Map{idx: map[any]int{}, kt: m.kt, vt: m.vt}
		for _, e := range m.ents {
			if e.live {
				w.mapSet(c, e.k, copyVal(e.v))
			}
		}
		return V{p: &Iface{i.tid, i.t, V{p: c}}}
	}
	// ---- utf8 ----
	I["unicode/utf8.DecodeRuneInString"] = func(w *W, g *G, fr *Frame, a []V) V {
		if strLen(a[0]) == 0 {
			return tuple(V{n: 0xFFFD}, V{})
		}
		r, n := w.decodeRune(a[0], 0)
		return tuple(r, cint(n))
	}
	I["unicode/utf8.DecodeRune"] = func(w *W, g *G, fr *Frame, a []V) V {
		b := slc(a[0])
		if len(b) == 0 {
			return tuple(V{n: 0xFFFD}, V{})
		}
		r, n := w.decodeRuneB(b)
		return tuple(r, cint(n))
	}
	I["unicode/utf8.RuneLen"] = func(w *W, g *G, fr *Frame, a []V) V {
		if a[0].p == nil {
			switch r := int32(a[0].n); {
			case r < 0:
				return cint(-1)
			case r < 0x80:
				return cint(1)
			case r < 0x800:
				return cint(2)
			case r >= 0xD800 && r <= 0xDFFF || r > 0x10FFFF:
				return cint(-1)
			case r < 0x10000:
				return cint(3)
			}
			return cint(4)
		}
		return cint(w.runeClass(a[0].p.(*Term)))
	}
	I["unicode/utf8.AppendRune"] = func(w *W, g *G, fr *Frame, a []V) V {
		return w.appendVals(fr, a[0], w.encodeRune(a[1]), types.Typ[types.Uint8])
	}
	I["unicode/utf8.EncodeRune"] = func(w *W, g *G, fr *Frame, a []V) V {
		b := w.encodeRune(a[1])
		d := slc(a[0])
		if len(d) < len(b) {
			w.rtPanic("index out of range")
		}
		for i := range b {
			w.store(&d[i], b[i])
		}
		return cint(len(b))
	}
	rc := func(b []V, w *W) V {
		n := 0
		for i := 0; i < len(b); {
			_, k := w.decodeRuneB(b[i:])
			i += k
			n++
		}
		return cint(n)
	}
	I["unicode/utf8.RuneCountInString"] = func(w *W, g *G, fr *Frame, a []V) V { return rc(strBytes(a[0]), w) }
	I["unicode/utf8.RuneCount"] = func(w *W, g *G, fr *Frame, a []V) V { return rc(slc(a[0]), w) }
	valid := func(b []V, w *W) V {
		for i := 0; i < len(b); {
			r, k := w.decodeRuneB(b[i:])
			if k == 1 && r.p == nil && r.n == 0xFFFD {
				return cbool(false)
			}
			i += k
		}
		return cbool(true)
	}
	I["unicode/utf8.ValidString"] = func(w *W, g *G, fr *Frame, a []V) V { return valid(strBytes(a[0]), w) }
	I["unicode/utf8.Valid"] = func(w *W, g *G, fr *Frame, a []V) V { return valid(slc(a[0]), w) }
	// ---- unicode ----
	for _, n := range []string{"unicode.is16", "unicode.is32"} {
		I[n] = func(w *W, g *G, fr *Frame, a []V) V {
			ti := tinfo{k: kInt, w: 32}
			if n == "unicode.is16" {
				ti.w = 16
			}
			if a[1].p == nil && sortedRanges(slc(a[0])) {
				r := a[1].n
				tab := slc(a[0])
				lo, hi := 0, len(tab)
				for lo < hi {
					m := lo + (hi-lo)/2
					f := tab[m].p.(*Agg).f
					if f[0].n <= r && r <= f[1].n {
						return cbool(f[2].n == 1 || (r-f[0].n)%f[2].n == 0)
					}
					if r < f[0].n {
						hi = m
					} else {
						lo = m + 1
					}
				}
				return cbool(false)
			}
			return fromTerm(w.rangeTest(slc(a[0]), w.term(a[1], ti)))
		}
	}
	I["(*regexp/syntax.Inst).MatchRune"] = func(w *W, g *G, fr *Frame, a []V) V {
		f := (*a[0].p.(*V)).p.(*Agg).f
		rs := slc(f[3])
		tb := w.tb
		r := w.term(a[1], tiRune)
		c := func(i int) *Term { return tb.Const(32, rs[i].n) }
		if len(rs) == 1 {
			res := tb.Eq(r, c(0))
			r0 := rune(int32(rs[0].n))
			if f[2].n&1 != 0 { // FoldCase
				for r1 := unicode.SimpleFold(r0); r1 != r0; r1 = unicode.SimpleFold(r1) {
					res = tb.Or(res, tb.Eq(r, tb.Const(32, uint64(uint32(r1)))))
				}
			}
			return fromTerm(res)
		}
		res := tb.F
		for i := 0; i+1 < len(rs); i += 2 {
			res = tb.Or(res, tb.And(tb.Sle(c(i), r), tb.Sle(r, c(i+1))))
		}
		return fromTerm(res)
	}
	I["unicode.to"] = func(w *W, g *G, fr *Frame, a []V) V {
		kase := a[0].n
		tab := slc(a[2])
		if a[0].p != nil {
			panic(unsupported("unicode.to symbolic case"))
		}
		tb := w.tb
		r := w.term(a[1], tiRune)
		res, found := r, tb.F
		if kase > 2 {
			return tuple(V{n: 0xFFFD}, V{})
		}
		for i := range tab {
			f := tab[i].p.(*Agg).f
			lo, hi := f[0].n, f[1].n
			if int64(hi) < r.sl || int64(lo) > r.sh {
				continue
			}
			c := tb.And(tb.Sle(tb.Const(32, lo), r), tb.Sle(r, tb.Const(32, hi)))
			if c == tb.F {
				continue
			}
			d := int32(f[2].p.(*Agg).f[kase].n)
			var v *Term
			if d > 0x10FFFF {
				off := tb.Bin(OSub, r, tb.Const(32, lo))
				off = tb.Bin(OOr, tb.Bin(OAnd, off, tb.Const(32, uint64(0xFFFFFFFE))), tb.Const(32, kase&1))
				v = tb.Bin(OAdd, tb.Const(32, lo), off)
			} else {
				v = tb.Bin(OAdd, r, tb.Const(32, uint64(uint32(d))))
			}
			res = tb.Ite(c, v, res)
			found = tb.Or(found, c)
		}
		return tuple(fromTerm(res), fromTerm(found))
	}
	// ---- math ----
	for n, f := range map[string]func(float64) float64{"Sqrt": math.Sqrt, "Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc, "Log": math.Log, "Exp": math.Exp, "Abs": math.Abs, "Log2": math.Log2, "Log10": math.Log10} {
		I["math."+n] = math1(f)
		I["math."+strings.ToLower(n)] = math1(f)
	}
	for _, n := range []string{"Max", "Min"} {
		f, tok := math.Max, token.GTR
		if n == "Min" {
			f, tok = math.Min, token.LSS
		}
		I["math."+n] = func(w *W, g *G, fr *Frame, a []V) V {
			if a[0].p == nil && a[1].p == nil {
				return cfloat(f(math.Float64frombits(a[0].n), math.Float64frombits(a[1].n)))
			}
			c := w.floatBin(tok, tinfo{k: kFloat}, a[0], a[1])
			x, ok1 := w.fixOf(a[0])
			y, ok2 := w.fixOf(a[1])
			if ok1 && ok2 {
				return V{p: &Fix{w.tb.Ite(w.term(c, tiBool), x, y)}}
			}
			if w.branch(w.term(c, tiBool)) {
				return a[0]
			}
			return a[1]
		}
		I["math."+strings.ToLower(n)] = I["math."+n]
	}
	I["math.Pow"] = func(w *W, g *G, fr *Frame, a []V) V {
		return cfloat(math.Pow(math.Float64frombits(a[0].n), math.Float64frombits(a[1].n)))
	}
	I["math.Float64bits"] = func(w *W, g *G, fr *Frame, a []V) V {
		if a[0].p != nil {
			panic(unsupported("bits of symbolic float"))
		}
		return V{n: a[0].n}
	}
	I["math.Float64frombits"] = func(w *W, g *G, fr *Frame, a []V) V { return V{n: w.concInt(a[0])} }
	I["math.Float32bits"] = func(w *W, g *G, fr *Frame, a []V) V {
		return V{n: uint64(math.Float32bits(float32(math.Float64frombits(a[0].n))))}
	}
	I["math.Float32frombits"] = func(w *W, g *G, fr *Frame, a []V) V {
		return cfloat(float64(math.Float32frombits(uint32(w.concInt(a[0])))))
	}
	// ---- strconv ----
	I["strconv.Itoa"] = func(w *W, g *G, fr *Frame, a []V) V { return cstr(strconv.Itoa(int(w.concInt(a[0])))) }
	I["strconv.FormatInt"] = func(w *W, g *G, fr *Frame, a []V) V {
		return cstr(strconv.FormatInt(int64(w.concInt(a[0])), int(w.concInt(a[1]))))
	}
	I["strconv.FormatUint"] = func(w *W, g *G, fr *Frame, a []V) V {
		return cstr(strconv.FormatUint(w.concInt(a[0]), int(w.concInt(a[1]))))
	}
	I["strconv.FormatFloat"] = func(w *W, g *G, fr *Frame, a []V) V {
		if a[0].p != nil {
			return cstr("<symfloat>")
		}
		return cstr(strconv.FormatFloat(math.Float64frombits(a[0].n), byte(a[1].n), int(int64(a[2].n)), int(a[3].n)))
	}
	// ---- sync ----
	lock := func(w *W, g *G, fr *Frame, a []V) V {
		syncGate(w, g)
		s := w.so(a[0].p)
		w.block(g, s, func() bool { return !s.locked && s.readers == 0 })
		s.locked = true
		w.acquire(g, s)
		g.vc = g.vc.join(s.rvc)
		return V{}
	}
	unlock := func(w *W, g *G, fr *Frame, a []V) V {
		syncGate(w, g)
		s := w.so(a[0].p)
		if !s.locked {
			panic(&targetPanic{kind: "panic", msg: "fatal error: sync: unlock of unlocked mutex"})
		}
		s.locked = false
		w.release(g, s)
		return V{}
	}
	I["(*sync.Mutex).Lock"], I["(*sync.Mutex).Unlock"] = lock, unlock
	I["(*sync.RWMutex).Lock"], I["(*sync.RWMutex).Unlock"] = lock, unlock
	tryLock := func(w *W, g *G, fr *Frame, a []V) V {
		syncGate(w, g)
		w.schedPoint(g, anyObj)
		s := w.so(a[0].p)
		if s.locked || s.readers > 0 {
			return cbool(false)
		}
		s.locked = true
		w.acquire(g, s)
		return cbool(true)
	}
	I["(*sync.Mutex).TryLock"], I["(*sync.RWMutex).TryLock"] = tryLock, tryLock
	I["(*sync.RWMutex).RLock"] = func(w *W, g *G, fr *Frame, a []V) V {
		syncGate(w, g)
		s := w.so(a[0].p)
		w.block(g, s, func() bool { return !s.locked })
		s.readers++
		w.acquire(g, s)
		return V{}
	}
	I["(*sync.RWMutex).RUnlock"] = func(w *W, g *G, fr *Frame, a []V) V {
		syncGate(w, g)
		s := w.so(a[0].p)
		if s.readers <= 0 {
			panic(&targetPanic{kind: "panic", msg: "fatal error: sync: RUnlock of unlocked RWMutex"})
		}
		s.readers--
		s.rvc = s.rvc.join(g.vc)
		g.tick()
		return V{}
	}
	I["(*sync.WaitGroup).Add"] = func(w *W, g *G, fr *Frame, a []V) V {
		syncGate(w, g)
		s := w.so(a[0].p)
		s.n += int(int64(w.concInt(a[1])))
		if s.n < 0 {
			w.goPanicStr("sync: negative WaitGroup counter")
		}
		w.release(g, s)
		return V{}
	}
	I["(*sync.WaitGroup).Done"] = func(w *W, g *G, fr *Frame, a []V) V {
		return I["(*sync.WaitGroup).Add"](w, g, fr, []V{a[0], {n: ^uint64(0)}})
	}
	I["(*sync.WaitGroup).Wait"] = func(w *W, g *G, fr *Frame, a []V) V {
		syncGate(w, g)
		s := w.so(a[0].p)
		w.block(g, s, func() bool { return s.n == 0 })
		w.acquire(g, s)
		return V{}
	}
	condLocker := func(w *W, c *V) *Iface {
		for _, f := range c.p.(*Agg).f {
			if i, ok := f.p.(*Iface); ok {
				return i
			}
		}
		w.rtPanic("invalid memory address or nil pointer dereference")
		return nil
	}
	I["(*sync.Cond).Wait"] = func(w *W, g *G, fr *Frame, a []V) V {
		syncGate(w, g)
		c := a[0].p.(*V)
		s := w.so(c)
		w.schedPoint(g, anyObj)
		t := s.wait
		s.wait++
		l := condLocker(w, c)
		w.callFn(g, fr, w.lookupMethodByName(l, "Unlock"), []V{l.v}, nil)
		w.block(g, s, func() bool { return s.wake > t })
		w.acquire(g, s)
		w.callFn(g, fr, w.lookupMethodByName(l, "Lock"), []V{l.v}, nil)
		return V{}
	}
	wake := func(all bool) intrinsic {
		return func(w *W, g *G, fr *Frame, a []V) V {
			syncGate(w, g)
			w.schedPoint(g, anyObj)
			s := w.so(a[0].p)
			w.release(g, s)
			if all {
				s.wake = s.wait
			} else if s.wake < s.wait {
				s.wake++
			}
			return V{}
		}
	}
	I["(*sync.Cond).Signal"], I["(*sync.Cond).Broadcast"] = wake(false), wake(true)
	I["(*sync.Once).Do"] = func(w *W, g *G, fr *Frame, a []V) V {
		syncGate(w, g)
		p := a[0].p.(*V)
		s := w.so(p)
		w.block(g, s, func() bool { return !s.locked })
		// persistent marker lives in the first scalar cell of the struct so that undo applies
		cell := scalarCell(p)
		if cell.n == 0 {
			w.setCell(cell, V{n: 1})
			s.locked = true
			w.callClosure(fr, a[1], nil)
			s.locked = false
			w.release(g, s)
		}
		w.acquire(g, s)
		return V{}
	}
	I["(*sync.Pool).Get"] = func(w *W, g *G, fr *Frame, a []V) V {
		f := a[0].p.(*V).p.(*Agg).f
		fn := f[len(f)-1]
		if fn.p == nil {
			return V{}
		}
		return w.callClosure(fr, fn, nil)
	}
	I["(*sync.Pool).Put"] = nop
	smap := func(w *W, a V) *Map {
		k := [2]any{"syncmap", a.p}
		if m, ok := w.side[k]; ok {
			return m.(*Map)
		}
		e := types.NewInterfaceType(nil, nil)
		m := &Map{idx: map[any]int{}, kt: e, vt: e}
		w.side[k] = m
		return m
	}
	I["(*sync.Map).Load"] = func(w *W, g *G, fr *Frame, a []V) V {
		syncGate(w, g)
		w.schedPoint(g, a[0].p)
		s := w.so(a[0].p)
		w.acquire(g, s)
		m := smap(w, a[0])
		i := w.mapFind(m, a[1])
		if i < 0 {
			return tuple(V{}, V{})
		}
		return tuple(m.ents[i].v, cbool(true))
	}
	I["(*sync.Map).Store"] = func(w *W, g *G, fr *Frame, a []V) V {
		syncGate(w, g)
		w.schedPoint(g, a[0].p)
		s := w.so(a[0].p)
		w.release(g, s)
		w.mapSet(smap(w, a[0]), a[1], a[2])
		return V{}
	}
	I["(*sync.Map).LoadOrStore"] = func(w *W, g *G, fr *Frame, a []V) V {
		syncGate(w, g)
		w.schedPoint(g, a[0].p)
		s := w.so(a[0].p)
		w.acquire(g, s)
		m := smap(w, a[0])
		if i := w.mapFind(m, a[1]); i >= 0 {
			return tuple(m.ents[i].v, cbool(true))
		}
		w.release(g, s)
		w.mapSet(m, a[1], a[2])
		return tuple(a[2], V{})
	}
	I["(*sync.Map).Delete"] = func(w *W, g *G, fr *Frame, a []V) V {
		syncGate(w, g)
		w.schedPoint(g, a[0].p)
		w.release(g, w.so(a[0].p))
		w.mapDel(smap(w, a[0]), a[1])
		return V{}
	}
	I["(*sync.Map).Range"] = func(w *W, g *G, fr *Frame, a []V) V {
		syncGate(w, g)
		w.schedPoint(g, a[0].p)
		w.acquire(g, w.so(a[0].p))
		m := smap(w, a[0])
		for i := range m.ents {
			if m.ents[i].live {
				if r := w.callClosure(fr, a[1], []V{m.ents[i].k, m.ents[i].v}); !w.branch(w.term(r, tiBool)) {
					break
				}
			}
		}
		return V{}
	}
	for _, T := range []struct {
		n string
		w uint8
		s bool
	}{{"Int32", 32, true}, {"Int64", 64, true}, {"Uint32", 32, false}, {"Uint64", 64, false}, {"Uintptr", 64, false}, {"Pointer", 64, false}} {
		ti := tinfo{k: kInt, w: T.w, signed: T.s}
		I["sync/atomic.Load"+T.n] = atomicRMW(func(w *W, old V, a []V) (V, V) { return old, old })
		I["sync/atomic.Store"+T.n] = atomicRMW(func(w *W, old V, a []V) (V, V) { return a[1], V{} })
		I["sync/atomic.Swap"+T.n] = atomicRMW(func(w *W, old V, a []V) (V, V) { return a[1], old })
		I["sync/atomic.Add"+T.n] = atomicRMW(func(w *W, old V, a []V) (V, V) {
			r := fromTerm(w.tb.Bin(OAdd, w.term(old, ti), w.term(a[1], ti)))
			return r, r
		})
		if T.n == "Pointer" {
			I["sync/atomic.CompareAndSwap"+T.n] = atomicRMW(func(w *W, old V, a []V) (V, V) {
				if old.p == a[1].p {
					return a[2], cbool(true)
				}
				return old, V{}
			})
		} else {
			I["sync/atomic.CompareAndSwap"+T.n] = atomicRMW(func(w *W, old V, a []V) (V, V) {
				if w.branch(w.tb.Eq(w.term(old, ti), w.term(a[1], ti))) {
					return a[2], cbool(true)
				}
				return old, V{}
			})
		}
	}
	I["(*sync/atomic.Value).Load"] = func(w *W, g *G, fr *Frame, a []V) V { return a[0].p.(*V).p.(*Agg).f[0] }
	I["(*sync/atomic.Value).Store"] = func(w *W, g *G, fr *Frame, a []V) V {
		w.setCell(&a[0].p.(*V).p.(*Agg).f[0], a[1])
		return V{}
	}
	// ---- runtime / time / os ----
	I["runtime.GOMAXPROCS"] = func(w *W, g *G, fr *Frame, a []V) V { return cint(2) }
	I["runtime.NumCPU"] = func(w *W, g *G, fr *Frame, a []V) V { return cint(2) }
	I["runtime.KeepAlive"], I["runtime.GC"], I["runtime.Gosched"] = nop, nop, nop
	I["runtime.SetFinalizer"] = nop
	I["runtime.Caller"] = func(w *W, g *G, fr *Frame, a []V) V { return tuple(V{}, cstr("file.go"), cint(1), cbool(true)) }
	I["runtime.FuncForPC"] = nop
	I["(*runtime.Func).Name"] = func(w *W, g *G, fr *Frame, a []V) V { return cstr("func") }
	I["time.now"] = func(w *W, g *G, fr *Frame, a []V) V {
		return tuple(V{n: uint64(1_700_000_000 + w.nowNs/1e9)}, V{n: uint64(w.nowNs % 1e9)}, V{n: uint64(w.nowNs)})
	}
	I["time.runtimeNow"] = I["time.now"]
	I["time.runtimeNano"] = func(w *W, g *G, fr *Frame, a []V) V { return V{n: uint64(w.nowNs)} }
	I["time.Sleep"] = func(w *W, g *G, fr *Frame, a []V) V { w.schedPoint(g, nil); return V{} }
	I["time.NewTicker"] = func(w *W, g *G, fr *Frame, a []V) V {
		panic(unsupported("time.NewTicker"))
	}
	I["github.com/patrickmn/go-cache.runJanitor"] = nop
	I["os.Exit"] = func(w *W, g *G, fr *Frame, a []V) V {
		panic(&targetPanic{kind: "exit", msg: "os.Exit"})
	}
	I["os.Getenv"] = func(w *W, g *G, fr *Frame, a []V) V { return V{} }
	for _, n := range []string{"Float64", "Float32"} {
		f := func(w *W, g *G, fr *Frame, a []V) V {
			w.env = true
			v := w.newVar(fixBits, mask(fixBits), "rand")
			return V{p: &Fix{w.tb.Zext(v, 64)}}
		}
		I["math/rand."+n] = f
		I["(*math/rand.Rand)."+n] = f
	}
	I["math/rand.NewSource"] = nop
	I["math/rand.New"] = func(w *W, g *G, fr *Frame, a []V) V { c := new(V); *c = V{p: &Agg{make([]V, 8)}}; return V{p: c} }
	rint := func(w *W, g *G, fr *Frame, a []V) V {
		w.env = true
		n := int64(w.concInt(a[len(a)-1]))
		if n <= 0 {
			w.goPanicStr("invalid argument to Intn")
		}
		bw := uint8(1)
		for mask(bw) < uint64(n-1) {
			bw++
		}
		return fromTerm(w.tb.Zext(w.newVar(bw, uint64(n-1), "rand"), 64))
	}
	I["math/rand.Intn"], I["(*math/rand.Rand).Intn"] = rint, rint
	// log
	for _, n := range []string{"Printf", "Println", "Print", "Output", "SetFlags", "SetOutput", "SetPrefix"} {
		I["log."+n] = nop
	}
	for _, n := range []string{"Fatal", "Fatalf", "Fatalln"} {
		I["log."+n] = func(w *W, g *G, fr *Frame, a []V) V {
			panic(&targetPanic{kind: "exit", msg: "log." + n + ": " + w.bestEffort(fr, n, a)})
		}
	}
	for _, n := range []string{"Panic", "Panicf", "Panicln"} {
		I["log."+n] = func(w *W, g *G, fr *Frame, a []V) V {
			w.goPanicStr("log." + n + ": " + w.bestEffort(fr, n, a))
			return V{}
		}
	}
	// sort.Slice & co through the real pdqsort
	srt := func(stable bool) intrinsic {
		return func(w *W, g *G, fr *Frame, a []V) V {
			i, _ := a[0].p.(*Iface)
			if i == nil {
				w.rtPanic("reflect: call of Swapper on zero Value")
			}
			s := slc(i.v)
			n := len(s)
			swap := V{p: &Closure{native: func(w *W, g *G, b []V) V {
				x, y := int(w.concInt(b[0])), int(w.concInt(b[1]))
				if x < 0 || y < 0 || x >= n || y >= n {
					w.goPanicStr("reflect: slice index out of range")
				}
				t := copyVal(s[x])
				w.store(&s[x], copyVal(s[y]))
				w.store(&s[y], t)
				return V{}
			}}}
			ls := V{p: &Agg{[]V{a[1], swap}}}
			p := w.prog.ImportedPackage("sort")
			if stable {
				w.callFn(g, fr, p.Func("stable_func"), []V{ls, cint(n)}, nil)
			} else {
				lim := 0
				for k := n; k > 0; k >>= 1 {
					lim++
				}
				w.callFn(g, fr, p.Func("pdqsort_func"), []V{ls, cint(0), cint(n), cint(lim)}, nil)
			}
			return V{}
		}
	}
	I["sort.SliceIsSorted"] = func(w *W, g *G, fr *Frame, a []V) V {
		i, _ := a[0].p.(*Iface)
		if i == nil {
			w.rtPanic("reflect: call of Len on zero Value")
		}
		for k := len(slc(i.v)) - 1; k > 0; k-- {
			if w.branch(w.term(w.callClosure(fr, a[1], []V{cint(k), cint(k - 1)}), tiBool)) {
				return cbool(false)
			}
		}
		return cbool(true)
	}
	I["sort.Slice"] = srt(false)
	I["sort.SliceStable"] = srt(true)
	// encoding/gob as used for deep copies through a bytes.Buffer
	I["encoding/gob.NewEncoder"] = func(w *W, g *G, fr *Frame, a []V) V {
		c := new(V)
		w.side[c] = a[0].p.(*Iface).v.p
		return V{p: c}
	}
	I["encoding/gob.NewDecoder"] = I["encoding/gob.NewEncoder"]
	I["(*encoding/gob.Encoder).Encode"] = func(w *W, g *G, fr *Frame, a []V) V {
		buf := w.side[a[0].p]
		i, _ := a[1].p.(*Iface)
		if i == nil {
			return w.errString(strBytes(cstr("gob: cannot encode nil pointer")))
		}
		w.side[[2]any{"gob", buf}] = i
		return V{}
	}
	I["(*encoding/gob.Decoder).Decode"] = func(w *W, g *G, fr *Frame, a []V) V {
		buf := w.side[a[0].p]
		src, ok := w.side[[2]any{"gob", buf}].(*Iface)
		if !ok {
			return w.errString(strBytes(cstr("EOF")))
		}
		dst, _ := a[1].p.(*Iface)
		if dst == nil {
			return V{}
		}
		dp, isP := dst.t.Underlying().(*types.Pointer)
		if !isP {
			return w.errString(strBytes(cstr("gob: attempt to decode into a non-pointer")))
		}
		st, sv := src.t, src.v
		for {
			p, ok := st.Underlying().(*types.Pointer)
			if !ok {
				break
			}
			c, _ := sv.p.(*V)
			if c == nil {
				return w.errString(strBytes(cstr("gob: cannot encode nil pointer")))
			}
			st, sv = p.Elem(), copyVal(*c)
		}
		d, _ := dst.v.p.(*V)
		if d == nil {
			return w.errString(strBytes(cstr("gob: decode into nil")))
		}
		w.gobCopy(dp.Elem(), d, st, sv)
		return V{}
	}
	I["reflect.DeepEqual"] = func(w *W, g *G, fr *Frame, a []V) V {
		x, _ := a[0].p.(*Iface)
		y, _ := a[1].p.(*Iface)
		if x == nil || y == nil {
			return cbool(x == nil && y == nil)
		}
		if x.tid != y.tid {
			return V{}
		}
		return fromTerm(w.deepEq(x.t, x.v, y.v, 0))
	}
	reflectIntrinsics(I)
	jsonIntrinsics(I)
	fsIntrinsics(I)
}

func (w *W) bestEffort(fr *Frame, n string, a []V) string {
	mode := "Sprint"
	if strings.HasSuffix(n, "f") {
		mode = "Sprintf"
	}
	s, ok := concStr(mkStr(w.sprint(fr, mode, a, true)))
	if !ok {
		return "<symbolic>"
	}
	return s
}

// gobCopy stores a deep copy of sv (type st) into the cell d (type dt) following encoding/gob conventions.
func (w *W) gobCopy(dt types.Type, d *V, st types.Type, sv V) {
	if p, ok := dt.Underlying().(*types.Pointer); ok {
		if _, sp := st.Underlying().(*types.Pointer); !sp {
			c := new(V)
			*c = zero(p.Elem())
			w.gobCopy(p.Elem(), c, st, sv)
			w.setCell(d, V{p: c})
			return
		}
	}
	if p, ok := st.Underlying().(*types.Pointer); ok {
		c, _ := sv.p.(*V)
		if c == nil {
			return
		}
		w.gobCopy(dt, d, p.Elem(), copyVal(*c))
		return
	}
	switch u := st.Underlying().(type) {
	case *types.Struct:
		du := dt.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			if !u.Field(i).Exported() {
				continue
			}
			for j := 0; j < du.NumFields(); j++ {
				if du.Field(j).Name() != u.Field(i).Name() {
					continue
				}
				f := sv.p.(*Agg).f[i]
				ft := u.Field(i).Type()
				switch infoOf(ft).k {
				case kSlice:
					if len(slc(f)) == 0 {
						continue
					}
				case kMap, kPtr, kIface, kFunc, kChan:
					if f.p == nil {
						continue
					}
				case kString:
					if strLen(f) == 0 {
						continue
					}
				}
				w.gobCopy(du.Field(j).Type(), &d.p.(*Agg).f[j], ft, f)
			}
		}
	case *types.Slice:
		s := slc(sv)
		r := make([]V, len(s))
		de := dt.Underlying().(*types.Slice).Elem()
		for i := range s {
			r[i] = zero(de)
			w.gobCopy(de, &r[i], u.Elem(), s[i])
		}
		w.setCell(d, V{p: r})
	case *types.Array:
		for i, x := range sv.p.(*Agg).f {
			w.gobCopy(dt.Underlying().(*types.Array).Elem(), &d.p.(*Agg).f[i], u.Elem(), x)
		}
	case *types.Map:
		m, _ := sv.p.(*Map)
		if m == nil {
			return
		}
		du := dt.Underlying().(*types.Map)
		n := &Map{idx: map[any]int{}, kt: du.Key(), vt: du.Elem()}
		for _, e := range m.ents {
			if !e.live {
				continue
			}
			k, v := new(V), new(V)
			*k, *v = zero(du.Key()), zero(du.Elem())
			w.gobCopy(du.Key(), k, u.Key(), e.k)
			w.gobCopy(du.Elem(), v, u.Elem(), e.v)
			w.mapSet(n, *k, *v)
		}
		w.setCell(d, V{p: n})
	case *types.Basic:
		w.store(d, sv)
	default:
		panic(unsupported("gob of " + st.String()))
	}
}

func (w *W) deepEq(t types.Type, x, y V, depth int) *Term {
	if depth > 50 {
		panic(unsupported("deep DeepEqual"))
	}
	tb := w.tb
	switch u := t.Underlying().(type) {
	case *types.Slice:
		if (x.p == nil) != (y.p == nil) {
			return tb.F
		}
		a, b := slc(x), slc(y)
		if len(a) != len(b) {
			return tb.F
		}
		r := tb.T
		for i := range a {
			r = tb.And(r, w.deepEq(u.Elem(), a[i], b[i], depth+1))
		}
		return r
	case *types.Array:
		r := tb.T
		for i := range x.p.(*Agg).f {
			r = tb.And(r, w.deepEq(u.Elem(), x.p.(*Agg).f[i], y.p.(*Agg).f[i], depth+1))
		}
		return r
	case *types.Struct:
		r := tb.T
		for i := range x.p.(*Agg).f {
			r = tb.And(r, w.deepEq(u.Field(i).Type(), x.p.(*Agg).f[i], y.p.(*Agg).f[i], depth+1))
		}
		return r
	case *types.Pointer:
		a, _ := x.p.(*V)
		b, _ := y.p.(*V)
		if a == nil || b == nil || a == b {
			return tb.Bool(a == b)
		}
		return w.deepEq(u.Elem(), *a, *b, depth+1)
	case *types.Map:
		a, _ := x.p.(*Map)
		b, _ := y.p.(*Map)
		if a == nil || b == nil || a == b {
			return tb.Bool(a == b)
		}
		if a.n != b.n {
			return tb.F
		}
		r := tb.T
		for _, e := range a.ents {
			if !e.live {
				continue
			}
			i := w.mapFind(b, e.k)
			if i < 0 {
				return tb.F
			}
			r = tb.And(r, w.deepEq(u.Elem(), e.v, b.ents[i].v, depth+1))
		}
		return r
	case *types.Interface:
		a, _ := x.p.(*Iface)
		b, _ := y.p.(*Iface)
		if a == nil || b == nil {
			return tb.Bool(a == nil && b == nil)
		}
		if a.tid != b.tid {
			return tb.F
		}
		return w.deepEq(a.t, a.v, b.v, depth+1)
	case *types.Signature:
		return tb.Bool(x.p == nil && y.p == nil)
	}
	return w.eqVal(t, x, y)
}

// stub packages: every function returns zero values and has no effect.
var stubPkgs = map[string]bool{
	"github.com/schollz/progressbar/v2": true, "github.com/mitchellh/colorstring": true, "log": true,
}

func stubFn(w *W, g *G, fr *Frame, a []V, f *ssa.Function) V {
	r := f.Signature.Results()
	switch r.Len() {
	case 0:
		return V{}
	case 1:
		return zero(r.At(0).Type())
	}
	return zero(r)
}

var _ = fmt.Sprint

// scalarCell is the first scalar cell of a (nested) struct.
func scalarCell(c *V) *V {
	ag, ok := c.p.(*Agg)
	if !ok {
		return c
	}
	for i := range ag.f {
		if r := scalarCell(&ag.f[i]); r != nil {
			return r
		}
	}
	return nil
}
