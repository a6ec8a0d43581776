package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"sort"
	"unicode/utf8"
	"unsafe"
)

var tiByte = tinfo{k: kInt, w: 8}
var tiInt = tinfo{k: kInt, w: 64, signed: true}
var tiRune = tinfo{k: kInt, w: 32, signed: true}
var tiBool = tinfo{k: kBool}

func (w *W) binop(fr *Frame, in *ins, x, y V) V {
	ti := in.ti
	switch ti.k {
	case kInt:
		return w.intBin(fr, in, in.tok, ti, x, y)
	case kBool:
		switch in.tok {
		case token.EQL:
			if x.p == nil && y.p == nil {
				return cbool(x.n == y.n)
			}
			return fromTerm(w.tb.Eq(w.term(x, ti), w.term(y, ti)))
		case token.NEQ:
			if x.p == nil && y.p == nil {
				return cbool(x.n != y.n)
			}
			return fromTerm(w.tb.Not(w.tb.Eq(w.term(x, ti), w.term(y, ti))))
		case token.AND:
			return fromTerm(w.tb.And(w.term(x, ti), w.term(y, ti)))
		case token.OR:
			return fromTerm(w.tb.Or(w.term(x, ti), w.term(y, ti)))
		}
	case kFloat:
		return w.floatBin(in.tok, ti, x, y)
	case kString:
		switch in.tok {
		case token.ADD:
			return w.concat(x, y)
		case token.EQL:
			return fromTerm(w.strEq(x, y))
		case token.NEQ:
			return fromTerm(w.tb.Not(w.strEq(x, y)))
		case token.LSS:
			return fromTerm(w.strLess(x, y))
		case token.GTR:
			return fromTerm(w.strLess(y, x))
		case token.LEQ:
			return fromTerm(w.tb.Not(w.strLess(y, x)))
		case token.GEQ:
			return fromTerm(w.tb.Not(w.strLess(x, y)))
		}
	default:
		t := in.t
		if ti.k != kIface && in.ti2.k == kIface {
			t = in.t2
		}
		switch in.tok {
		case token.EQL:
			return fromTerm(w.eqVal(t, x, y))
		case token.NEQ:
			return fromTerm(w.tb.Not(w.eqVal(t, x, y)))
		}
	}
	panic(unsupported(fmt.Sprintf("binop %v on %v", in.tok, in.t)))
}

func (w *W) concat(x, y V) V {
	if x.p == nil {
		return y
	}
	if y.p == nil {
		return x
	}
	a, ok1 := x.p.(string)
	b, ok2 := y.p.(string)
	if ok1 && ok2 {
		return V{p: a + b}
	}
	xb, yb := strBytes(x), strBytes(y)
	r := make([]V, 0, len(xb)+len(yb))
	r = append(r, xb...)
	r = append(r, yb...)
	return mkStr(r)
}

func (w *W) strEq(x, y V) *Term {
	n := strLen(x)
	if n != strLen(y) {
		return w.tb.F
	}
	a, ok1 := concStr(x)
	b, ok2 := concStr(y)
	if ok1 && ok2 {
		return w.tb.Bool(a == b)
	}
	r := w.tb.T
	for i := 0; i < n; i++ {
		p, q := strAt(x, i), strAt(y, i)
		if p.p == nil && q.p == nil {
			if p.n != q.n {
				return w.tb.F
			}
			continue
		}
		r = w.tb.And(r, w.tb.Eq(w.term(p, tiByte), w.term(q, tiByte)))
		if r == w.tb.F {
			return r
		}
	}
	return r
}

func (w *W) strLess(x, y V) *Term {
	a, ok1 := concStr(x)
	b, ok2 := concStr(y)
	if ok1 && ok2 {
		return w.tb.Bool(a < b)
	}
	nx, ny := strLen(x), strLen(y)
	n := min(nx, ny)
	r := w.tb.Bool(nx < ny)
	for i := n - 1; i >= 0; i-- {
		p, q := w.term(strAt(x, i), tiByte), w.term(strAt(y, i), tiByte)
		r = w.tb.Ite(w.tb.Eq(p, q), r, w.tb.Ult(p, q))
	}
	return r
}

func (w *W) intBin(fr *Frame, in *ins, tok token.Token, ti tinfo, x, y V) V {
	m := mask(ti.w)
	if x.p == nil && y.p == nil {
		a, b := x.n, y.n
		switch tok {
		case token.ADD:
			return V{n: (a + b) & m}
		case token.SUB:
			return V{n: (a - b) & m}
		case token.MUL:
			return V{n: (a * b) & m}
		case token.AND:
			return V{n: a & b}
		case token.OR:
			return V{n: a | b}
		case token.XOR:
			return V{n: a ^ b}
		case token.AND_NOT:
			return V{n: a &^ b}
		case token.EQL:
			return cbool(a == b)
		case token.NEQ:
			return cbool(a != b)
		case token.QUO, token.REM:
			if b == 0 {
				w.rtPanic("integer divide by zero")
			}
			op := OUDiv
			if tok == token.REM {
				op = OURem
			}
			if ti.signed {
				op += OSDiv - OUDiv
			}
			return V{n: foldBin(op, ti.w, a, b)}
		case token.SHL, token.SHR:
			sb := b
			if in.ti2.signed {
				s := sext(b, in.ti2.w)
				if s < 0 {
					w.rtPanic("negative shift amount")
				}
			}
			if tok == token.SHL {
				if sb >= 64 {
					return V{}
				}
				return V{n: (a << sb) & m}
			}
			if ti.signed {
				if sb >= 64 {
					sb = 63
				}
				return V{n: uint64(sext(a, ti.w)>>sb) & m}
			}
			if sb >= 64 {
				return V{}
			}
			return V{n: a >> sb}
		}
		if ti.signed {
			p, q := sext(a, ti.w), sext(b, ti.w)
			switch tok {
			case token.LSS:
				return cbool(p < q)
			case token.LEQ:
				return cbool(p <= q)
			case token.GTR:
				return cbool(p > q)
			case token.GEQ:
				return cbool(p >= q)
			}
		} else {
			switch tok {
			case token.LSS:
				return cbool(a < b)
			case token.LEQ:
				return cbool(a <= b)
			case token.GTR:
				return cbool(a > b)
			case token.GEQ:
				return cbool(a >= b)
			}
		}
		panic(unsupported("int op " + tok.String()))
	}
	tb := w.tb
	if tok == token.SHL || tok == token.SHR {
		a := w.term(x, ti)
		s := w.term(y, in.ti2)
		if in.ti2.signed && s.sl < 0 {
			if w.branch(tb.Slt(s, tb.Const(s.w, 0))) {
				w.rtPanic("negative shift amount")
			}
		}
		// bring shift amount to width of a, saturating
		if s.w < a.w {
			s = tb.Zext(s, a.w)
		} else if s.w > a.w {
			big := tb.Not(tb.Ult(s, tb.Const(s.w, uint64(a.w))))
			s = tb.Ite(big, tb.Const(a.w, uint64(a.w)), tb.Trunc(s, a.w))
		}
		op := OShl
		if tok == token.SHR {
			op = OLShr
			if ti.signed {
				op = OAShr
			}
		}
		return fromTerm(tb.Bin(op, a, s))
	}
	a, b := w.term(x, ti), w.term(y, ti)
	lt := tb.Ult
	if ti.signed {
		lt = tb.Slt
	}
	switch tok {
	case token.ADD:
		return fromTerm(tb.Bin(OAdd, a, b))
	case token.SUB:
		return fromTerm(tb.Bin(OSub, a, b))
	case token.MUL:
		return fromTerm(tb.Bin(OMul, a, b))
	case token.AND:
		return fromTerm(tb.Bin(OAnd, a, b))
	case token.OR:
		return fromTerm(tb.Bin(OOr, a, b))
	case token.XOR:
		return fromTerm(tb.Bin(OXor, a, b))
	case token.AND_NOT:
		return fromTerm(tb.Bin(OAnd, a, tb.BVNot(b)))
	case token.EQL:
		return fromTerm(tb.Eq(a, b))
	case token.NEQ:
		return fromTerm(tb.Not(tb.Eq(a, b)))
	case token.LSS:
		return fromTerm(lt(a, b))
	case token.GTR:
		return fromTerm(lt(b, a))
	case token.LEQ:
		return fromTerm(tb.Not(lt(b, a)))
	case token.GEQ:
		return fromTerm(tb.Not(lt(a, b)))
	case token.QUO, token.REM:
		if w.branch(tb.Eq(b, tb.Const(b.w, 0))) {
			w.rtPanic("integer divide by zero")
		}
		op := OUDiv
		if tok == token.REM {
			op = OURem
		}
		if ti.signed {
			op += OSDiv - OUDiv
		}
		return fromTerm(tb.Bin(op, a, b))
	}
	panic(unsupported("int op " + tok.String()))
}

func (w *W) floatBin(tok token.Token, ti tinfo, x, y V) V {
	if x.p == nil && y.p == nil {
		a, b := math.Float64frombits(x.n), math.Float64frombits(y.n)
		var r float64
		switch tok {
		case token.ADD:
			r = a + b
		case token.SUB:
			r = a - b
		case token.MUL:
			r = a * b
		case token.QUO:
			r = a / b
		case token.EQL:
			return cbool(a == b)
		case token.NEQ:
			return cbool(a != b)
		case token.LSS:
			return cbool(a < b)
		case token.LEQ:
			return cbool(a <= b)
		case token.GTR:
			return cbool(a > b)
		case token.GEQ:
			return cbool(a >= b)
		}
		if ti.f32 {
			r = float64(float32(r))
		}
		return cfloat(r)
	}
	// symbolic fixed point, exact within the stated bounds
	big := func(v V) (float64, bool) {
		if v.p != nil {
			return 0, false
		}
		f := math.Float64frombits(v.n)
		return f, math.Abs(f) >= 1<<40 || math.IsNaN(f)
	}
	switch tok {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		if f, ok := big(x); ok {
			return w.floatBin(tok, tinfo{k: kFloat}, cfloat(f), cfloat(0))
		}
		if f, ok := big(y); ok {
			return w.floatBin(tok, tinfo{k: kFloat}, cfloat(0), cfloat(f))
		}
	}
	a, ok1 := w.fixOf(x)
	b, ok2 := w.fixOf(y)
	if !ok1 || !ok2 {
		panic(unsupported("inexact symbolic float operand"))
	}
	tb := w.tb
	switch tok {
	case token.ADD:
		return V{p: &Fix{tb.Bin(OAdd, a, b)}}
	case token.SUB:
		return V{p: &Fix{tb.Bin(OSub, a, b)}}
	case token.MUL: // by an integer
		for _, f := range []*Term{a, b} {
			o := a
			if f == a {
				o = b
			}
			if f.isConst() && int64(f.val)%(1<<fixBits) == 0 {
				return V{p: &Fix{tb.Bin(OMul, o, tb.Const(64, uint64(int64(f.val)>>fixBits)))}}
			}
		}
	case token.EQL:
		return fromTerm(tb.Eq(a, b))
	case token.NEQ:
		return fromTerm(tb.Not(tb.Eq(a, b)))
	case token.LSS:
		return fromTerm(tb.Slt(a, b))
	case token.GTR:
		return fromTerm(tb.Slt(b, a))
	case token.LEQ:
		return fromTerm(tb.Not(tb.Slt(b, a)))
	case token.GEQ:
		return fromTerm(tb.Not(tb.Slt(a, b)))
	}
	panic(unsupported("symbolic float " + tok.String()))
}

func (w *W) unop(in *ins, x V) V {
	switch in.tok {
	case token.NOT:
		if x.p == nil {
			return cbool(x.n == 0)
		}
		return fromTerm(w.tb.Not(x.p.(*Term)))
	case token.SUB:
		if in.ti.k == kFloat {
			if f, ok := x.p.(*Fix); ok {
				return V{p: &Fix{w.tb.Neg(f.t)}}
			}
			return cfloat(-math.Float64frombits(x.n))
		}
		if x.p == nil {
			return V{n: -x.n & mask(in.ti.w)}
		}
		return fromTerm(w.tb.Neg(x.p.(*Term)))
	case token.XOR:
		if x.p == nil {
			return V{n: ^x.n & mask(in.ti.w)}
		}
		return fromTerm(w.tb.BVNot(x.p.(*Term)))
	}
	panic(unsupported("unop " + in.tok.String()))
}

func (w *W) convInt(x V, from, to tinfo) V {
	if x.p == nil {
		if from.signed {
			return V{n: uint64(sext(x.n, from.w)) & mask(to.w)}
		}
		return V{n: x.n & mask(to.w)}
	}
	t := x.p.(*Term)
	if to.w < from.w {
		return fromTerm(w.tb.Trunc(t, to.w))
	}
	if from.signed {
		return fromTerm(w.tb.Sext(t, to.w))
	}
	return fromTerm(w.tb.Zext(t, to.w))
}

func (w *W) convert(fr *Frame, in *ins, x V) V {
	to, from := in.ti, in.ti2
	switch {
	case to.k == kInt && from.k == kInt:
		return w.convInt(x, from, to)
	case to.k == kFloat && from.k == kInt:
		if x.p != nil {
			t := x.p.(*Term)
			if from.signed {
				t = w.tb.Sext(t, 64)
			} else {
				t = w.tb.Zext(t, 64)
			}
			return V{p: &Fix{w.tb.Bin(OShl, t, w.tb.Const(64, fixBits))}}
		}
		var f float64
		if from.signed {
			f = float64(sext(x.n, from.w))
		} else {
			f = float64(x.n)
		}
		if to.f32 {
			f = float64(float32(f))
		}
		return cfloat(f)
	case to.k == kInt && from.k == kFloat:
		if f, ok := x.p.(*Fix); ok {
			// towards zero
			return w.convInt(V{p: w.tb.Bin(OSDiv, f.t, w.tb.Const(64, 1<<fixBits))}, tiInt, to)
		}
		f := math.Float64frombits(x.n)
		if to.signed {
			return V{n: uint64(int64(f)) & mask(to.w)}
		}
		return V{n: uint64(f) & mask(to.w)}
	case to.k == kFloat && from.k == kFloat:
		if x.p != nil {
			return x
		}
		if to.f32 {
			return cfloat(float64(float32(math.Float64frombits(x.n))))
		}
		return x
	case to.k == kString && from.k == kString:
		return x
	case to.k == kString && from.k == kInt:
		v := w.convInt(x, from, tinfo{kInt, 64, true, false})
		if v.p == nil {
			n := int64(v.n)
			if n < 0 || n > utf8.MaxRune {
				return cstr("\uFFFD")
			}
			return cstr(string(rune(n)))
		}
		t := v.p.(*Term)
		if w.branch(w.tb.Not(w.tb.Ult(t, w.tb.Const(64, 0x110000)))) {
			return cstr("\uFFFD")
		}
		return mkStr(w.encodeRune(fromTerm(w.tb.Trunc(t, 32))))
	case to.k == kString && from.k == kSlice:
		et := in.t2.Underlying().(*types.Slice).Elem()
		s := slc(x)
		if w.conc {
			for i := range s {
				w.raceRead(fr.g, &s[i])
			}
		}
		if infoOf(et).w == 8 {
			return mkStr(append([]V(nil), s...))
		}
		var out []V
		for i := range s {
			out = append(out, w.encodeRune(s[i])...)
		}
		return mkStr(out)
	case to.k == kSlice && from.k == kString:
		et := in.t.Underlying().(*types.Slice).Elem()
		if infoOf(et).w == 8 {
			b := strBytes(x)
			r := make([]V, len(b), capBytes(len(b)))
			copy(r, b)
			return V{p: r}
		}
		var out []V
		for i := 0; i < strLen(x); {
			r, n := w.decodeRune(x, i)
			out = append(out, r)
			i += n
		}
		r := make([]V, len(out), roundCap(len(out), 4))
		copy(r, out)
		return V{p: r}
	case to.k == kUnsafe || from.k == kUnsafe:
		return x
	case to.k == kPtr && from.k == kPtr, to.k == kSlice && from.k == kSlice:
		return x
	}
	panic(unsupported(fmt.Sprintf("convert %v to %v in %s", in.t2, in.t, fr.fn.name)))
}

func capBytes(n int) int {
	if n <= 32 {
		return 32 // stack tmp buffer size; conservative either way
	}
	return roundCap(n, 1)
}

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundupsize(sz int) int {
	for _, c := range sizeClasses {
		if sz <= c {
			return c
		}
	}
	return (sz + 8191) / 8192 * 8192
}

func roundCap(n, es int) int {
	if es == 0 {
		return n
	}
	return roundupsize(n*es) / es
}

var stdSizes = types.SizesFor("gc", "amd64")

// growCap mirrors runtime.growslice.
func growCap(oldCap, newLen, es int) int {
	nc := oldCap
	double := nc + nc
	if newLen > double {
		nc = newLen
	} else if oldCap < 256 {
		nc = double
	} else {
		for nc < newLen {
			nc += (nc + 3*256) >> 2
		}
	}
	return roundCap(nc, es)
}

func (w *W) appendVals(fr *Frame, dst V, add []V, et types.Type) V {
	d := slc(dst)
	if len(add) == 0 {
		return dst
	}
	n := len(d) + len(add)
	if n <= cap(d) {
		r := d[:n]
		// copy first: add may alias
		tmp := make([]V, len(add))
		for i := range add {
			tmp[i] = copyVal(add[i])
		}
		for i := range tmp {
			if w.conc {
				w.raceWrite(fr.g, &r[len(d)+i])
			}
			w.store(&r[len(d)+i], tmp[i])
		}
		return V{p: r}
	}
	nc := growCap(cap(d), n, int(stdSizes.Sizeof(et)))
	if nc < n {
		nc = n
	}
	r := make([]V, n, nc)
	for i := range d {
		if w.conc {
			w.raceRead(fr.g, &d[i])
		}
		r[i] = copyVal(d[i])
	}
	for i := range add {
		r[len(d)+i] = copyVal(add[i])
	}
	if needsZero(et) {
		f := r[:nc]
		for i := n; i < nc; i++ {
			f[i] = zero(et)
		}
	}
	return V{p: r}
}

func (w *W) builtin(fr *Frame, ci *callInfo, args []V) V {
	switch ci.builtin {
	case "len", "cap":
		x := args[0]
		switch infoOf(ci.bt[0]).k {
		case kString:
			return cint(strLen(x))
		case kSlice:
			if ci.builtin == "cap" {
				return cint(cap(slc(x)))
			}
			return cint(len(slc(x)))
		case kMap:
			if x.p == nil {
				return V{}
			}
			if w.conc {
				w.raceRead(fr.g, x.p.(*Map))
			}
			return cint(x.p.(*Map).n)
		case kChan:
			if x.p == nil {
				return V{}
			}
			if ci.builtin == "cap" {
				return cint(x.p.(*Chan).cap)
			}
			return cint(len(x.p.(*Chan).buf))
		case kAgg:
			return cint(len(x.p.(*Agg).f))
		case kPtr:
			t := ci.bt[0].Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			return cint(int(t.Len()))
		}
	case "append":
		et := ci.bt[0].Underlying().(*types.Slice).Elem()
		var add []V
		if infoOf(ci.bt[1]).k == kString {
			add = strBytes(args[1])
		} else {
			add = slc(args[1])
			if w.conc {
				for i := range add {
					w.raceRead(fr.g, &add[i])
				}
			}
		}
		return w.appendVals(fr, args[0], add, et)
	case "copy":
		d := slc(args[0])
		var s []V
		if infoOf(ci.bt[1]).k == kString {
			s = strBytes(args[1])
		} else {
			s = slc(args[1])
		}
		n := min(len(d), len(s))
		tmp := make([]V, n)
		for i := range tmp {
			if w.conc && infoOf(ci.bt[1]).k != kString {
				w.raceRead(fr.g, &s[i])
			}
			tmp[i] = copyVal(s[i])
		}
		for i := range tmp {
			if w.conc {
				w.raceWrite(fr.g, &d[i])
			}
			w.store(&d[i], tmp[i])
		}
		return cint(n)
	case "delete":
		m, _ := args[0].p.(*Map)
		if m != nil {
			if w.conc {
				w.raceWrite(fr.g, m)
			}
			w.mapDel(m, args[1])
		}
		return V{}
	case "clear":
		switch x := args[0].p.(type) {
		case *Map:
			w.mapClear(x)
		case []V:
			et := ci.bt[0].Underlying().(*types.Slice).Elem()
			for i := range x {
				w.store(&x[i], zero(et))
			}
		}
		return V{}
	case "min", "max":
		ti := infoOf(ci.bt[0])
		r := args[0]
		for _, a := range args[1:] {
			x, y := a, r
			if ci.builtin == "max" {
				x, y = r, a
			}
			var lt *Term
			switch ti.k {
			case kInt:
				lt = w.term(w.intBin(fr, nil, token.LSS, ti, x, y), tiBool)
			case kFloat:
				lt = w.term(w.floatBin(token.LSS, ti, x, y), tiBool)
			default:
				lt = w.strLess(x, y)
			}
			nr, ok := r, false
			if ti.k != kString {
				nr, ok = w.iteV(lt, a, r, &ti)
			}
			if !ok {
				if nr = r; w.branch(lt) {
					nr = a
				}
			}
			r = nr
		}
		return r
	case "print", "println":
		return V{}
	case "recover":
		// called from a deferred function: the panicking frame is the caller of fr's caller
		for f := fr.caller; f != nil; f = f.caller {
			if f.pan != nil {
				v := f.pan.v
				f.pan = nil
				return v
			}
			break
		}
		return V{}
	case "panic":
		panic(&targetPanic{v: args[0], kind: "panic", msg: w.panicText(fr, args[0])})
	case "close":
		c, _ := args[0].p.(*Chan)
		w.chanClose(fr, c)
		return V{}
	case "ssa:wrapnilchk":
		if args[0].p == nil {
			w.rtPanic("invalid memory address or nil pointer dereference")
		}
		return args[0]
	case "SliceData":
		if args[0].p == nil {
			return V{}
		}
		return V{p: &SliceData{slc(args[0])[:cap(slc(args[0]))]}}
	case "StringData":
		return V{p: &SliceData{append([]V(nil), strBytes(args[0])...)}}
	case "Slice":
		n := int(w.concInt(args[1]))
		if d, ok := args[0].p.(*SliceData); ok {
			return V{p: d.s[:n:n]}
		}
		if p, ok := args[0].p.(*V); ok {
			return V{p: unsafe.Slice(p, n)}
		}
	case "String":
		n := int(w.concInt(args[1]))
		switch d := args[0].p.(type) {
		case nil:
			return V{}
		case *SliceData:
			return mkStr(append([]V(nil), d.s[:n]...))
		case *V:
			return mkStr(append([]V(nil), unsafe.Slice(d, n)...))
		}
	}
	panic(unsupported("builtin " + ci.builtin))
}

// eqVal is == at type t.
func (w *W) eqVal(t types.Type, x, y V) *Term {
	tb := w.tb
	switch u := t.Underlying().(type) {
	case *types.Basic:
		ti := infoOf(u)
		switch ti.k {
		case kString:
			return w.strEq(x, y)
		case kInt, kBool:
			return tb.Eq(w.term(x, ti), w.term(y, ti))
		case kFloat:
			return w.term(w.floatBin(token.EQL, ti, x, y), tiBool)
		case kUnsafe, kPtr:
			return tb.Bool(x.p == y.p)
		}
	case *types.Pointer, *types.Chan:
		if sx, ok := x.p.(*SymPtr); ok {
			_ = sx
			panic(unsupported("comparison of symbolic pointers"))
		}
		return tb.Bool(x.p == y.p)
	case *types.Signature:
		return tb.Bool((x.p == nil) == (y.p == nil) && (x.p == nil || x.p == y.p))
	case *types.Slice:
		return tb.Bool(x.p == nil && y.p == nil)
	case *types.Map:
		return tb.Bool(x.p == y.p)
	case *types.Struct:
		a, b := x.p.(*Agg), y.p.(*Agg)
		r := tb.T
		for i := range a.f {
			if u.Field(i).Name() == "_" {
				continue
			}
			r = tb.And(r, w.eqVal(u.Field(i).Type(), a.f[i], b.f[i]))
			if r == tb.F {
				return r
			}
		}
		return r
	case *types.Array:
		a, b := x.p.(*Agg), y.p.(*Agg)
		r := tb.T
		for i := range a.f {
			r = tb.And(r, w.eqVal(u.Elem(), a.f[i], b.f[i]))
			if r == tb.F {
				return r
			}
		}
		return r
	case *types.Interface:
		a, aok := x.p.(*Iface)
		b, bok := y.p.(*Iface)
		if !aok && x.p != nil || !bok && y.p != nil {
			panic(unsupported("interface comparison with concrete operand"))
		}
		if a == nil || b == nil {
			return tb.Bool(a == nil && b == nil)
		}
		if a.tid != b.tid {
			return tb.F
		}
		if !types.Comparable(a.t) {
			w.rtPanic("comparing uncomparable type " + a.t.String())
		}
		return w.eqVal(a.t, a.v, b.v)
	}
	panic(unsupported(fmt.Sprintf("== on %v", t)))
}

// ---- maps ----

type ifKey struct {
	tid int
	k   any
}

// ckey returns a hashable key for a concrete map key.
func (w *W) ckey(t types.Type, k V) (any, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch infoOf(u).k {
		case kString:
			s, ok := concStr(k)
			return s, ok
		case kInt, kBool, kFloat:
			if k.p != nil {
				return nil, false
			}
			return k.n, true
		}
		return k.p, true
	case *types.Pointer, *types.Chan:
		return k.p, true
	case *types.Interface:
		i, _ := k.p.(*Iface)
		if i == nil {
			return nil, true
		}
		if !types.Comparable(i.t) {
			w.rtPanic("hash of unhashable type " + i.t.String())
		}
		x, ok := w.ckey(i.t, i.v)
		return ifKey{i.tid, x}, ok
	case *types.Struct:
		a := k.p.(*Agg)
		s := ""
		for i := range a.f {
			x, ok := w.ckey(u.Field(i).Type(), a.f[i])
			if !ok {
				return nil, false
			}
			s += fmt.Sprintf("%T:%v|", x, x)
		}
		return s, true
	case *types.Array:
		a := k.p.(*Agg)
		s := ""
		for i := range a.f {
			x, ok := w.ckey(u.Elem(), a.f[i])
			if !ok {
				return nil, false
			}
			s += fmt.Sprintf("%T:%v|", x, x)
		}
		return s, true
	}
	panic(unsupported(fmt.Sprintf("map key %v", t)))
}

// mapFind returns the entry index or -1, forking on symbolic key equality.
func (w *W) mapFind(m *Map, k V) int {
	ck, conc := w.ckey(m.kt, k)
	if conc {
		if i, ok := m.idx[ck]; ok {
			return i
		}
		if m.nsym == 0 {
			return -1
		}
	}
	for i := range m.ents {
		e := &m.ents[i]
		if !e.live {
			continue
		}
		if conc {
			if _, ec := w.ckey(m.kt, e.k); ec {
				continue
			}
		}
		if w.branch(w.eqVal(m.kt, k, e.k)) {
			return i
		}
	}
	return -1
}

func (w *W) mapGet(m *Map, k V, mt *types.Map) (V, V) {
	z := zero(mt.Elem())
	if m == nil {
		return z, cbool(false)
	}
	if ki, ok := k.p.(*Iface); ok && infoOf(mt.Key()).k == kIface {
		if !types.Comparable(ki.t) {
			w.rtPanic("hash of unhashable type " + ki.t.String())
		}
	}
	ck, conc := w.ckey(m.kt, k)
	if conc {
		if i, ok := m.idx[ck]; ok {
			return m.ents[i].v, cbool(true)
		}
		if m.nsym == 0 {
			return z, cbool(false)
		}
	}
	vti := infoOf(mt.Elem())
	if v, ok, done := w.mapTable(m, k, vti); done {
		return v, ok
	}
	if vti.k == kInt || vti.k == kBool {
		// merged lookup
		var res = w.term(z, vti)
		found := w.tb.F
		for i := range m.ents {
			e := &m.ents[i]
			if !e.live {
				continue
			}
			c := w.eqVal(m.kt, k, e.k)
			if c == w.tb.F {
				continue
			}
			res = w.tb.Ite(c, w.term(e.v, vti), res)
			found = w.tb.Or(found, c)
		}
		return fromTerm(res), fromTerm(found)
	}
	i := w.mapFind(m, k)
	if i < 0 {
		return z, cbool(false)
	}
	return m.ents[i].v, cbool(true)
}

// mapTable looks a symbolic key up in a larger map of concrete keys and values.
func (w *W) mapTable(m *Map, k V, vti tinfo) (V, V, bool) {
	if m.nsym > 0 || len(m.idx) < leastTable || vti.k != kInt && vti.k != kString {
		return V{}, V{}, false
	}
	var t *Term
	n := -1 // length of a string key
	switch kti := infoOf(m.kt); kti.k {
	case kInt:
		t = w.term(k, kti)
	case kString:
		n = strLen(k)
		if n == 0 || n > 7 {
			return V{}, V{}, false
		}
		t = w.tb.Const(8*uint8(n), 0)
		for _, b := range strBytes(k) {
			t = w.tb.Bin(OOr, w.tb.Bin(OShl, t, w.tb.Const(t.w, 8)), w.tb.Zext(w.term(b, tinfo{k: kInt, w: 8}), t.w))
		}
	default:
		return V{}, V{}, false
	}
	byLen := map[int][]kv{}
	num := 0
	for i := range m.ents {
		e := &m.ents[i]
		if !e.live {
			continue
		}
		x := kv{e.k.n & mask(t.w), e.v}
		if n >= 0 {
			s, _ := concStr(e.k)
			if len(s) != n {
				continue
			}
			x.k = 0
			for j := 0; j < n; j++ {
				x.k = x.k<<8 | uint64(s[j])
			}
		}
		l := 0
		if vti.k == kString {
			s, ok := concStr(e.v)
			if !ok || len(s) > 16 {
				return V{}, V{}, false
			}
			l = len(s)
		} else if e.v.p != nil {
			return V{}, V{}, false
		}
		byLen[l] = append(byLen[l], x)
		num++
	}
	if num < leastTable || len(byLen) > 8 {
		return V{}, V{}, false
	}
	return w.table(t, vti, byLen)
}

// sliceTable is the element at idx, which is in range, of a slice of concrete strings.
func (w *W) sliceTable(s []V, t *Term) (V, bool) {
	if len(s) < leastTable {
		return V{}, false
	}
	byLen := map[int][]kv{}
	for i, v := range s {
		if uint64(i) < t.lo || uint64(i) > t.hi {
			continue
		}
		c, ok := concStr(v)
		if !ok || len(c) > 16 {
			return V{}, false
		}
		byLen[len(c)] = append(byLen[len(c)], kv{uint64(i), v})
	}
	if len(byLen) > 8 {
		return V{}, false
	}
	v, found, done := w.table(t, tinfo{k: kString}, byLen)
	return v, done && found.n == 1
}

// leastTable is the size from which on a table is worth it, maxRuns the number of runs up to which it is.
const (
	leastTable = 16
	maxRuns    = 12
)

type kv struct {
	k uint64
	v V
}

// table is the value of a symbolic key, as arithmetic over the key: the sorted keys are cut into runs in which the value is
// constant or grows with the key. The values are given by their lengths (strings; it forks between them) or all under 0 (integers).
func (w *W) table(t *Term, vti tinfo, byLen map[int][]kv) (V, V, bool) {
	// among is the condition that the key is one of the keys.
	among := func(s []kv) *Term {
		c := w.tb.F
		for i := 0; i < len(s); {
			j := i + 1
			for j < len(s) && s[j].k == s[j-1].k+1 {
				j++
			}
			lo, hi := w.tb.Const(t.w, s[i].k), w.tb.Const(t.w, s[j-1].k)
			if i == j-1 {
				c = w.tb.Or(c, w.tb.Eq(t, lo))
			} else {
				c = w.tb.Or(c, w.tb.And(w.tb.Ule(lo, t), w.tb.Ule(t, hi)))
			}
			i = j
		}
		return c
	}
	type run struct {
		hi, v0 uint64
		step   bool // the value grows with the key
		off    uint64
	}
	// cut is the runs of the values f, which are width bits.
	cut := func(s []kv, width uint8, f func(V) uint64) (runs []run) {
		m := mask(width)
		for i := 0; i < len(s); {
			v0 := f(s[i].v)
			c, d := i+1, i+1
			for c < len(s) && f(s[c].v) == v0 {
				c++
			}
			for d < len(s) && (f(s[d].v)-s[d].k)&m == (v0-s[i].k)&m {
				d++
			}
			j := max(c, d)
			runs = append(runs, run{s[j-1].k, v0, d > c, (v0 - s[i].k) & m})
			i = j
		}
		return runs
	}
	value := func(runs []run, width uint8) *Term {
		one := func(r run) *Term {
			if !r.step {
				return w.tb.Const(width, r.v0)
			}
			x := t
			if t.w > width {
				x = w.tb.Trunc(t, width)
			} else if t.w < width {
				x = w.tb.Zext(t, width)
			}
			return w.tb.Bin(OAdd, x, w.tb.Const(width, r.off))
		}
		v := one(runs[len(runs)-1])
		for i := len(runs) - 2; i >= 0; i-- {
			v = w.tb.Ite(w.tb.Ule(t, w.tb.Const(t.w, runs[i].hi)), one(runs[i]), v)
		}
		return v
	}
	var lens []int
	for l, s := range byLen {
		lens = append(lens, l)
		sort.Slice(s, func(i, j int) bool { return s[i].k < s[j].k })
	}
	sort.Ints(lens)
	if vti.k == kInt {
		s := byLen[0]
		runs := cut(s, vti.w, func(v V) uint64 { return v.n & mask(vti.w) })
		if len(runs) > maxRuns {
			return V{}, V{}, false
		}
		found := among(s)
		return fromTerm(w.tb.Ite(found, value(runs, vti.w), w.tb.Const(vti.w, 0))), fromTerm(found), true
	}
	runs := map[int][][]run{}
	for _, l := range lens {
		for i := 0; i < l; i++ {
			r := cut(byLen[l], 8, func(v V) uint64 { return uint64(v.p.(string)[i]) })
			if len(r) > maxRuns {
				return V{}, V{}, false
			}
			runs[l] = append(runs[l], r)
		}
	}
	for _, l := range lens {
		if !w.branch(among(byLen[l])) {
			continue
		}
		r := make([]V, l)
		for i := range r {
			r[i] = fromTerm(value(runs[l][i], 8))
		}
		return mkStr(r), cbool(true), true
	}
	return V{}, cbool(false), true
}

func (w *W) mapSet(m *Map, k, v V) {
	i := w.mapFind(m, k)
	if i >= 0 {
		old := m.ents[i].v
		if w.undoOn {
			w.undo = append(w.undo, undoRec{f: func() { m.ents[i].v = old }})
		}
		m.ents[i].v = v
		return
	}
	ck, conc := w.ckey(m.kt, k)
	if w.undoOn {
		n, ns, nn := len(m.ents), m.nsym, m.n
		w.undo = append(w.undo, undoRec{f: func() {
			m.ents = m.ents[:n]
			m.nsym = ns
			m.n = nn
			if conc {
				delete(m.idx, ck)
			}
		}})
	}
	if conc {
		m.idx[ck] = len(m.ents)
	} else {
		m.nsym++
	}
	m.ents = append(m.ents, ment{copyVal(k), v, true})
	m.n++
}

func (w *W) mapDel(m *Map, k V) {
	i := w.mapFind(m, k)
	if i < 0 {
		return
	}
	ck, conc := w.ckey(m.kt, m.ents[i].k)
	if w.undoOn {
		w.undo = append(w.undo, undoRec{f: func() {
			m.ents[i].live = true
			m.n++
			if conc {
				m.idx[ck] = i
			} else {
				m.nsym++
			}
		}})
	}
	m.ents[i].live = false
	m.n--
	if conc {
		delete(m.idx, ck)
	} else {
		m.nsym--
	}
}

func (w *W) mapClear(m *Map) {
	for i := range m.ents {
		if m.ents[i].live {
			w.mapDel(m, m.ents[i].k)
		}
	}
}

type strIter struct {
	s V
	i int
}

type mapIter struct {
	m    *Map
	i    int
	todo []int
	perm bool
}

// newMapIter starts a map iteration. mapMode 0: insertion order; 1: every order (each next entry is a fresh choice);
// 2: insertion or reverse order.
func (w *W) newMapIter(m *Map) *mapIter {
	it := &mapIter{m: m}
	if m == nil {
		return it
	}
	if m.n > 1 {
		w.env = true
	}
	if w.mapMode != 0 && m.n > 1 && w.nofork == 0 && w.nest == nil {
		for i := range m.ents {
			if m.ents[i].live {
				it.todo = append(it.todo, i)
			}
		}
		if w.mapMode == 2 {
			if w.choose(2) == 1 {
				for a, b := 0, len(it.todo)-1; a < b; a, b = a+1, b-1 {
					it.todo[a], it.todo[b] = it.todo[b], it.todo[a]
				}
			}
		} else if w.mapMode == 3 {
			k := w.choose(len(it.todo))
			it.todo = append(append([]int(nil), it.todo[k:]...), it.todo[:k]...)
		}
		it.perm = true
	}
	return it
}

func (it *mapIter) next(w *W) V {
	end := tuple(V{}, V{}, V{})
	if it.m == nil {
		return end
	}
	if it.perm {
		for len(it.todo) > 0 {
			k := 0
			if w.mapMode == 1 {
				k = w.choose(len(it.todo))
			}
			e := it.todo[k]
			it.todo = append(append([]int(nil), it.todo[:k]...), it.todo[k+1:]...)
			if en := &it.m.ents[e]; en.live {
				return tuple(cbool(true), en.k, en.v)
			}
		}
		return end
	}
	for it.i < len(it.m.ents) {
		e := &it.m.ents[it.i]
		it.i++
		if e.live {
			return tuple(cbool(true), e.k, e.v)
		}
	}
	return end
}

// ---- runes ----

// decodeRune decodes the rune at s[i], forking over the encoding class of symbolic bytes.
func (w *W) decodeRune(s V, i int) (V, int) {
	if c, ok := concStr(s); ok {
		r, n := utf8.DecodeRuneInString(c[i:])
		return V{n: uint64(uint32(r))}, n
	}
	b := s.p.(SStr)
	return w.decodeRuneB(b[i:])
}

func (w *W) decodeRuneB(b []V) (V, int) {
	allc := true
	var cb [4]byte
	nb := 0
	for k := 0; k < len(b) && k < 4; k++ {
		if b[k].p != nil {
			allc = false
			break
		}
		cb[nb] = byte(b[k].n)
		nb++
	}
	if allc || nb > 0 && utf8.FullRune(cb[:nb]) {
		r, n := utf8.DecodeRune(cb[:nb])
		return V{n: uint64(uint32(r))}, n
	}
	tb := w.tb
	b0 := w.term(b[0], tiByte)
	c8 := func(x uint64) *Term { return tb.Const(8, x) }
	rng := func(t *Term, lo, hi uint64) *Term { return tb.And(tb.Ule(c8(lo), t), tb.Ule(t, c8(hi))) }
	if w.branch(tb.Ult(b0, c8(0x80))) {
		return fromTerm(tb.Zext(b0, 32)), 1
	}
	if known, ok := w.runeOf[b0]; ok && len(known.b) <= len(b) {
		same := true
		for k := range known.b {
			if known.b[k] != b[k] {
				same = false
			}
		}
		if same {
			return known.r, len(known.b)
		}
	}
	save := func(r *Term, n int) (V, int) {
		if w.runes != nil && !r.isConst() && w.nest == nil && w.nofork == 0 {
			w.runes[r] = b[:n:n]
		}
		return fromTerm(r), n
	}
	z := func(t *Term, m uint64, sh uint64) *Term {
		return tb.Bin(OShl, tb.Zext(tb.Bin(OAnd, t, c8(m)), 32), tb.Const(32, sh))
	}
	if len(b) >= 2 {
		b1 := w.term(b[1], tiByte)
		if w.branch(tb.And(rng(b0, 0xC2, 0xDF), rng(b1, 0x80, 0xBF))) {
			return save(tb.Bin(OOr, z(b0, 0x1F, 6), z(b1, 0x3F, 0)), 2)
		}
		if len(b) >= 3 {
			b2 := w.term(b[2], tiByte)
			b1lo := tb.Ite(tb.Eq(b0, c8(0xE0)), c8(0xA0), c8(0x80))
			b1hi := tb.Ite(tb.Eq(b0, c8(0xED)), c8(0x9F), c8(0xBF))
			v3 := tb.And(rng(b0, 0xE0, 0xEF), tb.And(tb.And(tb.Ule(b1lo, b1), tb.Ule(b1, b1hi)), rng(b2, 0x80, 0xBF)))
			if w.branch(v3) {
				return save(tb.Bin(OOr, tb.Bin(OOr, z(b0, 0x0F, 12), z(b1, 0x3F, 6)), z(b2, 0x3F, 0)), 3)
			}
			if len(b) >= 4 {
				b3 := w.term(b[3], tiByte)
				b1lo := tb.Ite(tb.Eq(b0, c8(0xF0)), c8(0x90), c8(0x80))
				b1hi := tb.Ite(tb.Eq(b0, c8(0xF4)), c8(0x8F), c8(0xBF))
				v4 := tb.And(tb.And(rng(b0, 0xF0, 0xF4), tb.And(tb.Ule(b1lo, b1), tb.Ule(b1, b1hi))), tb.And(rng(b2, 0x80, 0xBF), rng(b3, 0x80, 0xBF)))
				if w.branch(v4) {
					return save(tb.Bin(OOr, tb.Bin(OOr, z(b0, 0x07, 18), z(b1, 0x3F, 12)), tb.Bin(OOr, z(b2, 0x3F, 6), z(b3, 0x3F, 0))), 4)
				}
			}
		}
	}
	return V{n: utf8.RuneError}, 1
}

// encodeRune encodes a rune, forking over its width.
func (w *W) encodeRune(r V) []V {
	if r.p == nil {
		return strBytes(cstr(string(rune(int32(r.n)))))
	}
	t := r.p.(*Term)
	if b, ok := w.runes[t]; ok {
		return b
	}
	tb := w.tb
	c := func(x uint64) *Term { return tb.Const(32, x) }
	byt := func(sh uint64, m, or uint64) V {
		x := tb.Trunc(tb.Bin(OLShr, t, c(sh)), 8)
		return fromTerm(tb.Bin(OOr, tb.Bin(OAnd, x, tb.Const(8, m)), tb.Const(8, or)))
	}
	var out []V
	switch w.runeClass(t) {
	case 1:
		out = []V{fromTerm(tb.Trunc(t, 8))}
	case 2:
		out = []V{byt(6, 0x1F, 0xC0), byt(0, 0x3F, 0x80)}
	case 3:
		out = []V{byt(12, 0x0F, 0xE0), byt(6, 0x3F, 0x80), byt(0, 0x3F, 0x80)}
	case 4:
		out = []V{byt(18, 0x07, 0xF0), byt(12, 0x3F, 0x80), byt(6, 0x3F, 0x80), byt(0, 0x3F, 0x80)}
	default:
		return strBytes(cstr("\uFFFD"))
	}
	if w.runes != nil && w.nest == nil && w.nofork == 0 {
		w.runes[t] = out
		if b0, ok := out[0].p.(*Term); ok {
			w.runeOf[b0] = runeEnc{r, out}
		}
	}
	return out
}

// runeClass returns the UTF-8 width of t or -1 when t is not encodable (forking).
func (w *W) runeClass(t *Term) int {
	if b, ok := w.runes[t]; ok {
		return len(b)
	}
	tb := w.tb
	c := func(x uint64) *Term { return tb.Const(32, x) }
	if w.branch(tb.Ult(t, c(0x80))) {
		return 1
	}
	if w.branch(tb.Ult(t, c(0x800))) {
		return 2
	}
	if w.branch(tb.Or(tb.Ult(c(0x10FFFF), t), tb.And(tb.Ule(c(0xD800), t), tb.Ule(t, c(0xDFFF))))) {
		return -1
	}
	if w.branch(tb.Ult(t, c(0x10000))) {
		return 3
	}
	return 4
}
