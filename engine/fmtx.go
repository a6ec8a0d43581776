package main

import (
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"
)

// sprint implements the fmt.Sprint family. lossy: symbolic integers become a placeholder (log and error texts).
func (w *W) sprint(fr *Frame, mode string, a []V, lossy bool) []V {
	var out []V
	lit := func(s string) { out = append(out, strBytes(cstr(s))...) }
	switch mode {
	case "Sprintln", "Sprint":
		args := slc(a[0])
		prevStr := true
		for i, x := range args {
			ifc, _ := x.p.(*Iface)
			isStr := ifc != nil && infoOf(ifc.t).k == kString
			if i > 0 && (mode == "Sprintln" || !isStr && !prevStr) {
				lit(" ")
			}
			prevStr = isStr
			out = append(out, w.fmtVerb(fr, 'v', "", x, lossy)...)
		}
		if mode == "Sprintln" {
			lit("\n")
		}
		return out
	}
	f := w.cstrArg(a[0])
	args := slc(a[1])
	k := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit(f[i : i+1])
			continue
		}
		i++
		if i >= len(f) {
			lit("%!(NOVERB)")
			break
		}
		j := i
		for j < len(f) && strings.IndexByte("+-# 0123456789.*", f[j]) >= 0 {
			j++
		}
		flags := f[i:j]
		for strings.Contains(flags, "*") && k < len(args) {
			x, _ := args[k].p.(*Iface)
			if x == nil || infoOf(x.t).k != kInt {
				panic(unsupported("fmt *"))
			}
			flags = strings.Replace(flags, "*", strconv.Itoa(int(int64(w.concInt(x.v)))), 1)
			k++
		}
		if j >= len(f) {
			lit("%!(NOVERB)")
			break
		}
		verb := f[j]
		i = j
		if verb == '%' {
			lit("%")
			continue
		}
		if k >= len(args) {
			lit("%!" + string(verb) + "(MISSING)")
			continue
		}
		out = append(out, w.fmtVerb(fr, verb, flags, args[k], lossy)...)
		k++
	}
	if k < len(args) {
		lit("%!(EXTRA ...)")
	}
	return out
}

func (w *W) fmtVerb(fr *Frame, verb byte, flags string, x V, lossy bool) []V {
	ifc, _ := x.p.(*Iface)
	if ifc == nil {
		if verb == 'v' || verb == 'w' {
			return strBytes(cstr("<nil>"))
		}
		if verb == 'T' {
			return strBytes(cstr("<nil>"))
		}
		return strBytes(cstr("%!" + string(verb) + "(<nil>)"))
	}
	if verb == 'T' {
		return strBytes(cstr(types.TypeString(ifc.t, func(p *types.Package) string { return p.Name() })))
	}
	if verb == 'w' {
		verb = 'v'
	}
	return w.fmtTyped(fr, verb, flags, ifc.t, ifc.v, lossy, 0)
}

func (w *W) fmtTyped(fr *Frame, verb byte, flags string, t types.Type, v V, lossy bool, depth int) []V {
	if (verb == 'v' || verb == 's' || verb == 'q') && !strings.Contains(flags, "#") {
		ms := w.prog.MethodSets.MethodSet(t)
		for _, n := range []string{"Error", "String"} {
			if sel := ms.Lookup(nil, n); sel != nil {
				sig := sel.Type().(*types.Signature)
				if sig.Params().Len() == 0 && sig.Results().Len() == 1 && infoOf(sig.Results().At(0).Type()).k == kString {
					if infoOf(t).k == kPtr && v.p == nil {
						return strBytes(cstr("<nil>"))
					}
					w.eng.ssaMu.Lock()
					m := w.prog.MethodValue(sel)
					w.eng.ssaMu.Unlock()
					s := w.callFn(fr.g, fr, m, []V{v}, nil)
					return w.fmtTyped(fr, verb, flags, types.Typ[types.String], s, lossy, depth)
				}
			}
		}
	}
	spec := "%" + flags + string(verb)
	ti := infoOf(t)
	switch ti.k {
	case kString:
		if s, ok := concStr(v); ok {
			return strBytes(cstr(fmt.Sprintf(spec, s)))
		}
		if (verb == 'v' || verb == 's') && flags == "" {
			return strBytes(v)
		}
		if lossy {
			return strBytes(cstr("<symstr>"))
		}
		return strBytes(cstr(fmt.Sprintf(spec, w.concBytes(v))))
	case kInt:
		if v.p != nil {
			if lossy {
				return strBytes(cstr("<sym>"))
			}
			if ti.w == 8 && !ti.signed && (verb == 'X' || verb == 'x') && (flags == "02") {
				tb := w.tb
				b := v.p.(*Term)
				base := uint64('a')
				if verb == 'X' {
					base = 'A'
				}
				nib := func(n *Term) V {
					return fromTerm(tb.Ite(tb.Ult(n, tb.Const(8, 10)), tb.Bin(OAdd, n, tb.Const(8, '0')), tb.Bin(OAdd, n, tb.Const(8, base-10))))
				}
				return []V{nib(tb.Bin(OLShr, b, tb.Const(8, 4))), nib(tb.Bin(OAnd, b, tb.Const(8, 15)))}
			}
			v = V{n: w.concInt(v)}
		}
		if ti.signed {
			return strBytes(cstr(fmt.Sprintf(spec, sext(v.n, ti.w))))
		}
		return strBytes(cstr(fmt.Sprintf(spec, v.n)))
	case kBool:
		if v.p != nil {
			if lossy {
				return strBytes(cstr("<sym>"))
			}
			return strBytes(cstr(fmt.Sprintf(spec, w.branch(v.p.(*Term)))))
		}
		return strBytes(cstr(fmt.Sprintf(spec, v.n != 0)))
	case kFloat:
		if v.p != nil {
			return strBytes(cstr("<symfloat>"))
		}
		return strBytes(cstr(fmt.Sprintf(spec, math.Float64frombits(v.n))))
	case kSlice, kAgg:
		var els []V
		var et func(int) types.Type
		open, cl := "[", "]"
		names := func(i int) string { return "" }
		switch u := t.Underlying().(type) {
		case *types.Slice:
			els = slc(v)
			et = func(int) types.Type { return u.Elem() }
		case *types.Array:
			els = v.p.(*Agg).f
			et = func(int) types.Type { return u.Elem() }
		case *types.Struct:
			els = v.p.(*Agg).f
			et = func(i int) types.Type { return u.Field(i).Type() }
			open, cl = "{", "}"
			if strings.ContainsAny(flags, "+#") {
				names = func(i int) string { return u.Field(i).Name() + ":" }
			}
		}
		var out []V
		if (verb == 's' || verb == 'x' || verb == 'X' || verb == 'q') && ti.k == kSlice && infoOf(et(0)).k == kInt && infoOf(et(0)).w == 8 {
			return w.fmtTyped(fr, verb, flags, types.Typ[types.String], mkStr(append([]V(nil), els...)), lossy, depth)
		}
		out = append(out, strBytes(cstr(open))...)
		if depth < 4 {
			for i := range els {
				if i > 0 {
					out = append(out, V{n: ' '})
				}
				out = append(out, strBytes(cstr(names(i)))...)
				out = append(out, w.fmtTyped(fr, verb, flags, et(i), els[i], lossy, depth+1)...)
			}
		}
		return append(out, strBytes(cstr(cl))...)
	case kIface:
		if v.p == nil {
			return strBytes(cstr("<nil>"))
		}
		i := v.p.(*Iface)
		return w.fmtTyped(fr, verb, flags, i.t, i.v, lossy, depth+1)
	case kPtr:
		if v.p == nil {
			return strBytes(cstr("<nil>"))
		}
		if c, ok := v.p.(*V); ok && depth == 0 {
			et := t.Underlying().(*types.Pointer).Elem()
			if k := infoOf(et).k; k == kAgg {
				return append(strBytes(cstr("&")), w.fmtTyped(fr, verb, flags, et, *c, lossy, depth+1)...)
			}
		}
		return strBytes(cstr("0xc000012345"))
	case kMap:
		return strBytes(cstr("map[...]"))
	}
	return strBytes(cstr("<" + t.String() + ">"))
}

func (w *W) concBytes(v V) string {
	b := strBytes(v)
	var sb strings.Builder
	for _, x := range b {
		sb.WriteByte(byte(w.concInt(x)))
	}
	return sb.String()
}

// snapshot freezes an observed interface value.
func (w *W) snapshot(x V) V {
	ifc, _ := x.p.(*Iface)
	if ifc == nil {
		return x
	}
	return V{p: &Iface{tid: ifc.tid, t: ifc.t, v: w.snapT(ifc.t, ifc.v)}}
}

func (w *W) snapT(t types.Type, v V) V {
	if u, ok := t.Underlying().(*types.Slice); ok {
		s := slc(v)
		if s == nil {
			return v
		}
		r := make([]V, len(s))
		for i := range s {
			r[i] = w.snapT(u.Elem(), s[i])
		}
		return V{p: r}
	}
	return copyVal(v)
}

// renderObs renders observed values under a model; the native runtime uses the same format.
func (w *W) renderObs(vs []V, m []uint64) string {
	var parts []string
	for _, x := range vs {
		ifc, _ := x.p.(*Iface)
		if ifc == nil {
			parts = append(parts, "nil")
			continue
		}
		parts = append(parts, w.renderT(ifc.t, ifc.v, m))
	}
	return strings.Join(parts, ",")
}

func (w *W) renderT(t types.Type, v V, m []uint64) string {
	ti := infoOf(t)
	ev := func(v V, ti tinfo) uint64 { return w.tb.Eval(w.term(v, ti), m) }
	switch ti.k {
	case kInt:
		x := ev(v, ti)
		if ti.signed {
			return strconv.FormatInt(sext(x, ti.w), 10)
		}
		return strconv.FormatUint(x, 10)
	case kBool:
		return strconv.FormatBool(ev(v, ti) == 1)
	case kFloat:
		if f, ok := v.p.(*Fix); ok {
			return strconv.FormatFloat(float64(int64(w.tb.Eval(f.t, m)))/(1<<fixBits), 'g', -1, 64)
		}
		return strconv.FormatFloat(math.Float64frombits(v.n), 'g', -1, 64)
	case kString:
		var b []byte
		for _, x := range strBytes(v) {
			b = append(b, byte(ev(x, tiByte)))
		}
		return strconv.Quote(string(b))
	case kSlice:
		u := t.Underlying().(*types.Slice)
		var p []string
		for _, x := range slc(v) {
			p = append(p, w.renderT(u.Elem(), x, m))
		}
		return "[" + strings.Join(p, " ") + "]"
	case kIface:
		if v.p == nil {
			return "nil"
		}
		i := v.p.(*Iface)
		if infoOf(i.t).k == kPtr {
			return "ptr"
		}
		return w.renderT(i.t, i.v, m)
	case kAgg:
		var p []string
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i, x := range v.p.(*Agg).f {
				p = append(p, w.renderT(u.Field(i).Type(), x, m))
			}
		case *types.Array:
			for _, x := range v.p.(*Agg).f {
				p = append(p, w.renderT(u.Elem(), x, m))
			}
		}
		return "{" + strings.Join(p, " ") + "}"
	}
	if v.p == nil {
		return "nil"
	}
	return "ref"
}

func reflectIntrinsics(I map[string]intrinsic) {
	// reflect.TypeOf / ValueOf wrap the interface; only the few methods the repository uses are modelled.
	I["reflect.TypeOf"] = func(w *W, g *G, fr *Frame, a []V) V {
		i, _ := a[0].p.(*Iface)
		if i == nil {
			return V{}
		}
		rt := w.eng.rtype
		c := new(V)
		*c = V{p: &Agg{[]V{{}}}}
		w.side[c] = i.t
		return w.mkIface(types.NewPointer(rt), V{p: c})
	}
	ty := func(w *W, v V) types.Type {
		if t, ok := w.side[v.p].(types.Type); ok {
			return t
		}
		panic(unsupported("reflect type"))
	}
	short := func(t types.Type) string {
		return types.TypeString(t, func(p *types.Package) string { return p.Name() })
	}
	I["(*reflect.rtype).String"] = func(w *W, g *G, fr *Frame, a []V) V { return cstr(short(ty(w, a[0]))) }
	I["(*reflect.rtype).Name"] = func(w *W, g *G, fr *Frame, a []V) V {
		switch t := types.Unalias(ty(w, a[0])).(type) {
		case *types.Named:
			return cstr(t.Obj().Name())
		case *types.Basic:
			return cstr(t.Name())
		}
		return V{}
	}
	I["(*reflect.rtype).Kind"] = func(w *W, g *G, fr *Frame, a []V) V { return cint(reflKind(ty(w, a[0]))) }
	I["(*reflect.rtype).Elem"] = func(w *W, g *G, fr *Frame, a []V) V {
		var e types.Type
		switch u := ty(w, a[0]).Underlying().(type) {
		case *types.Pointer:
			e = u.Elem()
		case *types.Slice:
			e = u.Elem()
		case *types.Map:
			e = u.Elem()
		default:
			panic(unsupported("reflect Elem"))
		}
		c := new(V)
		*c = V{p: &Agg{[]V{{}}}}
		w.side[c] = e
		return w.mkIface(types.NewPointer(w.eng.rtype), V{p: c})
	}
	I["reflect.ValueOf"] = func(w *W, g *G, fr *Frame, a []V) V {
		return V{p: &Agg{[]V{{}, {p: &reflVal{a[0]}}, {}}}}
	}
	rv := func(v V) V {
		r, ok := v.p.(*Agg).f[1].p.(*reflVal)
		if !ok {
			panic(unsupported("reflect value"))
		}
		return r.v
	}
	I["(reflect.Value).Kind"] = func(w *W, g *G, fr *Frame, a []V) V {
		i, _ := rv(a[0]).p.(*Iface)
		if i == nil {
			return V{}
		}
		return cint(reflKind(i.t))
	}
	I["(reflect.Value).IsNil"] = func(w *W, g *G, fr *Frame, a []V) V {
		i, _ := rv(a[0]).p.(*Iface)
		if i == nil {
			w.goPanicStr("reflect: call of reflect.Value.IsNil on zero Value")
		}
		switch infoOf(i.t).k {
		case kPtr, kMap, kChan, kFunc, kSlice, kIface, kUnsafe:
			return cbool(i.v.p == nil)
		}
		w.goPanicStr("reflect: call of reflect.Value.IsNil on " + i.t.String() + " Value")
		return V{}
	}
	I["(reflect.Value).IsValid"] = func(w *W, g *G, fr *Frame, a []V) V { return cbool(rv(a[0]).p != nil) }
	I["(reflect.Value).Len"] = func(w *W, g *G, fr *Frame, a []V) V {
		i := rv(a[0]).p.(*Iface)
		switch infoOf(i.t).k {
		case kSlice:
			return cint(len(slc(i.v)))
		case kString:
			return cint(strLen(i.v))
		}
		panic(unsupported("reflect Len"))
	}
	I["(reflect.Value).Interface"] = func(w *W, g *G, fr *Frame, a []V) V { return rv(a[0]) }
	I["(reflect.Value).Int"] = func(w *W, g *G, fr *Frame, a []V) V {
		i := rv(a[0]).p.(*Iface)
		return w.convInt(i.v, infoOf(i.t), tiInt)
	}
	I["(reflect.Value).Float"] = func(w *W, g *G, fr *Frame, a []V) V { return rv(a[0]).p.(*Iface).v }
	I["(reflect.Value).String"] = func(w *W, g *G, fr *Frame, a []V) V { return rv(a[0]).p.(*Iface).v }
	I["(reflect.Value).Convert"] = func(w *W, g *G, fr *Frame, a []V) V { panic(unsupported("reflect Convert")) }
}

type reflVal struct{ v V }

func reflKind(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		m := map[types.BasicKind]int{types.Bool: 1, types.Int: 2, types.Int8: 3, types.Int16: 4, types.Int32: 5, types.Int64: 6, types.Uint: 7, types.Uint8: 8, types.Uint16: 9, types.Uint32: 10, types.Uint64: 11, types.Uintptr: 12, types.Float32: 13, types.Float64: 14, types.Complex64: 15, types.Complex128: 16, types.String: 24, types.UnsafePointer: 26}
		return m[u.Kind()]
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	return 0
}
