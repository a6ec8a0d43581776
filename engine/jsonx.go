package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"go/types"
	"io"
	"math"
	"reflect"
	"sort"
	"strings"
)

// jsonIntrinsics decode JSON documents with the real encoding/json; the result is stored in the encoded program's values.
func jsonIntrinsics(I map[string]intrinsic) {
	I["(*encoding/json.Decoder).Decode"] = func(w *W, g *G, fr *Frame, a []V) V {
		cell, _ := a[0].p.(*V)
		if cell == nil {
			w.rtPanic("invalid memory address or nil pointer dereference")
		}
		rd, _ := cell.p.(*Agg).f[0].p.(*Iface)
		if rd == nil {
			w.rtPanic("invalid memory address or nil pointer dereference")
		}
		read := w.lookupMethodByName(rd, "Read")
		var doc []byte
		for {
			buf := make([]V, 4096)
			r := w.callFn(g, fr, read, []V{rd.v, mkSlice(buf)}, nil).p.(*Agg)
			n := int(w.concInt(r.f[0]))
			for _, b := range buf[:n] {
				doc = append(doc, byte(w.concInt(b)))
			}
			if e, _ := r.f[1].p.(*Iface); e != nil {
				break
			}
		}
		return w.jsonDecode(doc, a[1], false)
	}
	I["encoding/json.Unmarshal"] = func(w *W, g *G, fr *Frame, a []V) V {
		var doc []byte
		for _, b := range slc(a[0]) {
			doc = append(doc, byte(w.concInt(b)))
		}
		return w.jsonDecode(doc, a[1], true)
	}
}

func (w *W) jsonDecode(doc []byte, target V, whole bool) V {
	var val any
	var err error
	if whole {
		err = json.Unmarshal(doc, &val)
	} else {
		err = json.NewDecoder(bytes.NewReader(doc)).Decode(&val)
	}
	if err != nil {
		if errors.Is(err, io.EOF) {
			if ip := w.prog.ImportedPackage("io"); ip != nil {
				return *w.global(ip.Var("EOF"))
			}
		}
		return w.errString(strBytes(cstr(err.Error())))
	}
	i, _ := target.p.(*Iface)
	if i == nil {
		return w.errString(strBytes(cstr("json: Unmarshal(nil)")))
	}
	p, ok := i.t.Underlying().(*types.Pointer)
	cell, ok2 := i.v.p.(*V)
	if !ok || !ok2 {
		panic(unsupported("json target " + i.t.String()))
	}
	v, err := w.jsonValue(p.Elem(), val, *cell)
	if err != nil {
		return w.errString(strBytes(cstr(err.Error())))
	}
	w.setCell(cell, v)
	return V{}
}

func (w *W) jsonValue(t types.Type, val any, old V) (V, error) {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		for _, r := range []types.Type{n, types.NewPointer(n)} {
			if w.prog.MethodSets.MethodSet(r).Lookup(nil, "UnmarshalJSON") != nil {
				panic(unsupported("UnmarshalJSON of " + t.String()))
			}
		}
	}
	bad := fmt.Errorf("json: cannot unmarshal into Go value of type %v", t)
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if val == nil {
			return V{}, nil
		}
		c := new(V)
		*c = zero(u.Elem())
		v, err := w.jsonValue(u.Elem(), val, *c)
		*c = v
		return V{p: c}, err
	case *types.Interface:
		if u.NumMethods() > 0 {
			return V{}, bad
		}
		switch x := val.(type) {
		case nil:
			return V{}, nil
		case bool:
			return w.mkIface(types.Typ[types.Bool], cbool(x)), nil
		case float64:
			return w.mkIface(types.Typ[types.Float64], V{n: math.Float64bits(x)}), nil
		case string:
			return w.mkIface(types.Typ[types.String], cstr(x)), nil
		case []any:
			st := types.NewSlice(types.Universe.Lookup("any").Type().Underlying())
			v, err := w.jsonValue(st, x, V{})
			return w.mkIface(st, v), err
		case map[string]any:
			mt := types.NewMap(types.Typ[types.String], types.Universe.Lookup("any").Type().Underlying())
			v, err := w.jsonValue(mt, x, V{})
			return w.mkIface(mt, v), err
		}
	}
	if val == nil {
		return old, nil
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		m, ok := val.(map[string]any)
		if !ok {
			return old, bad
		}
		agg := &Agg{append([]V(nil), old.p.(*Agg).f...)}
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if f.Embedded() {
				panic(unsupported("json of embedded fields"))
			}
			if !f.Exported() {
				continue
			}
			name, opts, _ := strings.Cut(reflect.StructTag(u.Tag(i)).Get("json"), ",")
			if name == "-" && opts == "" {
				continue
			}
			if strings.Contains(opts, "string") {
				panic(unsupported("json string option"))
			}
			if name == "" {
				name = f.Name()
			}
			x, ok := m[name]
			if !ok {
				for k, y := range m {
					if strings.EqualFold(k, name) {
						x, ok = y, true
					}
				}
			}
			if ok {
				v, err := w.jsonValue(f.Type(), x, agg.f[i])
				if err != nil {
					return old, err
				}
				agg.f[i] = v
			}
		}
		return V{p: agg}, nil
	case *types.Slice:
		l, ok := val.([]any)
		if !ok {
			return old, bad
		}
		s := make([]V, 0, len(l))
		for _, x := range l {
			v, err := w.jsonValue(u.Elem(), x, zero(u.Elem()))
			if err != nil {
				return old, err
			}
			s = append(s, v)
		}
		return V{p: s}, nil
	case *types.Map:
		m, ok := val.(map[string]any)
		if !ok || infoOf(u.Key()).k != kString {
			return old, bad
		}
		mm := &Map{idx: map[any]int{}, kt: u.Key(), vt: u.Elem()}
		keys := make([]string, 0, len(m))
		for k := range m {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			v, err := w.jsonValue(u.Elem(), m[k], zero(u.Elem()))
			if err != nil {
				return old, err
			}
			w.mapSet(mm, cstr(k), v)
		}
		return V{p: mm}, nil
	case *types.Basic:
		switch x := val.(type) {
		case bool:
			if infoOf(t).k == kBool {
				return cbool(x), nil
			}
		case string:
			if infoOf(t).k == kString {
				return cstr(x), nil
			}
		case float64:
			switch ti := infoOf(t); ti.k {
			case kFloat:
				if ti.f32 {
					x = float64(float32(x))
				}
				return V{n: math.Float64bits(x)}, nil
			case kInt:
				if x != math.Trunc(x) || math.Abs(x) >= 1<<53 || (!ti.signed && x < 0) {
					return old, bad
				}
				return w.convInt(V{n: uint64(int64(x))}, tinfo{kInt, 64, true, false}, ti), nil
			}
		}
		return old, bad
	}
	panic(unsupported("json into " + t.String()))
}
