package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"math"
	"path"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

// The file system of the encoded program: files in memory, one file system per execution.
type vfile struct {
	data []V
	dir  bool
	full bool // a device without space
}

type vfd struct {
	f           *vfile
	name        string
	pos         int
	read, write bool
	app, closed bool
}

func (w *W) fs() map[string]*vfile {
	if m, ok := w.side["fs"]; ok {
		return m.(map[string]*vfile)
	}
	m := map[string]*vfile{"/": {dir: true}, "/tmp": {dir: true}, "/dev": {dir: true}, "/dev/full": {full: true}}
	w.side["fs"] = m
	return m
}

func (w *W) pathArg(v V) string {
	s, ok := concStr(v)
	if !ok {
		panic(unsupported("symbolic file name"))
	}
	if !strings.HasPrefix(s, "/") {
		s = "/wd/" + s
	}
	return path.Clean(s)
}

const (
	eNOENT  = 2
	eEXIST  = 17
	eNOTDIR = 20
	eISDIR  = 21
	eINVAL  = 22
	eFBIG   = 27
	eNOSPC  = 28
	eBADF   = 9
)

func (w *W) errno(n int) V {
	return w.mkIface(w.prog.ImportedPackage("syscall").Type("Errno").Type(), V{n: uint64(n)})
}

func (w *W) pathError(op, name string, err V) V {
	t := w.prog.ImportedPackage("io/fs").Type("PathError").Type()
	cell := new(V)
	*cell = V{p: &Agg{[]V{cstr(op), cstr(name), err}}}
	return w.mkIface(types.NewPointer(t), V{p: cell})
}

func (w *W) osErr(name string) V { return *w.global(w.prog.ImportedPackage("os").Var(name)) }

// parentErr is the error number for a path whose directory is missing, 0 if it is there.
func (w *W) parentErr(p string) int {
	d, ok := w.fs()[path.Dir(p)]
	if !ok {
		return eNOENT
	}
	if !d.dir {
		return eNOTDIR
	}
	return 0
}

func (w *W) newFile(f *vfd) V {
	cell := new(V)
	*cell = zero(w.prog.ImportedPackage("os").Type("File").Type())
	w.side[cell] = f
	return V{p: cell}
}

func (w *W) fd(v V) *vfd {
	cell, _ := v.p.(*V)
	if cell == nil {
		return nil
	}
	f, _ := w.side[cell].(*vfd)
	return f
}

func (w *W) openFile(op string, name V, flag int) V {
	p := w.pathArg(name)
	f, ok := w.fs()[p]
	if !ok {
		e := w.parentErr(p)
		if e == 0 && flag&0x40 == 0 {
			e = eNOENT
		}
		if e != 0 {
			return tuple(V{}, w.pathError(op, p, w.errno(e)))
		}
		f = &vfile{}
		w.fs()[p] = f
	} else if flag&0xc0 == 0xc0 {
		return tuple(V{}, w.pathError(op, p, w.errno(eEXIST)))
	}
	wr := flag&3 != 0
	if f.dir && wr {
		return tuple(V{}, w.pathError(op, p, w.errno(eISDIR)))
	}
	if flag&0x200 != 0 {
		f.data = nil
	}
	return tuple(w.newFile(&vfd{f: f, name: p, read: flag&3 != 1, write: wr, app: flag&0x400 != 0}), V{})
}

func (w *W) fileWrite(f *vfd, b []V) V {
	switch {
	case f.closed:
		return tuple(V{}, w.pathError("write", f.name, w.osErr("ErrClosed")))
	case !f.write:
		return tuple(V{}, w.pathError("write", f.name, w.errno(eBADF)))
	case f.f.full && len(b) > 0:
		return tuple(V{}, w.pathError("write", f.name, w.errno(eNOSPC)))
	}
	if f.app {
		f.pos = len(f.f.data)
	}
	limit, limited := w.side["fsize"].(int)
	if limited && f.pos+len(b) > limit { // what fits is written
		b = b[:max(0, limit-f.pos)]
	} else {
		limited = false
	}
	for len(f.f.data) < f.pos {
		f.f.data = append(f.f.data, V{})
	}
	d := append([]V(nil), f.f.data[:f.pos]...)
	d = append(d, b...)
	if len(d) < len(f.f.data) {
		d = append(d, f.f.data[len(d):]...)
	}
	f.f.data = d
	f.pos += len(b)
	if limited {
		return tuple(cint(len(b)), w.pathError("write", f.name, w.errno(eFBIG)))
	}
	return tuple(cint(len(b)), V{})
}

func (w *W) fileInfo(name string, f *vfile) V {
	t := w.prog.ImportedPackage("os").Type("fileStat").Type()
	cell := new(V)
	*cell = zero(t)
	st := t.Underlying().(*types.Struct)
	ag := cell.p.(*Agg)
	for i := 0; i < st.NumFields(); i++ {
		switch st.Field(i).Name() {
		case "name":
			ag.f[i] = cstr(path.Base(name))
		case "size":
			ag.f[i] = cint(len(f.data))
			if f.dir {
				ag.f[i] = cint(4096)
			}
		case "mode":
			m := uint64(0o644)
			if f.dir {
				m = 1<<31 | 0o755
			}
			ag.f[i] = V{n: m}
		}
	}
	return w.mkIface(types.NewPointer(t), V{p: cell})
}

// tempName is a name that no other goroutine chooses.
func (w *W) tempName(g *G, n string) string { return strconv.Itoa(g.id) + "_" + n }

func fsIntrinsics(I map[string]intrinsic) {
	reads := map[string]bool{"os.Open": true, "os.ReadFile": true, "os.Stat": true, "os.Lstat": true, "os.Getwd": true}
	set := func(n string, f intrinsic) {
		method := strings.HasPrefix(n, "(")
		write := !reads[n]
		if method {
			write = strings.Contains(n, ").Write") && !strings.HasSuffix(n, "To") || strings.HasSuffix(n, "From") || strings.HasSuffix(n, "Chmod")
		}
		I[n] = func(w *W, g *G, fr *Frame, a []V) V {
			syncGate(w, g)
			if w.fsched {
				op := &fsOp{fs: w.fs(), write: write}
				if method {
					if fd := w.fd(a[0]); fd != nil {
						op.f = fd.f
					}
				} else {
					switch n {
					case "os.Rename", "os.Symlink":
						op.paths = []string{w.pathArg(a[0]), w.pathArg(a[1])}
					case "os.CreateTemp":
						op.paths = []string{w.pathArg(a[0]) + "/" + w.tempName(g, "*")} // no other goroutine uses it
					case "os.MkdirTemp", "os.Getwd":
					default:
						op.paths = []string{w.pathArg(a[0])}
						if n == "os.MkdirAll" && w.fs()[op.paths[0]] != nil {
							op.write = false
						}
					}
				}
				if op.f != nil || !method {
					w.schedPoint(g, op)
				}
			}
			return f(w, g, fr, a)
		}
	}
	set("os.Open", func(w *W, g *G, fr *Frame, a []V) V { return w.openFile("open", a[0], 0) })
	set("os.Create", func(w *W, g *G, fr *Frame, a []V) V { return w.openFile("open", a[0], 0x242) })
	set("os.OpenFile", func(w *W, g *G, fr *Frame, a []V) V { return w.openFile("open", a[0], int(w.concInt(a[1]))) })
	set("os.ReadFile", func(w *W, g *G, fr *Frame, a []V) V {
		p := w.pathArg(a[0])
		f, ok := w.fs()[p]
		if !ok {
			return tuple(V{}, w.pathError("open", p, w.errno(eNOENT)))
		}
		if f.dir {
			return tuple(V{}, w.pathError("read", p, w.errno(eISDIR)))
		}
		return tuple(mkSlice(append(make([]V, 0, len(f.data)), f.data...)), V{})
	})
	set("os.WriteFile", func(w *W, g *G, fr *Frame, a []V) V {
		r := w.openFile("open", a[0], 0x241).p.(*Agg)
		if r.f[1].p != nil {
			return r.f[1]
		}
		return w.fileWrite(w.fd(r.f[0]), append([]V(nil), slc(a[1])...)).p.(*Agg).f[1]
	})
	stat := func(w *W, g *G, fr *Frame, a []V) V {
		p := w.pathArg(a[0])
		f, ok := w.fs()[p]
		if !ok {
			return tuple(V{}, w.pathError("stat", p, w.errno(eNOENT)))
		}
		return tuple(w.fileInfo(p, f), V{})
	}
	set("os.Stat", stat)
	set("os.Lstat", stat)
	mkdir := func(w *W, p string) V {
		if f, ok := w.fs()[p]; ok {
			if f.dir {
				return w.pathError("mkdir", p, w.errno(eEXIST))
			}
			return w.pathError("mkdir", p, w.errno(eNOTDIR))
		}
		if e := w.parentErr(p); e != 0 {
			return w.pathError("mkdir", p, w.errno(e))
		}
		w.fs()[p] = &vfile{dir: true}
		return V{}
	}
	set("os.Mkdir", func(w *W, g *G, fr *Frame, a []V) V { return mkdir(w, w.pathArg(a[0])) })
	set("os.MkdirAll", func(w *W, g *G, fr *Frame, a []V) V {
		p := w.pathArg(a[0])
		for i := 1; i <= len(p); i++ {
			if i < len(p) && p[i] != '/' {
				continue
			}
			if f, ok := w.fs()[p[:i]]; ok && f.dir {
				continue
			}
			if e := mkdir(w, p[:i]); e.p != nil {
				return e
			}
		}
		return V{}
	})
	set("os.MkdirTemp", func(w *W, g *G, fr *Frame, a []V) V {
		for n := 1; ; n++ {
			p := "/tmp/vp" + strconv.Itoa(n)
			if e := mkdir(w, p); e.p == nil {
				return tuple(cstr(p), V{})
			}
		}
	})
	set("os.Symlink", func(w *W, g *G, fr *Frame, a []V) V {
		t, p := w.pathArg(a[0]), w.pathArg(a[1])
		if f := w.fs()[t]; f != nil {
			w.fs()[p] = f
			return V{}
		}
		panic(unsupported("link to a missing file"))
	})
	rm := func(all bool) intrinsic {
		return func(w *W, g *G, fr *Frame, a []V) V {
			p := w.pathArg(a[0])
			if _, ok := w.fs()[p]; !ok && !all {
				return w.pathError("remove", p, w.errno(eNOENT))
			}
			for q := range w.fs() {
				if strings.HasPrefix(q, p+"/") {
					if !all {
						return w.pathError("remove", p, w.errno(39))
					}
					delete(w.fs(), q)
				}
			}
			delete(w.fs(), p)
			return V{}
		}
	}
	set("os.Remove", rm(false))
	set("os.RemoveAll", rm(true))
	set("os.Rename", func(w *W, g *G, fr *Frame, a []V) V {
		p, q := w.pathArg(a[0]), w.pathArg(a[1])
		f, ok := w.fs()[p]
		if !ok || f.dir {
			return w.pathError("rename", p, w.errno(eNOENT))
		}
		if e := w.parentErr(q); e != 0 {
			return w.pathError("rename", p, w.errno(e))
		}
		delete(w.fs(), p)
		w.fs()[q] = f
		return V{}
	})
	set("os.CreateTemp", func(w *W, g *G, fr *Frame, a []V) V {
		dir, _ := concStr(a[0])
		pat, ok := concStr(a[1])
		if !ok {
			panic(unsupported("symbolic file name"))
		}
		if dir == "" {
			dir = "/tmp"
		}
		pre, suf := pat, ""
		if i := strings.LastIndexByte(pat, '*'); i >= 0 {
			pre, suf = pat[:i], pat[i+1:]
		}
		for n := 1; ; n++ {
			p := cstr(dir + "/" + pre + w.tempName(g, strconv.Itoa(n)) + suf)
			if _, ok := w.fs()[w.pathArg(p)]; !ok {
				return w.openFile("open", p, 0xc2)
			}
		}
	})
	set("os.Chmod", func(w *W, g *G, fr *Frame, a []V) V {
		p := w.pathArg(a[0])
		if _, ok := w.fs()[p]; !ok {
			return w.pathError("chmod", p, w.errno(eNOENT))
		}
		return V{}
	})
	set("(*os.File).Chmod", func(w *W, g *G, fr *Frame, a []V) V {
		if f := w.fd(a[0]); f == nil || f.closed {
			return w.osErr("ErrClosed")
		}
		return V{}
	})
	set("os.Getwd", func(w *W, g *G, fr *Frame, a []V) V { return tuple(cstr("/wd"), V{}) })
	write := func(b func(V) []V) intrinsic {
		return func(w *W, g *G, fr *Frame, a []V) V {
			f := w.fd(a[0])
			if f == nil {
				return tuple(cint(len(b(a[1]))), V{}) // standard output
			}
			return w.fileWrite(f, append([]V(nil), b(a[1])...))
		}
	}
	set("(*os.File).Write", write(slc))
	set("(*os.File).WriteString", write(strBytes))
	set("(*os.File).Read", func(w *W, g *G, fr *Frame, a []V) V {
		f := w.fd(a[0])
		if f == nil {
			panic(unsupported("read of an unknown file"))
		}
		b := slc(a[1])
		switch {
		case f.closed:
			return tuple(V{}, w.pathError("read", f.name, w.osErr("ErrClosed")))
		case f.f.dir:
			return tuple(V{}, w.pathError("read", f.name, w.errno(eISDIR)))
		case !f.read:
			return tuple(V{}, w.pathError("read", f.name, w.errno(eBADF)))
		case len(b) == 0:
			return tuple(V{}, V{})
		case f.pos >= len(f.f.data):
			return tuple(V{}, *w.global(w.prog.ImportedPackage("io").Var("EOF")))
		}
		n := min(len(b), len(f.f.data)-f.pos)
		for i := 0; i < n; i++ {
			w.store(&b[i], f.f.data[f.pos+i])
		}
		f.pos += n
		return tuple(cint(n), V{})
	})
	set("(*os.File).Seek", func(w *W, g *G, fr *Frame, a []V) V {
		f := w.fd(a[0])
		if f == nil || f.closed {
			return tuple(V{}, w.pathError("seek", "file", w.osErr("ErrClosed")))
		}
		off := int(int64(w.concInt(a[1])))
		switch w.concInt(a[2]) {
		case 1:
			off += f.pos
		case 2:
			off += len(f.f.data)
		}
		if off < 0 {
			return tuple(V{}, w.pathError("seek", f.name, w.errno(eINVAL)))
		}
		f.pos = off
		return tuple(cint(off), V{})
	})
	set("(*os.File).Close", func(w *W, g *G, fr *Frame, a []V) V {
		f := w.fd(a[0])
		if f == nil || f.closed {
			return w.osErr("ErrClosed")
		}
		f.closed = true
		return V{}
	})
	set("(*os.File).Stat", func(w *W, g *G, fr *Frame, a []V) V {
		f := w.fd(a[0])
		if f == nil || f.closed {
			return tuple(V{}, w.osErr("ErrClosed"))
		}
		return tuple(w.fileInfo(f.name, f.f), V{})
	})
	set("(*os.File).Name", func(w *W, g *G, fr *Frame, a []V) V {
		if f := w.fd(a[0]); f != nil {
			return cstr(f.name)
		}
		return V{}
	})
	set("(*os.File).Sync", func(w *W, g *G, fr *Frame, a []V) V { return V{} })
	set("(*os.File).ReadFrom", func(w *W, g *G, fr *Frame, a []V) V {
		rd, _ := a[1].p.(*Iface)
		if rd == nil {
			w.rtPanic("invalid memory address or nil pointer dereference")
		}
		read := w.lookupMethodByName(rd, "Read")
		total := 0
		for {
			buf := make([]V, 4096)
			r := w.callFn(g, fr, read, []V{rd.v, mkSlice(buf)}, nil).p.(*Agg)
			n := int(w.concInt(r.f[0]))
			if w.fsched {
				w.schedPoint(g, &fsOp{f: w.fd(a[0]).f, write: true})
			}
			o := w.fileWrite(w.fd(a[0]), append([]V(nil), buf[:n]...)).p.(*Agg)
			if o.f[1].p != nil {
				return tuple(cint(total), o.f[1])
			}
			total += n
			if e, _ := r.f[1].p.(*Iface); e != nil {
				if w.branch(w.eqVal(types.Universe.Lookup("error").Type(), r.f[1], *w.global(w.prog.ImportedPackage("io").Var("EOF")))) {
					return tuple(cint(total), V{})
				}
				return tuple(cint(total), r.f[1])
			}
		}
	})
	set("(*os.File).WriteTo", func(w *W, g *G, fr *Frame, a []V) V {
		wr, _ := a[1].p.(*Iface)
		f := w.fd(a[0])
		if wr == nil || f == nil {
			w.rtPanic("invalid memory address or nil pointer dereference")
		}
		write := w.lookupMethodByName(wr, "Write")
		total := 0
		for {
			switch {
			case f.closed:
				return tuple(cint(total), w.pathError("read", f.name, w.osErr("ErrClosed")))
			case f.f.dir:
				return tuple(cint(total), w.pathError("read", f.name, w.errno(eISDIR)))
			case !f.read:
				return tuple(cint(total), w.pathError("read", f.name, w.errno(eBADF)))
			case f.pos >= len(f.f.data):
				return tuple(cint(total), V{})
			}
			if w.fsched {
				w.schedPoint(g, &fsOp{f: f.f})
			}
			n := min(4096, len(f.f.data)-f.pos)
			b := append([]V(nil), f.f.data[f.pos:f.pos+n]...)
			f.pos += n
			r := w.callFn(g, fr, write, []V{wr.v, mkSlice(b)}, nil).p.(*Agg)
			total += int(w.concInt(r.f[0]))
			if e, _ := r.f[1].p.(*Iface); e != nil {
				return tuple(cint(total), r.f[1])
			}
		}
	})
	// ---- net/http: a request goes to the transport, without redirections, cookies and deadlines ----
	I["(*net/http.Client).Do"] = func(w *W, g *G, fr *Frame, a []V) V {
		cell, _ := a[0].p.(*V)
		if cell == nil {
			w.rtPanic("invalid memory address or nil pointer dereference")
		}
		pkg := w.prog.ImportedPackage("net/http")
		st := pkg.Type("Client").Type().Underlying().(*types.Struct)
		var tr *Iface
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "Transport" {
				tr, _ = cell.p.(*Agg).f[i].p.(*Iface)
			}
		}
		if tr == nil {
			tr, _ = w.global(pkg.Var("DefaultTransport")).p.(*Iface)
		}
		return w.callFn(g, fr, w.lookupMethodByName(tr, "RoundTrip"), []V{tr.v, a[1]}, nil)
	}
	// ---- encoding/json ----
	I["encoding/json.Marshal"] = func(w *W, g *G, fr *Frame, a []V) V {
		b, err := w.jsonIface(a[0])
		if err != nil {
			return tuple(V{}, w.errString(strBytes(cstr(err.Error()))))
		}
		return tuple(mkSlice(strBytes(cstr(string(b)))), V{})
	}
	I["encoding/json.MarshalIndent"] = func(w *W, g *G, fr *Frame, a []V) V {
		b, err := w.jsonIface(a[0])
		if err != nil {
			return tuple(V{}, w.errString(strBytes(cstr(err.Error()))))
		}
		p, _ := concStr(a[1])
		ind, _ := concStr(a[2])
		return tuple(mkSlice(strBytes(cstr(string(indentJSON(b, p, ind))))), V{})
	}
	I["(*encoding/json.Encoder).Encode"] = func(w *W, g *G, fr *Frame, a []V) V {
		cell, _ := a[0].p.(*V)
		if cell == nil {
			w.rtPanic("invalid memory address or nil pointer dereference")
		}
		st := w.prog.ImportedPackage("encoding/json").Type("Encoder").Type().Underlying().(*types.Struct)
		field := func(n string) V {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == n {
					return cell.p.(*Agg).f[i]
				}
			}
			panic(unsupported("json encoder without " + n))
		}
		b, err := w.jsonIface(a[1])
		if err != nil {
			return w.errString(strBytes(cstr(err.Error())))
		}
		p, _ := concStr(field("indentPrefix"))
		ind, _ := concStr(field("indentValue"))
		if p != "" || ind != "" {
			b = indentJSON(b, p, ind)
		}
		b = append(b, '\n')
		wr, _ := field("w").p.(*Iface)
		if wr == nil {
			w.rtPanic("invalid memory address or nil pointer dereference")
		}
		r := w.callFn(g, fr, w.lookupMethodByName(wr, "Write"), []V{wr.v, mkSlice(strBytes(cstr(string(b))))}, nil)
		return r.p.(*Agg).f[1]
	}
}

func indentJSON(b []byte, prefix, indent string) []byte {
	var v json.RawMessage = b
	o, err := json.MarshalIndent(v, prefix, indent)
	if err != nil {
		panic(unsupported("json: " + err.Error()))
	}
	return o
}

func (w *W) jsonIface(v V) ([]byte, error) {
	i, _ := v.p.(*Iface)
	if i == nil {
		return []byte("null"), nil
	}
	return w.jsonEncode(i.t, i.v)
}

// jsonEncode is the JSON of a value (symbolic parts are made concrete).
func (w *W) jsonEncode(t types.Type, v V) ([]byte, error) {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		for _, r := range []types.Type{n, types.NewPointer(n)} {
			ms := w.prog.MethodSets.MethodSet(r)
			if ms.Lookup(nil, "MarshalJSON") != nil || ms.Lookup(nil, "MarshalText") != nil {
				panic(unsupported("MarshalJSON of " + t.String()))
			}
		}
	}
	str := func(v V) string {
		b := strBytes(v)
		o := make([]byte, len(b))
		for i := range b {
			o[i] = byte(w.concInt(b[i]))
		}
		return string(o)
	}
	join := func(open, close string, parts []string) ([]byte, error) {
		return []byte(open + strings.Join(parts, ",") + close), nil
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		c, _ := v.p.(*V)
		if c == nil {
			return []byte("null"), nil
		}
		return w.jsonEncode(u.Elem(), *c)
	case *types.Interface:
		return w.jsonIface(v)
	case *types.Basic:
		switch ti := infoOf(t); ti.k {
		case kBool:
			return []byte(strconv.FormatBool(w.branch(w.term(v, tiBool)))), nil
		case kString:
			return json.Marshal(str(v))
		case kInt:
			n := w.concInt(v)
			if ti.signed {
				return []byte(strconv.FormatInt(int64(n)<<(64-ti.w)>>(64-ti.w), 10)), nil
			}
			return []byte(strconv.FormatUint(n, 10)), nil
		case kFloat:
			if v.p != nil {
				panic(unsupported("json of a symbolic float"))
			}
			if ti.f32 {
				return json.Marshal(float32(math.Float64frombits(v.n)))
			}
			return json.Marshal(math.Float64frombits(v.n))
		}
	case *types.Slice:
		if v.p == nil {
			return []byte("null"), nil
		}
		if infoOf(u.Elem()).w == 8 && infoOf(u.Elem()).k == kInt {
			panic(unsupported("json of bytes"))
		}
		var parts []string
		for _, x := range slc(v) {
			b, err := w.jsonEncode(u.Elem(), x)
			if err != nil {
				return nil, err
			}
			parts = append(parts, string(b))
		}
		return join("[", "]", parts)
	case *types.Map:
		m, _ := v.p.(*Map)
		if m == nil {
			return []byte("null"), nil
		}
		if infoOf(u.Key()).k != kString {
			panic(unsupported("json of a map with keys " + u.Key().String()))
		}
		vals := map[string]V{}
		var keys []string
		for _, e := range m.ents {
			if e.live {
				k := str(e.k)
				keys = append(keys, k)
				vals[k] = e.v
			}
		}
		sort.Strings(keys)
		var parts []string
		for _, k := range keys {
			kb, _ := json.Marshal(k)
			b, err := w.jsonEncode(u.Elem(), vals[k])
			if err != nil {
				return nil, err
			}
			parts = append(parts, string(kb)+":"+string(b))
		}
		return join("{", "}", parts)
	case *types.Struct:
		var parts []string
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if f.Embedded() {
				panic(unsupported("json of embedded fields"))
			}
			name, opts, _ := strings.Cut(reflect.StructTag(u.Tag(i)).Get("json"), ",")
			if !f.Exported() || name == "-" && opts == "" {
				continue
			}
			if opts == "omitempty" {
				ti, x := infoOf(f.Type()), v.p.(*Agg).f[i]
				empty := x.p == nil && x.n == 0
				switch {
				case ti.k == kSlice:
					empty = len(slc(x)) == 0
				case ti.k == kString:
					empty = strLen(x) == 0
				case ti.k == kInt:
					empty = w.concInt(x) == 0
				case ti.k == kBool:
					empty = !w.branch(w.term(x, ti))
				}
				if m, ok := x.p.(*Map); ok {
					empty = m.n == 0
				}
				if empty {
					continue
				}
			} else if opts != "" {
				panic(unsupported("json option " + opts))
			}
			if name == "" {
				name = f.Name()
			}
			kb, _ := json.Marshal(name)
			b, err := w.jsonEncode(f.Type(), v.p.(*Agg).f[i])
			if err != nil {
				return nil, err
			}
			parts = append(parts, string(kb)+":"+string(b))
		}
		return join("{", "}", parts)
	}
	return nil, fmt.Errorf("json: unsupported type: %v", t)
}
