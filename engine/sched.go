package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// VC is a vector clock.
type VC []int

func (a VC) join(b VC) VC {
	for len(a) < len(b) {
		a = append(a, 0)
	}
	for i := range b {
		if b[i] > a[i] {
			a[i] = b[i]
		}
	}
	return a
}
func (a VC) clone() VC { return append(VC(nil), a...) }
func (a VC) at(i int) int {
	if i < len(a) {
		return a[i]
	}
	return 0
}

// G is a goroutine of the interpreted program.
type G struct {
	id    int
	wake  chan struct{}
	done  bool
	cond  func() bool // nil: runnable
	vc    VC
	depth int
	what  string
	exit  chan struct{}
	pend  any // what the operation the goroutine does next works on: nil nothing shared, anyObj anything
}

// anyObj stands for all objects.
var anyObj = new(int)

// depend tells whether the order of two operations of different goroutines can matter.
func depend(a, b any) bool {
	if x, ok := a.(*fsOp); ok {
		if y, ok := b.(*fsOp); ok {
			return x.conflict(y)
		}
	}
	return a != nil && b != nil && (a == b || a == any(anyObj) || b == any(anyObj))
}

// fsOp is an operation on names of files (all, if there are none), or on an open file.
type fsOp struct {
	fs    map[string]*vfile
	f     *vfile
	paths []string
	write bool
}

func (x *fsOp) conflict(y *fsOp) bool {
	if !x.write && !y.write {
		return false
	}
	if x.f != nil && y.f != nil {
		return x.f == y.f
	}
	if y.f != nil {
		x, y = y, x
	}
	if len(y.paths) == 0 || x.f == nil && len(x.paths) == 0 {
		return true
	}
	for _, p := range y.paths {
		if x.f != nil && y.fs[p] == x.f {
			return true
		}
		for _, q := range x.paths {
			if p == q || strings.HasPrefix(p, q+"/") || strings.HasPrefix(q, p+"/") || x.fs[q] != nil && x.fs[q] == y.fs[p] {
				return true
			}
		}
	}
	return false
}

type killG struct{}

func (g *G) tick() {
	for len(g.vc) <= g.id {
		g.vc = append(g.vc, 0)
	}
	g.vc[g.id]++
}

// runMain runs the harness in goroutine 0 and the spawned goroutines cooperatively.
func (w *W) runMain() {
	g := &G{id: 0, wake: make(chan struct{})}
	g.tick()
	w.gs = []*G{g}
	w.cur = g
	w.abortV = nil
	defer func() {
		// terminate the other goroutines
		for _, o := range w.gs[1:] {
			if !o.done {
				o.done = true
				w.killing(o)
			}
		}
	}()
	w.callFn(g, nil, w.eng.harness, nil, nil)
}

func (w *W) killing(o *G) {
	close(o.wake)
	<-o.exit
}

func (w *W) spawn(fr *Frame, ci *callInfo, fnv V, args []V) {
	if w.nest != nil || w.nofork > 0 {
		panic(mergeAbort{})
	}
	g := &G{id: len(w.gs), wake: make(chan struct{}), vc: fr.g.vc.clone(), what: "goroutine", exit: make(chan struct{})}
	g.tick()
	fr.g.tick()
	w.gs = append(w.gs, g)
	w.conc = true
	if w.shadow == nil {
		w.shadow = map[any]*shadowCell{}
	}
	ex := g.exit
	go func() {
		defer close(ex)
		if _, ok := <-g.wake; !ok {
			return
		}
		killed := false
		func() {
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(killG); ok {
						killed = true
						return
					}
					if w.abortV == nil {
						w.abortV = e
					}
				}
			}()
			fr2 := &Frame{fn: &Fn{name: "go"}, g: g}
			w.doCall(fr2, ci, fnv, args)
		}()
		if killed {
			return
		}
		g.done = true
		// hand the baton on
		w.handOff(g)
	}()
}

// handOff passes control from a finished goroutine.
func (w *W) handOff(g *G) {
	var nx *G
	if w.abortV == nil {
		func() {
			defer func() {
				if e := recover(); e != nil && w.abortV == nil {
					w.abortV = e
				}
			}()
			nx = w.pick(g)
			if nx == nil {
				panic(&targetPanic{kind: "deadlock", msg: "all goroutines are asleep - deadlock!"})
			}
		}()
	}
	if w.abortV != nil {
		nx = w.gs[0]
	}
	w.cur = nx
	w.depth = nx.depth
	nx.wake <- struct{}{}
}

func (w *W) runnable() []*G {
	var r []*G
	for _, o := range w.gs {
		if !o.done && (o.cond == nil || o.cond()) {
			r = append(r, o)
		}
	}
	return r
}

// pick chooses the goroutine that runs next.  When every schedule is explored, goroutines that would only repeat an explored
// schedule with independent operations in another order are asleep (sleep sets; operations are independent unless they work
// on the same channel, lock, ... : conflicting accesses that nothing orders are data races and reported as such).
func (w *W) pick(self *G) *G {
	r := w.runnable()
	if len(r) == 0 {
		return nil
	}
	switch w.schedMode {
	case 1:
		return r[0]
	case 2:
		return r[len(r)-1]
	}
	var c []*G
	for _, o := range r {
		if !w.asleep(o) {
			c = append(c, o)
		}
	}
	if len(c) == 0 {
		panic(pathAbort{"schedule"})
	}
	k := w.choose(len(c))
	sl := append(w.sleep, c[:k]...)
	w.sleep = nil
	for _, o := range sl {
		if !depend(o.pend, c[k].pend) {
			w.sleep = append(w.sleep, o)
		}
	}
	return c[k]
}

func (w *W) asleep(g *G) bool {
	for _, o := range w.sleep {
		if o == g {
			return true
		}
	}
	return false
}

// switchTo transfers control from g to nx and waits to be rescheduled.
func (w *W) switchTo(g, nx *G) {
	if nx == g {
		return
	}
	g.depth = w.depth
	w.cur = nx
	w.depth = nx.depth
	nx.wake <- struct{}{}
	if _, ok := <-g.wake; !ok {
		panic(killG{})
	}
	if g.id == 0 && w.abortV != nil {
		panic(w.abortV)
	}
}

// schedPoint lets the schedule switch goroutines before a visible operation on obj.
func (w *W) schedPoint(g *G, obj any) {
	if w.nest != nil || w.nofork > 0 {
		panic(mergeAbort{})
	}
	g.pend = obj
	if !w.conc || w.schedMode != 0 {
		return
	}
	w.switchTo(g, w.pick(g))
}

// block waits until cond holds for an operation on obj.
func (w *W) block(g *G, obj any, cond func() bool) {
	if w.nest != nil || w.nofork > 0 {
		panic(mergeAbort{})
	}
	g.pend = obj
	if (!w.conc || w.schedMode != 0) && cond() {
		return
	}
	for first := true; first || !cond(); first = false {
		g.cond = cond
		nx := w.pick(g)
		if nx == nil {
			g.cond = nil
			panic(&targetPanic{kind: "deadlock", msg: "all goroutines are asleep - deadlock!"})
		}
		w.switchTo(g, nx)
		g.cond = nil
	}
}

// ---- race detection (happens-before) ----

type shadowCell struct {
	wg, wc int // last write goroutine and clock
	reads  map[int]int
}

func (w *W) raceRead(g *G, a any) {
	if w.nest != nil || len(w.gs) < 2 {
		return
	}
	s := w.shadow[a]
	if s == nil {
		s = &shadowCell{wg: -1}
		w.shadow[a] = s
	}
	if s.wg >= 0 && s.wg != g.id && s.wc > g.vc.at(s.wg) {
		w.race(g, a, "read", s.wg)
	}
	if s.reads == nil {
		s.reads = map[int]int{}
	}
	s.reads[g.id] = g.vc.at(g.id)
	if v, ok := a.(*V); ok {
		if ag, ok := v.p.(*Agg); ok {
			for i := range ag.f {
				w.raceRead(g, &ag.f[i])
			}
		}
	}
}

func (w *W) raceWrite(g *G, a any) {
	if w.nest != nil || len(w.gs) < 2 {
		return
	}
	s := w.shadow[a]
	if s == nil {
		s = &shadowCell{wg: -1}
		w.shadow[a] = s
	}
	if s.wg >= 0 && s.wg != g.id && s.wc > g.vc.at(s.wg) {
		w.race(g, a, "write", s.wg)
	}
	for r, c := range s.reads {
		if r != g.id && c > g.vc.at(r) {
			w.race(g, a, "write", r)
		}
	}
	s.wg, s.wc = g.id, g.vc.at(g.id)
	s.reads = nil
	if v, ok := a.(*V); ok {
		if ag, ok := v.p.(*Agg); ok {
			for i := range ag.f {
				w.raceWrite(g, &ag.f[i])
			}
		}
	}
}

func (w *W) race(g *G, a any, op string, other int) {
	panic(&targetPanic{kind: "race", msg: fmt.Sprintf("data race: %s by goroutine %d conflicts with unsynchronised access by goroutine %d", op, g.id, other)})
}

// ---- sync primitives ----

type syncObj struct {
	locked  bool
	readers int
	n       int
	done    bool
	wait    int // tickets of sync.Cond: given out, and woken
	wake    int
	vc, rvc VC
}

func (w *W) so(a any) *syncObj {
	if s, ok := w.side[a]; ok {
		return s.(*syncObj)
	}
	s := &syncObj{}
	w.side[a] = s
	return s
}

func (w *W) acquire(g *G, s *syncObj) { g.vc = g.vc.join(s.vc) }
func (w *W) release(g *G, s *syncObj) {
	s.vc = s.vc.join(g.vc)
	g.tick()
}

// ---- channels ----

func (w *W) chanSend(fr *Frame, cv, v V) {
	c, _ := cv.p.(*Chan)
	g := fr.g
	if c == nil {
		w.block(g, nil, func() bool { return false })
	}
	if c.cap > 0 {
		w.block(g, c, func() bool { return c.closed || len(c.buf) < c.cap })
	} else {
		w.block(g, c, func() bool { return c.closed || len(c.buf) < c.recvq })
	}
	if c.closed {
		w.goPanicStr("send on closed channel")
	}
	c.buf = append(c.buf, v)
	c.vc = append(c.vc, g.vc.clone())
	g.tick()
}

func (w *W) chanRecv(fr *Frame, cv V, et types.Type) (V, bool) {
	c, _ := cv.p.(*Chan)
	g := fr.g
	if c == nil {
		w.block(g, nil, func() bool { return false })
	}
	if c.cap == 0 {
		w.schedPoint(g, c)
	}
	c.recvq++
	w.block(g, c, func() bool { return c.closed || len(c.buf) > 0 })
	c.recvq--
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = c.buf[1:]
		g.vc = g.vc.join(c.vc[0])
		c.vc = c.vc[1:]
		return v, true
	}
	g.vc = g.vc.join(c.cvc)
	return zero(et), false
}

func (w *W) chanClose(fr *Frame, c *Chan) {
	if c == nil {
		w.goPanicStr("close of nil channel")
	}
	w.schedPoint(fr.g, c)
	if c.closed {
		w.goPanicStr("close of closed channel")
	}
	c.closed = true
	c.cvc = fr.g.vc.clone()
	fr.g.tick()
}

func (w *W) selectOp(fr *Frame, in *ins) V {
	x := in.x.(*ssa.Select)
	g := fr.g
	ready := func() []int {
		var r []int
		for i, s := range x.States {
			c, _ := fr.get(&in.args[2*i]).p.(*Chan)
			if c == nil {
				continue
			}
			if s.Dir == types.SendOnly {
				if c.closed || c.cap > 0 && len(c.buf) < c.cap || c.cap == 0 && len(c.buf) < c.recvq {
					r = append(r, i)
				}
			} else if c.closed || len(c.buf) > 0 {
				r = append(r, i)
			}
		}
		return r
	}
	if x.Blocking {
		w.schedPoint(g, anyObj)
		for i, s := range x.States {
			if c, _ := fr.get(&in.args[2*i]).p.(*Chan); c != nil && s.Dir == types.RecvOnly {
				c.recvq++
			}
		}
		w.block(g, anyObj, func() bool { return len(ready()) > 0 })
		for i, s := range x.States {
			if c, _ := fr.get(&in.args[2*i]).p.(*Chan); c != nil && s.Dir == types.RecvOnly {
				c.recvq--
			}
		}
	} else {
		w.schedPoint(g, anyObj)
	}
	r := ready()
	out := &Agg{make([]V, 2)}
	for _, s := range x.States {
		if s.Dir == types.RecvOnly {
			out.f = append(out.f, zero(s.Chan.Type().Underlying().(*types.Chan).Elem()))
		}
	}
	if len(r) == 0 {
		out.f[0] = V{n: ^uint64(0)}
		return V{p: out}
	}
	k := r[w.choose(len(r))]
	out.f[0] = cint(k)
	s := x.States[k]
	c := fr.get(&in.args[2*k]).p.(*Chan)
	if s.Dir == types.SendOnly {
		if c.closed {
			w.goPanicStr("send on closed channel")
		}
		c.buf = append(c.buf, fr.get(&in.args[2*k+1]))
		c.vc = append(c.vc, g.vc.clone())
		g.tick()
		return V{p: out}
	}
	ri := 2
	for i := 0; i < k; i++ {
		if x.States[i].Dir == types.RecvOnly {
			ri++
		}
	}
	if len(c.buf) > 0 {
		out.f[ri] = c.buf[0]
		out.f[1] = cbool(true)
		c.buf = c.buf[1:]
		g.vc = g.vc.join(c.vc[0])
		c.vc = c.vc[1:]
	} else {
		g.vc = g.vc.join(c.cvc)
	}
	return V{p: out}
}
