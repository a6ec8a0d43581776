package main

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"time"
)

type runeEnc struct {
	r V
	b []V
}

// Dec is one recorded decision of a path.
type Dec struct {
	taken  bool
	forced bool // the other side was infeasible: nothing to assert
	val    uint64
}

type item struct {
	prefix []Dec
	model  []uint64
}

type ndet struct {
	Kind string `json:"k"`
	t    *Term
	w    uint8
}

type obsRec struct {
	label string
	vs    []V
}

type nest struct {
	prefix []bool
	pos    int
	dec    []bool
	known  map[*Term]bool
	conds  *Term
	steps  int64
}

func (w *W) litKnown(known map[*Term]bool, c *Term) int {
	if c.op == OBNot {
		return -w.litKnown(known, c.a)
	}
	if v, ok := known[c]; ok {
		if v {
			return 1
		}
		return -1
	}
	if c.op == OBAnd {
		a, b := w.litKnown1(known, c.a), w.litKnown1(known, c.b)
		if a == -1 || b == -1 {
			return -1
		}
		if a == 1 && b == 1 {
			return 1
		}
	}
	if c.op == OBOr {
		a, b := w.litKnown1(known, c.a), w.litKnown1(known, c.b)
		if a == 1 || b == 1 {
			return 1
		}
		if a == -1 && b == -1 {
			return -1
		}
	}
	return 0
}

func (w *W) litKnown1(known map[*Term]bool, c *Term) int {
	s := 1
	if c.op == OBNot {
		c = c.a
		s = -1
	}
	if v, ok := known[c]; ok {
		if v {
			return s
		}
		return -s
	}
	return 0
}

func (w *W) knownVal(c *Term) int {
	if c.isConst() {
		if c.val == 1 {
			return 1
		}
		return -1
	}
	if w.nest != nil {
		return w.litKnown(w.nest.known, c)
	}
	return w.litKnown(w.known, c)
}

func addKnown(known map[*Term]bool, c *Term, v bool) {
	for c.op == OBNot {
		c = c.a
		v = !v
	}
	if _, ok := known[c]; ok {
		return
	}
	known[c] = v
	if c.op == OBAnd && v {
		addKnown(known, c.a, true)
		addKnown(known, c.b, true)
	}
	if c.op == OBOr && !v {
		addKnown(known, c.a, false)
		addKnown(known, c.b, false)
	}
}

func (w *W) addPC(c *Term, taken, forced bool) {
	if !taken {
		c = w.tb.Not(c)
	}
	addKnown(w.known, c, true)
	if !forced {
		w.pc = append(w.pc, c)
	}
}

// branch decides a symbolic condition, forking the path when both outcomes are feasible.
func (w *W) branch(c *Term) bool {
	switch w.knownVal(c) {
	case 1:
		return true
	case -1:
		return false
	}
	if w.nofork > 0 {
		panic(mergeAbort{})
	}
	if w.nest != nil {
		return w.nest.decide(w, c)
	}
	w.Branches++
	if w.pos < len(w.prefix) {
		d := w.prefix[w.pos]
		w.pos++
		w.dec = append(w.dec, d)
		w.addPC(c, d.taken, d.forced)
		return d.taken
	}
	w.pos++
	mv := w.tb.Eval(c, w.model) == 1
	neg := c
	if mv {
		neg = w.tb.Not(c)
	}
	sat, m2 := w.check(neg)
	if sat {
		alt := make([]Dec, len(w.dec)+1)
		copy(alt, w.dec)
		alt[len(w.dec)] = Dec{taken: !mv}
		if debugForks {
			w.noteFork()
		}
		w.push(item{alt, m2})
	}
	d := Dec{taken: mv, forced: !sat}
	w.dec = append(w.dec, d)
	w.addPC(c, d.taken, d.forced)
	return mv
}

func (n *nest) decide(w *W, c *Term) bool {
	var v bool
	if n.pos < len(n.prefix) {
		v = n.prefix[n.pos]
	} else {
		v = true
	}
	n.pos++
	n.dec = append(n.dec, v)
	if len(n.dec) > 40 {
		panic(mergeAbort{})
	}
	addKnown(n.known, c, v)
	if v {
		n.conds = w.tb.And(n.conds, c)
	} else {
		n.conds = w.tb.And(n.conds, w.tb.Not(c))
	}
	return v
}

func (w *W) check(extra *Term) (bool, []uint64) {
	if time.Now().After(w.eng.deadline) {
		panic(inconclusive{"time budget exhausted"})
	}
	return w.smt.Check(w.pc, extra, w.vars)
}

// concretize forks over the feasible values of t.
func (w *W) concretize(t *Term) uint64 {
	if t.isConst() {
		return t.val
	}
	if w.nofork > 0 || w.nest != nil {
		panic(mergeAbort{})
	}
	n := 0
	for {
		if w.pos < len(w.prefix) {
			d := w.prefix[w.pos]
			w.pos++
			w.dec = append(w.dec, d)
			w.addPC(w.tb.Eq(t, w.tb.Const(t.w, d.val)), d.taken, d.forced)
			if d.taken {
				return d.val
			}
			continue
		}
		w.pos++
		v := w.tb.Eval(t, w.model)
		eq := w.tb.Eq(t, w.tb.Const(t.w, v))
		sat := false
		var m2 []uint64
		if k := w.knownVal(eq); k == 0 {
			sat, m2 = w.check(w.tb.Not(eq))
		}
		if sat {
			alt := make([]Dec, len(w.dec)+1)
			copy(alt, w.dec)
			alt[len(w.dec)] = Dec{taken: false, val: v}
			if debugForks {
				w.noteFork()
			}
			w.push(item{alt, m2})
		}
		w.dec = append(w.dec, Dec{taken: true, forced: !sat, val: v})
		w.addPC(eq, true, !sat)
		n++
		return v
	}
}

// choose is an unconstrained choice among n alternatives (schedule, map order): a fresh symbolic selector.
func (w *W) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if w.nofork > 0 || w.nest != nil {
		panic(mergeAbort{})
	}
	t := w.newVar(8, uint64(n-1), "choice")
	return int(w.concretize(t))
}

func (w *W) newVar(width uint8, hi uint64, kind string) *Term {
	v := w.tb.Var(len(w.vars), width, hi)
	w.vars = append(w.vars, v)
	if rc := w.tb.RangeConstraint(v); rc != w.tb.T {
		w.pc = append(w.pc, rc)
	}
	if len(w.model) < len(w.vars) {
		m := make([]uint64, len(w.vars))
		copy(m, w.model)
		w.model = m
	}
	return v
}

// assume restricts the path.
func (w *W) assume(c *Term) {
	if c.isConst() {
		if c.val == 0 {
			panic(pathAbort{"assume"})
		}
		return
	}
	switch w.knownVal(c) {
	case 1:
		return
	case -1:
		panic(pathAbort{"assume"})
	}
	if w.nofork > 0 || w.nest != nil {
		panic(mergeAbort{})
	}
	if w.pos < len(w.prefix) {
		w.dec = append(w.dec, w.prefix[w.pos])
		w.pos++
		w.addPC(c, true, false)
		return
	}
	if w.tb.Eval(c, w.model) != 1 {
		sat, m := w.check(c)
		if !sat {
			panic(pathAbort{"assume"})
		}
		w.model = m
	}
	w.pos++
	w.dec = append(w.dec, Dec{taken: true})
	w.addPC(c, true, false)
}

// assert checks a property condition for every value satisfying the path condition.
func (w *W) assert(c *Term, msg string) {
	if w.nofork > 0 || w.nest != nil {
		panic(mergeAbort{})
	}
	w.Asserts++
	if w.knownVal(c) == 1 {
		w.TrivAsserts++
		return
	}
	if !c.isConst() && w.pos < len(w.prefix) {
		d := w.prefix[w.pos]
		w.pos++
		w.dec = append(w.dec, d)
		w.addPC(c, true, d.forced)
		return
	}
	if c.isConst() {
		w.violation("assert", msg, w.model)
		panic(pathAbort{"assertion"})
	}
	w.pos++
	sat, m := w.check(w.tb.Not(c))
	if !sat {
		w.dec = append(w.dec, Dec{taken: true, forced: true})
		w.addPC(c, true, true)
		return
	}
	w.violation("assert", msg, m)
	if w.tb.Eval(c, w.model) != 1 {
		sat, m = w.check(c)
		if !sat {
			panic(pathAbort{"assertion"})
		}
		w.model = m
	}
	w.dec = append(w.dec, Dec{taken: true})
	w.addPC(c, true, false)
}

// ---- merging ----

// mergeRegion evaluates a side-effect free acyclic region under guards and joins its values.
func (w *W) mergeRegion(fr *Frame, h int, cond *Term) (join int, ok bool) {
	fn := fr.fn
	r := fn.blocks[h].region
	if w.nofork > 0 && w.depth > 4000 {
		return 0, false
	}
	sd, ss := w.depth, w.steps
	defer func() {
		if !ok {
			w.depth = sd
			w.MergeAborts++
		}
	}()
	w.nofork++
	defer func() { w.nofork-- }()
	defer func() {
		if e := recover(); e != nil {
			switch e.(type) {
			case mergeAbort, *targetPanic:
				ok = false
				_ = ss
			default:
				panic(e)
			}
		}
	}()
	tb := w.tb
	type edge struct{ from, to int }
	eg := map[edge]*Term{}
	addEdge := func(f, t int, g *Term) {
		if o, ok := eg[edge{f, t}]; ok {
			g = tb.Or(o, g)
		}
		eg[edge{f, t}] = g
	}
	addEdge(h, fn.blocks[h].succs[0], cond)
	addEdge(h, fn.blocks[h].succs[1], tb.Not(cond))
	phiVal := func(b int, in *ins) V {
		var res V
		have := false
		for k := len(fn.blocks[b].preds) - 1; k >= 0; k-- {
			p := fn.blocks[b].preds[k]
			g, ok := eg[edge{p, b}]
			if !ok || g == tb.F {
				continue
			}
			v := fr.get(&in.args[k])
			if !have {
				res = v
				have = true
				continue
			}
			m, ok := w.iteV(g, v, res, &in.ti)
			if !ok {
				panic(mergeAbort{})
			}
			res = m
		}
		return res
	}
	for _, b := range r.blocks {
		g := tb.F
		for _, p := range fn.blocks[b].preds {
			if e, ok := eg[edge{p, b}]; ok {
				g = tb.Or(g, e)
			}
		}
		if g == tb.F {
			continue
		}
		blk := &fn.blocks[b]
		// parallel phis
		vals := make([]V, blk.nphi)
		for i := 0; i < blk.nphi; i++ {
			vals[i] = phiVal(b, &blk.ins[i])
		}
		for i := 0; i < blk.nphi; i++ {
			fr.regs[blk.ins[i].dst] = vals[i]
		}
		w.steps += int64(len(blk.ins))
		for i := blk.nphi; i < len(blk.ins); i++ {
			in := &blk.ins[i]
			switch in.op {
			case iJump:
				addEdge(b, blk.succs[0], g)
			case iIf:
				c := w.term(fr.get(&in.a), tiBool)
				addEdge(b, blk.succs[0], tb.And(g, c))
				addEdge(b, blk.succs[1], tb.And(g, tb.Not(c)))
			default:
				w.exec(fr, in)
			}
		}
	}
	jb := &fn.blocks[r.join]
	vals := make([]V, jb.nphi)
	for i := 0; i < jb.nphi; i++ {
		vals[i] = phiVal(r.join, &jb.ins[i])
	}
	for i := 0; i < jb.nphi; i++ {
		fr.regs[jb.ins[i].dst] = vals[i]
	}
	w.Merges++
	return r.join, true
}

const maxNestPaths = 64
const maxNestSteps = 60000

// mergeCall explores all paths of a pure function and merges its scalar results into one term.
func (w *W) mergeCall(g *G, caller *Frame, fn *Fn, args []V) (res V, ok bool) {
	sym := false
	for _, a := range args {
		if isSym(a) {
			sym = true
			break
		}
	}
	if !sym && fn.memoOK {
		return V{}, false // plain call
	}
	if w.conc {
		return V{}, false
	}
	key := ""
	if fn.memoOK {
		var sb strings.Builder
		for _, a := range args {
			w.keyOf(&sb, a)
		}
		key = sb.String()
		if r, ok := fn.memo[key]; ok {
			if r.p == noMerge {
				return V{}, false
			}
			return r, true
		}
	}
	type pr struct {
		c *Term
		v V
	}
	var results []pr
	sn, sf, sd, ss := w.nest, w.nofork, w.depth, w.steps
	defer func() {
		w.nest, w.nofork = sn, sf
		w.steps = ss
		if !ok {
			w.depth = sd
			w.MergeAborts++
			if key != "" {
				if fn.memo == nil {
					fn.memo = map[string]V{}
				}
				fn.memo[key] = V{p: noMerge}
			}
		}
	}()
	w.nofork = 0
	stack := [][]bool{nil}
	for len(stack) > 0 {
		pf := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if len(results) >= maxNestPaths || w.steps-ss > maxNestSteps {
			return V{}, false
		}
		n := &nest{prefix: pf, known: map[*Term]bool{}, conds: w.tb.T}
		w.nest = n
		v, good := w.tryCall(g, caller, fn, args)
		if !good {
			return V{}, false
		}
		for i := len(n.dec) - 1; i >= len(pf); i-- {
			alt := append(append([]bool(nil), n.dec[:i]...), !n.dec[i])
			stack = append(stack, alt)
		}
		results = append(results, pr{n.conds, v})
	}
	res = results[len(results)-1].v
	for i := len(results) - 2; i >= 0; i-- {
		if fn.nres == 1 {
			m, good := w.iteV(results[i].c, results[i].v, res, &fn.resTI[0])
			if !good {
				return V{}, false
			}
			res = m
		} else {
			a, b := results[i].v.p.(*Agg), res.p.(*Agg)
			o := &Agg{make([]V, len(a.f))}
			for k := range a.f {
				m, good := w.iteV(results[i].c, a.f[k], b.f[k], &fn.resTI[k])
				if !good {
					return V{}, false
				}
				o.f[k] = m
			}
			res = V{p: o}
		}
	}
	if len(results) > 1 {
		w.Merges++
	}
	if key != "" {
		if fn.memo == nil {
			fn.memo = map[string]V{}
		}
		fn.memo[key] = res
	}
	return res, true
}

type noMergeT struct{}

var noMerge = &noMergeT{}

func (w *W) keyOf(sb *strings.Builder, a V) {
	switch p := a.p.(type) {
	case nil:
		fmt.Fprintf(sb, "%d;", a.n)
	case *Term:
		fmt.Fprintf(sb, "t%d;", p.id)
	case string:
		fmt.Fprintf(sb, "%q;", p)
	case SStr:
		sb.WriteByte('[')
		for _, x := range p {
			w.keyOf(sb, x)
		}
		sb.WriteByte(']')
	default:
		fmt.Fprintf(sb, "?%T%p", p, p)
	}
}

func (w *W) tryCall(g *G, caller *Frame, fn *Fn, args []V) (v V, ok bool) {
	defer func() {
		if e := recover(); e != nil {
			switch e.(type) {
			case mergeAbort, *targetPanic:
				ok = false
			default:
				panic(e)
			}
		}
	}()
	return w.callRaw(g, caller, fn, args, nil), true
}

// ---- path driver ----

func (w *W) push(it item) {
	w.local = append(w.local, it)
}

func (w *W) overBudget(fr *Frame) {
	if w.nest != nil {
		panic(mergeAbort{})
	}
	panic(&targetPanic{kind: "hang", msg: fmt.Sprintf("no termination within %d instructions (in %s)", w.maxSteps, fr.fn.name)})
}

func (w *W) resetPath(it item) {
	w.prefix = it.prefix
	w.env = false
	w.model = it.model
	w.pos = 0
	w.dec = w.dec[:0]
	w.pc = w.pc[:0]
	w.known = map[*Term]bool{}
	w.vars = w.vars[:0]
	w.nondets = w.nondets[:0]
	w.nofork = 0
	w.nest = nil
	w.steps = 0
	w.runes = map[*Term][]V{}
	w.runeOf = map[*Term]runeEnc{}
	w.obs = w.obs[:0]
	w.depth = 0
	w.gs = nil
	w.conc = false
	w.side = map[any]any{}
	w.shadow = nil
	w.mapMode = w.eng.mapMode
	w.schedMode, w.fsched = 0, false
	w.sleep = nil
	w.maxSteps = w.eng.maxSteps
	w.nowNs = 1_000_000_000
}

// runPath executes one path of the harness.
func (w *W) runPath(it item) {
	w.resetPath(it)
	n0 := len(w.undo)
	sTerms := w.tb.n
	_ = sTerms
	done := false
	func() {
		defer func() {
			if e := recover(); e != nil {
				switch x := e.(type) {
				case pathAbort:
					w.eng.count("abort:"+x.why, 1)
				case *targetPanic:
					w.violation(x.kind, x.msg, w.model)
				case inconclusive:
					w.eng.inconclusive(x.msg, w)
				case mergeAbort:
					w.eng.inconclusive("internal: stray merge abort", w)
				default:
					if debugStack {
						panic(e)
					}
					w.eng.inconclusive(fmt.Sprintf("engine: %v", e), w)
				}
			}
		}()
		w.runMain()
		done = true
	}()
	if done {
		w.Paths++
		w.sample()
	}
	w.Steps += w.steps
	w.undoTo(n0)
}

// inputs renders the path's nondeterministic inputs under model m.
func (w *W) inputs(m []uint64) []string {
	var out []string
	for _, nd := range w.nondets {
		v := w.tb.Eval(nd.t, m)
		out = append(out, fmt.Sprint(sext(v, max(nd.w, 1))))
	}
	return out
}

func (w *W) violation(kind, msg string, m []uint64) {
	v := Viol{Kind: kind, Msg: msg, Inputs: w.inputs(m), Sched: len(w.gs) > 1, Env: w.env}
	w.eng.addViolation(v)
}

func (w *W) sample() {
	e := w.eng
	e.mu.Lock()
	defer e.mu.Unlock()
	e.nsample++
	// reservoir: keep early ones and a spread of later ones
	if len(e.samples) >= e.maxSamples && e.nsample%e.sampleStep != 0 {
		return
	}
	if len(e.samples) >= e.maxSamples {
		e.sampleStep *= 2
	}
	s := Sample{Inputs: w.inputs(w.model), Sched: len(w.gs) > 1, Env: w.env}
	for _, o := range w.obs {
		s.Obs = append(s.Obs, o.label+"="+w.renderObs(o.vs, w.model))
	}
	if len(e.samples) >= e.maxSamples {
		e.samples[int(e.nsample)%e.maxSamples] = s
	} else {
		e.samples = append(e.samples, s)
	}
}

type Viol struct {
	Kind   string   `json:"kind"`
	Msg    string   `json:"msg"`
	Inputs []string `json:"inputs"`
	Sched  bool     `json:"sched,omitempty"`
	Env    bool     `json:"env,omitempty"` // map order or randomness was chosen on this path
}

type Sample struct {
	Inputs []string `json:"inputs"`
	Obs    []string `json:"obs"`
	Sched  bool     `json:"sched,omitempty"`
	Env    bool     `json:"env,omitempty"` // map order or randomness was chosen on this path
}

// Queue distributes path prefixes among workers.
type Queue struct {
	mu    sync.Mutex
	cond  *sync.Cond
	items []item
	idle  int
	n     int
	stop  bool
}

func (q *Queue) get() (item, bool) {
	q.mu.Lock()
	defer q.mu.Unlock()
	q.idle++
	for len(q.items) == 0 {
		if q.idle == q.n || q.stop {
			q.stop = true
			q.cond.Broadcast()
			return item{}, false
		}
		q.cond.Wait()
	}
	if q.stop {
		return item{}, false
	}
	q.idle--
	it := q.items[0]
	q.items = q.items[1:]
	return it, true
}

func (q *Queue) put(its ...item) {
	q.mu.Lock()
	q.items = append(q.items, its...)
	q.mu.Unlock()
	q.cond.Broadcast()
}

func (q *Queue) hungry() bool {
	q.mu.Lock()
	defer q.mu.Unlock()
	return q.idle > len(q.items)
}

func (w *W) loop(q *Queue) {
	for {
		if len(w.local) == 0 {
			it, ok := q.get()
			if !ok {
				return
			}
			w.local = append(w.local, it)
		}
		it := w.local[len(w.local)-1]
		w.local = w.local[:len(w.local)-1]
		w.runPath(it)
		if w.eng.stopNow() {
			q.mu.Lock()
			q.stop = true
			q.mu.Unlock()
			q.cond.Broadcast()
			return
		}
		if len(w.local) > 1 && q.hungry() {
			k := (len(w.local) + 1) / 2
			q.put(w.local[:k]...)
			w.local = append([]item(nil), w.local[k:]...)
		}
		if w.tb.n > 3_000_000 {
			w.resetTerms()
		}
	}
}

func (w *W) resetTerms() {
	w.eng.addSMT(w.smt)
	w.smt.Close()
	w.tb = NewTB()
	w.smt = NewSMT(w.tb)
	for _, f := range w.fns {
		f.memo = nil
	}
}

func sortedKeys[T any](m map[string]T) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
