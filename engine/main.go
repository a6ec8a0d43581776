// Command engine symbolically executes harness functions of a Go package and decides their assertions with an SMT
// solver.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Engine holds the shared state of one harness exploration.
type Engine struct {
	mu         sync.Mutex
	ssaMu      sync.Mutex
	prog       *ssa.Program
	harness    *ssa.Function
	rtErr      types.Type
	rtype      types.Type
	muxTI      tinfo
	deadline   time.Time
	viols      []Viol
	violSeen   map[string]int
	incon      map[string]int
	samples    []Sample
	nsample    int64
	sampleStep int64
	maxSamples int
	reached    map[string]bool
	counts     map[string]int64
	fnsUsed    map[string]bool
	maxViols   int
	mapMode    int
	maxSteps   int64
	queries    int
	sat, unsat int
	smtTime    time.Duration
	stop       bool
	initFns    map[string]bool
}

func (e *Engine) noteFn(f *ssa.Function) {
	e.mu.Lock()
	e.fnsUsed[f.String()] = true
	e.mu.Unlock()
}

func (e *Engine) count(k string, n int64) {
	e.mu.Lock()
	e.counts[k] += n
	e.mu.Unlock()
}

func (e *Engine) reach(l string) {
	e.mu.Lock()
	e.reached[l] = true
	e.mu.Unlock()
}

var thorough bool

var debugStack = os.Getenv("VP_DEBUG") != ""

// debugForks counts where paths fork.
var (
	debugForks = os.Getenv("VP_FORKS") != ""
	forkMu     sync.Mutex
	forkAt     = map[string]int{}
)

func (w *W) noteFork() {
	if w.curFr == nil {
		return
	}
	at := ""
	for f, i := w.curFr, 0; f != nil && i < 3; f, i = f.caller, i+1 {
		p := w.prog.Fset.Position(f.pos)
		at += fmt.Sprintf("%s:%d < ", filepath.Base(p.Filename), p.Line)
	}
	forkMu.Lock()
	forkAt[at]++
	forkMu.Unlock()
}

func (e *Engine) inconclusive(msg string, w *W) {
	e.mu.Lock()
	defer e.mu.Unlock()
	e.incon[msg]++
	if debugStack && e.incon[msg] == 1 {
		fmt.Fprintln(os.Stderr, "INCONCLUSIVE", msg, w.inputs(w.model))
	}
}

func (e *Engine) addViolation(v Viol) {
	e.mu.Lock()
	defer e.mu.Unlock()
	k := v.Kind + "|" + v.Msg
	e.violSeen[k]++
	if e.violSeen[k] <= 3 {
		e.viols = append(e.viols, v)
	}
}

func (e *Engine) stopNow() bool {
	e.mu.Lock()
	defer e.mu.Unlock()
	if len(e.viols) >= e.maxViols || e.stop {
		return true
	}
	for m := range e.incon {
		if strings.HasPrefix(m, "time budget") || strings.HasPrefix(m, "solver died") {
			return true
		}
	}
	n := 0
	for _, c := range e.incon {
		n += c
	}
	return n > 200
}

func (e *Engine) addSMT(s *SMT) {
	e.mu.Lock()
	e.queries += s.Queries
	e.sat += s.Sat
	e.unsat += s.Unsat
	e.smtTime += s.Time
	e.mu.Unlock()
	s.Queries, s.Sat, s.Unsat, s.Time = 0, 0, 0, 0
}

var stdInit = map[string]bool{}

func init() {
	for _, p := range strings.Fields(`unicode unicode/utf8 unicode/utf16 strings bytes strconv sort slices maps math math/bits
		regexp regexp/syntax io bufio container/heap container/list container/ring cmp iter encoding/hex encoding/base64 encoding/binary path html
		internal/oserror context net/url net/textproto vendor/golang.org/x/net/http/httpguts`) {
		stdInit[p] = true
	}
}

func (e *Engine) initAllowed(path string) bool {
	if stdInit[path] {
		return true
	}
	first := path
	if i := strings.IndexByte(path, '/'); i >= 0 {
		first = path[:i]
	}
	return strings.Contains(first, ".") && !stubPkgs[path]
}

func (e *Engine) pkgStub(f *ssa.Function) func(w *W, g *G, fr *Frame, a []V, f *ssa.Function) V {
	if f.Pkg != nil && stubPkgs[f.Pkg.Pkg.Path()] && f.Synthetic != "package initializer" {
		return stubFn
	}
	return nil
}

func (e *Engine) newW() *W {
	w := &W{eng: e, prog: e.prog, tb: NewTB(), fns: map[*ssa.Function]*Fn{}, pureMemo: map[*ssa.Function]int{},
		globals: map[*ssa.Global]*V{}, meth: map[methKey]*ssa.Function{}, maxSteps: 1 << 40}
	w.smt = NewSMT(w.tb)
	w.resetPath(item{})
	return w
}

// initPkgs runs the package initialisers concretely, then the harness package's Setup function if there is one.
func (w *W) initPkgs(p *ssa.Package) (err error) {
	g := &G{id: 0}
	g.tick()
	w.gs = []*G{g}
	defer func() {
		if e := recover(); e != nil {
			switch x := e.(type) {
			case *targetPanic:
				err = fmt.Errorf("initialisation: %s %s", x.kind, x.msg)
			case inconclusive:
				err = fmt.Errorf("initialisation: %s", x.msg)
				if debugStack {
				}
			case mergeAbort:
				err = fmt.Errorf("initialisation: merge abort")
			default:
				panic(e)
			}
		}
	}()
	w.callFn(g, nil, p.Func("init"), nil, nil)
	for _, q := range []string{"internal/oserror", "context", "net/url", "net/textproto", "vendor/golang.org/x/net/http/httpguts"} { // imported by packages that are not initialised
		if q := w.prog.ImportedPackage(q); q != nil {
			w.callFn(g, nil, q.Func("init"), nil, nil)
		}
	}
	if q := w.prog.ImportedPackage("os"); q != nil {
		for _, n := range []string{"ErrInvalid", "ErrPermission", "ErrExist", "ErrNotExist", "ErrClosed"} {
			v := *w.global(w.prog.ImportedPackage("internal/oserror").Var(n))
			*w.global(q.Var(n)), *w.global(w.prog.ImportedPackage("io/fs").Var(n)) = v, v
		}
	}
	if q := w.prog.ImportedPackage("net/http"); q != nil {
		cell := new(V)
		*cell = zero(q.Type("Client").Type())
		*w.global(q.Var("DefaultClient")) = V{p: cell}
	}
	if f := p.Func("Setup"); f != nil {
		w.callFn(g, nil, f, nil, nil)
	}
	return nil
}

// Result is the outcome of exploring one harness.
type Result struct {
	Harness    string           `json:"harness"`
	Complete   bool             `json:"complete"`
	Paths      int64            `json:"paths"`
	Steps      int64            `json:"instructions"`
	Asserts    int64            `json:"assertions"`
	Trivial    int64            `json:"assertions_simplified"`
	Merges     int64            `json:"merges"`
	Aborted    map[string]int64 `json:"aborted"`
	Queries    int              `json:"queries"`
	Sat        int              `json:"sat"`
	Unsat      int              `json:"unsat"`
	SolverS    float64          `json:"solver_s"`
	WallS      float64          `json:"wall_s"`
	Viols      []Viol           `json:"violations"`
	ViolCounts map[string]int   `json:"violation_counts"`
	Incon      map[string]int   `json:"inconclusive"`
	Unreached  []string         `json:"unreached"`
	Reached    []string         `json:"reached"`
	Samples    []Sample         `json:"samples"`
	Functions  []string         `json:"functions"`
	NFunctions int              `json:"functions_total"`
	Float      bool             `json:"-"`
}

func main() {
	overlay := flag.String("overlay", "", "go overlay JSON")
	tags := flag.String("tags", "", "build tags")
	pkg := flag.String("pkg", "", "harness package")
	har := flag.String("harness", "", "comma separated harness functions (regexp)")
	out := flag.String("out", "", "result file")
	nw := flag.Int("workers", 8, "workers")
	tmo := flag.Float64("timeout", 600, "seconds for all harnesses")
	dir := flag.String("dir", "/repo", "repository")
	gobin := flag.String("go", "/opt/veriftools/go1.24.13/bin", "go tool directory")
	maxSteps := flag.Int64("maxsteps", 4_000_000, "instructions per path")
	maxViols := flag.Int("maxviols", 6, "stop after this many violations")
	nsamp := flag.Int("samples", 24, "sample paths kept for native validation")
	prof := flag.String("prof", "", "cpu profile")
	flag.BoolVar(&thorough, "thorough", false, "thorough tier")
	list := flag.Bool("list", false, "list harnesses")
	flag.StringVar(&solverBin, "solver", "z3", "SMT solver")
	flag.Parse()
	debug.SetGCPercent(200)
	debug.SetMaxStack(1 << 30)
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	t0 := time.Now()
	ov := map[string][]byte{}
	if *overlay != "" {
		b, err := os.ReadFile(*overlay)
		die(err)
		var o struct{ Replace map[string]string }
		die(json.Unmarshal(b, &o))
		for k, v := range o.Replace {
			if v == "" {
				continue
			}
			c, err := os.ReadFile(v)
			die(err)
			ov[k] = c
		}
	}
	env := []string{}
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "PATH=") && !strings.HasPrefix(e, "GOFLAGS=") && !strings.HasPrefix(e, "GOROOT=") {
			env = append(env, e)
		}
	}
	env = append(env, "PATH="+*gobin+":/usr/local/bin:/usr/bin:/bin", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0")
	os.Setenv("PATH", *gobin+":/usr/local/bin:/usr/bin:/bin")
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: *dir, Env: env, Overlay: ov}
	if *tags != "" {
		cfg.BuildFlags = []string{"-tags=" + *tags}
	}
	pkgs, err := packages.Load(cfg, *pkg)
	die(err)
	bad := false
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			fmt.Fprintln(os.Stderr, "load:", p.PkgPath, e)
			bad = true
		}
		if p.IllTyped {
			fmt.Fprintln(os.Stderr, "load: ill typed", p.PkgPath)
			bad = true
		}
	})
	if bad || len(pkgs) == 0 {
		os.Exit(3)
	}
	prog, ps := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	hp := ps[0]
	if debugStack {
		fmt.Fprintln(os.Stderr, "loaded", time.Since(t0))
	}
	var names []string
	re := regexp.MustCompile("^(" + strings.ReplaceAll(*har, ",", "|") + ")$")
	for n, m := range hp.Members {
		if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, "H_") && f.Signature.Params().Len() == 0 && re.MatchString(n) {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	if *list {
		fmt.Println(strings.Join(names, "\n"))
		return
	}
	if len(names) == 0 {
		fmt.Fprintln(os.Stderr, "no harness matches")
		os.Exit(3)
	}
	deadline := time.Now().Add(time.Duration(*tmo * float64(time.Second)))
	eng := &Engine{prog: prog, fnsUsed: map[string]bool{}}
	eng.resetRun()
	eng.maxViols, eng.maxSamples = *maxViols, *nsamp
	if rp := prog.ImportedPackage("runtime"); rp != nil {
		if t := rp.Type("errorString"); t != nil {
			eng.rtErr = t.Type()
		}
	}
	if rp := prog.ImportedPackage("reflect"); rp != nil {
		if t := rp.Type("rtype"); t != nil {
			eng.rtype = t.Type()
		}
	}
	eng.deadline = deadline
	ws := make([]*W, *nw)
	errs := make([]error, *nw)
	eng.maxSteps = *maxSteps
	var wg sync.WaitGroup
	for i := range ws {
		wg.Add(1)
		go func() {
			defer wg.Done()
			ws[i] = eng.newW()
			errs[i] = ws[i].initPkgs(hp)
			ws[i].undo = nil
			ws[i].undoOn = true
			ws[i].maxSteps = *maxSteps
		}()
	}
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			fmt.Fprintln(os.Stderr, e)
			os.Exit(4)
		}
	}
	eng.initFns = eng.fnsUsed
	if debugStack {
		fmt.Fprintln(os.Stderr, "initialised", time.Since(t0))
	}
	var results []*Result
	for _, n := range names {
		eng.resetRun()
		eng.harness = hp.Func(n)
		t1 := time.Now()
		q := &Queue{n: len(ws)}
		q.cond = sync.NewCond(&q.mu)
		q.items = []item{{}}
		for _, w := range ws {
			w.PathStats = PathStats{}
			w.local = nil
			wg.Add(1)
			go func() {
				defer wg.Done()
				w.loop(q)
			}()
		}
		wg.Wait()
		r := &Result{Harness: n, ViolCounts: eng.violSeen, Viols: eng.viols, Incon: eng.incon, Aborted: eng.counts, Samples: eng.samples}
		for _, w := range ws {
			eng.addSMT(w.smt)
			r.Paths += w.Paths
			r.Steps += w.Steps
			r.Asserts += w.Asserts
			r.Trivial += w.TrivAsserts
			r.Merges += w.Merges
		}
		r.Queries, r.Sat, r.Unsat, r.SolverS = eng.queries, eng.sat, eng.unsat, eng.smtTime.Seconds()
		r.WallS = time.Since(t1).Seconds()
		r.Complete = len(eng.incon) == 0 && len(eng.viols) == 0
		labels := map[string]bool{}
		collectLabels(eng.harness, labels, map[*ssa.Function]bool{})
		for _, l := range sortedKeys(labels) {
			if eng.reached[l] {
				r.Reached = append(r.Reached, l)
			} else {
				r.Unreached = append(r.Unreached, l)
			}
		}
		used := map[string]bool{}
		for _, w := range ws {
			for f := range w.fns {
				used[f.String()] = true
			}
		}
		r.NFunctions = len(used)
		for _, f := range sortedKeys(used) {
			if strings.Contains(f, "sugarme/tokenizer") && !strings.Contains(f, "zzverif") && !strings.HasSuffix(f, ".init") {
				r.Functions = append(r.Functions, f)
			}
		}
		results = append(results, r)
		fmt.Fprintf(os.Stderr, "%-28s paths=%d asserts=%d(%d trivial) steps=%d queries=%d(sat %d) solver=%.1fs wall=%.1fs merges=%d aborted=%v\n", n, r.Paths, r.Asserts, r.Trivial, r.Steps, r.Queries, r.Sat, r.SolverS, r.WallS, r.Merges, r.Aborted)
		for _, v := range r.Viols {
			fmt.Fprintf(os.Stderr, "   VIOL %s: %s inputs=%v\n", v.Kind, v.Msg, v.Inputs)
		}
		for _, m := range sortedKeys(r.Incon) {
			fmt.Fprintf(os.Stderr, "   INCON x%d %s\n", r.Incon[m], m)
		}
		if len(r.Unreached) > 0 {
			fmt.Fprintf(os.Stderr, "   UNREACHED %v\n", r.Unreached)
		}
	}
	for _, w := range ws {
		w.smt.Close()
	}
	if *out != "" {
		b, _ := json.MarshalIndent(results, "", " ")
		os.MkdirAll(filepath.Dir(*out), 0o755)
		die(os.WriteFile(*out, b, 0o644))
	}
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	if debugStack {
		fmt.Fprintln(os.Stderr, "total", time.Since(t0), "sys MB", ms.Sys>>20)
		for _, k := range sortedKeys(forkAt) {
			if n := forkAt[k]; n > 20 {
				fmt.Fprintln(os.Stderr, n, k)
			}
		}
	}
}

func (e *Engine) resetRun() {
	e.viols = nil
	e.violSeen = map[string]int{}
	e.incon = map[string]int{}
	e.samples = nil
	e.nsample = 0
	e.sampleStep = 1
	e.reached = map[string]bool{}
	e.counts = map[string]int64{}
	e.queries, e.sat, e.unsat, e.smtTime = 0, 0, 0, 0
	e.mapMode = 0
	e.stop = false
}

// collectLabels gathers the literals of vp.Reach calls reachable within the harness packages.
func collectLabels(f *ssa.Function, labels map[string]bool, seen map[*ssa.Function]bool) {
	if seen[f] {
		return
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if g := c.Common().StaticCallee(); g != nil {
					if g.String() == vpPath+".Reach" {
						if k, ok := c.Common().Args[0].(*ssa.Const); ok {
							labels[strings.Trim(k.Value.ExactString(), "\"")] = true
						}
					} else if g.Pkg != nil && strings.Contains(g.Pkg.Pkg.Path(), "/zzverif/") {
						collectLabels(g, labels, seen)
					}
				}
			}
			if m, ok := in.(*ssa.MakeClosure); ok {
				collectLabels(m.Fn.(*ssa.Function), labels, seen)
			}
			for _, op := range in.Operands(nil) {
				if g, ok := (*op).(*ssa.Function); ok && g.Pkg != nil && strings.Contains(g.Pkg.Pkg.Path(), "/zzverif/") && !strings.HasSuffix(g.Pkg.Pkg.Path(), "/vp") {
					collectLabels(g, labels, seen)
				}
			}
		}
	}
}

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}
