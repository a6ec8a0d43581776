// Package vp is the run-time of the verification harnesses. Under the symbolic engine its functions are intercepted
// and produce symbolic values; compiled natively they replay the concrete values of a solver assignment.
package vp

import (
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"runtime/debug"
	"strconv"
	"strings"
	"syscall"
)

type violation struct{ msg string }
type skip struct{ why string }

var (
	inputs []int64
	cursor int
	obs    []string
)

func next() int64 {
	if cursor >= len(inputs) {
		panic(skip{"replay diverged: out of inputs"})
	}
	v := inputs[cursor]
	cursor++
	return v
}

func nextIn(lo, hi int64) int64 {
	v := next()
	if v < lo || v > hi {
		panic(skip{"replay diverged: input out of range"})
	}
	return v
}

// Int is an arbitrary int in [lo,hi].
func Int(lo, hi int) int { return int(nextIn(int64(lo), int64(hi))) }

// Byte is an arbitrary byte.
func Byte() byte { return byte(next()) }

// ByteIn is an arbitrary byte in [lo,hi].
func ByteIn(lo, hi byte) byte { return byte(next()) }

// Rune is an arbitrary rune in [lo,hi].
func Rune(lo, hi rune) rune { return rune(nextIn(int64(lo), int64(hi))) }

// Bool is an arbitrary bool.
func Bool() bool { return next() != 0 }

// Float is k/den for an arbitrary integer k in [lo,hi].
func Float(lo, hi, den int) float64 { return float64(nextIn(int64(lo), int64(hi))) / float64(den) }

// Assume discards executions in which c is false.
func Assume(c bool) {
	if !c {
		panic(skip{"assumption false"})
	}
}

// Assert states a property.
func Assert(c bool, msg string) {
	if !c {
		panic(violation{msg})
	}
}

// Reach marks a point that some execution must reach.
func Reach(label string) {}

// Observe records values for comparison between the encoding and the compiled code.
func Observe(label string, vs ...any) {
	var p []string
	for _, v := range vs {
		if v == nil {
			p = append(p, "nil")
			continue
		}
		p = append(p, render(reflect.ValueOf(v)))
	}
	obs = append(obs, label+"="+strings.Join(p, ","))
}

func render(v reflect.Value) string {
	switch v.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return strconv.FormatInt(v.Int(), 10)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return strconv.FormatUint(v.Uint(), 10)
	case reflect.Bool:
		return strconv.FormatBool(v.Bool())
	case reflect.Float32, reflect.Float64:
		return strconv.FormatFloat(v.Float(), 'g', -1, 64)
	case reflect.String:
		return strconv.Quote(v.String())
	case reflect.Slice:
		var p []string
		for i := 0; i < v.Len(); i++ {
			p = append(p, render(v.Index(i)))
		}
		return "[" + strings.Join(p, " ") + "]"
	case reflect.Array:
		var p []string
		for i := 0; i < v.Len(); i++ {
			p = append(p, render(v.Index(i)))
		}
		return "{" + strings.Join(p, " ") + "}"
	case reflect.Struct:
		var p []string
		for i := 0; i < v.NumField(); i++ {
			p = append(p, render(v.Field(i)))
		}
		return "{" + strings.Join(p, " ") + "}"
	case reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		if v.Elem().Kind() == reflect.Pointer {
			return "ptr"
		}
		return render(v.Elem())
	}
	if v.IsNil() {
		return "nil"
	}
	return "ref"
}

// Concrete forces a value to be concrete (the engine forks over its values).
func Concrete(x int) int { return x }

// Bound is q in the quick tier and t in the thorough tier.
func Bound(q, t int) int {
	if os.Getenv("VP_TIER") == "thorough" {
		return t
	}
	return q
}

// Pick is an arbitrary concrete int in [lo,hi].
func Pick(lo, hi int) int { return Concrete(Int(lo, hi)) }

// MapOrder selects how map iteration order is explored (0 insertion, 1 every order, 2 both directions, 3 rotations).
func MapOrder(mode int) {}

// Sched selects the schedules explored (0 every schedule, 3 also of operations on files, 1 switch only when a goroutine blocks, to the oldest that can run,
// 2 to the newest).
func Sched(mode int) {}

// Steps sets the number of instructions after which an execution counts as not terminating.
func Steps(n int) {}

// Advance moves the clock.
func Advance(ns int64) {}

// FileLimit makes writes fail that would make a file longer than n bytes (n < 0: no limit).
func FileLimit(n int) {
	var r syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &r); err != nil {
		panic(err)
	}
	r.Cur = r.Max
	if n >= 0 {
		r.Cur = uint64(n)
	}
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &r); err != nil {
		panic(err)
	}
}

var temps []string

// TempDir is an empty directory that is removed after the execution.
func TempDir() string {
	d, err := os.MkdirTemp("", "vp")
	if err != nil {
		panic(err)
	}
	temps = append(temps, d)
	return d
}

// Symbolic reports whether the harness runs under the engine.
func Symbolic() bool { return false }

// And is a branch-free conjunction.
func And(cs ...bool) bool {
	for _, c := range cs {
		if !c {
			return false
		}
	}
	return true
}

// Or is a branch-free disjunction.
func Or(cs ...bool) bool {
	for _, c := range cs {
		if c {
			return true
		}
	}
	return false
}

// Implies is a branch-free implication.
func Implies(a, b bool) bool { return Or(!a, b) }

// IteInt is a branch-free conditional.
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// Panics runs f and reports whether it panicked.
func Panics(f func()) (p bool) {
	defer func() {
		if e := recover(); e != nil {
			switch e.(type) {
			case violation, skip:
				panic(e)
			}
			p = true
		}
	}()
	f()
	return false
}

// Bytes is n arbitrary bytes.
func Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = Byte()
	}
	return b
}

// ASCII is a string of n arbitrary bytes in [lo,hi].
func ASCII(n int, lo, hi byte) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = ByteIn(lo, hi)
	}
	return string(b)
}

// Str is a string of n arbitrary bytes (including invalid UTF-8).
func Str(n int) string { return string(Bytes(n)) }

// ---- native replay ----

type caseIn struct {
	Harness string   `json:"harness"`
	Inputs  []string `json:"inputs"`
}

type caseOut struct {
	Status string   `json:"status"` // pass, assert, panic, skip
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
	Stack  string   `json:"stack,omitempty"`
}

// ReplayMain replays the cases named by VP_REPLAY and writes the outcomes to VP_OUT.
func ReplayMain(hs map[string]func(), setup func()) {
	in, out := os.Getenv("VP_REPLAY"), os.Getenv("VP_OUT")
	if in == "" {
		return
	}
	b, err := os.ReadFile(in)
	if err != nil {
		panic(err)
	}
	var cs []caseIn
	if err := json.Unmarshal(b, &cs); err != nil {
		panic(err)
	}
	reps := 1
	if r := os.Getenv("VP_REPEAT"); r != "" {
		reps, _ = strconv.Atoi(r)
	}
	var res []caseOut
	for _, c := range cs {
		var o caseOut
		for i := 0; i < reps; i++ {
			o = runCase(c, hs, setup)
			if o.Status == "assert" || o.Status == "panic" {
				break
			}
		}
		res = append(res, o)
	}
	b, _ = json.Marshal(res)
	if err := os.WriteFile(out, b, 0o644); err != nil {
		panic(err)
	}
}

func runCase(c caseIn, hs map[string]func(), setup func()) (o caseOut) {
	inputs = inputs[:0]
	for _, s := range c.Inputs {
		v, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			panic(err)
		}
		inputs = append(inputs, v)
	}
	cursor = 0
	obs = nil
	defer func() {
		o.Obs = obs
		for _, d := range temps {
			os.RemoveAll(d)
		}
		temps = nil
		if e := recover(); e != nil {
			switch x := e.(type) {
			case violation:
				o.Status, o.Msg = "assert", x.msg
			case skip:
				o.Status, o.Msg = "skip", x.why
			default:
				o.Status, o.Msg = "panic", fmt.Sprint(e)
				o.Stack = string(debug.Stack())
			}
		}
	}()
	if setup != nil {
		setup()
	}
	hs[c.Harness]()
	o.Status = "pass"
	return
}
