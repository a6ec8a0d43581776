package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// SMT drives one incremental solver process.
type SMT struct {
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	decl    map[string]bool
	asserts []*Term // asserted, one push level each
	tb      *TB
	sb      strings.Builder
	Queries int
	Sat     int
	Unsat   int
	Time    time.Duration
	log     *os.File
	nq      int
}

type inconclusive struct{ msg string }

var solverBin = "z3"

func NewSMT(tb *TB) *SMT {
	s := &SMT{tb: tb}
	s.start()
	return s
}

func (s *SMT) start() {
	s.decl = map[string]bool{}
	s.asserts = nil
	s.cmd = exec.Command(solverBin, "-in")
	var err error
	s.in, err = s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	o, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.out = bufio.NewReaderSize(o, 1<<16)
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.sb.WriteString("(set-option :global-declarations true)\n(set-option :produce-models true)\n(set-option :timeout 120000)\n(set-logic QF_BV)\n")
}

func (s *SMT) Close() {
	s.in.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

func (s *SMT) sync(pc []*Term) {
	i := 0
	for i < len(pc) && i < len(s.asserts) && pc[i] == s.asserts[i] {
		i++
	}
	if n := len(s.asserts) - i; n > 0 {
		fmt.Fprintf(&s.sb, "(pop %d)\n", n)
		s.asserts = s.asserts[:i]
	}
	for ; i < len(pc); i++ {
		pc[i].define(&s.sb, s.decl)
		fmt.Fprintf(&s.sb, "(push 1)\n(assert %s)\n", pc[i].ref())
		s.asserts = append(s.asserts, pc[i])
	}
}

func (s *SMT) readLine() string {
	l, err := s.out.ReadString('\n')
	if err != nil {
		panic(inconclusive{"solver died: " + err.Error()})
	}
	return strings.TrimSpace(l)
}

// Check decides pc ∧ extra. On sat it returns a model of the nvars variables.
func (s *SMT) Check(pc []*Term, extra *Term, vars []*Term) (bool, []uint64) {
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	s.sync(pc)
	extra.define(&s.sb, s.decl)
	for _, v := range vars {
		v.define(&s.sb, s.decl)
	}
	fmt.Fprintf(&s.sb, "(push 1)\n(assert %s)\n(check-sat)\n", extra.ref())
	s.flush()
	s.Queries++
	r := s.readLine()
	switch r {
	case "unsat":
		s.Unsat++
		s.sb.WriteString("(pop 1)\n")
		return false, nil
	case "sat":
		s.Sat++
	default:
		panic(inconclusive{"solver answered: " + r})
	}
	m := make([]uint64, len(vars))
	if len(vars) > 0 {
		s.sb.WriteString("(get-value (")
		for _, v := range vars {
			s.sb.WriteString(v.ref() + " ")
		}
		s.sb.WriteString("))\n")
		s.flush()
		for i := range vars {
			l := s.readLine()
			for strings.Count(l, "(") > strings.Count(l, ")")+1 || l == "(" || l == "" {
				l += " " + s.readLine()
			}
			l = strings.Trim(l, "() ")
			f := strings.Fields(l)
			if len(f) < 2 {
				panic(inconclusive{"bad model line " + l})
			}
			v := f[len(f)-1]
			switch {
			case v == "true":
				m[i] = 1
			case v == "false":
				m[i] = 0
			case strings.HasPrefix(v, "#x"):
				m[i], _ = strconv.ParseUint(v[2:], 16, 64)
			case strings.HasPrefix(v, "#b"):
				m[i], _ = strconv.ParseUint(v[2:], 2, 64)
			default:
				panic(inconclusive{"bad model value " + l})
			}
		}
	}
	s.sb.WriteString("(pop 1)\n")
	return true, m
}

func (s *SMT) flush() {
	if s.log != nil {
		s.log.WriteString(s.sb.String())
	}
	io.WriteString(s.in, s.sb.String())
	s.sb.Reset()
}
