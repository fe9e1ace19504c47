package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strings"
	"sync/atomic"
	"time"
)

// Solver talks to one SMT solver process over SMT-LIB.
type Solver struct {
	name   string
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	decl   map[string]bool
	seen   map[int]bool // terms whose symbols are declared
	strs   map[string]bool
	buf    strings.Builder
	dead   bool
	stack  []*Term
	bank   *Bank
	lastQ  string
	script *strings.Builder // optional copy of every query, for the second back end
}

var (
	statQueries, statSyntactic                                                                  int64
	statSolverNs                                                                                int64
	statUnknown                                                                                 int64
	statConfirmed, statUnconfirmed, statContradicted, statCrossed, statNotCrossed, statSecondNs int64 // the second solver on what the first refuted
)

func solverArgs(name string, ms int) []string {
	switch name {
	case "cvc5":
		return []string{"cvc5", "--incremental", "--lang=smt2", fmt.Sprintf("--tlimit-per=%d", ms)}
	default:
		return []string{name, "-in", fmt.Sprintf("-t:%d", ms)}
	}
}

func NewSolver(name string) (*Solver, error) {
	ms := 10000
	if name == "cvc5" {
		ms = 2000
	}
	a := solverArgs(name, ms)
	c := exec.Command(a[0], a[1:]...)
	in, err := c.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := c.StdoutPipe()
	if err != nil {
		return nil, err
	}
	c.Stderr = nil
	if err = c.Start(); err != nil {
		return nil, err
	}
	s := &Solver{name: name, cmd: c, in: in, out: bufio.NewReaderSize(out, 1<<16)}
	return s, nil
}

func (s *Solver) Close() {
	if s == nil || s.cmd == nil {
		return
	}
	s.in.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

const prelude = `(set-logic ALL)
(declare-sort Str 0)
(declare-sort JV 0)
(declare-sort U 0)
(define-sort F64 () (_ FloatingPoint 11 53))
(define-sort F32 () (_ FloatingPoint 8 24))
`

// Reset starts a new verification task on bank b.
func (s *Solver) Reset(b *Bank) {
	s.bank = b
	s.stack = nil
	s.decl = map[string]bool{}
	s.seen = map[int]bool{}
	s.strs = map[string]bool{}
	s.buf.Reset()
	s.buf.WriteString("(reset)\n(set-option :global-declarations true)\n")
	if s.name != "cvc5" {
		s.buf.WriteString("(set-option :auto_config true)\n")
	}
	s.buf.WriteString(prelude)
}

var smtEscape = strings.NewReplacer("|", "!bar!", "\\", "!bs!")

func smtName(n string) string { return "|" + smtEscape.Replace(n) + "|" }

// fname returns the SMT symbol of an application: overloads are separated by arity and argument sorts.
func (t *Term) fname() string {
	if t.fn == "" {
		t.fn = t.fname1()
	}
	return t.fn
}

func (t *Term) fname1() string {
	n := t.name
	if len(t.args) > 0 {
		n += ":"
		for _, a := range t.args {
			n += string(a.sort[0:1])
			if a.sort == SStr {
				n += "t"
			}
			if a.sort == SF32 {
				n += "3"
			}
		}
	}
	return smtName(n + ">" + string(t.sort))
}

func (s *Solver) declare(t *Term, seen map[int]bool) {
	if seen[t.id] {
		return
	}
	seen[t.id] = true
	for _, a := range t.args {
		s.declare(a, seen)
	}
	switch t.op {
	case "app":
		n := t.fname()
		if !s.decl[n] {
			s.decl[n] = true
			var as []string
			for _, a := range t.args {
				as = append(as, string(a.sort))
			}
			fmt.Fprintf(&s.buf, "(declare-fun %s (%s) %s)\n", n, strings.Join(as, " "), t.sort)
		}
	case "str":
		if !s.strs[t.name] {
			s.strs[t.name] = true
			n := strConst(t.name)
			fmt.Fprintf(&s.buf, "(declare-fun %s () Str)\n", n)
		}
	}
}

func strConst(v string) string { return smtName("s:" + fmt.Sprintf("%q", v)) }

func smtInt(t *Term) string {
	if t.val.Sign() < 0 {
		return "(- " + strings.TrimPrefix(t.name, "-") + ")"
	}
	return t.name
}

func writeTerm(w *strings.Builder, t *Term) {
	if len(t.args) == 0 {
		writeTerm1(w, t)
		return
	}
	if t.smt == "" {
		var b strings.Builder
		writeTerm1(&b, t)
		t.smt = b.String()
	}
	w.WriteString(t.smt)
}

func writeTerm1(w *strings.Builder, t *Term) {
	switch t.op {
	case "true", "false":
		w.WriteString(t.op)
	case "int":
		w.WriteString(smtInt(t))
	case "str":
		w.WriteString(strConst(t.name))
	case "fconst":
		w.WriteString(t.name)
	case "app":
		if len(t.args) == 0 {
			w.WriteString(t.fname())
			return
		}
		w.WriteString("(" + t.fname())
		for _, a := range t.args {
			w.WriteByte(' ')
			writeTerm(w, a)
		}
		w.WriteByte(')')
	default:
		op := t.op
		switch op {
		case "*c":
			op = "*"
		case "tofp32":
			op = "(_ to_fp 8 24) RNE"
		case "tofp64":
			op = "(_ to_fp 11 53) RNE"
		}
		w.WriteString("(" + op)
		for _, a := range t.args {
			w.WriteByte(' ')
			writeTerm(w, a)
		}
		w.WriteByte(')')
	}
}

// Check asks whether the conjunction is satisfiable: "sat", "unsat" or "unknown".
func (s *Solver) Check(fs []*Term) string {
	if s.dead {
		return "unknown"
	}
	for _, f := range fs {
		s.declare(f, s.seen)
	}
	// the assertion stack is kept between queries: only the part that differs is sent
	n := 0
	for n < len(fs) && n < len(s.stack) && s.stack[n] == fs[n] {
		n++
	}
	if len(s.stack) > n {
		fmt.Fprintf(&s.buf, "(pop %d)\n", len(s.stack)-n)
		s.stack = s.stack[:n]
	}
	for _, f := range fs[n:] {
		s.buf.WriteString("(push 1)\n(assert ")
		writeTerm(&s.buf, f)
		s.buf.WriteString(")\n")
		s.stack = append(s.stack, f)
	}
	s.buf.WriteString("(check-sat)\n")
	q := s.buf.String()
	s.buf.Reset()
	if s.script != nil {
		s.script.WriteString(q)
	}
	t0 := time.Now()
	if _, err := io.WriteString(s.in, q); err != nil {
		s.dead = true
		return "unknown"
	}
	ans := s.readLine()
	if s.name != "cvc5" {
		atomic.AddInt64(&statQueries, 1)
		atomic.AddInt64(&statSolverNs, int64(time.Since(t0)))
	} else {
		atomic.AddInt64(&statSecondNs, int64(time.Since(t0)))
	}
	switch ans {
	case "sat", "unsat":
		return ans
	}
	if s.name != "cvc5" {
		atomic.AddInt64(&statUnknown, 1)
	}
	return "unknown"
}

func (s *Solver) readLine() string {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			s.dead = true
			return "unknown"
		}
		l = strings.TrimSpace(l)
		if l == "" {
			continue
		}
		if strings.HasPrefix(l, "(error") {
			s.lastQ = l
			if debugSMT {
				fmt.Println("SMT", l)
			}
			continue
		}
		return l
	}
}

// Model returns the values of the given terms in a model of fs, best effort.
func (s *Solver) Model(fs []*Term, want []*Term) map[string]string {
	if s.dead || s.name == "cvc5" {
		return nil
	}
	for _, f := range want {
		s.declare(f, s.seen)
	}
	if s.Check(fs) != "sat" {
		return nil
	}
	for _, w := range want {
		s.buf.WriteString("(eval ")
		writeTerm(&s.buf, w)
		s.buf.WriteString(")\n")
	}
	s.buf.WriteString("(echo \"done\")\n")
	q := s.buf.String()
	s.buf.Reset()
	if _, err := io.WriteString(s.in, q); err != nil {
		s.dead = true
		return nil
	}
	var lines []string
	for {
		l := s.readLine()
		if s.dead || l == "done" || l == "\"done\"" {
			break
		}
		lines = append(lines, l)
	}
	m := map[string]string{}
	for i, w := range want {
		if i < len(lines) {
			m[w.String()] = lines[i]
		}
	}
	return m
}

var debugSMT = false
