package main

// An incremental SMT solver process (z3) whose assertion stack is kept in
// sync with the current path condition.

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type SatRes int

const (
	Unsat SatRes = iota
	Sat
	Unknown
)

type Solver struct {
	bin     []string
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	gen     int
	slot    int
	stack   []*Term
	timeout int // ms
	Queries int
	SatN    int
	UnsatN  int
	UnkN    int
	Time    time.Duration
	MaxQ    time.Duration
	Errors  []string
	log     io.Writer
	dirty   bool
	nsent   int
}

var solverGen = 0

func solverBin(name string) []string {
	switch name {
	case "cvc5":
		return []string{"cvc5", "--incremental", "--lang=smt2", "--fp-exp"}
	case "z3":
		return []string{"z3", "-in", "-smt2"}
	}
	return []string{"z3-new", "-in", "-smt2"}
}

func NewSolver(name string, timeoutMS int) (*Solver, error) {
	s := &Solver{bin: solverBin(name), timeout: timeoutMS}
	if _, err := exec.LookPath(s.bin[0]); err != nil {
		s.bin = solverBin("z3")
	}
	return s, s.start()
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.bin[0], s.bin[1:]...)
	var err error
	if s.in, err = s.cmd.StdinPipe(); err != nil {
		return err
	}
	o, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = os.Stderr
	s.out = bufio.NewReaderSize(o, 1<<16)
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.gen++
	solverGenBump(s)
	if p := os.Getenv("GOSYM_LOG"); p != "" && s.log == nil {
		s.log, _ = os.Create(fmt.Sprintf("%s.%d", p, s.gen))
	}
	s.stack = nil
	hdr := "(set-option :print-success false)\n(set-option :global-declarations true)\n(set-option :produce-models true)\n"
	if s.bin[0] == "cvc5" {
		hdr += fmt.Sprintf("(set-option :tlimit-per %d)\n(set-logic ALL)\n", s.timeout)
	} else {
		if os.Getenv("NOTO") == "" {
			hdr += fmt.Sprintf("(set-option :timeout %d)\n", s.timeout)
		}
	}
	hdr += "(declare-fun R3 ((_ FloatingPoint 11 53)) (_ FloatingPoint 11 53))\n"
	s.send(hdr)
	return nil
}

// every (re)started process needs its own definition generation
var genCounter = make(chan int, 1)

func init() { genCounter <- 1 }

func solverGenBump(s *Solver) {
	g := <-genCounter
	s.gen = g
	genCounter <- g + 1
}

func (s *Solver) send(x string) {
	if s.log != nil {
		io.WriteString(s.log, x)
	}
	io.WriteString(s.in, x)
}

func (s *Solver) Close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Solver) restart() {
	s.Close()
	s.start()
}

func (s *Solver) readLine() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

// Check decides pc ∧ extra. On Sat the model over all variables occurring in
// pc and extra is returned.
func (s *Solver) Check(tt *TermTab, pc []*Term, extra *Term) (SatRes, Model) {
	t0 := time.Now()
	s.Queries++
	if s.nsent > 400000 {
		s.nsent = 0
		s.restart()
	}
	// sync stack
	n := 0
	for n < len(s.stack) && n < len(pc) && s.stack[n] == pc[n] {
		n++
	}
	var sb strings.Builder
	if n < len(s.stack) {
		fmt.Fprintf(&sb, "(pop %d)\n", len(s.stack)-n)
		s.stack = s.stack[:n]
	}
	for ; n < len(pc); n++ {
		ref := tt.emit(pc[n], s.slot, s.gen, &sb)
		fmt.Fprintf(&sb, "(push 1)\n(assert %s)\n", ref)
		s.stack = append(s.stack, pc[n])
	}
	sb.WriteString("(push 1)\n")
	if extra != nil {
		ref := tt.emit(extra, s.slot, s.gen, &sb)
		fmt.Fprintf(&sb, "(assert %s)\n", ref)
	}
	sb.WriteString("(check-sat)\n")
	s.nsent += sb.Len() / 40
	s.send(sb.String())
	res := Unknown
	var model Model
	line, err := s.readLine()
	for err == nil && line == "" {
		line, err = s.readLine()
	}
	switch {
	case err != nil:
		s.Errors = append(s.Errors, "solver died: "+err.Error())
		s.restart()
		s.UnkN++
		s.Time += time.Since(t0)
		return Unknown, nil
	case line == "sat":
		res = Sat
	case line == "unsat":
		res = Unsat
	case strings.HasPrefix(line, "(error"):
		s.Errors = append(s.Errors, line)
		s.restart()
		s.UnkN++
		s.Time += time.Since(t0)
		return Unknown, nil
	}
	if res == Sat {
		vars := map[string]*Term{}
		seen := map[*Term]bool{}
		for _, t := range pc {
			collectVars(t, seen, vars)
		}
		if extra != nil {
			collectVars(extra, seen, vars)
		}
		model = Model{}
		if len(vars) > 0 {
			var q strings.Builder
			q.WriteString("(get-value (")
			for n := range vars {
				q.WriteString("|" + n + "| ")
			}
			q.WriteString("))\n(echo \"<<end>>\")\n")
			s.send(q.String())
			var resp strings.Builder
			for {
				l, err := s.readLine()
				if err != nil {
					s.Errors = append(s.Errors, "solver died in get-value")
					s.restart()
					s.Time += time.Since(t0)
					return Unknown, nil
				}
				if strings.Contains(l, "<<end>>") {
					break
				}
				resp.WriteString(l)
				resp.WriteByte('\n')
			}
			if err := parseModel(resp.String(), model); err != nil {
				s.Errors = append(s.Errors, err.Error())
				res = Unknown
			}
		}
	}
	s.send("(pop 1)\n")
	d := time.Since(t0)
	s.Time += d
	if d > 700*time.Millisecond && os.Getenv("GOSYM_SLOW") != "" {
		fmt.Fprintf(os.Stderr, "slow query %v %v\n", d, res)
		for _, t := range pc {
			fmt.Fprintf(os.Stderr, "   pc %.300s\n", t)
		}
		if extra != nil {
			fmt.Fprintf(os.Stderr, "   q  %.300s\n", extra)
		}
	}
	if d > s.MaxQ {
		s.MaxQ = d
	}
	switch res {
	case Sat:
		s.SatN++
	case Unsat:
		s.UnsatN++
	default:
		s.UnkN++
	}
	return res, model
}

// parseModel parses ((|x| #x00) (|y| true) ...).
func parseModel(s string, m Model) error {
	i := 0
	skip := func() {
		for i < len(s) && (s[i] == ' ' || s[i] == '\n' || s[i] == '\r' || s[i] == '\t') {
			i++
		}
	}
	tok := func() string {
		skip()
		if i >= len(s) {
			return ""
		}
		if s[i] == '(' || s[i] == ')' {
			i++
			return s[i-1 : i]
		}
		if s[i] == '|' {
			j := strings.IndexByte(s[i+1:], '|')
			if j < 0 {
				return ""
			}
			r := s[i+1 : i+1+j]
			i += j + 2
			return r
		}
		j := i
		for i < len(s) && !strings.ContainsRune(" \n\r\t()", rune(s[i])) {
			i++
		}
		return s[j:i]
	}
	if tok() != "(" {
		return fmt.Errorf("bad model: %.200s", s)
	}
	for {
		t := tok()
		if t == ")" {
			return nil
		}
		if t != "(" {
			return fmt.Errorf("bad model token %q in %.200s", t, s)
		}
		name := tok()
		v := tok()
		var c uint64
		var err error
		switch {
		case v == "true":
			c = 1
		case v == "false":
			c = 0
		case strings.HasPrefix(v, "#x"):
			c, err = strconv.ParseUint(v[2:], 16, 64)
		case strings.HasPrefix(v, "#b"):
			c, err = strconv.ParseUint(v[2:], 2, 64)
		case v == "(":
			// (_ bvN w)
			tok()
			bv := tok()
			c, err = strconv.ParseUint(strings.TrimPrefix(bv, "bv"), 10, 64)
			tok()
			tok()
		default:
			err = fmt.Errorf("bad value %q", v)
		}
		if err != nil {
			return err
		}
		m[name] = c
		if tok() != ")" {
			return fmt.Errorf("bad model pair")
		}
	}
}
