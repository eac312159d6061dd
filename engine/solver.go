package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// Solver drives one SMT solver process.
type Solver struct {
	cmd     *exec.Cmd
	in      *bufio.Writer
	stdin   io.WriteCloser
	out     *bufio.Reader
	gen     int
	stack   []*Term // asserted path condition, one level per term
	decl    map[string]bool
	vars    []*Term
	nDef    int
	queries int
	unknown int
	second  int
	time    time.Duration
	timeout int
	bin     string
	log     io.Writer
	dead    bool
	where   func() string // for debugging
}

var solverBin = "z3-new"

func newSolver(timeoutMS int) *Solver {
	s := &Solver{timeout: timeoutMS, bin: solverBin}
	if os.Getenv("GOSYM_SMTLOG") != "" {
		f, _ := os.CreateTemp("", "smt")
		s.log = f
	}
	return s
}

func (s *Solver) start() {
	s.gen++
	s.decl = map[string]bool{}
	s.vars = nil
	s.stack = nil
	s.nDef = 0
	switch {
	case strings.Contains(s.bin, "cvc5"):
		s.cmd = exec.Command(s.bin, "--incremental", "--lang=smt2", "--tlimit-per="+strconv.Itoa(s.timeout))
	default:
		s.cmd = exec.Command(s.bin, "-in", "-smt2")
	}
	var err error
	s.stdin, err = s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	o, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = s.cmd.Stdout
	s.in = bufio.NewWriterSize(s.stdin, 1<<16)
	s.out = bufio.NewReaderSize(o, 1<<16)
	if err := s.cmd.Start(); err != nil {
		panic(fmt.Sprintf("cannot start solver %s: %v", s.bin, err))
	}
	s.dead = false
	if strings.Contains(s.bin, "cvc5") {
		s.send("(set-logic QF_BVFP)\n(set-option :produce-models true)\n(set-option :global-declarations true)\n")
	} else {
		s.send("(set-option :global-declarations true)\n(set-option :produce-models true)\n")
		s.send("(set-option :timeout " + strconv.Itoa(s.timeout) + ")\n")
	}
}

func (s *Solver) stop() {
	if s.cmd != nil {
		s.stdin.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) send(x string) {
	if s.log != nil {
		io.WriteString(s.log, x)
	}
	s.in.WriteString(x)
}

// ref returns the printed name of t, emitting definitions as needed.
func (s *Solver) ref(t *Term) string {
	switch t.op {
	case OConst:
		return constStr(t)
	case OVar:
		n := "|" + t.name + "|"
		if !s.decl[t.name] {
			s.decl[t.name] = true
			s.vars = append(s.vars, t)
			s.send("(declare-const " + n + " " + sortStr(t.w) + ")\n")
		}
		return n
	}
	n := "t" + strconv.Itoa(t.id)
	if t.defd != s.gen {
		b := t.body(s.ref)
		s.send("(define-fun " + n + " () " + sortStr(t.w) + " " + b + ")\n")
		t.defd = s.gen
		s.nDef++
	}
	return n
}

func (s *Solver) sync(pc []*Term) {
	if s.cmd == nil || s.dead {
		s.stop()
		s.start()
	}
	i := 0
	for i < len(pc) && i < len(s.stack) && pc[i] == s.stack[i] {
		i++
	}
	if n := len(s.stack) - i; n > 0 {
		s.send("(pop " + strconv.Itoa(n) + ")\n")
		s.stack = s.stack[:i]
	}
	for ; i < len(pc); i++ {
		r := s.ref(pc[i])
		s.send("(push 1)\n(assert " + r + ")\n")
		s.stack = append(s.stack, pc[i])
	}
}

type satResult int

const (
	resUnsat satResult = iota
	resSat
	resUnknown
)

// check decides pc && extra; on sat it returns a model.
func (s *Solver) check(pc []*Term, extra *Term) (satResult, Model) {
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		s.time += d
		if d > 2*time.Second && s.where != nil && os.Getenv("VSYM_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "slow:", d, s.where())
		}
	}()
	s.queries++
	s.sync(pc)
	// the solver does not always keep to its time limit: end it when it does
	// not answer
	proc := s.cmd.Process
	guard := time.AfterFunc(time.Duration(3*s.timeout)*time.Millisecond+5*time.Second, func() { proc.Kill() })
	defer guard.Stop()
	r := s.ref(extra)
	s.send("(push 1)\n(assert " + r + ")\n")
	res, ok := s.ask("(check-sat)")
	if ok && res == resUnknown && !strings.Contains(s.bin, "cvc5") {
		// incremental mode does not eliminate equalities: ask again with it
		s.second++
		res, ok = s.ask("(check-sat-using (try-for (then simplify propagate-values solve-eqs simplify smt) " + strconv.Itoa(s.timeout) + "))")
	}
	if !ok {
		s.dead = true
		s.unknown++
		return resUnknown, nil
	}
	var m Model
	if res == resSat {
		if m = s.model(); s.dead {
			s.unknown++
			return resUnknown, nil
		}
	}
	s.send("(pop 1)\n")
	if res == resUnknown {
		s.unknown++
	}
	return res, m
}

func (s *Solver) ask(cmd string) (res satResult, ok bool) {
	s.send(cmd + "\n(echo \"@\")\n")
	s.in.Flush()
	res = resUnknown
	bad, got := false, false
	for {
		line, err := s.out.ReadString('\n')
		if err != nil {
			return resUnknown, false
		}
		line = strings.TrimSpace(line)
		if line == "@" || line == "\"@\"" {
			break
		}
		switch line {
		case "sat":
			res = resSat
			got = true
		case "unsat":
			res = resUnsat
			got = true
		case "unknown", "timeout":
			got = true
		default:
			if strings.Contains(line, "error") {
				bad = true
				fmt.Fprintln(os.Stderr, "solver:", line)
			}
		}
	}
	return res, got && !bad
}

func (s *Solver) model() Model {
	m := Model{}
	if len(s.vars) == 0 {
		return m
	}
	s.send("(get-value (")
	for _, v := range s.vars {
		s.send("|" + v.name + "| ")
	}
	s.send("))\n(echo \"@\")\n")
	s.in.Flush()
	var sb strings.Builder
	for {
		line, err := s.out.ReadString('\n')
		if err != nil {
			s.dead = true
			return m
		}
		l := strings.TrimSpace(line)
		if l == "@" || l == "\"@\"" {
			break
		}
		sb.WriteString(line)
	}
	parseModel(sb.String(), m)
	return m
}

// parseModel reads ((|x| #x01) (|y| true) ...).
func parseModel(s string, m Model) {
	i := 0
	for i < len(s) {
		if s[i] != '|' && !(s[i] == '(' && i+1 < len(s) && isSym(s[i+1])) {
			i++
			continue
		}
		var name string
		if s[i] == '|' {
			j := strings.IndexByte(s[i+1:], '|')
			if j < 0 {
				return
			}
			name = s[i+1 : i+1+j]
			i += j + 2
		} else {
			j := i + 1
			for j < len(s) && s[j] != ' ' {
				j++
			}
			name = s[i+1 : j]
			i = j
		}
		for i < len(s) && (s[i] == ' ' || s[i] == '\n') {
			i++
		}
		j := i
		for j < len(s) && s[j] != ')' {
			j++
		}
		v := strings.TrimSpace(s[i:j])
		switch {
		case v == "true":
			m[name] = 1
		case v == "false":
			m[name] = 0
		case strings.HasPrefix(v, "#x"):
			u, _ := strconv.ParseUint(v[2:], 16, 64)
			m[name] = u
		case strings.HasPrefix(v, "#b"):
			u, _ := strconv.ParseUint(v[2:], 2, 64)
			m[name] = u
		case strings.HasPrefix(v, "(_ bv"):
			f := strings.Fields(v[5:])
			u, _ := strconv.ParseUint(f[0], 10, 64)
			m[name] = u
		}
		i = j + 1
	}
}

func isSym(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_'
}
