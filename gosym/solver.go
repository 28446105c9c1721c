package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type satResult int

const (
	resUnsat satResult = iota
	resSat
	resUnknown
)

// solver wraps one incremental SMT solver process.
type solver struct {
	bin     string
	args    []string
	cmd     *exec.Cmd
	in      *bufio.Writer
	inPipe  io.WriteCloser
	out     *bufio.Reader
	ep      uint32 // emission epoch: terms with emitEp == ep are already defined in this scope
	open    bool   // a path scope is pushed
	pending strings.Builder

	queries, sat, unsat, unknown int64
	dur                          time.Duration
	timeoutMs                    int
	log                          io.Writer
}

const solverBin = "z3-new"

func newSolver(timeoutMs int) *solver {
	return &solver{bin: solverBin, args: []string{"-in", "-smt2"}, timeoutMs: timeoutMs}
}

func (s *solver) start() error {
	s.cmd = exec.Command(s.bin, s.args...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.inPipe = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.send("(set-option :print-success false)\n(set-option :produce-models true)\n")
	s.send(fmt.Sprintf("(set-option :timeout %d)\n", s.timeoutMs))
	return nil
}

func (s *solver) send(x string) {
	if s.log != nil {
		io.WriteString(s.log, x)
	}
	s.in.WriteString(x)
}

func (s *solver) stop() {
	if s.cmd != nil {
		s.inPipe.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// beginPath discards everything asserted for the previous path.
func (s *solver) beginPath(ep uint32) {
	if s.open {
		s.send("(pop 1)\n")
		s.open = false
	}
	s.ep = ep
}

func (s *solver) ensureOpen() {
	if s.cmd == nil {
		if err := s.start(); err != nil {
			panic(engineError{"cannot start solver: " + err.Error()})
		}
	}
	if !s.open {
		s.send("(push 1)\n")
		s.open = true
	}
}

// define emits definitions for every sub-term of t.
func (s *solver) define(t *Term, vars map[string]*Term) {
	if t.op == opConst || t.emitEp == s.ep {
		return
	}
	t.emitEp = s.ep
	if t.op == opVar {
		s.send("(declare-const |" + t.name + "| " + smtSort(t.w) + ")\n")
		vars[t.name] = t
		return
	}
	for _, x := range [...]*Term{t.a, t.b, t.c} {
		if x != nil {
			s.define(x, vars)
		}
	}
	s.send("(define-fun t" + strconv.Itoa(int(t.id)) + " () " + smtSort(t.w) + " " + t.body() + ")\n")
}

func (s *solver) assert(t *Term, vars map[string]*Term) {
	s.ensureOpen()
	s.define(t, vars)
	s.send("(assert " + t.ref() + ")\n")
}

// check asks whether the asserted path condition and extra are satisfiable.
func (s *solver) check(extra *Term, vars map[string]*Term) (satResult, model) {
	s.ensureOpen()
	s.define(extra, vars)
	t0 := time.Now()
	s.queries++
	defer func() { s.dur += time.Since(t0) }()
	s.send("(push 1)\n(assert " + extra.ref() + ")\n(check-sat)\n")
	s.in.Flush()
	line, err := s.readLine()
	if err != nil {
		s.stop()
		s.open = false
		panic(engineError{"solver died: " + err.Error()})
	}
	switch line {
	case "unsat":
		s.unsat++
		s.send("(pop 1)\n")
		return resUnsat, nil
	case "sat":
		s.sat++
		m := s.getModel(vars)
		s.send("(pop 1)\n")
		return resSat, m
	}
	if strings.HasPrefix(line, "(error") {
		panic(engineError{"solver: " + line})
	}
	s.unknown++
	s.send("(pop 1)\n")
	return resUnknown, nil
}

func (s *solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

func (s *solver) getModel(vars map[string]*Term) model {
	m := model{}
	if len(vars) == 0 {
		return m
	}
	var sb strings.Builder
	sb.WriteString("(get-value (")
	order := make([]*Term, 0, len(vars))
	for _, v := range vars {
		order = append(order, v)
		sb.WriteString(" |" + v.name + "|")
	}
	sb.WriteString("))\n")
	s.send(sb.String())
	s.in.Flush()
	// read a balanced s-expression
	depth := 0
	var txt strings.Builder
	inBar := false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			panic(engineError{"solver died reading model"})
		}
		txt.WriteByte(c)
		if c == '|' {
			inBar = !inBar
		}
		if inBar {
			continue
		}
		if c == '(' {
			depth++
		} else if c == ')' {
			depth--
			if depth == 0 {
				break
			}
		}
	}
	toks := tokenizeSexp(txt.String())
	if len(toks) > 1 && toks[1] == "error" {
		panic(engineError{"solver: " + txt.String()})
	}
	// ( ( name val ) ( name val ) ... )
	i := 1
	for i < len(toks) && toks[i] == "(" {
		name := strings.Trim(toks[i+1], "|")
		val, next := parseVal(toks, i+2)
		m[name] = val
		i = next + 1
	}
	return m
}

func tokenizeSexp(s string) []string {
	var out []string
	i := 0
	for i < len(s) {
		c := s[i]
		switch {
		case c == '(' || c == ')':
			out = append(out, string(c))
			i++
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case c == '|':
			j := strings.IndexByte(s[i+1:], '|') + i + 2
			out = append(out, s[i:j])
			i = j
		default:
			j := i
			for j < len(s) && !strings.ContainsRune("() \n\t\r", rune(s[j])) {
				j++
			}
			out = append(out, s[i:j])
			i = j
		}
	}
	return out
}

// parseVal parses a value starting at toks[i]; returns the index after it.
func parseVal(toks []string, i int) (uint64, int) {
	t := toks[i]
	switch {
	case t == "true":
		return 1, i + 1
	case t == "false":
		return 0, i + 1
	case strings.HasPrefix(t, "#x"):
		v, _ := strconv.ParseUint(t[2:], 16, 64)
		return v, i + 1
	case strings.HasPrefix(t, "#b"):
		v, _ := strconv.ParseUint(t[2:], 2, 64)
		return v, i + 1
	case t == "(":
		if toks[i+1] == "fp" {
			sg, j := parseVal(toks, i+2)
			ex, j2 := parseVal(toks, j)
			mn, j3 := parseVal(toks, j2)
			return sg<<63 | ex<<52 | mn, j3 + 1
		}
		if toks[i+1] == "_" {
			switch toks[i+2] {
			case "+zero":
				return 0, i + 6
			case "-zero":
				return 1 << 63, i + 6
			case "+oo":
				return 0x7ff0000000000000, i + 6
			case "-oo":
				return 0xfff0000000000000, i + 6
			case "NaN":
				return 0x7ff8000000000001, i + 6
			}
		}
	}
	panic(engineError{"cannot parse solver value " + strings.Join(toks[i:min(i+6, len(toks))], " ")})
}
