package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

type Stats struct {
	Queries, Sat, Unsat, Unknown int64
	SolverNS                     int64
	Asserts, Discharged          int64
	Trivial                      int64 // assertions decided by simplification alone (no symbolic input reaches them)
	Paths, Decisions, Instrs     int64
	Incomplete, Pruned, Errors   int64
	Domain                       int64 // alternatives left out because of the values left of one byte
	Confirmed                    int64 // of those, confirmed by the solver at the end of the path
}

func (s *Stats) addConfirmed(n int64) { atomic.AddInt64(&s.Confirmed, n) }
func (s *Stats) addDomain()           { atomic.AddInt64(&s.Domain, 1) }

type Solver struct {
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	stats *Stats
	gen   int
	tmo   int
	sb    strings.Builder
	dead  bool
	sent  bool // something of the current path was sent
	bin   string
}

func NewSolver(bin string, timeoutMS int, stats *Stats) (*Solver, error) {
	s := &Solver{stats: stats, tmo: timeoutMS, bin: bin}
	return s, s.start()
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.bin, "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.in, s.out = in, bufio.NewReader(out)
	s.dead = false
	fmt.Fprintf(s.in, "(set-option :print-success false)\n(set-option :timeout %d)\n(set-option :produce-models true)\n(set-logic QF_BV)\n", s.tmo)
	return nil
}

func (s *Solver) Close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

var genCounter int64

// Reset starts a new path: all previous definitions and assertions are dropped.
func (s *Solver) Reset() {
	if s.dead {
		s.Close()
		s.start()
		s.sb.Reset()
	} else if s.gen != 0 && !s.sent {
		s.sb.Reset() // nothing of the last path reached the solver
	} else if s.gen != 0 {
		// definitions not sent yet may be pending, as may the pop of the last query: send them first
		s.sb.WriteString("(pop 1)\n")
		s.flush()
	}
	s.gen = int(atomic.AddInt64(&genCounter, 1))
	s.sb.WriteString("(push 1)\n")
	s.sent = false
}

// Assert adds t permanently to the current path.
func (s *Solver) Assert(t *Term) {
	t.emit(&s.sb, s.gen)
	fmt.Fprintf(&s.sb, "(assert %s)\n", t.ref())
}

type Result int

const (
	Unknown Result = iota
	Sat
	Unsat
)

// Check decides whether the current assertions and extra are satisfiable, returning a model of vars.
func (s *Solver) Check(extra *Term, vars []*Term) (Result, map[string]uint64) {
	if s.dead {
		return Unknown, nil
	}
	t0 := time.Now()
	defer func() { atomic.AddInt64(&s.stats.SolverNS, int64(time.Since(t0))) }()
	atomic.AddInt64(&s.stats.Queries, 1)
	if extra != nil {
		extra.emit(&s.sb, s.gen)
		s.sb.WriteString("(push 1)\n")
		fmt.Fprintf(&s.sb, "(assert %s)\n", extra.ref())
	}
	for _, v := range vars {
		if v.defGen != s.gen {
			// not mentioned so far: unconstrained
			continue
		}
	}
	s.sb.WriteString("(check-sat)\n")
	if err := s.flush(); err != nil {
		s.dead = true
		atomic.AddInt64(&s.stats.Unknown, 1)
		return Unknown, nil
	}
	line, err := s.readLine()
	if err != nil {
		s.dead = true
		atomic.AddInt64(&s.stats.Unknown, 1)
		return Unknown, nil
	}
	var res Result
	var model map[string]uint64
	switch line {
	case "sat":
		res = Sat
		atomic.AddInt64(&s.stats.Sat, 1)
		model = map[string]uint64{}
		var names []*Term
		for _, v := range vars {
			if v.defGen == s.gen {
				names = append(names, v)
			}
		}
		if len(names) > 0 {
			s.sb.WriteString("(get-value (")
			for _, v := range names {
				s.sb.WriteString(v.ref())
				s.sb.WriteByte(' ')
			}
			s.sb.WriteString("))\n")
			if err := s.flush(); err != nil {
				s.dead = true
				return Unknown, nil
			}
			txt, err := s.readSexp()
			if err != nil || !parseModel(txt, model) {
				s.dead = true
				return Unknown, nil
			}
		}
	case "unsat":
		res = Unsat
		atomic.AddInt64(&s.stats.Unsat, 1)
	default:
		res = Unknown
		atomic.AddInt64(&s.stats.Unknown, 1)
		if strings.HasPrefix(line, "(error") {
			atomic.AddInt64(&s.stats.Errors, 1)
			if os.Getenv("VERIF_SMT") != "" {
				fmt.Fprintln(os.Stderr, "smt:", line)
			}
			s.dead = true
			return Unknown, nil
		}
	}
	if extra != nil {
		s.sb.WriteString("(pop 1)\n")
	}
	return res, model
}

func (s *Solver) flush() error {
	s.sent = true
	_, err := io.WriteString(s.in, s.sb.String())
	s.sb.Reset()
	return err
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

func (s *Solver) readSexp() (string, error) {
	var sb strings.Builder
	depth := 0
	inBar := false
	started := false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		sb.WriteByte(c)
		if c == '|' {
			inBar = !inBar
		}
		if inBar {
			continue
		}
		if c == '(' {
			depth++
			started = true
		} else if c == ')' {
			depth--
		}
		if started && depth == 0 {
			return sb.String(), nil
		}
	}
}

// parseModel parses ((|x#0| #x00) (b true) ...): names contain neither blanks nor parentheses.
func parseModel(s string, m map[string]uint64) bool {
	if strings.Contains(s, "error") {
		return false
	}
	f := strings.FieldsFunc(s, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' || r == '\t' })
	if len(f)%2 != 0 {
		return false
	}
	for i := 0; i < len(f); i += 2 {
		v, ok := parseVal(f[i+1])
		if !ok {
			return false
		}
		m[strings.Trim(f[i], "|")] = v
	}
	return true
}

func parseVal(tok string) (uint64, bool) {
	switch {
	case tok == "true":
		return 1, true
	case tok == "false":
		return 0, true
	case strings.HasPrefix(tok, "#x"):
		v, err := strconv.ParseUint(tok[2:], 16, 64)
		return v, err == nil
	case strings.HasPrefix(tok, "#b"):
		v, err := strconv.ParseUint(tok[2:], 2, 64)
		return v, err == nil
	default:
		v, err := strconv.ParseUint(tok, 10, 64)
		return v, err == nil
	}
}
