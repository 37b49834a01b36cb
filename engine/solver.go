package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type Sat int

const (
	SatUnknown Sat = iota
	SatYes
	SatNo
)

// Solver is one long-lived SMT process; one push/pop scope per explored path.
type Solver struct {
	args    []string
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	defined map[*Term]string
	nameN   int
	timeout int // ms per query
	buf     strings.Builder

	// statistics
	Where    func() string // debugging
	Queries  int
	Unknowns int
	Time     time.Duration
	dead     bool
	log      io.Writer
	asserted []*Term // assertions of the current path, for restarts
}

func NewSolver(args []string, timeoutMs int) *Solver {
	s := &Solver{args: args, timeout: timeoutMs}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.args[0], s.args[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in = in
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.dead = false
	s.defined = map[*Term]string{}
	s.buf.Reset()
	s.buf.WriteString("(set-option :print-success false)\n(set-option :produce-models true)\n")
	if strings.Contains(s.args[0], "z3") {
		fmt.Fprintf(&s.buf, "(set-option :timeout %d)\n", s.timeout)
	} else {
		s.buf.WriteString("(set-logic ALL)\n")
	}
	s.buf.WriteString("(push 1)\n")
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) restart() {
	s.Close()
	s.start()
	for _, a := range s.asserted {
		r := s.ref(a)
		fmt.Fprintf(&s.buf, "(assert %s)\n", r)
	}
}

// Reset discards everything asserted/defined for the previous path.
func (s *Solver) Reset() {
	s.asserted = s.asserted[:0]
	if s.dead {
		s.Close()
		s.start()
		return
	}
	s.buf.WriteString("(pop 1)\n(push 1)\n")
	s.defined = map[*Term]string{}
	s.nameN = 0
}

func (s *Solver) ref(t *Term) string {
	if t.Op == OpConst {
		return constSMT(t)
	}
	if n, ok := s.defined[t]; ok {
		return n
	}
	if t.Op == OpVar {
		n := varName(t.Name)
		fmt.Fprintf(&s.buf, "(declare-const %s %s)\n", n, sortOf(t.W))
		s.defined[t] = n
		return n
	}
	// iterative deepening is unnecessary: terms are shallow in practice
	body := nodeSMT(t, s.ref)
	s.nameN++
	n := "t" + strconv.Itoa(s.nameN)
	fmt.Fprintf(&s.buf, "(define-fun %s () %s %s)\n", n, sortOf(t.W), body)
	s.defined[t] = n
	return n
}

func (s *Solver) Assert(t *Term) {
	if t == True {
		return
	}
	s.asserted = append(s.asserted, t)
	r := s.ref(t)
	fmt.Fprintf(&s.buf, "(assert %s)\n", r)
}

func (s *Solver) flush() error {
	str := s.buf.String()
	s.buf.Reset()
	if s.log != nil {
		io.WriteString(s.log, str)
	}
	_, err := io.WriteString(s.in, str)
	return err
}

func (s *Solver) readLine() (string, error) {
	type res struct {
		l   string
		err error
	}
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

// Check decides satisfiability of the path condition together with extra.
func (s *Solver) Check(extra *Term) Sat {
	if extra != nil && extra == False {
		return SatNo
	}
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		s.Time += d
		if debugSolver && d > time.Second && s.Where != nil {
			fmt.Fprintf(os.Stderr, "slow query %v at %s\n", d, s.Where())
		}
	}()
	s.Queries++
	for attempt := 0; attempt < 2; attempt++ {
		if s.dead {
			s.restart()
		}
		if extra != nil && extra != True {
			r := s.ref(extra)
			s.buf.WriteString("(push 1)\n")
			fmt.Fprintf(&s.buf, "(assert %s)\n(check-sat)\n", r)
		} else {
			s.buf.WriteString("(push 1)\n(check-sat)\n")
		}
		err := s.flush()
		var l string
		if err == nil {
			watchdog := time.AfterFunc(time.Duration(s.timeout)*time.Millisecond*2+5*time.Second, func() {
				s.cmd.Process.Kill()
			})
			l, err = s.readLine()
			watchdog.Stop()
		}
		if err != nil {
			s.dead = true
			continue
		}
		switch l {
		case "sat":
			return SatYes
		case "unsat":
			return SatNo
		case "unknown", "timeout":
			s.Unknowns++
			return SatUnknown
		default:
			// an (error ...) line: inconclusive; the process state is unreliable
			if debugSolver {
				fmt.Println("solver said:", l)
			}
			s.dead = true
			s.Unknowns++
			s.buf.Reset()
			return SatUnknown
		}
	}
	s.Unknowns++
	return SatUnknown
}

var debugSolver = os.Getenv("GOSYM_SOLVER") != ""

// EndCheck closes the scope opened by Check (after any Model call).
func (s *Solver) EndCheck() {
	if !s.dead {
		s.buf.WriteString("(pop 1)\n")
		// definitions made inside the scope do not survive it: we only define
		// before the push, so nothing to forget.
	}
}

// Model reads variable values after a SatYes Check.
func (s *Solver) Model(vars []*Term) (Model, error) {
	m := Model{}
	var need []*Term
	for _, v := range vars {
		if _, ok := s.defined[v]; ok {
			need = append(need, v)
		}
	}
	if len(need) == 0 {
		return m, nil
	}
	var b strings.Builder
	b.WriteString("(get-value (")
	for _, v := range need {
		b.WriteString(varName(v.Name))
		b.WriteByte(' ')
	}
	b.WriteString("))\n")
	s.buf.WriteString(b.String())
	if err := s.flush(); err != nil {
		s.dead = true
		return nil, err
	}
	// read one balanced s-expression
	depth := 0
	var sb strings.Builder
	inBar := false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			s.dead = true
			return nil, err
		}
		sb.WriteByte(c)
		if c == '|' {
			inBar = !inBar
		}
		if inBar {
			continue
		}
		if c == '(' {
			depth++
		} else if c == ')' {
			depth--
			if depth == 0 {
				break
			}
		}
	}
	s.out.ReadString('\n')
	txt := sb.String()
	if strings.HasPrefix(txt, "(error") {
		return nil, fmt.Errorf("%s", txt)
	}
	// parse pairs (name value)
	i := 1
	skip := func() {
		for i < len(txt) && (txt[i] == ' ' || txt[i] == '\n' || txt[i] == '\t' || txt[i] == '\r') {
			i++
		}
	}
	for k := 0; k < len(need); k++ {
		skip()
		if txt[i] != '(' {
			return nil, fmt.Errorf("bad model %q", txt[i:])
		}
		i++
		skip()
		if txt[i] == '|' {
			j := strings.IndexByte(txt[i+1:], '|')
			i += j + 2
		} else {
			for txt[i] != ' ' {
				i++
			}
		}
		skip()
		j := i
		d := 0
		for {
			if txt[j] == '(' {
				d++
			} else if txt[j] == ')' {
				if d == 0 {
					break
				}
				d--
			}
			j++
		}
		val := strings.TrimSpace(txt[i:j])
		i = j + 1
		var v uint64
		switch {
		case val == "true":
			v = 1
		case val == "false":
			v = 0
		case strings.HasPrefix(val, "#x"):
			v, _ = strconv.ParseUint(val[2:], 16, 64)
		case strings.HasPrefix(val, "#b"):
			v, _ = strconv.ParseUint(val[2:], 2, 64)
		case strings.HasPrefix(val, "(_ bv"):
			f := strings.Fields(val[5:])
			v, _ = strconv.ParseUint(f[0], 10, 64)
		default:
			return nil, fmt.Errorf("bad value %q", val)
		}
		m[need[k].Name] = v
	}
	return m, nil
}
