package main

import (
	"bufio"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Assign is a model: variable name -> value.
type Assign map[string]*big.Int

type qres struct {
	sat   int // 1 sat, 0 unsat, -1 unknown
	model Assign
}

type qkey struct{ a, b uint64 }

// Solver is one worker's solver process plus the shared cache.
type Solver struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	sh   *Shared
	nqry int
}

// Shared is state common to all workers of one exploration.
type Shared struct {
	cache    sync.Map // qkey -> *qres
	queries  int64
	hits     int64
	satN     int64
	unsatN   int64
	unknownN int64
	nanos    int64
	crossChk int64
	crossBad int64
	fallback int64
	binName  string
	timeout  int // ms
	dump     string
}

func (s *Solver) start() error {
	bin := s.sh.binName
	cmd := exec.Command(bin, "-in", fmt.Sprintf("-t:%d", s.sh.timeout))
	in, err := cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return err
	}
	cmd.Stderr = os.Stderr
	if err := cmd.Start(); err != nil {
		return err
	}
	s.cmd, s.in, s.out = cmd, in, bufio.NewReaderSize(out, 1<<16)
	io.WriteString(s.in, "(set-option :print-success false)\n(set-option :produce-models true)\n(set-option :pp.bv-literals true)\n")
	return nil
}

func (s *Solver) stop() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func qk(cs []*Term) qkey {
	var k qkey
	seen := map[*Term]bool{}
	for _, c := range cs {
		if seen[c] {
			continue
		}
		seen[c] = true
		k.a += mix(c.h1, 0x51)
		k.b += mix(c.h2, 0x77)
	}
	return k
}

func collectVars(cs []*Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || t.Op == OConst {
			return
		}
		seen[t] = true
		if t.Op == OVar {
			out = append(out, t)
			return
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	for _, c := range cs {
		walk(c)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name < out[j].Name })
	return out
}

func script(cs []*Term, vars []*Term) string {
	var sb strings.Builder
	for _, v := range vars {
		fmt.Fprintf(&sb, "(declare-const |%s| %s)\n", v.Name, sortStr(v.W))
	}
	p := &printer{sb: &sb, names: map[*Term]string{}}
	txt := p.emit(cs)
	for _, t := range txt {
		sb.WriteString("(assert ")
		sb.WriteString(t)
		sb.WriteString(")\n")
	}
	return sb.String()
}

// Check decides the conjunction of cs.
func (s *Solver) Check(cs []*Term) *qres {
	k := qk(cs)
	if r, ok := s.sh.cache.Load(k); ok {
		atomic.AddInt64(&s.sh.hits, 1)
		return r.(*qres)
	}
	t0 := time.Now()
	vars := collectVars(cs)
	scr := script(cs, vars)
	r := s.ask(scr, vars)
	if r.sat < 0 {
		atomic.AddInt64(&s.sh.fallback, 1)
		r = askCVC5(scr, vars, s.sh.timeout)
	}
	atomic.AddInt64(&s.sh.nanos, int64(time.Since(t0)))
	n := atomic.AddInt64(&s.sh.queries, 1)
	switch r.sat {
	case 1:
		atomic.AddInt64(&s.sh.satN, 1)
	case 0:
		atomic.AddInt64(&s.sh.unsatN, 1)
		// sampled cross-check of unsat answers with a second solver
		if n%997 == 3 {
			x := askCVC5(scr, vars, s.sh.timeout)
			atomic.AddInt64(&s.sh.crossChk, 1)
			if x.sat == 1 {
				atomic.AddInt64(&s.sh.crossBad, 1)
			}
		}
	default:
		atomic.AddInt64(&s.sh.unknownN, 1)
		if s.sh.dump != "" {
			os.WriteFile(fmt.Sprintf("%s/unk%d.smt2", s.sh.dump, n), []byte(scr+"(check-sat)\n"), 0o644)
		}
	}
	s.sh.cache.Store(k, r)
	return r
}

func (s *Solver) ask(scr string, vars []*Term) *qres {
	if s.cmd == nil {
		if err := s.start(); err != nil {
			panic(err)
		}
	}
	s.nqry++
	if s.nqry%5000 == 0 { // bound solver memory
		s.stop()
		if err := s.start(); err != nil {
			panic(err)
		}
	}
	if _, err := io.WriteString(s.in, "(push)\n"+scr+"(check-sat)\n"); err != nil {
		s.stop()
		return &qres{sat: -1}
	}
	line, err := s.readLine()
	if err != nil {
		s.stop()
		return &qres{sat: -1}
	}
	switch line {
	case "unsat":
		io.WriteString(s.in, "(pop)\n")
		return &qres{sat: 0}
	case "sat":
		a := Assign{}
		if len(vars) > 0 {
			var sb strings.Builder
			sb.WriteString("(get-value (")
			for _, v := range vars {
				sb.WriteString("|" + v.Name + "| ")
			}
			sb.WriteString("))\n(pop)\n")
			io.WriteString(s.in, sb.String())
			txt, err := s.readSexp()
			if err != nil || !parseValues(txt, vars, a) {
				s.stop()
				return &qres{sat: -1}
			}
		} else {
			io.WriteString(s.in, "(pop)\n")
		}
		return &qres{sat: 1, model: a}
	}
	// unknown, timeout or an error: drop the process to stay in sync
	if strings.HasPrefix(line, "(error") {
		fmt.Fprintln(os.Stderr, "solver error:", line)
	}
	s.stop()
	return &qres{sat: -1}
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

func (s *Solver) readSexp() (string, error) {
	var sb strings.Builder
	depth, started, quoted := 0, false, false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		sb.WriteByte(c)
		if c == '|' {
			quoted = !quoted
		}
		if quoted {
			continue
		}
		if c == '(' {
			depth++
			started = true
		}
		if c == ')' {
			depth--
		}
		if started && depth == 0 {
			return sb.String(), nil
		}
	}
}

func parseValues(txt string, vars []*Term, a Assign) bool {
	if strings.HasPrefix(strings.TrimSpace(txt), "(error") {
		fmt.Fprintln(os.Stderr, "solver error:", txt)
		return false
	}
	// ((|x| #x00) (|y| true) ...) in the order asked; cvc5 may omit bars
	i := 0
	for _, v := range vars {
		// find '(' then the name, then the value
		nm := v.Name
		j := strings.Index(txt[i:], nm)
		if j < 0 {
			return false
		}
		i += j + len(nm)
		for i < len(txt) && (txt[i] == '|' || txt[i] == ' ' || txt[i] == '\n' || txt[i] == '\t') {
			i++
		}
		j = strings.IndexByte(txt[i:], ')')
		if j < 0 {
			return false
		}
		val := strings.TrimSpace(txt[i : i+j])
		i += j
		x := new(big.Int)
		switch {
		case val == "true":
			x.SetInt64(1)
		case val == "false":
		case strings.HasPrefix(val, "#x"):
			x.SetString(val[2:], 16)
		case strings.HasPrefix(val, "#b"):
			x.SetString(val[2:], 2)
		default:
			return false
		}
		a[v.Name] = x
	}
	return true
}

func askCVC5(scr string, vars []*Term, timeout int) *qres {
	var sb strings.Builder
	sb.WriteString("(set-logic QF_BV)\n(set-option :produce-models true)\n")
	sb.WriteString(scr)
	sb.WriteString("(check-sat)\n")
	if len(vars) > 0 {
		sb.WriteString("(get-value (")
		for _, v := range vars {
			sb.WriteString("|" + v.Name + "| ")
		}
		sb.WriteString("))\n")
	}
	cmd := exec.Command("cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", timeout))
	cmd.Stdin = strings.NewReader(sb.String())
	out, _ := cmd.Output()
	txt := strings.TrimSpace(string(out))
	if strings.HasPrefix(txt, "unsat") {
		return &qres{sat: 0}
	}
	if strings.HasPrefix(txt, "sat") {
		a := Assign{}
		if !parseValues(txt[3:], vars, a) && len(vars) > 0 {
			return &qres{sat: -1}
		}
		return &qres{sat: 1, model: a}
	}
	return &qres{sat: -1}
}
