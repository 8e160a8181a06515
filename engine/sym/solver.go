package sym

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Result int

const (
	Unknown Result = iota
	Sat
	Unsat
)

func (r Result) String() string { return [...]string{"unknown", "sat", "unsat"}[r] }

type Stats struct {
	Queries   int64
	Feas      int64
	SolverNs  int64
	UnsatN    int64
	SatN      int64
	UnknownN  int64
	BySolver  sync.Map
	Disagrees int64
}

var Global Stats

// Solve decides the conjunction with a portfolio of one-shot solver processes.
// vars lists variables whose values are wanted in a model.
func (c *Ctx) Solve(conj []*Term, timeout time.Duration) (Result, Model, string) {
	atomic.AddInt64(&Global.Queries, 1)
	start := time.Now()
	defer func() { atomic.AddInt64(&Global.SolverNs, int64(time.Since(start))) }()
	c.Mu.Lock()
	locked := true
	defer func() {
		if locked {
			c.Mu.Unlock()
		}
	}()
	for _, t := range conj {
		if t.IsFalse() {
			return Unsat, nil, "simplifier"
		}
	}
	conj = c.propagate(flatten(conj))
	type job struct {
		name string
		args []string
		text string
	}
	var vars []*Term
	vs := &VarSet{}
	for _, t := range conj {
		vs.Or(c.VarsOf(t))
	}
	for i, v := range c.Vars {
		if vs.has(i) {
			vars = append(vars, v)
		}
	}
	getv := "(check-sat)\n"
	if len(vars) > 0 {
		var sb strings.Builder
		sb.WriteString("(check-sat)\n(get-value (")
		for _, v := range vars {
			sb.WriteString(VarName(v) + " ")
		}
		sb.WriteString("))\n")
		getv = sb.String()
	}
	var jobs []job
	ms := int(timeout / time.Millisecond)
	if !c.HasInt(conj...) {
		p := NewPrinter(c)
		var as strings.Builder
		ok := true
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, is := r.(ErrUnsupported); is {
						ok = false
						return
					}
					panic(r)
				}
			}()
			for _, t := range conj {
				r := p.Ref(t)
				fmt.Fprintf(&as, "(assert %s)\n", r)
			}
		}()
		if ok {
			txt := p.Take() + as.String()
			jobs = append(jobs, job{"z3-bv", []string{"z3-new", "-in", "-smt2", fmt.Sprintf("-t:%d", ms)}, "(set-option :produce-models true)\n(set-logic QF_BV)\n" + txt + getv})
			jobs = append(jobs, job{"cvc5-bv", []string{"cvc5", "--lang=smt2", "--produce-models", fmt.Sprintf("--tlimit=%d", ms)}, "(set-logic QF_BV)\n" + txt + getv})
		}
	}
	enc := NewIntEnc(c)
	txt, err := enc.Encode(conj)
	if err == nil {
		logic := "ALL"
		jobs = append(jobs, job{"z3-int", []string{"z3", "-in", "-smt2", fmt.Sprintf("-t:%d", ms)}, "(set-option :produce-models true)\n" + txt + getv})
		jobs = append(jobs, job{"z3new-int", []string{"z3-new", "-in", "-smt2", fmt.Sprintf("-t:%d", ms)}, "(set-option :produce-models true)\n" + txt + getv})
		jobs = append(jobs, job{"cvc5-int", []string{"cvc5", "--lang=smt2", "--produce-models", fmt.Sprintf("--tlimit=%d", ms)}, "(set-logic " + logic + ")\n" + txt + getv})
	} else if len(jobs) == 0 {
		atomic.AddInt64(&Global.UnknownN, 1)
		return Unknown, nil, err.Error()
	}
	c.Mu.Unlock()
	locked = false
	ctx, cancel := context.WithTimeout(context.Background(), timeout+5*time.Second)
	defer cancel()
	type res struct {
		r    Result
		m    Model
		name string
	}
	ch := make(chan res, len(jobs))
	// the fastest candidate gets a head start on its own
	first := 0
	for i, j := range jobs {
		if j.name == "z3-bv" {
			first = i
			break
		}
		if j.name == "z3new-int" {
			first = i
		}
	}
	headOver := make(chan struct{})
	var headOnce sync.Once
	endHead := func() { headOnce.Do(func() { close(headOver) }) }
	time.AfterFunc(1500*time.Millisecond, endHead)
	for i, j := range jobs {
		go func(i int, j job) {
			if i != first {
				select {
				case <-headOver:
				case <-ctx.Done():
				}
				if ctx.Err() != nil {
					ch <- res{Unknown, nil, j.name}
					return
				}
			} else {
				defer endHead()
			}
			r, m := runOne(ctx, j.args, j.text, vars)
			ch <- res{r, m, j.name}
		}(i, j)
	}
	for range jobs {
		x := <-ch
		if x.r == Unsat {
			atomic.AddInt64(&Global.UnsatN, 1)
			return Unsat, nil, x.name
		}
		if x.r == Sat {
			// validate the model against the terms themselves
			c.Mu.Lock()
			ev := NewEvaluator(c, x.m)
			good := true
			for _, t := range conj {
				if !ev.True(t) {
					good = false
					break
				}
			}
			c.Mu.Unlock()
			if good {
				atomic.AddInt64(&Global.SatN, 1)
				return Sat, x.m, x.name
			}
			atomic.AddInt64(&Global.Disagrees, 1)
		}
	}
	atomic.AddInt64(&Global.UnknownN, 1)
	return Unknown, nil, "timeout"
}

// DumpQuery renders the conjunction in both encodings (debugging aid).
func (c *Ctx) DumpQuery(conj []*Term) string {
	conj = c.propagate(flatten(conj))
	var out strings.Builder
	if !c.HasInt(conj...) {
		p := NewPrinter(c)
		var as strings.Builder
		for _, t := range conj {
			fmt.Fprintf(&as, "(assert %s)\n", p.Ref(t))
		}
		out.WriteString(p.Take() + as.String() + "(check-sat)\n")
	}
	out.WriteString("; ---- int\n")
	s, err := NewIntEnc(c).Encode(conj)
	if err != nil {
		s = "; " + err.Error()
	}
	out.WriteString(s + "(check-sat)\n")
	return out.String()
}

// propagate substitutes unit literals of the conjunction in its other conjuncts.
func (c *Ctx) propagate(conj []*Term) []*Term {
	for round := 0; round < 4; round++ {
		unit := map[*Term]bool{}
		for _, t := range conj {
			if t.Op == ONot {
				unit[t.A[0]] = false
			} else {
				unit[t] = true
			}
		}
		memo := map[*Term]*Term{}
		n := 0
		var sub func(t *Term, top bool) *Term
		sub = func(t *Term, top bool) *Term {
			if t.K != KBool || t.IsConst() {
				return t
			}
			if !top {
				if v, ok := unit[t]; ok {
					return c.Bool(v)
				}
				if r, ok := memo[t]; ok {
					return r
				}
			}
			if n++; n > 20000 {
				return t
			}
			r := t
			switch t.Op {
			case ONot:
				if a := sub(t.A[0], top); a != t.A[0] {
					r = c.Not(a)
				}
			case OAnd, OOr:
				ch := false
				as := make([]*Term, len(t.A))
				for i, a := range t.A {
					as[i] = sub(a, false)
					ch = ch || as[i] != a
				}
				if ch {
					if t.Op == OAnd {
						r = c.AndN(as...)
					} else {
						r = c.OrN(as...)
					}
				}
			}
			if !top {
				memo[t] = r
			}
			return r
		}
		changed := false
		out := make([]*Term, len(conj))
		for i, t := range conj {
			out[i] = sub(t, true)
			changed = changed || out[i] != t
		}
		if !changed {
			return conj
		}
		conj = flatten(out)
	}
	return conj
}

func flatten(conj []*Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if t.Op == OAnd {
			for _, a := range t.A {
				rec(a)
			}
			return
		}
		if !seen[t] && !t.IsTrue() {
			seen[t] = true
			out = append(out, t)
		}
	}
	for _, t := range conj {
		rec(t)
	}
	return out
}

func runOne(ctx context.Context, args []string, text string, vars []*Term) (Result, Model) {
	cmd := exec.CommandContext(ctx, args[0], args[1:]...)
	cmd.Stdin = strings.NewReader(text)
	out, _ := cmd.Output()
	s := string(out)
	if i := strings.Index(s, "(error"); i >= 0 && !strings.HasPrefix(strings.TrimSpace(s), "unsat") {
		return Unknown, nil
	}
	s = strings.TrimSpace(s)
	switch {
	case strings.HasPrefix(s, "unsat"):
		return Unsat, nil
	case strings.HasPrefix(s, "sat"):
		return Sat, parseModel(s[3:], vars)
	}
	return Unknown, nil
}

func parseModel(s string, vars []*Term) Model {
	byName := map[string]*Term{}
	for _, v := range vars {
		byName[v.Name] = v
	}
	m := Model{}
	toks := tokenize(s)
	// sequence of ( ( name value ) ... )
	i := 0
	if i < len(toks) && toks[i] == "(" {
		i++
	}
	for i < len(toks) && toks[i] == "(" {
		i++
		name := strings.Trim(toks[i], "|")
		i++
		var val *big.Int
		val, i = parseVal(toks, i)
		if i < len(toks) && toks[i] == ")" {
			i++
		}
		if v := byName[name]; v != nil && val != nil {
			if v.K == KBV && val.Sign() < 0 {
				val = new(big.Int).Add(val, pow2(v.W))
			}
			m[v] = val
		}
	}
	return m
}

func parseVal(t []string, i int) (*big.Int, int) {
	x := t[i]
	switch {
	case x == "true":
		return bigOne, i + 1
	case x == "false":
		return bigZero, i + 1
	case strings.HasPrefix(x, "#x"):
		v, _ := new(big.Int).SetString(x[2:], 16)
		return v, i + 1
	case strings.HasPrefix(x, "#b"):
		v, _ := new(big.Int).SetString(x[2:], 2)
		return v, i + 1
	case x == "(":
		if t[i+1] == "-" {
			v, j := parseVal(t, i+2)
			return new(big.Int).Neg(v), j + 1
		}
		if t[i+1] == "_" && strings.HasPrefix(t[i+2], "bv") {
			v, _ := new(big.Int).SetString(t[i+2][2:], 10)
			return v, i + 5
		}
		return nil, i + 1
	default:
		v, ok := new(big.Int).SetString(x, 10)
		if !ok {
			return nil, i + 1
		}
		return v, i + 1
	}
}

func tokenize(s string) []string {
	var out []string
	for i := 0; i < len(s); {
		switch ch := s[i]; {
		case ch == '(' || ch == ')':
			out = append(out, string(ch))
			i++
		case ch == ' ' || ch == '\n' || ch == '\t' || ch == '\r':
			i++
		case ch == '|':
			j := strings.IndexByte(s[i+1:], '|') + i + 2
			out = append(out, s[i:j])
			i = j
		default:
			j := i
			for j < len(s) && !strings.ContainsRune("() \n\t\r", rune(s[j])) {
				j++
			}
			out = append(out, s[i:j])
			i = j
		}
	}
	return out
}

// ---- incremental feasibility solver (bit-vector mode) ----

// SlowDir receives slow feasibility queries (debugging aid).
var SlowDir = os.Getenv("VERIF_SLOW")

type Inc struct {
	log   strings.Builder
	c     *Ctx
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	p     *Printer
	n     int
	dead  bool
	plain *Inc
	TO    int // ms
}

func NewInc(c *Ctx) *Inc { return &Inc{c: c, TO: 500} }

func (s *Inc) start() error {
	s.cmd = exec.Command("z3-new", "-in", "-smt2")
	var err error
	if s.in, err = s.cmd.StdinPipe(); err != nil {
		return err
	}
	o, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.out = bufio.NewReaderSize(o, 1<<20)
	if err = s.cmd.Start(); err != nil {
		return err
	}
	s.p = NewPrinter(s.c)
	s.log.Reset()
	s.n = 0
	fmt.Fprintf(s.in, "(set-option :produce-models true)\n(set-option :timeout %d)\n", s.TO)
	return nil
}

func (s *Inc) Close() {
	if s.plain != nil {
		s.plain.Close()
	}
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// Check decides the conjunction; model covers all variables involved when sat.
func (s *Inc) Check(conj []*Term) (Result, Model) {
	c := s.c
	atomic.AddInt64(&Global.Feas, 1)
	start := time.Now()
	defer func() { atomic.AddInt64(&Global.SolverNs, int64(time.Since(start))) }()
	conj = c.propagate(flatten(conj))
	var vars []*Term
	vs := &VarSet{}
	for _, t := range conj {
		if t.IsFalse() {
			return Unsat, nil
		}
		vs.Or(s.c.VarsOf(t))
	}
	for i, v := range s.c.Vars {
		if vs.has(i) {
			vars = append(vars, v)
		}
	}
	if s.c.HasInt(conj...) {
		return s.checkInt(conj, vars)
	}
	if hardDiv(conj) {
		if r, m := s.checkInt(conj, vars); r != Unknown {
			return r, m
		}
	}
	if s.cmd == nil || s.n > 3000 {
		s.Close()
		if s.start() != nil {
			return Unknown, nil
		}
	}
	s.n++
	var as strings.Builder
	ok := true
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, is := r.(ErrUnsupported); is {
					ok = false
					return
				}
				panic(r)
			}
		}()
		for _, t := range conj {
			fmt.Fprintf(&as, "(assert %s)\n", s.p.Ref(t))
		}
	}()
	if !ok {
		return Unknown, nil
	}
	return s.ask(s.p.Take(), as.String(), vars)
}

// hardDiv reports wide divisions, which bit-blast badly.
func hardDiv(conj []*Term) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		switch t.Op {
		case OUDiv, OURem, OSDiv, OSRem:
			if t.W >= 32 {
				return true
			}
		}
		for _, a := range t.A {
			if rec(a) {
				return true
			}
		}
		return false
	}
	for _, t := range conj {
		if rec(t) {
			return true
		}
	}
	return false
}

func (s *Inc) checkInt(conj []*Term, vars []*Term) (Result, Model) {
	txt, err := NewIntEnc(s.c).Encode(conj)
	if err != nil {
		if SlowDir != "" {
			fmt.Fprintln(os.Stderr, "int encoding:", err)
		}
		return Unknown, nil
	}
	if s.cmd == nil {
		if s.start() != nil {
			return Unknown, nil
		}
	}
	// everything inside one push/pop; BV-mode definitions stay outside
	s.n++
	t0 := time.Now()
	r, m := s.ask("", txt, vars)
	if r == Unknown && time.Since(t0) < time.Duration(s.TO)*time.Millisecond*8/10 {
		// the incremental core gave up early: ask a solver without history
		if s.plain == nil {
			s.plain = &Inc{c: s.c, TO: 2 * s.TO}
		}
		p := s.plain
		if p.cmd == nil && p.start() != nil {
			return r, m
		}
		p.n++
		r, m = p.askPlain(txt, vars)
		if r == Unknown && SlowDir != "" {
			os.WriteFile(fmt.Sprintf("%s/unk%d.smt2", SlowDir, p.n), []byte(txt+"(check-sat)\n"), 0o644)
		}
	}
	return r, m
}

func (s *Inc) ask(defs, body string, vars []*Term) (Result, Model) {
	if SlowDir != "" {
		t0 := time.Now()
		s.log.WriteString(defs)
		defer func() {
			if d := time.Since(t0); d > 100*time.Millisecond {
				os.WriteFile(fmt.Sprintf("%s/slow%d-%d.smt2", SlowDir, s.n, d.Milliseconds()), []byte(s.log.String()+body+"(check-sat)\n"), 0o644)
			}
		}()
	}
	io.WriteString(s.in, defs+"(push)\n"+body+"(check-sat)\n")
	r, m := s.answer(vars)
	if s.cmd != nil {
		io.WriteString(s.in, "(pop)\n")
	}
	return r, m
}

// askPlain asks without push, so that the solver picks its own tactic.
func (s *Inc) askPlain(body string, vars []*Term) (Result, Model) {
	io.WriteString(s.in, fmt.Sprintf("(reset)\n(set-option :produce-models true)\n(set-option :timeout %d)\n%s(check-sat)\n", s.TO, body))
	return s.answer(vars)
}

func (s *Inc) answer(vars []*Term) (Result, Model) {
	line, err := s.readLine()
	if err != nil {
		s.Close()
		return Unknown, nil
	}
	var r Result
	var m Model
	switch line {
	case "sat":
		r = Sat
		if len(vars) > 0 {
			var sb strings.Builder
			sb.WriteString("(get-value (")
			for _, v := range vars {
				sb.WriteString(VarName(v) + " ")
			}
			sb.WriteString("))\n")
			io.WriteString(s.in, sb.String())
			txt, err := s.readSexp()
			if err != nil {
				s.Close()
				return Unknown, nil
			}
			m = parseModel(txt, vars)
		} else {
			m = Model{}
		}
	case "unsat":
		r = Unsat
	default:
		r = Unknown
		if strings.HasPrefix(line, "(error") {
			s.Close()
			return Unknown, nil
		}
	}
	return r, m
}

func (s *Inc) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

func (s *Inc) readSexp() (string, error) {
	var sb strings.Builder
	depth := 0
	inq := false
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		sb.WriteByte(b)
		if b == '|' {
			inq = !inq
		}
		if inq {
			continue
		}
		if b == '(' {
			depth++
		}
		if b == ')' {
			depth--
			if depth == 0 {
				return sb.String(), nil
			}
		}
	}
}
