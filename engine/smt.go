package main

// SMT-LIB2 back end: one long-lived z3 process per worker, driven with
// push/pop; definitions are global so that shared sub-terms are sent once.
// Queries a process does not decide in time go to a portfolio of one-shot
// solvers (z3-new, cvc5).

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

type SatResult int

const (
	Unsat SatResult = iota
	Sat
	Unknown
)

func (r SatResult) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

type SolverStats struct {
	Queries, Sats, Unsats, Unknowns, Fallbacks, Cached int64
	Nanos                                              int64
}

var solverStats SolverStats

type Solver struct {
	bin     string
	cmd     *exec.Cmd
	in      *bufio.Writer
	inPipe  io.WriteCloser
	out     *bufio.Reader
	epoch   int
	pushed  bool
	pc      []*Term // currently asserted path condition
	timeout int     // ms per query
	nq      int
	buf     []byte
	broken  bool
	log     io.Writer
}

var solverEpoch int64

func NewSolver(bin string, timeoutMs int) (*Solver, error) {
	s := &Solver{bin: bin, timeout: timeoutMs}
	return s, s.start()
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.bin, "-in")
	s.cmd.Stderr = nil
	w, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	r, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.inPipe = w
	s.in = bufio.NewWriterSize(w, 1<<16)
	s.out = bufio.NewReaderSize(r, 1<<16)
	s.epoch = int(atomic.AddInt64(&solverEpoch, 1))
	s.broken = false
	s.pushed = false
	s.pc = nil
	s.nq = 0
	s.send("(set-option :global-declarations true)\n")
	s.send("(set-option :produce-models true)\n")
	s.send(fmt.Sprintf("(set-option :timeout %d)\n", s.timeout))
	return nil
}

func (s *Solver) Close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.inPipe.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Solver) restart() error {
	s.Close()
	return s.start()
}

func (s *Solver) send(str string) {
	if dbgSolver != nil {
		dbgSolver.WriteString(str)
	}
	s.in.WriteString(str)
}

var dbgSolver *os.File

func sortName(w uint8) string {
	switch {
	case w == SBool:
		return "Bool"
	case w == SF64:
		return "(_ FloatingPoint 11 53)"
	case w == SF32:
		return "(_ FloatingPoint 8 24)"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func constStr(t *Term) string {
	switch {
	case t.w == SBool:
		if t.val == 1 {
			return "true"
		}
		return "false"
	case t.w == SF64:
		return fmt.Sprintf("((_ to_fp 11 53) #x%016x)", t.val)
	case t.w == SF32:
		return fmt.Sprintf("((_ to_fp 8 24) #x%08x)", t.val)
	case t.w%4 == 0:
		return fmt.Sprintf("#x%0*x", int(t.w/4), t.val)
	}
	return fmt.Sprintf("(_ bv%d %d)", t.val, t.w)
}

func symName(n string) string { return "|" + n + "|" }

var opNames = map[Op]string{
	ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite",
	OBvAdd: "bvadd", OBvSub: "bvsub", OBvMul: "bvmul", OBvUDiv: "bvudiv", OBvURem: "bvurem",
	OBvSDiv: "bvsdiv", OBvSRem: "bvsrem", OBvAnd: "bvand", OBvOr: "bvor", OBvXor: "bvxor", OBvNot: "bvnot",
	OBvShl: "bvshl", OBvLshr: "bvlshr", OBvAshr: "bvashr", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle",
	OConcat: "concat", OFAdd: "fp.add RNE", OFSub: "fp.sub RNE", OFMul: "fp.mul RNE", OFDiv: "fp.div RNE", OFNeg: "fp.neg",
	OFLt: "fp.lt", OFLe: "fp.leq", OFEq: "fp.eq", OFIsNaN: "fp.isNaN",
}

func fpParams(w uint8) string {
	if w == SF32 {
		return "8 24"
	}
	return "11 53"
}

func opHead(t *Term) string {
	switch t.op {
	case OZext:
		return fmt.Sprintf("(_ zero_extend %d)", t.w-t.a.w)
	case OSext:
		return fmt.Sprintf("(_ sign_extend %d)", t.w-t.a.w)
	case OExtract:
		return fmt.Sprintf("(_ extract %d %d)", t.val>>8, t.val&0xff)
	case OFRound:
		return "fp.roundToIntegral " + [...]string{"RNE", "RNA", "RTP", "RTN", "RTZ"}[t.val]
	case OFFromS:
		return fmt.Sprintf("(_ to_fp %s) RNE", fpParams(t.w))
	case OFFromU:
		return fmt.Sprintf("(_ to_fp_unsigned %s) RNE", fpParams(t.w))
	case OFFromF:
		return fmt.Sprintf("(_ to_fp %s) RNE", fpParams(t.w))
	case OFFromBits:
		return fmt.Sprintf("(_ to_fp %s)", fpParams(t.w))
	case OFToS:
		return fmt.Sprintf("(_ fp.to_sbv %d) RTZ", t.w)
	case OFToU:
		return fmt.Sprintf("(_ fp.to_ubv %d) RTZ", t.w)
	}
	return opNames[t.op]
}

func refStr(t *Term) string {
	switch t.op {
	case OConst:
		return constStr(t)
	case OVar:
		return symName(t.name)
	}
	return "t" + strconv.Itoa(t.id)
}

// emit makes sure t and its sub-terms are defined in the solver (iterative DFS).
func emitDefs(t *Term, seen func(*Term) bool, mark func(*Term), out func(string)) {
	if t.op == OConst || seen(t) {
		return
	}
	stack := []*Term{t}
	for len(stack) > 0 {
		x := stack[len(stack)-1]
		if x.op == OConst || seen(x) {
			stack = stack[:len(stack)-1]
			continue
		}
		if x.op == OVar {
			out(fmt.Sprintf("(declare-fun %s () %s)\n", symName(x.name), sortName(x.w)))
			mark(x)
			stack = stack[:len(stack)-1]
			continue
		}
		ready := true
		for _, y := range [...]*Term{x.a, x.b, x.c} {
			if y != nil && y.op != OConst && !seen(y) {
				stack = append(stack, y)
				ready = false
			}
		}
		if !ready {
			continue
		}
		var sb strings.Builder
		fmt.Fprintf(&sb, "(define-fun t%d () %s (%s", x.id, sortName(x.w), opHead(x))
		for _, y := range [...]*Term{x.a, x.b, x.c} {
			if y != nil {
				sb.WriteByte(' ')
				sb.WriteString(refStr(y))
			}
		}
		sb.WriteString("))\n")
		out(sb.String())
		mark(x)
		stack = stack[:len(stack)-1]
	}
}

func (s *Solver) emit(t *Term) {
	ep := s.epoch
	emitDefs(t, func(x *Term) bool { return x.epoch == ep }, func(x *Term) { x.epoch = ep }, s.send)
}

// sync aligns the asserted path condition with pc (monotone extension or reset).
func (s *Solver) sync(pc []*Term) {
	common := 0
	if s.pushed && len(s.pc) <= len(pc) {
		for common < len(s.pc) && s.pc[common] == pc[common] {
			common++
		}
	}
	if !s.pushed || common < len(s.pc) {
		if s.pushed {
			s.send("(pop 1)\n")
		}
		s.send("(push 1)\n")
		s.pushed = true
		s.pc = s.pc[:0]
		common = 0
	}
	for _, t := range pc[common:] {
		s.emit(t)
		s.send("(assert " + refStr(t) + ")\n")
		s.pc = append(s.pc, t)
	}
}

// Check decides pc ∧ extra; on Sat returns values of vars.
func (s *Solver) Check(pc []*Term, extra *Term, vars []*Term) (SatResult, Model) {
	atomic.AddInt64(&solverStats.Queries, 1)
	start := time.Now()
	defer func() {
		d := time.Since(start)
		atomic.AddInt64(&solverStats.Nanos, int64(d))
		if dir := os.Getenv("GOSYM_SLOW"); dir != "" && d > 100*time.Millisecond {
			os.WriteFile(fmt.Sprintf("%s/%d-%.1fs.smt2", dir, start.UnixNano(), d.Seconds()), []byte(fullScript(pc, extra, vars)), 0o644)
		}
	}()
	s.nq++
	if s.broken || s.nq > 4000 {
		if err := s.restart(); err != nil {
			return Unknown, nil
		}
	}
	if time.Now().After(queryDeadline()) {
		return Unknown, nil
	}
	r, m := s.race(pc, extra, vars)
	if r == Unknown {
		ctx, cancel := context.WithDeadline(context.Background(), queryDeadline())
		select {
		case portfolio <- true:
			r, m = oneShot(ctx, pc, extra, vars, allSolvers, fallbackTimeout)
			<-portfolio
		case <-ctx.Done():
		}
		cancel()
	}
	switch r {
	case Sat:
		atomic.AddInt64(&solverStats.Sats, 1)
	case Unsat:
		atomic.AddInt64(&solverStats.Unsats, 1)
	default:
		atomic.AddInt64(&solverStats.Unknowns, 1)
	}
	return r, m
}

// race asks the incremental solver and, if it does not answer at once, others
// in processes of their own; the first verdict counts.
func (s *Solver) race(pc []*Term, extra *Term, vars []*Term) (SatResult, Model) {
	type res struct {
		r SatResult
		m Model
	}
	inc := make(chan res, 1)
	go func() {
		r, m := s.check1(pc, extra, vars)
		inc <- res{r, m}
	}()
	t := time.NewTimer(60 * time.Millisecond)
	defer t.Stop()
	select {
	case x := <-inc:
		if x.r != Unknown {
			return x.r, x.m
		}
		inc <- x
	case <-t.C:
	}
	atomic.AddInt64(&solverStats.Fallbacks, 1)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	other := make(chan res, 1)
	go func() {
		r, m := oneShot(ctx, pc, extra, vars, secondSolvers, 6*time.Second)
		other <- res{r, m}
	}()
	var first, second res
	over := time.AfterFunc(time.Until(queryDeadline()), func() { s.cmd.Process.Kill(); cancel() })
	defer over.Stop()
	select {
	case first = <-inc:
		if first.r != Unknown {
			return first.r, first.m
		}
		second = <-other
		return second.r, second.m
	case second = <-other:
		if second.r != Unknown {
			s.cmd.Process.Kill()
			<-inc
			s.broken = true
			return second.r, second.m
		}
		first = <-inc
		return first.r, first.m
	}
}

func (s *Solver) readLine() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

func (s *Solver) check1(pc []*Term, extra *Term, vars []*Term) (SatResult, Model) {
	s.sync(pc)
	if extra != nil {
		s.emit(extra)
	}
	for _, v := range vars {
		s.emit(v)
	}
	s.send("(push 1)\n")
	if extra != nil {
		s.send("(assert " + refStr(extra) + ")\n")
	}
	s.send("(check-sat)\n")
	if err := s.in.Flush(); err != nil {
		s.broken = true
		return Unknown, nil
	}
	// watchdog: z3's own timeout is not always honoured
	wd := time.AfterFunc(time.Duration(s.timeout)*time.Millisecond*2+2*time.Second, func() { s.cmd.Process.Kill() })
	line, err := s.readLine()
	wd.Stop()
	if err != nil {
		s.broken = true
		return Unknown, nil
	}
	switch line {
	case "unsat":
		s.send("(pop 1)\n")
		return Unsat, nil
	case "sat":
		var m Model
		if len(vars) > 0 {
			var sb strings.Builder
			sb.WriteString("(get-value (")
			for _, v := range vars {
				sb.WriteString(refStr(v))
				sb.WriteByte(' ')
			}
			sb.WriteString("))\n")
			s.send(sb.String())
			s.send("(echo \"END\")\n")
			s.in.Flush()
			var txt bytes.Buffer
			for {
				l, err := s.readLine()
				if err != nil {
					s.broken = true
					return Unknown, nil
				}
				if l == "END" || l == "\"END\"" {
					break
				}
				txt.WriteString(l)
				txt.WriteByte(' ')
			}
			m, err = parseModel(txt.String())
			if err != nil {
				s.broken = true
				return Unknown, nil
			}
		} else {
			m = Model{}
		}
		s.send("(pop 1)\n")
		return Sat, m
	case "unknown":
		s.send("(pop 1)\n")
		return Unknown, nil
	}
	// an (error ...) line or anything unexpected: inconclusive
	fmt.Fprintln(os.Stderr, "solver said:", line)
	s.broken = true
	return Unknown, nil
}

// parseModel parses ((|x:8| #x01) (|y| true) ...).
func parseModel(txt string) (Model, error) {
	m := Model{}
	i := 0
	n := len(txt)
	skip := func() {
		for i < n && (txt[i] == ' ' || txt[i] == '\n') {
			i++
		}
	}
	var sexp func() (interface{}, error)
	sexp = func() (interface{}, error) {
		skip()
		if i >= n {
			return nil, fmt.Errorf("eof")
		}
		if txt[i] == '(' {
			i++
			var l []interface{}
			for {
				skip()
				if i >= n {
					return nil, fmt.Errorf("eof in list")
				}
				if txt[i] == ')' {
					i++
					return l, nil
				}
				x, err := sexp()
				if err != nil {
					return nil, err
				}
				l = append(l, x)
			}
		}
		if txt[i] == '|' {
			j := strings.IndexByte(txt[i+1:], '|')
			if j < 0 {
				return nil, fmt.Errorf("bad symbol")
			}
			s := txt[i+1 : i+1+j]
			i += j + 2
			return s, nil
		}
		j := i
		for j < n && txt[j] != ' ' && txt[j] != '(' && txt[j] != ')' {
			j++
		}
		s := txt[i:j]
		i = j
		return s, nil
	}
	x, err := sexp()
	if err != nil {
		return nil, err
	}
	top, ok := x.([]interface{})
	if !ok {
		return nil, fmt.Errorf("bad model %q", txt)
	}
	for _, p := range top {
		pr, ok := p.([]interface{})
		if !ok || len(pr) != 2 {
			return nil, fmt.Errorf("bad pair in %q", txt)
		}
		name, ok := pr[0].(string)
		if !ok {
			return nil, fmt.Errorf("bad name")
		}
		v, err := parseVal(pr[1])
		if err != nil {
			return nil, err
		}
		m[name] = v
	}
	return m, nil
}

func parseVal(x interface{}) (uint64, error) {
	switch x := x.(type) {
	case string:
		switch {
		case x == "true":
			return 1, nil
		case x == "false":
			return 0, nil
		case strings.HasPrefix(x, "#x"):
			return strconv.ParseUint(x[2:], 16, 64)
		case strings.HasPrefix(x, "#b"):
			return strconv.ParseUint(x[2:], 2, 64)
		}
	case []interface{}:
		if len(x) == 3 && x[0] == "_" {
			if s, ok := x[1].(string); ok && strings.HasPrefix(s, "bv") {
				return strconv.ParseUint(s[2:], 10, 64)
			}
		}
	}
	return 0, fmt.Errorf("bad value %v", x)
}

func fullScript(pc []*Term, extra *Term, vars []*Term) string {
	var sb strings.Builder
	sb.WriteString("(set-option :produce-models true)\n(set-logic ALL)\n")
	seen := map[*Term]bool{}
	emit := func(t *Term) {
		emitDefs(t, func(x *Term) bool { return seen[x] }, func(x *Term) { seen[x] = true }, func(l string) { sb.WriteString(l) })
	}
	for _, t := range pc {
		emit(t)
		sb.WriteString("(assert " + refStr(t) + ")\n")
	}
	if extra != nil {
		emit(extra)
		sb.WriteString("(assert " + refStr(extra) + ")\n")
	}
	for _, v := range vars {
		emit(v)
	}
	sb.WriteString("(check-sat)\n")
	if len(vars) > 0 {
		sb.WriteString("(get-value (")
		for _, v := range vars {
			sb.WriteString(refStr(v) + " ")
		}
		sb.WriteString("))\n")
	}
	return sb.String()
}

var fallbackTimeout = 20 * time.Second
var noFallback bool

// no query is asked, or goes on, after this time (nanoseconds).
var queryLimit int64

func queryDeadline() time.Time { return time.Unix(0, atomic.LoadInt64(&queryLimit)) }

// portfolio limits how many queries run on all solvers at once.
var portfolio = make(chan bool, 3)

var secondSolvers = [][]string{
	{"cvc5", "--lang=smt2", "--solve-bv-as-int=sum", "-"},
}

var allSolvers = [][]string{
	{"z3", "-in"},
	{"cvc5", "--lang=smt2", "-"},
	{"cvc5", "--lang=smt2", "--solve-bv-as-int=sum", "-"},
	{"z3-new", "-in"},
}

func oneShot(parent context.Context, pc []*Term, extra *Term, vars []*Term, cmds [][]string, timeout time.Duration) (SatResult, Model) {
	if noFallback {
		return Unknown, nil
	}
	script := fullScript(pc, extra, vars)
	type res struct {
		r SatResult
		m Model
	}
	ctx, cancel := context.WithTimeout(parent, timeout)
	defer cancel()

	ch := make(chan res, len(cmds))
	for _, c := range cmds {
		c := c
		go func() {
			cmd := exec.CommandContext(ctx, c[0], c[1:]...)
			cmd.Stdin = strings.NewReader(script)
			out, _ := cmd.Output()
			txt := strings.TrimSpace(string(out))
			switch {
			case strings.Contains(txt, "(error") && !strings.HasPrefix(txt, "unsat"):
				ch <- res{Unknown, nil}
			case strings.HasPrefix(txt, "unsat"):
				ch <- res{Unsat, nil}
			case strings.HasPrefix(txt, "sat"):
				m, err := parseModel(strings.TrimSpace(txt[3:]))
				if len(vars) == 0 {
					m, err = Model{}, nil
				}
				if err != nil {
					ch <- res{Unknown, nil}
				} else {
					ch <- res{Sat, m}
				}
			default:
				ch <- res{Unknown, nil}
			}
		}()
	}
	for range cmds {
		r := <-ch
		if r.r != Unknown {
			return r.r, r.m
		}
	}
	return Unknown, nil
}
