package main

import (
	"bufio"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"strings"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

// Solver drives one SMT-LIB2 process.
type Solver struct {
	kind     string // z3 or cvc5
	cmd      *exec.Cmd
	in       io.WriteCloser
	out      *bufio.Reader
	buf      strings.Builder
	defined  map[uint32]string
	decls    map[string]bool
	log      *os.File
	timeout  int // ms
	Queries  int
	Time     time.Duration
	nSat     int
	nUnsat   int
	nUnknown int
	written  int
}

func NewSolver(kind string, timeoutMs int) (*Solver, error) {
	s := &Solver{kind: kind, timeout: timeoutMs}
	return s, s.start()
}

func (s *Solver) start() error {
	s.defined = map[uint32]string{}
	s.decls = map[string]bool{}
	var cmd *exec.Cmd
	if s.kind == "cvc5" {
		cmd = exec.Command("cvc5", "--incremental", "--produce-models", fmt.Sprintf("--tlimit-per=%d", s.timeout), "--lang=smt2", "-q")
	} else {
		cmd = exec.Command("z3-new", "-in", "-smt2")
	}
	in, err := cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return err
	}
	cmd.Stderr = os.Stderr
	if err := cmd.Start(); err != nil {
		return err
	}
	s.cmd, s.in, s.out = cmd, in, bufio.NewReaderSize(out, 1<<16)
	s.w("(set-option :print-success false)\n")
	s.w("(set-option :global-declarations true)\n")
	if s.kind == "cvc5" {
		s.w("(set-logic ALL)\n")
	} else {
		s.w(fmt.Sprintf("(set-option :timeout %d)\n", s.timeout))
		s.w("(set-option :model.completion true)\n")
	}
	return nil
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) w(x string) {
	s.buf.WriteString(x)
}

func (s *Solver) flush() {
	if solverLog != nil {
		fmt.Fprint(solverLog, s.buf.String())
	}
	s.written += s.buf.Len()
	io.WriteString(s.in, s.buf.String())
	s.buf.Reset()
}

var solverLog *os.File

func sortName(w int) string {
	switch {
	case w == 0:
		return "Bool"
	case w == -1:
		return "Int"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func constStr(t *Term) string {
	switch {
	case t.w == 0:
		if t.u == 1 {
			return "true"
		}
		return "false"
	case t.w == -1:
		if t.big.Sign() < 0 {
			return "(- " + new(big.Int).Neg(t.big).String() + ")"
		}
		return t.big.String()
	}
	v := t.Big()
	if t.w%4 == 0 {
		h := v.Text(16)
		return "#x" + strings.Repeat("0", t.w/4-len(h)) + h
	}
	b := v.Text(2)
	return "#b" + strings.Repeat("0", t.w-len(b)) + b
}

func quote(n string) string { return "|" + n + "|" }

// ref makes sure the term is defined in the solver and returns its name.
func (s *Solver) ref(t *Term) string {
	if t.op == OConst {
		return constStr(t)
	}
	if n, ok := s.defined[t.id]; ok {
		return n
	}
	if t.op == OVar {
		n := quote(t.name)
		s.w(fmt.Sprintf("(declare-const %s %s)\n", n, sortName(t.w)))
		s.defined[t.id] = n
		return n
	}
	args := make([]string, len(t.a))
	for i, x := range t.a {
		args[i] = s.ref(x)
	}
	var e string
	nary := func(op string) string { return "(" + op + " " + strings.Join(args, " ") + ")" }
	switch t.op {
	case OApp:
		if len(t.a) == 0 {
			n := quote(t.name)
			if !s.decls[t.name] {
				s.decls[t.name] = true
				s.w(fmt.Sprintf("(declare-const %s %s)\n", n, sortName(t.w)))
			}
			s.defined[t.id] = n
			return n
		}
		n := quote(t.name)
		if !s.decls[t.name] {
			s.decls[t.name] = true
			s.w(fmt.Sprintf("(declare-fun %s (%s) %s)\n", n, sortName(t.a[0].w), sortName(t.w)))
		}
		e = "(" + n + " " + args[0] + ")"
	case ONot:
		e = nary("not")
	case OAnd:
		e = nary("and")
	case OOr:
		e = nary("or")
	case OEq:
		e = nary("=")
	case OIte:
		e = nary("ite")
	case OAdd:
		e = nary("bvadd")
	case OMul:
		e = nary("bvmul")
	case OUDiv:
		e = nary("bvudiv")
	case OURem:
		e = nary("bvurem")
	case OSDiv:
		e = nary("bvsdiv")
	case OSRem:
		e = nary("bvsrem")
	case OBAnd:
		e = nary("bvand")
	case OBOr:
		e = nary("bvor")
	case OBXor:
		e = nary("bvxor")
	case OShl:
		e = nary("bvshl")
	case OLshr:
		e = nary("bvlshr")
	case OAshr:
		e = nary("bvashr")
	case OConcat:
		e = args[0]
		if len(args) > 1 {
			// right-nested for strict SMT-LIB arity
			e = args[len(args)-1]
			for i := len(args) - 2; i >= 0; i-- {
				e = "(concat " + args[i] + " " + e + ")"
			}
		}
	case OExtract:
		e = fmt.Sprintf("((_ extract %d %d) %s)", t.hi, t.lo, args[0])
	case OSext:
		e = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a[0].w, args[0])
	case OUlt:
		e = nary("bvult")
	case OSlt:
		e = nary("bvslt")
	case OIAdd:
		e = nary("+")
	case OIMul:
		e = nary("*")
	case OIMod:
		e = nary("mod")
	case OILe:
		e = nary("<=")
	case OBv2Int:
		if s.kind == "cvc5" {
			e = nary("bv2nat")
		} else {
			e = nary("bv2int")
		}
	default:
		panic("print op")
	}
	n := fmt.Sprintf("t%d", t.id)
	s.w(fmt.Sprintf("(define-fun %s () %s %s)\n", n, sortName(t.w), e))
	s.defined[t.id] = n
	return n
}

// axioms for an application: the argument and the constructor can be
// recovered from the result (injectivity, no collisions between constructors).
func (s *Solver) axiom(t *Term) string {
	code := t.name
	inv := "inv " + t.name
	tag := fmt.Sprintf("tag %d", t.w)
	if !s.decls[tag] {
		s.decls[tag] = true
		s.w(fmt.Sprintf("(declare-fun %s (%s) Int)\n", quote(tag), sortName(t.w)))
	}
	ck := "code " + code
	if !s.decls[ck] {
		s.decls[ck] = true
	}
	r := s.ref(t)
	if len(t.a) == 0 {
		return fmt.Sprintf("(assert (= (%s %s) %d))\n", quote(tag), r, codeOf(code))
	}
	if !s.decls[inv] {
		s.decls[inv] = true
		s.w(fmt.Sprintf("(declare-fun %s (%s) %s)\n", quote(inv), sortName(t.w), sortName(t.a[0].w)))
	}
	return fmt.Sprintf("(assert (= (%s %s) %d))\n(assert (= (%s %s) %s))\n", quote(tag), r, codeOf(code), quote(inv), r, s.ref(t.a[0]))
}

var codes = newCodeTable()

// Check decides the conjunction of conds. vars: terms whose values are wanted if sat.
func (s *Solver) Check(conds []*Term, want []*Term) (Result, map[*Term]*big.Int, error) {
	if s.cmd == nil {
		if err := s.start(); err != nil {
			return Unknown, nil, err
		}
	}
	start := time.Now()
	defer func() { s.Time += time.Since(start); s.Queries++ }()
	// applications among the conditions and the wanted terms
	seen := map[uint32]bool{}
	var apps []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.op == OApp {
			apps = append(apps, t)
		} else if !t.napp {
			return
		}
		for _, x := range t.a {
			walk(x)
		}
	}
	for _, t := range conds {
		walk(t)
	}
	for _, t := range want {
		walk(t)
	}
	refs := make([]string, len(conds))
	for i, t := range conds {
		refs[i] = s.ref(t)
	}
	var ax strings.Builder
	for _, t := range apps {
		ax.WriteString(s.axiom(t))
	}
	wr := make([]string, len(want))
	for i, t := range want {
		wr[i] = s.ref(t)
	}
	s.w("(push 1)\n")
	s.w(ax.String())
	for _, r := range refs {
		s.w("(assert " + r + ")\n")
	}
	s.w("(check-sat)\n")
	s.flush()
	// the solver's own limit is not always honoured
	cmd := s.cmd
	dog := time.AfterFunc(time.Duration(s.timeout)*time.Millisecond+3*time.Second, func() { cmd.Process.Kill() })
	line, err := s.readLine()
	dog.Stop()
	if slowDir != "" && time.Since(start) > 3*time.Second {
		dumpSlow(s.kind, conds, time.Since(start), line)
	}
	if err != nil {
		s.Close()
		return Unknown, nil, err
	}
	res := Unknown
	switch line {
	case "sat":
		res = Sat
		s.nSat++
	case "unsat":
		res = Unsat
		s.nUnsat++
	case "unknown", "timeout":
		s.nUnknown++
	default:
		s.Close()
		return Unknown, nil, fmt.Errorf("solver said %q", line)
	}
	var vals map[*Term]*big.Int
	if res == Sat {
		vals = map[*Term]*big.Int{}
		for i := 0; i < len(want); i += 200 {
			j := min(i+200, len(want))
			s.w("(get-value (" + strings.Join(wr[i:j], " ") + "))\n")
			s.flush()
			sx, err := s.readSexp()
			if err != nil {
				s.Close()
				return Unknown, nil, err
			}
			vs, err := parseValues(sx)
			if err != nil || len(vs) != j-i {
				s.Close()
				return Unknown, nil, fmt.Errorf("get-value: %v: %d of %d: %.200s", err, len(vs), j-i, sx)
			}
			for k, v := range vs {
				vals[want[i+k]] = v
			}
		}
	}
	s.w("(pop 1)\n")
	return res, vals, nil
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l == "" || l == "success" {
			continue
		}
		return l, nil
	}
}

func (s *Solver) readSexp() (string, error) {
	var sb strings.Builder
	depth := 0
	inq := false
	started := false
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		if !started && (b == ' ' || b == '\n' || b == '\r') {
			continue
		}
		started = true
		sb.WriteByte(b)
		switch {
		case b == '|':
			inq = !inq
		case inq:
		case b == '(':
			depth++
		case b == ')':
			depth--
		}
		if depth == 0 && !inq {
			return sb.String(), nil
		}
	}
}

// parseValues reads ((expr value) (expr value) ...).
func parseValues(s string) ([]*big.Int, error) {
	x, _, err := parseS(s, 0)
	if err != nil {
		return nil, err
	}
	var out []*big.Int
	for _, p := range x.list {
		if len(p.list) != 2 {
			return nil, fmt.Errorf("bad pair")
		}
		v, err := p.list[1].value()
		if err != nil {
			return nil, err
		}
		out = append(out, v)
	}
	return out, nil
}

type sexp struct {
	atom string
	list []sexp
}

func (x sexp) value() (*big.Int, error) {
	if x.list != nil {
		if len(x.list) == 2 && x.list[0].atom == "-" {
			v, err := x.list[1].value()
			if err != nil {
				return nil, err
			}
			return new(big.Int).Neg(v), nil
		}
		if len(x.list) == 3 && x.list[0].atom == "_" && strings.HasPrefix(x.list[1].atom, "bv") {
			v, ok := new(big.Int).SetString(x.list[1].atom[2:], 10)
			if ok {
				return v, nil
			}
		}
		return nil, fmt.Errorf("bad value")
	}
	switch {
	case x.atom == "true":
		return big.NewInt(1), nil
	case x.atom == "false":
		return big.NewInt(0), nil
	case strings.HasPrefix(x.atom, "#x"):
		v, ok := new(big.Int).SetString(x.atom[2:], 16)
		if ok {
			return v, nil
		}
	case strings.HasPrefix(x.atom, "#b"):
		v, ok := new(big.Int).SetString(x.atom[2:], 2)
		if ok {
			return v, nil
		}
	default:
		v, ok := new(big.Int).SetString(x.atom, 10)
		if ok {
			return v, nil
		}
	}
	return nil, fmt.Errorf("bad value %q", x.atom)
}

func parseS(s string, i int) (sexp, int, error) {
	for i < len(s) && (s[i] == ' ' || s[i] == '\n' || s[i] == '\r' || s[i] == '\t') {
		i++
	}
	if i >= len(s) {
		return sexp{}, i, io.ErrUnexpectedEOF
	}
	if s[i] == '(' {
		x := sexp{list: []sexp{}}
		i++
		for {
			for i < len(s) && (s[i] == ' ' || s[i] == '\n' || s[i] == '\r' || s[i] == '\t') {
				i++
			}
			if i >= len(s) {
				return x, i, io.ErrUnexpectedEOF
			}
			if s[i] == ')' {
				return x, i + 1, nil
			}
			y, j, err := parseS(s, i)
			if err != nil {
				return x, i, err
			}
			x.list = append(x.list, y)
			i = j
		}
	}
	j := i
	if s[i] == '|' {
		j = i + 1
		for j < len(s) && s[j] != '|' {
			j++
		}
		return sexp{atom: s[i : j+1]}, j + 1, nil
	}
	for j < len(s) && s[j] != ' ' && s[j] != ')' && s[j] != '(' && s[j] != '\n' {
		j++
	}
	return sexp{atom: s[i:j]}, j, nil
}


var slowDir = os.Getenv("VERIF_SLOW")

// dumpSlow writes a self-contained copy of a slow query.
func dumpSlow(kind string, conds []*Term, d time.Duration, res string) {
	f, err := os.CreateTemp(slowDir, fmt.Sprintf("slow-%s-%ds-*.smt2", kind, int(d.Seconds())))
	if err != nil {
		return
	}
	defer f.Close()
	x := &Solver{kind: "z3", defined: map[uint32]string{}, decls: map[string]bool{}}
	refs := make([]string, len(conds))
	for i, t := range conds {
		refs[i] = x.ref(t)
	}
	for _, a := range collectLeaves(conds) {
		if a.op == OApp {
			x.w(x.axiom(a))
		}
	}
	for _, r := range refs {
		x.w("(assert " + r + ")\n")
	}
	fmt.Fprintf(f, "; %s %v %s\n%s(check-sat)\n", kind, d, res, x.buf.String())
}
