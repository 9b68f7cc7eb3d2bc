package main

// Integer reasoning over bit-vector arithmetic: terms are lifted to linear
// expressions over integer variables (inputs, products of inputs, quotients by
// powers of two), and linear arithmetic decides congruences and ranges. Every
// lifted expression is congruent to its term modulo 2^width without any
// assumption; where the code looks at a value (sign extension, shift right),
// the value is the expression itself if the solver shows that it is in range
// and the expression minus a multiple of 2^width otherwise.

import (
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"sort"
	"strings"
	"time"
)

var liftDebug = os.Getenv("LIFTDEBUG") != ""

type lin struct {
	k *big.Int
	m map[int]*big.Int
}

type ivar struct {
	name   string
	lo, hi *big.Int // nil: unbounded
	fac    []int    // the factors of a product (sorted), or nil
}

// floorOf is floor(base / 2^j).
type floorOf struct {
	base *lin
	j    int
}

// looseQ is a quotient by 2^k.
type looseQ struct {
	q      *lin
	k      int
	lo, hi *big.Int
}

type lifter struct {
	floors  map[int]floorOf
	m       *Machine
	vars    []ivar
	decl    []string // declarations and definitions, in order
	sent    [3]int
	proc    [3]*Solver // real relaxation, integers, integers without definitions
	mI      map[*Term]*lin
	mU, mS  map[*Term]*lin
	mQ      map[string]*lin
	mono    map[string]int
	cuts    map[*Term][]int
	slice   map[string]int
	proved  map[string]bool
	queries int
	loose   []looseQ     // quotients not tightened yet
	tight   []looseQ     // quotients with few values
	def     map[int]*lin // what a name stands for
	full    map[int]*lin // the same without names
}

func newLin(k int64) *lin { return &lin{big.NewInt(k), map[int]*big.Int{}} }

func (a *lin) clone() *lin {
	r := &lin{new(big.Int).Set(a.k), make(map[int]*big.Int, len(a.m))}
	for v, c := range a.m {
		r.m[v] = c
	}
	return r
}

// a + f*b
func (a *lin) plus(b *lin, f *big.Int) *lin {
	r := a.clone()
	r.k.Add(r.k, new(big.Int).Mul(b.k, f))
	for v, c := range b.m {
		n := new(big.Int).Mul(c, f)
		if o := r.m[v]; o != nil {
			n.Add(n, o)
		}
		if n.Sign() == 0 {
			delete(r.m, v)
		} else {
			r.m[v] = n
		}
	}
	return r
}

func (a *lin) scale(f *big.Int) *lin { return newLin(0).plus(a, f) }

func pow2(k int) *big.Int { return new(big.Int).Lsh(bigOne, uint(k)) }

func num(v *big.Int) string {
	if v.Sign() < 0 {
		return "(- " + new(big.Int).Neg(v).String() + ")"
	}
	return v.String()
}

func (l *lifter) str(a *lin) string {
	ids := make([]int, 0, len(a.m))
	for v := range a.m {
		ids = append(ids, v)
	}
	sort.Ints(ids)
	s := []string{num(a.k)}
	for _, v := range ids {
		c := a.m[v]
		if c.Cmp(bigOne) == 0 {
			s = append(s, l.vars[v].name)
		} else {
			s = append(s, "(* "+num(c)+" "+l.vars[v].name+")")
		}
	}
	if len(s) == 1 {
		return s[0]
	}
	return "(+ " + strings.Join(s, " ") + ")"
}

func (l *lifter) newVar(name string, lo, hi *big.Int, fac []int) int {
	v := ivar{fmt.Sprintf("v%d_%s", len(l.vars), name), lo, hi, fac}
	l.vars = append(l.vars, v)
	l.decl = append(l.decl, "(declare-const "+v.name+" SORT)")
	if lo != nil {
		l.decl = append(l.decl, "(assert (<= "+num(lo)+" "+v.name+"))")
	}
	if hi != nil {
		l.decl = append(l.decl, "(assert (<= "+v.name+" "+num(hi)+"))")
	}
	return len(l.vars) - 1
}

func (l *lifter) one(v int) *lin {
	return &lin{new(big.Int), map[int]*big.Int{v: bigOne}}
}

// bounds by interval arithmetic; nil means unbounded.
func (l *lifter) interval(a *lin) (lo, hi *big.Int) {
	lo, hi = new(big.Int).Set(a.k), new(big.Int).Set(a.k)
	for v, c := range a.m {
		vl, vh := l.vars[v].lo, l.vars[v].hi
		if c.Sign() < 0 {
			vl, vh = vh, vl
		}
		if lo != nil {
			if vl == nil {
				lo = nil
			} else {
				lo.Add(lo, new(big.Int).Mul(c, vl))
			}
		}
		if hi != nil {
			if vh == nil {
				hi = nil
			} else {
				hi.Add(hi, new(big.Int).Mul(c, vh))
			}
		}
	}
	return
}

// ask decides the satisfiability of the definitions with one more assertion.
func (l *lifter) ask(which int, cond string, ms int) Result {
	if l.proc[which] == nil {
		p, err := NewSolver("z3", ms)
		if err != nil {
			return Unknown
		}
		l.proc[which] = p
		l.sent[which] = 0
	}
	p := l.proc[which]
	start := time.Now()
	sort := []string{"Real", "Int", "Int"}[which]
	for ; l.sent[which] < len(l.decl); l.sent[which]++ {
		d := l.decl[l.sent[which]]
		if which == 2 && strings.HasPrefix(d, "(assert") && !strings.Contains(d, "_r") {
			continue
		}
		p.w(strings.Replace(d, "SORT", sort, 1) + "\n")
	}
	p.w(fmt.Sprintf("(set-option :timeout %d)\n", ms))
	p.w("(push 1)\n(assert " + cond + ")\n(check-sat)\n(pop 1)\n")
	p.flush()
	cmd := p.cmd
	dog := time.AfterFunc(time.Duration(ms)*time.Millisecond+3*time.Second, func() { cmd.Process.Kill() })
	line, err := p.readLine()
	dog.Stop()
	l.queries++
	if d := time.Since(start); liftDebug {
		fmt.Printf("LIFT %d %v %s decls=%d %.*s\n", which, d.Round(time.Millisecond), line, len(l.decl), []int{300, 300, 9000}[which], cond)
	}
	res := Unknown
	sv := l.m.solver
	switch {
	case err != nil:
		p.Close()
		l.proc[which] = nil
		sv.nUnknown++
	case line == "sat":
		res = Sat
		sv.nSat++
	case line == "unsat":
		res = Unsat
		sv.nUnsat++
	default:
		sv.nUnknown++
	}
	sv.Queries++
	sv.Time += time.Since(start)
	return res
}

// within reports that lo <= a <= hi always (for integers).
func (l *lifter) within(a *lin, lo, hi *big.Int) bool { return l.withinMs(a, lo, hi, 20000) }

func (l *lifter) withinMs(a *lin, lo, hi *big.Int, ms int) bool {
	il, ih := l.interval(a)
	if il != nil && ih != nil && il.Cmp(lo) >= 0 && ih.Cmp(hi) <= 0 {
		return true
	}
	s := l.str(a)
	key := s + " " + lo.String() + " " + hi.String()
	if r, ok := l.proved[key]; ok {
		return r
	}
	out := fmt.Sprintf("(or (<= %s %s) (>= %s %s))", s, num(new(big.Int).Sub(lo, bigOne)), s, num(new(big.Int).Add(hi, bigOne)))
	r := l.ask(0, out, ms) == Unsat
	for i := 0; !r && ms > 10000 && i < len(l.tight) && i < 4; i++ {
		t, cases := l.tight[i], ""
		for v := new(big.Int).Set(t.lo); v.Cmp(t.hi) <= 0; v.Add(v, bigOne) {
			cases += fmt.Sprintf(" (= %s %s)", l.str(t.q), num(v))
		}
		r = l.ask(0, "(and (or"+cases+") "+out+")", ms) == Unsat
	}
	l.proved[key] = r
	return r
}

// quot is floor(a / 2^k).
func (l *lifter) quot(a *lin, k int) *lin {
	if k == 0 {
		return a
	}
	p := pow2(k)
	if len(a.m) == 0 {
		r := newLin(0)
		r.k.Div(a.k, p) // Euclidean, p > 0
		return r
	}
	// exact multiples come out; the rest is identified by what it stands for,
	// with floor((x + floor(b/2^j)) / 2^k) = floor((x*2^j + b) / 2^(j+k))
	ex, rest, key := newLin(0), l.expand(a), ""
	kk := k
	for {
		f := pow2(kk)
		for v, c := range rest.m {
			if q, r := new(big.Int).QuoRem(c, f, new(big.Int)); r.Sign() == 0 {
				ex = ex.plus(l.one(v), q)
				delete(rest.m, v)
			}
		}
		if q, r := new(big.Int).DivMod(rest.k, f, new(big.Int)); q.Sign() != 0 {
			ex.k = new(big.Int).Add(ex.k, q)
			rest.k = r
		}
		inner := -1
		for v, c := range rest.m {
			if v > inner && c.Cmp(bigOne) == 0 && l.floors[v].j > 0 {
				inner = v
			}
		}
		if inner < 0 || kk > 600 {
			break
		}
		fl := l.floors[inner]
		delete(rest.m, inner)
		rest = rest.scale(pow2(fl.j)).plus(fl.base, bigOne)
		kk += fl.j
	}
	if len(ex.m) > 0 || ex.k.Sign() != 0 {
		a = a.plus(ex, new(big.Int).Neg(p))
	}
	key = fmt.Sprint(kk, " ", l.str(rest))
	if q := l.mQ[key]; q != nil {
		return ex.plus(q, bigOne)
	}
	if len(rest.m) == 0 {
		return ex
	}
	if l.within(a, new(big.Int), new(big.Int).Sub(p, bigOne)) {
		l.mQ[key] = newLin(0)
		return ex
	}
	lo, hi := l.interval(a)
	if lo != nil {
		lo.Div(lo, p)
	}
	if hi != nil {
		hi.Div(hi, p)
	}
	q := l.one(l.newVar("q", lo, hi, nil))
	for v := range q.m {
		l.floors[v] = floorOf{l.expand(a), k}
	}
	if liftDebug {
		fmt.Printf("QUOT v%d = %s\n   %s\n", len(l.vars)-1, l.str(a), key)
	}
	rem := a.plus(q, new(big.Int).Neg(p))
	s := l.str(rem)
	l.decl = append(l.decl, fmt.Sprintf("(assert (and (<= 0 %s) (<= %s %s)))", s, s, num(new(big.Int).Sub(p, bigOne))))
	l.mQ[key] = q
	l.loose = append(l.loose, looseQ{ex.plus(q, bigOne), kk, nil, nil})
	return ex.plus(q, bigOne)
}

// tighten bounds small quotients: integrality is lost in the real relaxation.
func (l *lifter) tighten() bool {
	todo := l.loose
	l.loose = nil
	done := false
	sort.SliceStable(todo, func(i, j int) bool { return todo[i].k > todo[j].k })
	for n, t := range todo {
		if n >= 12 {
			break
		}
		q := t.q
		lo, hi := l.interval(q)
		for _, b := range [][2]int64{{-1, 0}, {0, 1}, {-1, 1}} {
			x, y := big.NewInt(b[0]), big.NewInt(b[1])
			if hi != nil && lo != nil && lo.Cmp(x) >= 0 && hi.Cmp(y) <= 0 {
				break
			}
			if l.withinMs(q, x, y, 8000) {
				s := l.str(q)
				l.decl = append(l.decl, fmt.Sprintf("(assert (and (<= %s %s) (<= %s %s)))", num(x), s, s, num(y)))
				if len(q.m) == 1 && q.k.Sign() == 0 {
					for v, c := range q.m {
						if c.Cmp(bigOne) == 0 {
							l.vars[v].lo, l.vars[v].hi = x, y
						}
					}
				}
				t.lo, t.hi = x, y
				l.tight = append(l.tight, t)
				done = true
				break
			}
		}
	}
	if done {
		l.proved = map[string]bool{}
	}
	return done
}

// U is the unsigned value of a term, S the signed one.
func (l *lifter) U(t *Term) *lin {
	if t.op == OConst {
		r := newLin(0)
		r.k.Set(t.Big())
		return r
	}
	if r := l.mU[t]; r != nil {
		return r
	}
	a := l.I(t)
	r := a.plus(l.quot(a, t.w), new(big.Int).Neg(pow2(t.w)))
	l.mU[t] = r
	return r
}

func (l *lifter) S(t *Term) *lin {
	if t.op == OConst {
		r := newLin(0)
		r.k.Set(signed(new(big.Int).Set(t.Big()), t.w))
		return r
	}
	if r := l.mS[t]; r != nil {
		return r
	}
	a := l.I(t)
	h := newLin(0)
	h.k = pow2(t.w - 1)
	q := l.quot(a.plus(h, bigOne), t.w)
	r := a.plus(q, new(big.Int).Neg(pow2(t.w)))
	l.mS[t] = r
	return r
}

// expand replaces names by what they stand for.
func (l *lifter) expand(a *lin) *lin {
	r := newLin(0)
	r.k.Set(a.k)
	for v, c := range a.m {
		d := l.def[v]
		if d == nil {
			r = r.plus(l.one(v), c)
			continue
		}
		x := l.full[v]
		if x == nil {
			x = l.expand(d)
			l.full[v] = x
		}
		r = r.plus(x, c)
	}
	return r
}

func (l *lifter) opaque(t *Term) *lin {
	return l.one(l.newVar("o", new(big.Int), new(big.Int).Sub(pow2(t.w), bigOne), nil))
}

// I is an integer congruent to the term modulo 2^width.
func (l *lifter) I(t *Term) *lin {
	if r := l.mI[t]; r != nil {
		return r
	}
	r := l.lift(t)
	if t.op == OAdd && len(r.m) > 5 {
		// a name keeps what follows sparse
		lo, hi := l.interval(r)
		v := l.newVar("s", lo, hi, nil)
		l.decl = append(l.decl, fmt.Sprintf("(assert (= %s %s))", l.vars[v].name, l.str(r)))
		l.def[v] = r
		r = l.one(v)
	}
	l.mI[t] = r
	return r
}

func (l *lifter) bits(v *Term, hi, lo int) *lin {
	r := newLin(0)
	c := append([]int{0, v.w}, l.cuts[v]...)
	sort.Ints(c)
	for i := 0; i+1 < len(c); i++ {
		a, b := c[i], c[i+1]
		if a == b || a < lo || b > hi+1 {
			continue
		}
		key := fmt.Sprintf("%d:%d:%d", v.id, a, b)
		x, ok := l.slice[key]
		if !ok {
			x = l.newVar("in", new(big.Int), new(big.Int).Sub(pow2(b-a), bigOne), nil)
			l.slice[key] = x
		}
		r = r.plus(l.one(x), pow2(a-lo))
	}
	return r
}

func (l *lifter) lift(t *Term) *lin {
	switch t.op {
	case OConst:
		r := newLin(0)
		r.k.Set(signed(new(big.Int).Set(t.Big()), t.w))
		return r
	case OVar:
		if b, ok := l.m.ranged[t]; ok {
			return l.one(l.newVar("x", b[0], b[1], nil))
		}
		return l.bits(t, t.w-1, 0)
	case OExtract:
		x := t.a[0]
		if x.op == OVar {
			if _, ok := l.m.ranged[x]; !ok {
				return l.bits(x, t.hi, t.lo)
			}
		}
		a := l.I(x)
		if t.lo == 0 {
			return a
		}
		return l.quot(a, t.lo)
	case OConcat:
		r := l.I(t.a[0])
		for _, x := range t.a[1:] {
			r = r.scale(pow2(x.w)).plus(l.U(x), bigOne)
		}
		return r
	case OSext:
		return l.S(t.a[0])
	case OAdd:
		r := newLin(0)
		for _, x := range t.a {
			r = r.plus(l.I(x), bigOne)
		}
		return r
	case OMul:
		r := l.I(t.a[0])
		for _, x := range t.a[1:] {
			r = l.mul(r, l.I(x))
		}
		return r
	case OBOr, OBXor:
		if len(t.a) == 2 {
			for i := 0; i < 2; i++ {
				x, y := t.a[i], t.a[1-i]
				uy := l.U(y)
				if l.within(uy, new(big.Int), new(big.Int)) {
					return l.I(x)
				}
				// x has its low bits clear and y nothing above them
				if k := lowZeros(x); k > 0 && l.within(uy, new(big.Int), new(big.Int).Sub(pow2(k), bigOne)) {
					return l.I(x).plus(uy, bigOne)
				}
			}
		}
	case OBAnd:
		for i := 0; len(t.a) == 2 && i < 2; i++ {
			if l.within(l.U(t.a[i]), new(big.Int), new(big.Int)) {
				return newLin(0)
			}
		}
	case OIte:
		if t.w > 0 {
			a, b := l.I(t.a[1]), l.I(t.a[2])
			v := l.one(l.newVar("i", nil, nil, nil))
			l.decl = append(l.decl, fmt.Sprintf("(assert (or (= %s %s) (= %s %s)))", l.str(v), l.str(a), l.str(v), l.str(b)))
			return v
		}
	}
	return l.opaque(t)
}

func lowZeros(t *Term) int {
	if t.op != OConcat {
		return 0
	}
	k := 0
	for i := len(t.a) - 1; i >= 0 && t.a[i].IsZero(); i-- {
		k += t.a[i].w
	}
	return k
}

func (l *lifter) mul(a, b *lin) *lin {
	r := newLin(0)
	r = r.plus(b, a.k)
	for v, c := range a.m {
		if b.k.Sign() != 0 {
			r = r.plus(l.one(v), new(big.Int).Mul(c, b.k))
		}
		for w, d := range b.m {
			r = r.plus(l.one(l.prod(v, w)), new(big.Int).Mul(c, d))
		}
	}
	return r
}

func (l *lifter) factors(v int) []int {
	if f := l.vars[v].fac; f != nil {
		return f
	}
	return []int{v}
}

func (l *lifter) prod(v, w int) int {
	f := append(append([]int(nil), l.factors(v)...), l.factors(w)...)
	sort.Ints(f)
	key := fmt.Sprint(f)
	if x, ok := l.mono[key]; ok {
		return x
	}
	var lo, hi *big.Int
	a, b := l.vars[v], l.vars[w]
	if a.lo != nil && a.hi != nil && b.lo != nil && b.hi != nil {
		for _, p := range []*big.Int{a.lo, a.hi} {
			for _, q := range []*big.Int{b.lo, b.hi} {
				x := new(big.Int).Mul(p, q)
				if lo == nil || x.Cmp(lo) < 0 {
					lo = x
				}
				if hi == nil || x.Cmp(hi) > 0 {
					hi = x
				}
			}
		}
		if v == w && lo.Sign() < 0 {
			lo = new(big.Int)
		}
	}
	x := l.newVar("m", lo, hi, f)
	l.mono[key] = x
	return x
}

// scan finds where the code cuts input variables.
func (l *lifter) scan(t *Term, seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if t.op == OExtract && t.a[0].op == OVar {
		l.cuts[t.a[0]] = append(l.cuts[t.a[0]], t.lo, t.hi+1)
	}
	for _, x := range t.a {
		l.scan(x, seen)
	}
}

// ---- intrinsics ----

// a number: signed 64-bit parts with shifts, or unsigned bytes.
type numV struct {
	parts []*Term
	shift []int
	whole *Term
}

func (m *Machine) numOf(v Value) numV {
	st := v.(Struct)
	var n numV
	for _, x := range st[0].(Slice).v {
		n.parts = append(n.parts, x.(*Term))
	}
	for _, x := range st[1].(Slice).v {
		n.shift = append(n.shift, int(m.concInt(x.(*Term))))
	}
	if bs := st[2].(Slice).v; len(bs) > 0 {
		ts := valTerms(bs)
		rev := make([]*Term, len(ts))
		for i, t := range ts {
			rev[len(ts)-1-i] = t
		}
		n.whole = m.c.Concat(rev...)
	}
	return n
}

func (n numV) terms() []*Term {
	if n.whole != nil {
		return append(append([]*Term(nil), n.parts...), n.whole)
	}
	return n.parts
}

func (n numV) eval(md *Model) *big.Int {
	r := new(big.Int)
	for i, t := range n.parts {
		v := md.Eval(t)
		if v == nil {
			return nil
		}
		r.Add(r, new(big.Int).Lsh(signed(new(big.Int).Set(v), t.w), uint(n.shift[i])))
	}
	if n.whole != nil {
		v := md.Eval(n.whole)
		if v == nil {
			return nil
		}
		r.Add(r, v)
	}
	return r
}

func (l *lifter) num(n numV) *lin {
	r := newLin(0)
	for i, t := range n.parts {
		r = r.plus(l.S(t), pow2(n.shift[i]))
	}
	if n.whole != nil {
		r = r.plus(l.U(n.whole), bigOne)
	}
	return r
}

func (m *Machine) newLifter(ns []numV) *lifter {
	l := m.lifter
	if l == nil {
		l = &lifter{m: m, floors: map[int]floorOf{}, mI: map[*Term]*lin{}, mU: map[*Term]*lin{}, mS: map[*Term]*lin{}, mQ: map[string]*lin{},
			mono: map[string]int{}, cuts: map[*Term][]int{}, slice: map[string]int{}, proved: map[string]bool{}, def: map[int]*lin{}, full: map[int]*lin{}}
	}
	seen := map[*Term]bool{}
	old := fmt.Sprint(l.cuts)
	for _, n := range ns {
		for _, t := range n.terms() {
			l.scan(t, seen)
		}
	}
	for v, c := range l.cuts {
		sort.Ints(c)
		u := c[:0]
		for i, x := range c {
			if i == 0 || x != c[i-1] {
				u = append(u, x)
			}
		}
		l.cuts[v] = u
	}
	if m.lifter != nil && fmt.Sprint(l.cuts) != old {
		// inputs are cut elsewhere now: start over
		l.close()
		m.lifter = nil
		return m.newLifter(ns)
	}
	m.lifter = l
	return l
}

func (l *lifter) close() {
	for _, p := range l.proc {
		if p != nil {
			p.Close()
		}
	}
}

// refute looks for inputs for which bad holds; the solver has not excluded it.
func (m *Machine) refute(msg string, bad func(*Model) bool) {
	rnd := rand.New(rand.NewSource(1))
	pick := func(t *Term, mode int) *big.Int {
		lo, hi := new(big.Int), new(big.Int).Sub(pow2(max(t.w, 1)), bigOne)
		if b, ok := m.ranged[t]; ok {
			lo, hi = b[0], b[1]
		}
		var v *big.Int
		switch mode % 6 {
		case 0:
			v = hi
		case 1:
			v = lo
		case 2:
			v = new(big.Int).Rand(rnd, new(big.Int).Add(new(big.Int).Sub(hi, lo), bigOne))
			v.Add(v, lo)
		case 3: // either end
			v = []*big.Int{lo, hi}[rnd.Intn(2)]
		case 4: // small
			v = big.NewInt(int64(rnd.Intn(3) - 1))
			if v.Cmp(lo) < 0 {
				v = lo
			}
		case 5: // runs of ones and zeros
			v = new(big.Int)
			for i, b := 0, uint(0); i < t.w; i++ {
				if rnd.Intn(12) == 0 {
					b ^= 1
				}
				v.SetBit(v, i, b)
			}
			if _, ok := m.ranged[t]; ok {
				v = []*big.Int{lo, hi, new(big.Int)}[rnd.Intn(3)]
			}
		}
		return wrap(new(big.Int).Set(v), max(t.w, 1))
	}
	deadline := time.Now().Add(60 * time.Second)
	for i := 0; i < 6000 && time.Now().Before(deadline); i++ {
		md := NewModel()
		for _, in := range m.inputs {
			for _, t := range in.Terms {
				mode := i
				if i > 600 {
					mode = rnd.Intn(6)
				}
				md.vals[t] = pick(t, mode)
			}
		}
		ok := true
		for _, p := range m.pc {
			if v := md.Eval(p); v == nil || v.Sign() == 0 {
				ok = false
				break
			}
		}
		if !ok || !bad(md) {
			continue
		}
		for _, in := range m.inputs {
			for _, t := range in.Terms {
				if t.w == 0 {
					if md.vals[t].Sign() != 0 {
						m.addPC(t)
					} else {
						m.addPC(m.c.Not(t))
					}
					continue
				}
				m.addPC(m.c.Eq(t, m.c.BigConst(t.w, md.vals[t])))
			}
		}
		m.model = md
		panic(pathEnd{"violation", msg})
	}
	m.noteErr("assertion undecided: "+msg, "")
}

func decimal(v Value) *big.Int {
	s := concStr(v)
	r, ok := new(big.Int).SetString(s, 10)
	if !ok {
		panic(engErr("not a number: %q", s))
	}
	return r
}

func addLiftNatives() {
	s := func(n string, f nativeFn) { natives[symPkg+"."+n] = f }
	s("Congruent", func(m *Machine, fr *Frame, a []Value) Value {
		if len(m.arms) > 0 {
			panic(abortSpec{"assert"})
		}
		m.st.Asserts++
		if m.replaying() {
			return nil
		}
		msg, mod := concStr(a[0]), decimal(a[1])
		var sum [][]numV
		var all []numV
		for _, p := range a[2].(Slice).v {
			var fs []numV
			for _, f := range p.(Slice).v {
				fs = append(fs, m.numOf(f))
			}
			sum = append(sum, fs)
			all = append(all, fs...)
		}
		l := m.newLifter(all)
		d := newLin(0)
		for _, fs := range sum {
			p := newLin(1)
			for _, f := range fs {
				p = l.mul(p, l.num(f))
			}
			d = d.plus(p, bigOne)
		}
		d = l.expand(d)
		// what holds for all values of the variables needs no definitions
		var k, r int
		cond := func() string {
			ds := l.str(d)
			if mod.Sign() == 0 {
				return fmt.Sprintf("(not (= %s 0))", ds)
			}
			if k == 0 {
				k = l.newVar("k", nil, nil, nil)
				r = l.newVar("r", bigOne, new(big.Int).Sub(mod, bigOne), nil)
			}
			return fmt.Sprintf("(= %s (+ (* %s %s) %s))", ds, mod, l.vars[k].name, l.vars[r].name)
		}
		if l.ask(2, cond(), 20000) == Unsat {
			return nil
		}
		// quotients that are always zero
		zero := false
		for v, c := range d.clone().m {
			if mod.Sign() != 0 && new(big.Int).Mod(c, mod).Sign() == 0 {
				continue
			}
			if l.vars[v].lo != nil && l.vars[v].lo.Sign() > 0 || l.vars[v].hi != nil && l.vars[v].hi.Sign() < 0 || l.floors[v].j == 0 {
				continue
			}
			if l.within(l.one(v), new(big.Int), new(big.Int)) || l.tighten() && l.within(l.one(v), new(big.Int), new(big.Int)) {
				delete(d.m, v)
				if l.vars[v].lo == nil || l.vars[v].hi == nil || l.vars[v].lo.Sign() != 0 || l.vars[v].hi.Sign() != 0 {
					l.decl = append(l.decl, "(assert (= "+l.vars[v].name+" 0))")
					l.vars[v].lo, l.vars[v].hi = new(big.Int), new(big.Int)
				}
				zero = true
			}
		}
		if zero && l.ask(2, cond(), 20000) == Unsat || l.ask(1, cond(), 60000) == Unsat {
			return nil
		}
		m.refute(msg, func(md *Model) bool {
			t := new(big.Int)
			for _, fs := range sum {
				p := big.NewInt(1)
				for _, f := range fs {
					v := f.eval(md)
					if v == nil {
						return false
					}
					p.Mul(p, v)
				}
				t.Add(t, p)
			}
			if mod.Sign() != 0 {
				t.Mod(t, mod)
			}
			return t.Sign() != 0
		})
		return nil
	})
	s("Within", func(m *Machine, fr *Frame, a []Value) Value {
		if len(m.arms) > 0 {
			panic(abortSpec{"assert"})
		}
		m.st.Asserts++
		if m.replaying() {
			return nil
		}
		msg, n, lo, hi := concStr(a[0]), m.numOf(a[1]), decimal(a[2]), decimal(a[3])
		l := m.newLifter([]numV{n})
		x := l.num(n)
		if l.within(x, lo, hi) || l.tighten() && l.within(x, lo, hi) {
			return nil
		}
		v := l.str(x)
		if l.ask(1, fmt.Sprintf("(or (< %s %s) (> %s %s))", v, num(lo), v, num(hi)), 120000) == Unsat {
			return nil
		}
		m.refute(msg, func(md *Model) bool {
			v := n.eval(md)
			return v != nil && (v.Cmp(lo) < 0 || v.Cmp(hi) > 0)
		})
		return nil
	})
}
