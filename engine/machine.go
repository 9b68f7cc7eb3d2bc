package main

import (
	"crypto/sha256"
	"os"
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type opKind uint8

const (
	kReg opKind = iota
	kConst
	kGlobal
	kNil
)

type opnd struct {
	k   opKind
	idx int
	cv  Value
	g   *ssa.Global
}

type cinstr struct {
	in  ssa.Instruction
	ops []opnd
	dst int // -1 none
	// If sites
	merge int8 // 0 unknown, 1 try, 2 never
	join  *ssa.BasicBlock
	cnt   int
}

type FuncInfo struct {
	fn      *ssa.Function
	blocks  [][]*cinstr
	nregs   int
	slot    map[ssa.Value]int
	native  func(m *Machine, fr *Frame, args []Value) Value
	ipdom   []*ssa.BasicBlock // immediate postdominator by block index, nil = exit
	carried map[int][]int     // by branching block: registers the arms may redefine and the join needs
	hasDef  bool
	inRepo  bool
	name    string
	nph     []int
	scope   bool
	entered bool
}

type deferred struct {
	fn   Value // *Closure
	args []Value
}

type Frame struct {
	fi     *FuncInfo
	regs   []Value
	block  *ssa.BasicBlock
	prev   *ssa.BasicBlock
	pc     int
	defers []deferred
	dst    int // register of the caller receiving the result (-1: none)
	// panic handling
	unwinding bool
	isDefer   bool // called by RunDefers or unwinding
	sync      bool // run by a nested loop
	ret       Value
	recoverd  bool
	phiOv     []Value
}

type panicState struct {
	val       Iface
	recovered bool
}

type G struct {
	id      int
	stack   []*Frame
	panics  []*panicState
	blocked bool
	why     string
	done    bool
	wake    func() bool
	atSync  bool
	panicAt string
}

// events of the decision log
const (
	evChoice = iota
	evForced
	evMerged
	evConc
)

func ev(kind, v int) int32 { return int32(kind<<24 | v) }
func evKind(e int32) int   { return int(e >> 24) }
func evVal(e int32) int    { return int(e & 0xffffff) }

type Input struct {
	Name  string
	Kind  string // bytes, choose, json
	Terms []*Term
	N     int // chosen value
}

type arm struct {
	fresh map[*Value]bool
}

type Violation struct {
	Msg    string
	Log    []int32
	Inputs []ReplayInput
	Apps   []ReplayApp
	Trace  string
	Where  string
}

type Machine struct {
	p       *Program
	c       *Ctx
	solver  *Solver
	solver2 *Solver
	globals map[*ssa.Global]*Value
	inited  map[*ssa.Package]int
	infos   map[*ssa.Function]*FuncInfo
	tcache  map[types.Type]map[string]*ssa.Function

	journal   []undo
	journalOn bool

	// path state
	pc        []*Term
	known     map[*Term]bool
	subst     map[*Term]*Term
	substLog  []substEntry
	rpc       []*Term // the path condition rewritten with subst
	rdefs     []*Term
	rpcSeen   map[*Term]bool
	rpcN      int // conjuncts of pc in rpc, -1: rpc is stale
	rewMemo   map[*Term]*Term
	model     *Model
	log       []int32
	prefix    []int32
	names     map[string]int
	ranged    map[*Term][2]*big.Int // inputs with signed bounds
	lifter    *lifter
	inputs    []*Input
	apps      []*Term
	appSeen   map[*Term]bool
	observed  []obsRec
	covers    map[string]bool
	locks     map[*Value]*lockState
	jsonTab   []*jsonNode
	randFail  bool
	failRand  map[string]int
	steps     int
	stepMax   int
	gs        []*G
	g         *G
	nextG     int
	preempt   int
	oneOrder bool // goroutines run in a fixed order
	tolerant  int
	initDepth int
	nested    int
	stops     []*specStop
	yieldReq  bool
	yielded   *G

	arms      []*arm
	spec      *specState
	blacklist map[*cinstr]int

	push func(log []int32) // new work
	st   *Stats
	cfg  *RunConfig
}

type lockState struct {
	writer  bool
	readers int
}

type obsRec struct {
	label string
	parts []obsPart
}

type obsPart struct {
	text string
	t    *Term
}

type Stats struct {
	Paths, Steps, Forks, Merges, MergeAborts int
	Infeasible                               int
	Asserts                                  int
	Covers                                   map[string]int
	CoverWant                                map[string]bool
	Funcs                                    map[string]bool
	Unknowns                                 int
	Errors                                   map[string]int
	ErrAt                                    map[string]string
	MaxDepth                                 int
	Blocked                                  int
}

type pathEnd struct {
	kind string // infeasible, violation, blocked, limit
	msg  string
}

type abortSpec struct{ why string }

func NewMachine(p *Program, cfg *RunConfig) (*Machine, error) {
	s, err := NewSolver("z3", cfg.SolverMs)
	if err != nil {
		return nil, err
	}
	m := &Machine{p: p, c: NewCtx(), solver: s, cfg: cfg,
		globals: map[*ssa.Global]*Value{}, inited: map[*ssa.Package]int{},
		infos: map[*ssa.Function]*FuncInfo{}, tcache: map[types.Type]map[string]*ssa.Function{},
		blacklist: map[*cinstr]int{},
		st:        &Stats{Covers: map[string]int{}, CoverWant: map[string]bool{}, Funcs: map[string]bool{}, Errors: map[string]int{}, ErrAt: map[string]string{}},
	}
	return m, nil
}

func (m *Machine) Close() {
	if m.lifter != nil {
		m.lifter.close()
	}
	m.solver.Close()
	if m.solver2 != nil {
		m.solver2.Close()
	}
}

// ---- functions ----

func (m *Machine) info(fn *ssa.Function) *FuncInfo {
	if fi, ok := m.infos[fn]; ok {
		return fi
	}
	fi := &FuncInfo{fn: fn, slot: map[ssa.Value]int{}, name: fn.String()}
	m.infos[fn] = fi
	fi.native = m.nativeFor(fn)
	if fn.Pkg != nil {
		fi.inRepo = m.p.inRepo(fn.Pkg.Pkg.Path())
	} else if o := fn.Origin(); o != nil && o.Pkg != nil {
		fi.inRepo = m.p.inRepo(o.Pkg.Pkg.Path())
	} else if fn.Parent() != nil && fn.Parent().Pkg != nil {
		fi.inRepo = m.p.inRepo(fn.Parent().Pkg.Pkg.Path())
	}
	add := func(v ssa.Value) {
		fi.slot[v] = fi.nregs
		fi.nregs++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
			if _, ok := in.(*ssa.Defer); ok {
				fi.hasDef = true
			}
		}
	}
	for _, b := range fn.Blocks {
		var cs []*cinstr
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			ci := &cinstr{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = fi.slot[v]
			}
			rands := in.Operands(nil)
			if _, ok := in.(*ssa.Defer); ok {
				rands = rands[:len(rands)-1] // the defer stack
			}
			for _, op := range rands {
				ci.ops = append(ci.ops, m.operand(fi, *op))
			}
			cs = append(cs, ci)
		}
		fi.blocks = append(fi.blocks, cs)
	}
	fi.ipdom = postdoms(fn)
	fi.carried = map[int][]int{}
	return fi
}

func (m *Machine) operand(fi *FuncInfo, v ssa.Value) opnd {
	switch v := v.(type) {
	case nil:
		return opnd{k: kNil}
	case *ssa.Const:
		return opnd{k: kConst, cv: m.constVal(v)}
	case *ssa.Function:
		return opnd{k: kConst, cv: &Closure{fn: v}}
	case *ssa.Builtin:
		return opnd{k: kConst, cv: &Closure{bi: v}}
	case *ssa.Global:
		return opnd{k: kGlobal, g: v}
	}
	i, ok := fi.slot[v]
	if !ok {
		panic(engErr("operand %v in %v", v, fi.name))
	}
	return opnd{k: kReg, idx: i}
}

func (m *Machine) constVal(k *ssa.Const) Value {
	t := k.Type()
	if k.Value == nil {
		return m.zero(t)
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		panic(engErr("constant of type %v", t))
	}
	if w, _, ok := basicWidth(b); ok {
		if w == 0 {
			return m.c.Bool(constant.BoolVal(k.Value))
		}
		iv := constant.ToInt(k.Value)
		if u, ok := constant.Uint64Val(iv); ok {
			return m.c.Const(w, u)
		}
		i, _ := constant.Int64Val(iv)
		return m.c.Const(w, uint64(i))
	}
	switch b.Kind() {
	case types.String, types.UntypedString:
		return constant.StringVal(k.Value)
	case types.Float32, types.Float64, types.UntypedFloat:
		f, _ := constant.Float64Val(k.Value)
		return f
	case types.Complex128, types.Complex64, types.UntypedComplex:
		re, _ := constant.Float64Val(constant.Real(k.Value))
		im, _ := constant.Float64Val(constant.Imag(k.Value))
		return complex(re, im)
	}
	panic(engErr("constant of type %v", t))
}

func (m *Machine) get(fr *Frame, o *opnd) Value {
	switch o.k {
	case kReg:
		return fr.regs[o.idx]
	case kConst:
		return o.cv
	case kGlobal:
		return m.global(o.g)
	}
	return nil
}

func (m *Machine) global(g *ssa.Global) *Value {
	if p, ok := m.globals[g]; ok && m.inited[g.Pkg] != 0 {
		return p
	}
	m.ensureInit(g.Pkg)
	p, ok := m.globals[g]
	if !ok {
		p = new(Value)
		*p = m.zero(g.Type().Underlying().(*types.Pointer).Elem())
		m.globals[g] = p
	}
	return p
}

// ensureInit runs a package's initialiser the first time one of its globals
// is used. Initialisation happens outside the journal: it is concrete and
// touches only the package's own fresh state.
func (m *Machine) ensureInit(pkg *ssa.Package) {
	if m.inited[pkg] != 0 {
		return
	}
	m.inited[pkg] = 1
	for _, mem := range pkg.Members {
		if g, ok := mem.(*ssa.Global); ok {
			if _, ok := m.globals[g]; !ok {
				p := new(Value)
				*p = m.zero(g.Type().Underlying().(*types.Pointer).Elem())
				m.globals[g] = p
			}
		}
	}
	fn := pkg.Func("init")
	if fn == nil || len(fn.Blocks) == 0 {
		return
	}
	if os.Getenv("VERIF_INIT") != "" {
		fmt.Println("init", pkg.Pkg.Path(), m.where())
	}
	on := m.journalOn
	arms := m.arms
	steps := m.steps
	m.journalOn = false
	m.arms = nil
	m.initDepth++
	tol := !m.p.strictInit(pkg.Pkg.Path())
	if tol {
		m.tolerant++
	}
	gsave := m.g
	m.g = &G{id: -1}
	defer func() {
		m.g = gsave
		m.journalOn = on
		m.arms = arms
		m.steps = steps
		m.initDepth--
		if tol {
			m.tolerant--
		}
		m.inited[pkg] = 2
	}()
	func() {
		defer func() {
			if r := recover(); r != nil {
				if tol {
					if m.cfg.Verbose {
						fmt.Printf("init %s: %v\n", pkg.Pkg.Path(), r)
					}
					return
				}
				panic(r)
			}
		}()
		g := m.g
		m.pushCall(g, &Closure{fn: fn}, nil, -1, false).sync = true
		m.nested++
		defer func() { m.nested-- }()
		m.run(g, 0, nil)
	}()
}

// ---- path condition ----

func (m *Machine) addPC(t *Term) {
	if t.IsTrue() {
		return
	}
	if t.op == OAnd {
		for _, x := range t.a {
			m.addPC(x)
		}
		return
	}
	if _, ok := m.known[t]; ok && m.known[t] {
		return
	}
	m.pc = append(m.pc, t)
	m.known[t] = true
	m.known[m.c.Not(t)] = false
	m.solve(t)
}

// solve: an equation x = e on the path lets later conditions use e for x.
func (m *Machine) solve(t *Term) {
	if t.op != OEq || t.a[0].w <= 0 {
		return
	}
	a, b := t.a[0], t.a[1]
	if a.op != OVar && b.op != OVar {
		return
	}
	if a.op != OVar || b.op == OVar && before(a, b) {
		a, b = b, a // the younger variable goes
	}
	if m.subst[a] != nil {
		return
	}
	b = m.rewrite(b)
	if b == a || m.mentions(b, a) {
		return
	}
	m.subst[a] = b
	m.substLog = append(m.substLog, substEntry{a, len(m.pc)})
	m.rewMemo = map[*Term]*Term{}
	m.rpcN = -1
}

// solved: the path condition with the solved variables replaced; the
// definitions of these variables are separate.
func (m *Machine) solvedPC() (pc, defs []*Term) {
	if m.rpcN < 0 || m.rpcN > len(m.pc) {
		m.rpcN, m.rpc, m.rdefs = 0, nil, nil
		for _, e := range m.substLog {
			m.rdefs = append(m.rdefs, m.c.Eq(e.v, m.rewrite(m.subst[e.v])))
		}
		m.rpcSeen = map[*Term]bool{}
	}
	for ; m.rpcN < len(m.pc); m.rpcN++ {
		t := m.rewrite(m.pc[m.rpcN])
		m.rpcAdd(t)
	}
	return m.rpc, m.rdefs
}

func (m *Machine) rpcAdd(t *Term) {
	if t.op == OAnd {
		for _, x := range t.a {
			m.rpcAdd(x)
		}
		return
	}
	if t.IsTrue() || m.rpcSeen[t] {
		return
	}
	if m.rpcSeen[m.c.Not(t)] {
		t = m.c.Bool(false)
	}
	m.rpcSeen[t] = true
	m.rpc = append(m.rpc, t)
}

type substEntry struct {
	v  *Term
	pc int
}

func (m *Machine) mentions(t, v *Term) bool {
	seen := map[*Term]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if t == v {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, x := range t.a {
			if walk(x) {
				return true
			}
		}
		return false
	}
	return walk(t)
}

// rewrite replaces solved variables by what they equal.
func (m *Machine) rewrite(t *Term) *Term {
	if len(m.subst) == 0 || t.op == OConst {
		return t
	}
	if t.op == OVar {
		if s := m.subst[t]; s != nil {
			r := m.rewrite(s)
			return r
		}
		return t
	}
	if r, ok := m.rewMemo[t]; ok {
		return r
	}
	ch := false
	as := make([]*Term, len(t.a))
	for i, x := range t.a {
		as[i] = m.rewrite(x)
		if as[i] != x {
			ch = true
		}
	}
	r := t
	if ch {
		r = m.c.rebuild(t, as)
	}
	m.rewMemo[t] = r
	return r
}

func (m *Machine) truncPC(n int) {
	for _, t := range m.pc[n:] {
		delete(m.known, t)
		delete(m.known, m.c.Not(t))
	}
	if m.rpcN > n {
		m.rpcN = -1
	}
	m.pc = m.pc[:n]
	for k := len(m.substLog); k > 0 && m.substLog[k-1].pc > n; k-- {
		delete(m.subst, m.substLog[k-1].v)
		m.substLog = m.substLog[:k-1]
		m.rewMemo = map[*Term]*Term{}
		m.rpcN = -1
	}
}

// simplify a condition with the equations and literals known on this path
func (m *Machine) simp(t *Term) *Term {
	t = m.simp1(t)
	if r := m.rewrite(t); r != t {
		return m.simp1(r)
	}
	return t
}

func (m *Machine) simp1(t *Term) *Term {
	if t.IsConst() {
		return t
	}
	if v, ok := m.known[t]; ok {
		return m.c.Bool(v)
	}
	switch t.op {
	case ONot:
		return m.c.Not(m.simp1(t.a[0]))
	case OAnd, OOr:
		ch := false
		as := make([]*Term, len(t.a))
		for i, x := range t.a {
			as[i] = m.simp1(x)
			if as[i] != x {
				ch = true
			}
		}
		if ch {
			if t.op == OAnd {
				return m.c.And(as...)
			}
			return m.c.Or(as...)
		}
	}
	return t
}

func (m *Machine) wanted(extra []*Term) []*Term {
	var want []*Term
	for _, in := range m.inputs {
		for _, t := range in.Terms {
			want = append(want, varsOf(t)...)
		}
	}
	want = append(want, m.apps...)
	return want
}

func varsOf(t *Term) []*Term {
	if t.op == OVar {
		return []*Term{t}
	}
	var out []*Term
	for _, x := range t.a {
		out = append(out, varsOf(x)...)
	}
	return out
}

// sat decides PC and t.
func (m *Machine) sat(t *Term, model bool) (Result, *Model) {
	t = m.simp(t)
	if t.IsFalse() {
		return Unsat, nil
	}
	pc, defs := m.solvedPC()
	if len(pc) > 0 && pc[len(pc)-1].IsFalse() {
		return Unsat, nil
	}
	if model && len(defs) > 0 {
		pc = append(append([]*Term(nil), pc...), defs...)
	}
	conds := m.relevant(pc, t)
	var want []*Term
	if model {
		want = collectLeaves(conds)
	}
	r, vals, err := m.solver.Check(conds, want)
	if err != nil || r == Unknown {
		// second opinion
		if m.solver2 == nil {
			m.solver2, _ = NewSolver("cvc5", m.cfg.SolverMs)
		}
		var r2 Result = Unknown
		var err2 error
		if m.solver2 != nil {
			r2, vals, err2 = m.solver2.Check(conds, want)
		}
		if err2 != nil || r2 == Unknown {
			m.st.Unknowns++
			if err != nil {
				m.noteErr("solver: "+err.Error(), "")
			}
			return Unknown, nil
		}
		r = r2
	}
	if r == Sat && model {
		md := NewModel()
		if len(conds) < len(pc)+1 && m.model != nil {
			// the part of the path condition not connected to t keeps its values
			for k, v := range m.model.vals {
				md.vals[k] = v
			}
		}
		for k, v := range vals {
			md.vals[k] = v
		}
		return Sat, md
	}
	return r, nil
}

// relevant: the conjuncts connected to t through variables and applications.
// Without a model of the rest of the path condition everything is kept.
func (m *Machine) relevant(pc []*Term, t *Term) []*Term {
	if m.model == nil {
		return append(append([]*Term(nil), pc...), t)
	}
	if t.napp || t.op == OApp {
		return append(append([]*Term(nil), pc...), t)
	}
	want := map[*Term]bool{}
	for _, v := range m.leaves(t) {
		want[v] = true
	}
	used := make([]bool, len(pc))
	for ch := true; ch; {
		ch = false
		for i, p := range pc {
			if used[i] {
				continue
			}
			ls := m.leaves(p)
			hit := false
			for _, v := range ls {
				if want[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				ch = true
				for _, v := range ls {
					want[v] = true
				}
			}
		}
	}
	var out []*Term
	for i, p := range pc {
		if used[i] {
			// an application may interact with any other through the axioms
			if p.napp {
				return append(append([]*Term(nil), pc...), t)
			}
			out = append(out, p)
		}
	}
	return append(out, t)
}

func (m *Machine) leaves(t *Term) []*Term { return m.leafOf(t) }

func (m *Machine) leafOf(t *Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || t.op == OConst {
			return
		}
		seen[t] = true
		if t.op == OVar {
			out = append(out, t)
			return
		}
		for _, x := range t.a {
			walk(x)
		}
	}
	walk(t)
	return out
}

func collectLeaves(ts []*Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || t.op == OConst {
			return
		}
		seen[t] = true
		if t.op == OVar || t.op == OApp {
			out = append(out, t)
		}
		for _, x := range t.a {
			walk(x)
		}
	}
	for _, t := range ts {
		walk(t)
	}
	return out
}

func (m *Machine) noteErr(msg, at string) {
	m.st.Errors[msg]++
	if _, ok := m.st.ErrAt[msg]; !ok {
		m.st.ErrAt[msg] = at
	}
}

func (m *Machine) replaying() bool { return len(m.log) < len(m.prefix) }

// decide resolves a symbolic condition to a branch, forking when both are possible.
func (m *Machine) decide(t *Term) bool {
	t = m.simp(t)
	if t.IsConst() {
		return t.u == 1
	}
	if m.replaying() {
		e := m.prefix[len(m.log)]
		m.log = append(m.log, e)
		b := evVal(e) == 1
		switch evKind(e) {
		case evChoice:
			m.assumeBranch(t, b)
		case evForced:
			m.assumeBranch(t, b)
		default:
			panic(engErr("replay diverged: event %x at decision %d", e, len(m.log)-1))
		}
		return b
	}
	if m.model != nil {
		if v := m.model.Eval(t); v != nil {
			side := v.Sign() != 0
			other := t
			if side {
				other = m.c.Not(t)
			}
			r, _ := m.sat(other, false)
			if r == Unsat {
				m.log = append(m.log, ev(evForced, bi(side)))
				m.assumeBranch(t, side)
				return side
			}
			return m.fork(t, side)
		}
	}
	r1, m1 := m.sat(t, true)
	if r1 == Unsat {
		m.log = append(m.log, ev(evForced, 0))
		m.assumeBranch(t, false)
		return false
	}
	if r1 == Sat {
		m.model = m1
	}
	r2, _ := m.sat(m.c.Not(t), false)
	if r2 == Unsat {
		m.log = append(m.log, ev(evForced, 1))
		m.assumeBranch(t, true)
		return true
	}
	return m.fork(t, true)
}

func bi(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (m *Machine) assumeBranch(t *Term, b bool) {
	if !b {
		t = m.c.Not(t)
	}
	m.addPC(t)
	if m.model != nil {
		if v := m.model.Eval(t); v == nil || v.Sign() == 0 {
			m.model = nil
		}
	}
}

func (m *Machine) fork(t *Term, side bool) bool {
	if len(m.arms) > 0 {
		panic(abortSpec{"fork"})
	}
	m.st.Forks++
	if len(m.log) > m.cfg.MaxDecisions {
		panic(pathEnd{"limit", "decision limit"})
	}
	alt := append(append(make([]int32, 0, len(m.log)+1), m.log...), ev(evChoice, bi(!side)))
	m.push(alt)
	m.log = append(m.log, ev(evChoice, bi(side)))
	m.assumeBranch(t, side)
	return side
}

// choose forks n ways without constraining any term.
func (m *Machine) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if len(m.arms) > 0 {
		panic(abortSpec{"choose"})
	}
	if m.replaying() {
		e := m.prefix[len(m.log)]
		m.log = append(m.log, e)
		if evKind(e) != evChoice {
			panic(engErr("replay diverged: event %x at choice %d", e, len(m.log)-1))
		}
		return evVal(e)
	}
	m.st.Forks++
	for i := n - 1; i > 0; i-- {
		m.push(append(append(make([]int32, 0, len(m.log)+1), m.log...), ev(evChoice, i)))
	}
	m.log = append(m.log, ev(evChoice, 0))
	return 0
}

func (m *Machine) assume(t *Term) {
	t = m.simp(t)
	if t.IsTrue() {
		return
	}
	if len(m.arms) > 0 {
		panic(abortSpec{"assume"})
	}
	if t.IsFalse() {
		panic(pathEnd{"infeasible", ""})
	}
	if m.model != nil {
		if v := m.model.Eval(t); v != nil && v.Sign() != 0 {
			m.addPC(t)
			return
		}
	}
	if !m.replaying() {
		r, md := m.sat(t, true)
		if r == Unsat {
			panic(pathEnd{"infeasible", ""})
		}
		m.model = md
	} else {
		m.model = nil
	}
	m.addPC(t)
}

func (m *Machine) check(t *Term, msg string) {
	if len(m.arms) > 0 {
		panic(abortSpec{"assert"})
	}
	m.st.Asserts++
	t = m.simp(t)
	if t.IsTrue() {
		return
	}
	if m.replaying() {
		// decided when this prefix was first explored
		m.addPC(t)
		m.model = nil
		return
	}
	r, md := m.sat(m.c.Not(t), true)
	switch r {
	case Sat:
		m.model = md
		m.addPC(m.c.Not(t))
		panic(pathEnd{"violation", msg})
	case Unknown:
		m.noteErr("assertion undecided: "+msg, "")
	}
	m.addPC(t)
	if m.model != nil {
		if v := m.model.Eval(t); v == nil || v.Sign() == 0 {
			m.model = nil
		}
	}
}

// fresh variable of width w; the name is unique within the path and
// deterministic.
func (m *Machine) fresh(name string, w int) *Term {
	if len(m.arms) > 0 {
		panic(abortSpec{"fresh"})
	}
	n := m.names[name]
	m.names[name] = n + 1
	if n > 0 {
		name = fmt.Sprintf("%s#%d", name, n)
	}
	return m.c.Var(fmt.Sprintf("%s:%d", name, w), w)
}

func (m *Machine) noteApp(t *Term) {
	if !m.appSeen[t] {
		m.appSeen[t] = true
		m.apps = append(m.apps, t)
	}
}

// ---- running a path ----

type PathResult struct {
	Kind      string // done, infeasible, violation, limit, error, blocked
	Msg       string
	Violation *Violation
	Sample    *Violation // inputs of a completed path, for validation by native execution
	Depth     int
}

func (m *Machine) reset() {
	if m.lifter != nil {
		m.lifter.close()
		m.lifter = nil
	}
	m.ranged = map[*Term][2]*big.Int{}
	m.rollback(0)
	m.journalOn = true
	m.pc = m.pc[:0]
	m.known = map[*Term]bool{}
	m.subst = map[*Term]*Term{}
	m.substLog = nil
	m.rpcN = -1
	m.rewMemo = map[*Term]*Term{}
	m.model = NewModel()
	m.log = nil
	m.names = map[string]int{}
	m.inputs = nil
	m.apps = nil
	m.appSeen = map[*Term]bool{}
	m.observed = nil
	m.covers = map[string]bool{}
	m.locks = map[*Value]*lockState{}
	m.jsonTab = nil
	m.nested = 0
	m.stops = nil
	m.yieldReq = false
	m.yielded = nil
	m.tolerant = 0
	m.initDepth = 0
	m.steps = 0
	m.gs = nil
	m.nextG = 0
	m.preempt = 0
	m.oneOrder = false
	m.arms = nil
	m.spec = nil
	m.stepMax = m.cfg.MaxSteps
}

func (m *Machine) RunPath(fn *ssa.Function, prefix []int32, sample bool) (res PathResult) {
	m.reset()
	m.prefix = prefix
	t0 := time.Now()
	defer func() {
		m.st.Paths++
		m.st.Steps += m.steps
		if len(m.log) > m.st.MaxDepth {
			m.st.MaxDepth = len(m.log)
		}
		res.Depth = len(m.log)
		if m.cfg.Verbose {
			fmt.Printf("path %v (%s) decisions=%d steps=%d pc=%d %v\n", res.Kind, res.Msg, len(m.log), m.steps, len(m.pc), time.Since(t0).Round(time.Millisecond))
		}
	}()
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		switch e := r.(type) {
		case pathEnd:
			res.Kind, res.Msg = e.kind, e.msg
			switch e.kind {
			case "violation":
				v := m.mkViolation(e.msg)
				if v == nil {
					m.noteErr("violation without a model: "+e.msg, m.where())
					res.Kind = "error"
				}
				res.Violation = v
			case "limit":
				m.noteErr("limit: "+e.msg, m.where())
				res.Kind = "error"
			case "infeasible":
				m.st.Infeasible++
			}
		case *EngineError:
			res.Kind, res.Msg = "error", e.msg
			m.noteErr(e.msg, m.where())
		case abortSpec:
			res.Kind, res.Msg = "error", "speculation abort escaped: "+e.why
			m.noteErr(res.Msg, m.where())
		default:
			if m.cfg.Debug {
				panic(r)
			}
			res.Kind, res.Msg = "error", fmt.Sprint("engine panic: ", r)
			m.noteErr(res.Msg, m.where())
		}
	}()
	g := m.newG(&Closure{fn: fn}, nil)
	m.schedule(g)
	res.Kind = "done"
	for k := range m.covers {
		m.st.Covers[k]++
	}
	if sample {
		res.Sample = m.mkViolation("")
	}
	return
}

// mkViolation extracts concrete inputs for the current path.
func (m *Machine) mkViolation(msg string) *Violation {
	var want []*Term
	seen := map[*Term]bool{}
	add := func(t *Term) {
		for _, v := range collectLeaves([]*Term{t}) {
			if !seen[v] {
				seen[v] = true
				want = append(want, v)
			}
		}
	}
	pc, defs := m.solvedPC()
	pc = append(append([]*Term(nil), pc...), defs...)
	for _, t := range pc {
		add(t)
	}
	for _, in := range m.inputs {
		for _, t := range in.Terms {
			add(t)
		}
	}
	r, vals, err := m.solver.Check(pc, want)
	if r != Sat || err != nil {
		if m.solver2 == nil {
			m.solver2, _ = NewSolver("cvc5", m.cfg.SolverMs)
		}
		r, vals, err = m.solver2.Check(pc, want)
		if r != Sat || err != nil {
			return nil
		}
	}
	md := NewModel()
	for k, v := range vals {
		md.vals[k] = v
	}
	md.complete(m.apps)
	v := &Violation{Msg: msg, Log: append([]int32(nil), m.log...)}
	for _, in := range m.inputs {
		ri := ReplayInput{Name: in.Name, Kind: in.Kind, N: in.N}
		for _, t := range in.Terms {
			x := md.Eval(t)
			if x == nil {
				x = new(big.Int)
			}
			if t.w > 64 {
				ri.Vals = append(ri.Vals, x.Text(16))
			} else {
				ri.Vals = append(ri.Vals, x.Text(16))
			}
		}
		v.Inputs = append(v.Inputs, ri)
	}
	for _, a := range m.apps {
		x := md.Eval(a)
		if x == nil {
			continue
		}
		arg := ""
		if len(a.a) > 0 {
			y := md.Eval(a.a[0])
			if y == nil {
				continue
			}
			arg = hexw(y, a.a[0].w)
		}
		v.Apps = append(v.Apps, ReplayApp{Name: a.name, Arg: arg, Out: hexw(x, a.w)})
	}
	var obs []string
	for _, o := range m.observed {
		s := o.label + "="
		for _, p := range o.parts {
			if p.t == nil {
				s += p.text + ","
				continue
			}
			if x := md.Eval(p.t); x == nil {
				s += "?,"
			} else {
				s += x.Text(16) + ","
			}
		}
		obs = append(obs, s)
	}
	v.Trace = strings.Join(obs, "\n")
	v.Where = m.where()
	if m.g != nil && m.g.panicAt != "" {
		v.Where = m.g.panicAt
	}
	return v
}

// complete extends the model to applications the conditions do not mention:
// the same argument gives the same value, a new argument a new one.
func (md *Model) complete(apps []*Term) {
	table := map[string]*big.Int{}
	key := func(a *Term) string {
		if len(a.a) == 0 {
			return a.name
		}
		y := md.Eval(a.a[0])
		if y == nil {
			return ""
		}
		return a.name + "|" + y.Text(16)
	}
	for a, v := range md.vals {
		if a.op == OApp {
			if k := key(a); k != "" {
				table[k] = v
			}
		}
	}
	md.memo = map[*Term]*big.Int{}
	for _, a := range apps {
		if md.vals[a] != nil {
			continue
		}
		k := key(a)
		if k == "" {
			continue
		}
		v := table[k]
		if v == nil {
			v = filler(k, a.w)
			table[k] = v
		}
		md.vals[a] = v
		md.memo[a] = v
	}
}

func filler(k string, w int) *big.Int {
	out := []byte{}
	for i := 0; len(out)*8 < w; i++ {
		h := sha256.Sum256([]byte(fmt.Sprintf("%d/%s", i, k)))
		out = append(out, h[:]...)
	}
	v := new(big.Int).SetBytes(out)
	return wrap(v, w)
}

func hexw(v *big.Int, w int) string {
	h := v.Text(16)
	n := (w + 7) / 8 * 2
	if len(h) < n {
		h = strings.Repeat("0", n-len(h)) + h
	}
	return h
}

func (m *Machine) where() string {
	if m.g == nil {
		return ""
	}
	var sb strings.Builder
	for i := len(m.g.stack) - 1; i >= 0 && i > len(m.g.stack)-12; i-- {
		fr := m.g.stack[i]
		pos := ""
		if fr.block != nil && fr.pc < len(fr.fi.blocks[fr.block.Index]) {
			for j := fr.pc; j >= 0; j-- {
				if p := fr.fi.blocks[fr.block.Index][j].in.Pos(); p.IsValid() {
					pos = m.p.fset.Position(p).String()
					break
				}
			}
		}
		fmt.Fprintf(&sb, "  %s %s\n", fr.fi.name, pos)
	}
	return sb.String()
}

// postdominators by the simple iterative algorithm; nil stands for the exit.
func postdoms(fn *ssa.Function) []*ssa.BasicBlock {
	n := len(fn.Blocks)
	if n == 0 {
		return nil
	}
	// pd[i] = set of blocks postdominating i (bitset), exit implicit
	words := (n + 63) / 64
	full := make([]uint64, words)
	for i := 0; i < n; i++ {
		full[i/64] |= 1 << uint(i%64)
	}
	pd := make([][]uint64, n)
	for i := range pd {
		pd[i] = append([]uint64(nil), full...)
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			nw := make([]uint64, words)
			if k := len(b.Instrs); k > 0 {
				if _, ok := b.Instrs[k-1].(*ssa.Panic); ok {
					continue // never joins
				}
			}
			if len(b.Succs) > 0 {
				copy(nw, full)
				for _, s := range b.Succs {
					for k := range nw {
						nw[k] &= pd[s.Index][k]
					}
				}
			}
			nw[i/64] |= 1 << uint(i%64)
			for k := range nw {
				if nw[k] != pd[i][k] {
					pd[i] = nw
					ch = true
					break
				}
			}
		}
	}
	cnt := func(s []uint64) int {
		c := 0
		for i := 0; i < n; i++ {
			if s[i/64]>>uint(i%64)&1 == 1 {
				c++
			}
		}
		return c
	}
	out := make([]*ssa.BasicBlock, n)
	for i := 0; i < n; i++ {
		want := cnt(pd[i]) - 1
		for j := 0; j < n; j++ {
			if j != i && pd[i][j/64]>>uint(j%64)&1 == 1 && cnt(pd[j]) == want {
				out[i] = fn.Blocks[j]
			}
		}
	}
	return out
}
