package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

var _ = fmt.Sprint

const maxSpecSteps = 60000

func (m *Machine) newG(fn *Closure, args []Value) *G {
	g := &G{id: m.nextG}
	m.nextG++
	m.gs = append(m.gs, g)
	old := m.g
	m.g = g
	m.pushCall(g, fn, args, -1, false)
	m.g = old
	return g
}

// schedule runs goroutines until the main one ends.
func (m *Machine) schedule(main *G) {
	cur := main
	for {
		m.g = cur
		m.run(cur, 0, nil)
		if main.done {
			return
		}
		if m.yieldReq {
			m.yieldReq = false
		}
		var ready []*G
		for _, g := range m.gs {
			if g.done {
				continue
			}
			if g.blocked && g.wake() {
				g.blocked = false
			}
			if !g.blocked && (g != m.yielded) {
				ready = append(ready, g)
			}
		}
		if len(ready) == 0 && m.yielded != nil && !m.yielded.blocked && !m.yielded.done {
			ready = append(ready, m.yielded)
		}
		m.yielded = nil
		if len(ready) == 0 {
			why := ""
			for _, g := range m.gs {
				if !g.done {
					why += fmt.Sprintf(" g%d:%s", g.id, g.why)
				}
			}
			m.g = main
			panic(pathEnd{"violation", "deadlock:" + why})
		}
		if m.oneOrder {
			cur = ready[0]
		} else {
			cur = ready[m.choose(len(ready))]
		}
	}
}

// block makes the current goroutine wait; the instruction is executed again
// when wake reports true.
func (m *Machine) block(why string, wake func() bool) {
	if len(m.arms) > 0 {
		panic(abortSpec{"block"})
	}
	if m.nested > 0 {
		panic(engErr("blocking operation (%s) inside a nested call", why))
	}
	m.g.blocked = true
	m.g.why = why
	m.g.wake = wake
}

// syncPoint: a place where a context switch may be inserted. Returns true if
// the goroutine was descheduled (the instruction runs again later).
func (m *Machine) syncPoint() bool {
	g := m.g
	if g.atSync { // resumed here
		g.atSync = false
		return false
	}
	if m.preempt <= 0 || m.nested > 0 || len(m.arms) > 0 {
		return false
	}
	n := 0
	for _, o := range m.gs {
		if o != g && !o.done && (!o.blocked || o.wake()) {
			n++
		}
	}
	if n == 0 {
		return false
	}
	if m.choose(2) == 0 {
		return false
	}
	m.preempt--
	g.atSync = true
	m.yielded = g
	m.yieldReq = true
	return true
}

func (m *Machine) pushCall(g *G, fn *Closure, args []Value, dst int, isDefer bool) *Frame {
	if fn == nil {
		panic(engErr("call of nil closure"))
	}
	fi := m.info(fn.fn)
	if len(fi.blocks) == 0 {
		panic(engErr("no body: %s", fi.name))
	}
	if !fi.entered {
		fi.entered = true
		if fi.inRepo {
			m.st.Funcs[fi.name] = true
		}
	}
	if len(g.stack) > 400 {
		panic(engErr("stack too deep"))
	}
	fr := &Frame{fi: fi, regs: make([]Value, fi.nregs), block: fn.fn.Blocks[0], dst: dst, isDefer: isDefer}
	if len(args) != len(fn.fn.Params) {
		panic(engErr("%s: %d args for %d params", fi.name, len(args), len(fn.fn.Params)))
	}
	copy(fr.regs, args)
	copy(fr.regs[len(args):], fn.env)
	g.stack = append(g.stack, fr)
	return fr
}

// callSync calls a closure to completion from engine code.
func (m *Machine) callSync(fn *Closure, args []Value) Value {
	if fn == nil {
		m.panicRuntime("invalid memory address or nil pointer dereference")
	}
	if fn.native != nil {
		return fn.native(m, args)
	}
	if fn.fn != nil {
		fi := m.info(fn.fn)
		if fi.native != nil {
			return fi.native(m, nil, args)
		}
	}
	g := m.g
	base := len(g.stack)
	fr := m.pushCall(g, fn, args, -1, false)
	fr.sync = true
	m.nested++
	m.run(g, base, nil)
	m.nested--
	return fr.ret
}

type goPanic struct{ v Iface }

// panicRuntime raises a runtime error panic in the interpreted program.
func (m *Machine) panicRuntime(msg string) {
	panic(goPanic{Iface{m.p.runtimeErrT, "runtime error: " + msg}})
}

// run interprets until the stack is back at base, the goroutine blocks, or the
// stop point of the speculation in progress is reached.
func (m *Machine) run(g *G, base int, sp *specStop) (hit bool) {
	for {
		h, again := m.runProtected(g, base, sp)
		if !again {
			return h
		}
	}
}

func (m *Machine) runProtected(g *G, base int, sp *specStop) (hit, again bool) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		gp, ok := r.(goPanic)
		if !ok {
			panic(r)
		}
		if len(m.arms) > 0 {
			panic(abortSpec{"panic"})
		}
		m.raise(g, gp.v)
		again = true
	}()
	return m.loop(g, base, sp), false
}

type specStop struct {
	fr    *Frame
	block *ssa.BasicBlock // nil: at return
}

func (m *Machine) raise(g *G, v Iface) {
	g.panics = append(g.panics, &panicState{val: v})
	if len(g.stack) > 0 {
		fr := g.stack[len(g.stack)-1]
		if fr.unwinding && len(g.panics) > 1 { // new panic while unwinding the same frame
			g.panics = append(g.panics[:len(g.panics)-2], g.panics[len(g.panics)-1])
		}
		fr.unwinding = true
		if v.t != nil {
			g.panicAt = m.where()
		}
	}
}

func (m *Machine) panicText(v Iface) string {
	if v.t == nil {
		return "nil"
	}
	switch x := v.v.(type) {
	case string:
		return x
	case *Term:
		return x.String()
	}
	if s := m.errText(v); s != "" {
		return s
	}
	return types.TypeString(v.t, nil)
}

// unwindStep makes one step of unwinding the top frame.
func (m *Machine) unwindStep(g *G, base int) {
	fr := g.stack[len(g.stack)-1]
	if !fr.recoverd && g.panics[len(g.panics)-1].recovered {
		g.panics = g.panics[:len(g.panics)-1]
		fr.recoverd = true
	}
	if n := len(fr.defers); n > 0 {
		d := fr.defers[n-1]
		fr.defers = fr.defers[:n-1]
		m.callValue(g, d.fn, d.args, -1, true)
		if g.blocked || m.yieldReq {
			panic(engErr("deferred call blocks during a panic"))
		}
		return
	}
	if fr.recoverd {
		fr.unwinding, fr.recoverd = false, false
		if fr.fi.fn.Recover != nil {
			fr.prev = fr.block
			fr.block = fr.fi.fn.Recover
			fr.pc = 0
			return
		}
		m.doReturn(g, fr, m.zeroResult(fr.fi.fn))
		return
	}
	p := g.panics[len(g.panics)-1]
	g.stack = g.stack[:len(g.stack)-1]
	if fr.isDefer && len(g.stack) > 0 && g.stack[len(g.stack)-1].unwinding && len(g.panics) > 1 {
		// a panic in a deferred call replaces the one being unwound
		g.panics = append(g.panics[:len(g.panics)-2], p)
	}
	if len(g.stack) == 0 || fr.sync {
		if fr.sync && len(g.stack) > 0 {
			// let the engine-level caller unwind
			g.panics = g.panics[:len(g.panics)-1]
			panic(goPanic{p.val})
		}
		msg := "panic: " + m.panicText(p.val)
		panic(pathEnd{"violation", msg})
	}
	g.stack[len(g.stack)-1].unwinding = true
}

func (m *Machine) zeroResult(fn *ssa.Function) Value {
	res := fn.Signature.Results()
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return m.zero(res.At(0).Type())
	}
	return m.zero(res)
}

// doReturn pops the frame and delivers the result.
func (m *Machine) doReturn(g *G, fr *Frame, v Value) {
	fr.ret = v
	g.stack = g.stack[:len(g.stack)-1]
	if len(g.stack) == 0 {
		g.done = true
		return
	}
	if fr.sync || fr.isDefer {
		return
	}
	caller := g.stack[len(g.stack)-1]
	if fr.dst >= 0 {
		caller.regs[fr.dst] = v
	}
}

// callValue calls a function value; natives complete at once, others push a frame.
func (m *Machine) callValue(g *G, fv Value, args []Value, dst int, isDefer bool) {
	cl, ok := fv.(*Closure)
	if !ok {
		if p, ok := fv.(Poison); ok {
			panic(engErr("call of poison: %s", p.why))
		}
		panic(engErr("call of %T", fv))
	}
	if cl == nil {
		m.panicRuntime("invalid memory address or nil pointer dereference")
	}
	var fr *Frame
	if len(g.stack) > 0 {
		fr = g.stack[len(g.stack)-1]
	}
	if cl.bi != nil {
		v := m.builtin(fr, cl.bi, args, nil, isDefer)
		if dst >= 0 && !g.blocked {
			fr.regs[dst] = v
		}
		return
	}
	if cl.native != nil {
		v := cl.native(m, args)
		if dst >= 0 && !g.blocked {
			fr.regs[dst] = v
		}
		return
	}
	fi := m.info(cl.fn)
	if fi.native != nil {
		v := fi.native(m, fr, args)
		if dst >= 0 && !g.blocked && !m.yieldReq {
			fr.regs[dst] = v
		}
		return
	}
	if m.tolerant > 0 && len(fi.blocks) == 0 {
		if dst >= 0 {
			fr.regs[dst] = Poison{"no body: " + fi.name}
		}
		return
	}
	m.pushCall(g, cl, args, dst, isDefer)
}

func (m *Machine) loop(g *G, base int, sp *specStop) bool {
	for {
		if len(g.stack) <= base {
			return false
		}
		fr := g.stack[len(g.stack)-1]
		if fr.unwinding {
			m.unwindStep(g, base)
			continue
		}
		ins := fr.fi.blocks[fr.block.Index]
		if sp != nil && fr == sp.fr && fr.block == sp.block && fr.pc == 0 {
			return true
		}
		ci := ins[fr.pc]
		m.steps++
		if m.steps > m.stepMax {
			if len(m.arms) > 0 {
				panic(abortSpec{"steps"})
			}
			panic(pathEnd{"limit", "step limit"})
		}
		switch in := ci.in.(type) {
		case *ssa.If:
			c, ok := m.get(fr, &ci.ops[0]).(*Term)
			if !ok {
				panic(engErr("if on %T", m.get(fr, &ci.ops[0])))
			}
			if !c.IsConst() {
				c = m.simp(c)
			}
			if !c.IsConst() {
				switch m.tryMerge(g, fr, ci, c, sp) {
				case 1:
					continue
				case 2:
					return true
				}
			}
			k := 1
			if m.decide(c) {
				k = 0
			}
			m.jump(fr, fr.block.Succs[k])
			continue
		case *ssa.Jump:
			m.jump(fr, fr.block.Succs[0])
			continue
		case *ssa.Return:
			var v Value
			switch len(ci.ops) {
			case 0:
			case 1:
				v = m.get(fr, &ci.ops[0])
			default:
				t := make(Tuple, len(ci.ops))
				for i := range ci.ops {
					t[i] = m.get(fr, &ci.ops[i])
				}
				v = t
			}
			if sp != nil && fr == sp.fr && sp.block == nil {
				fr.ret = v
				return true
			}
			m.doReturn(g, fr, v)
			continue
		case *ssa.Panic:
			v, _ := m.get(fr, &ci.ops[0]).(Iface)
			panic(goPanic{v})
		case *ssa.RunDefers:
			if n := len(fr.defers); n > 0 {
				d := fr.defers[n-1]
				if len(m.arms) > 0 {
					panic(abortSpec{"defer"})
				}
				fr.defers = fr.defers[:n-1]
				m.callValue(g, d.fn, d.args, -1, true)
				if g.blocked || m.yieldReq { // deferred call that blocks: retry
					fr.defers = append(fr.defers, d)
					return false
				}
				continue
			}
			fr.pc++
			continue
		case *ssa.Call:
			m.call(g, fr, ci, &in.Call)
			if g.blocked || m.yieldReq {
				return false
			}
			fr.pc++
			continue
		case *ssa.Go:
			fn, args := m.callTarget(fr, ci, &in.Call)
			if len(m.arms) > 0 {
				panic(abortSpec{"go"})
			}
			cl := fn.(*Closure)
			if cl.fn == nil || m.info(cl.fn).native != nil {
				panic(engErr("go of native function"))
			}
			m.newG(cl, args)
			fr.pc++
			continue
		case *ssa.Defer:
			fn, args := m.callTarget(fr, ci, &in.Call)
			if len(m.arms) > 0 {
				panic(abortSpec{"defer"})
			}
			fr.defers = append(fr.defers, deferred{fn, args})
			fr.pc++
			continue
		case *ssa.Send:
			if m.syncPoint() {
				return false
			}
			if !m.chanSend(m.get(fr, &ci.ops[0]), m.get(fr, &ci.ops[1])) {
				return false
			}
			fr.pc++
			continue
		case *ssa.Select:
			if m.syncPoint() {
				return false
			}
			v, ok := m.doSelect(fr, ci, in)
			if !ok {
				return false
			}
			fr.regs[ci.dst] = v
			fr.pc++
			continue
		case *ssa.UnOp:
			if in.Op == token.ARROW {
				if m.syncPoint() {
					return false
				}
				v, ok := m.chanRecv(m.get(fr, &ci.ops[0]), in)
				if !ok {
					return false
				}
				fr.regs[ci.dst] = v
				fr.pc++
				continue
			}
		}
		m.exec(fr, ci)
		fr.pc++
	}
}

func (m *Machine) jump(fr *Frame, to *ssa.BasicBlock) {
	fr.prev = fr.block
	fr.block = to
	fr.pc = 0
	ins := fr.fi.blocks[to.Index]
	if len(ins) > 0 {
		if _, ok := ins[0].in.(*ssa.Phi); ok {
			if !m.phiHold(fr, to) {
				m.doPhis(fr, to, fr.prev)
			}
		}
	}
}

// phiHold: the join of a merge in progress evaluates its phis itself.
func (m *Machine) phiHold(fr *Frame, to *ssa.BasicBlock) bool {
	return len(m.stops) > 0 && m.stops[len(m.stops)-1].fr == fr && m.stops[len(m.stops)-1].block == to
}

func (m *Machine) phiVals(fr *Frame, b, prev *ssa.BasicBlock) ([]Value, int) {
	pi := -1
	for i, p := range b.Preds {
		if p == prev {
			pi = i
			break
		}
	}
	ins := fr.fi.blocks[b.Index]
	var vals []Value
	n := 0
	for _, ci := range ins {
		if _, ok := ci.in.(*ssa.Phi); !ok {
			break
		}
		vals = append(vals, m.get(fr, &ci.ops[pi]))
		n++
	}
	return vals, n
}

func (m *Machine) doPhis(fr *Frame, b, prev *ssa.BasicBlock) {
	vals, n := m.phiVals(fr, b, prev)
	ins := fr.fi.blocks[b.Index]
	for i := 0; i < n; i++ {
		fr.regs[ins[i].dst] = vals[i]
	}
	fr.pc = n
}

// ---- merging ----

type segment struct {
	final map[*Value]Value
	fresh map[*Value]bool
	ret   Value
	phis  []Value
	regs  []Value // of carriedRegs
}

// carriedRegs: an arm that goes round a loop executes blocks again that
// dominate the join, so that registers the join and its successors use
// without a phi have different values at the end of each arm.
func (fi *FuncInfo) carriedRegs(b, join *ssa.BasicBlock) []int {
	if join == nil {
		return nil
	}
	if r, ok := fi.carried[b.Index]; ok {
		return r
	}
	inArm := make([]bool, len(fi.fn.Blocks))
	var walk func(x *ssa.BasicBlock)
	walk = func(x *ssa.BasicBlock) {
		if x == join || inArm[x.Index] {
			return
		}
		inArm[x.Index] = true
		for _, s := range x.Succs {
			walk(s)
		}
	}
	for _, s := range b.Succs {
		walk(s)
	}
	regs := []int{}
	for _, x := range fi.fn.Blocks {
		if !inArm[x.Index] || !x.Dominates(join) {
			continue
		}
		// blocks reachable from the join without executing x again
		after := make([]bool, len(fi.fn.Blocks))
		var reach func(y *ssa.BasicBlock)
		reach = func(y *ssa.BasicBlock) {
			if y == x || after[y.Index] {
				return
			}
			after[y.Index] = true
			for _, s := range y.Succs {
				reach(s)
			}
		}
		reach(join)
		for _, in := range x.Instrs {
			v, ok := in.(ssa.Value)
			if !ok || v.Referrers() == nil {
				continue
			}
			live := false
			for _, u := range *v.Referrers() {
				if phi, ok := u.(*ssa.Phi); ok {
					for i, e := range phi.Edges {
						if e == v && after[phi.Block().Preds[i].Index] {
							live = true
						}
					}
				} else if after[u.Block().Index] {
					live = true
				}
			}
			if live {
				regs = append(regs, fi.slot[v])
			}
		}
	}
	fi.carried[b.Index] = regs
	return regs
}

// tryMerge executes both arms of a branch up to their join and merges the
// results. 0: not merged, 1: merged, 2: merged and the stop point of the
// enclosing merge is reached.
func (m *Machine) tryMerge(g *G, fr *Frame, ci *cinstr, c *Term, sp0 *specStop) int {
	join := fr.fi.ipdom[fr.block.Index]
	carried := fr.fi.carriedRegs(fr.block, join)
	replay := m.replaying()
	if replay {
		if evKind(m.prefix[len(m.log)]) != evMerged {
			return 0
		}
	} else {
		if m.cfg.NoMerge || m.blacklist[ci] > 1 || m.initDepth > 0 {
			return 0
		}
		if join == nil && (fr.fi.hasDef || len(fr.defers) > 0) {
			return 0
		}
		if !m.cheapArms(fr, join) && !m.bothFeasible(c) {
			return 0
		}
	}
	nlog, npc := len(m.log), len(m.pc)
	model := m.model
	m.log = append(m.log, ev(evMerged, 0))
	block, prev, pc := fr.block, fr.prev, fr.pc
	regs := append([]Value(nil), fr.regs...)
	depth := len(g.stack)
	steps0 := m.stepMax
	nj := len(m.journal)
	nesting := m.nested
	narms, nstops := len(m.arms), len(m.stops)
	restore := func() {
		m.rollback(nj)
		fr.block, fr.prev, fr.pc = block, prev, pc
		copy(fr.regs, regs)
		fr.ret, fr.phiOv = nil, nil
		g.stack = g.stack[:depth]
		m.truncPC(npc)
		m.model = model
		m.arms = m.arms[:narms]
		m.stops = m.stops[:nstops]
		m.nested = nesting
		m.stepMax = steps0
	}
	runArm := func(k int, cond *Term) (seg *segment, why string) {
		defer func() {
			r := recover()
			switch e := r.(type) {
			case nil:
			case abortSpec:
				seg, why = nil, e.why
			case pathEnd:
				seg, why = nil, e.kind+" "+e.msg
			case *EngineError:
				seg, why = nil, e.msg
			default:
				panic(r)
			}
		}()
		if m.simp(cond).IsFalse() {
			return nil, "infeasible"
		}
		if narms == 0 && m.steps+maxSpecSteps < steps0 {
			m.stepMax = m.steps + maxSpecSteps
		}
		fresh := map[*Value]bool{}
		stop := &specStop{fr, join}
		m.arms = append(m.arms, &arm{fresh: fresh})
		m.stops = append(m.stops, stop)
		m.addPC(cond)
		if m.model != nil {
			if v := m.model.Eval(cond); v == nil || v.Sign() == 0 {
				m.model = nil
			}
		}
		m.nested++
		m.jump(fr, fr.block.Succs[k])
		if !m.run(g, depth-1, stop) {
			return nil, "no join"
		}
		s := &segment{final: map[*Value]Value{}, fresh: fresh}
		for i := nj; i < len(m.journal); i++ {
			u := &m.journal[i]
			if u.f != nil {
				return nil, "effect"
			}
			s.final[u.cell] = *u.cell
		}
		s.ret = fr.ret
		if join != nil {
			if fr.phiOv != nil {
				s.phis = fr.phiOv
			} else {
				s.phis, _ = m.phiVals(fr, join, fr.prev)
			}
			for _, r := range carried {
				s.regs = append(s.regs, fr.regs[r])
			}
		}
		return s, ""
	}
	fail := func(why string) int {
		restore()
		m.log = m.log[:nlog]
		if replay {
			panic(engErr("merge failed in replay: %s", why))
		}
		m.st.MergeAborts++
		if m.cfg.Verbose && m.blacklist[ci] == 0 {
			fmt.Printf("  no merge at %s %s: %s\n", fr.fi.name, m.p.fset.Position(ci.in.(*ssa.If).Cond.Pos()), why)
		}
		if why != "then: steps" && why != "else: steps" {
			m.blacklist[ci]++
		}
		return 0
	}
	a, why := runArm(0, c)
	if a == nil {
		return fail("then: " + why)
	}
	restore()
	b, why := runArm(1, m.c.Not(c))
	if b == nil {
		return fail("else: " + why)
	}
	restore()
	sp := &specState{freshA: a.fresh, freshB: b.fresh, finalA: a.final, finalB: b.final,
		pairA: map[*Value]*slicePair{}, pairB: map[*Value]*slicePair{}}
	save := m.spec
	m.spec = sp
	defer func() { m.spec = save }()
	var ret Value
	var phis []Value
	ok := true
	if join == nil {
		if ret, ok = m.iteVal(c, a.ret, b.ret); !ok {
			return fail("results differ")
		}
	} else {
		phis = make([]Value, len(a.phis))
		for i := range phis {
			if phis[i], ok = m.iteVal(c, a.phis[i], b.phis[i]); !ok {
				return fail(fmt.Sprintf("values differ %T %T", a.phis[i], b.phis[i]))
			}
		}
	}
	kept := make([]Value, len(carried))
	for i := range carried {
		if kept[i], ok = m.iteVal(c, a.regs[i], b.regs[i]); !ok {
			return fail(fmt.Sprintf("registers differ %T", a.regs[i]))
		}
	}
	type upd struct {
		cell *Value
		v    Value
	}
	var upds []upd
	for cell, va := range a.final {
		if a.fresh[cell] {
			continue
		}
		vb, in := b.final[cell]
		if !in {
			vb = *cell
		}
		v, ok := m.iteVal(c, va, vb)
		if !ok {
			return fail("cells differ")
		}
		upds = append(upds, upd{cell, v})
	}
	for cell, vb := range b.final {
		if b.fresh[cell] {
			continue
		}
		if _, in := a.final[cell]; in {
			continue
		}
		v, ok := m.iteVal(c, *cell, vb)
		if !ok {
			return fail("cells differ")
		}
		upds = append(upds, upd{cell, v})
	}
	for _, u := range upds {
		m.set(u.cell, u.v)
	}
	for i, r := range carried {
		fr.regs[r] = kept[i]
	}
	m.st.Merges++
	if join == nil {
		if sp0 != nil && sp0.fr == fr && sp0.block == nil {
			fr.ret = ret
			return 2
		}
		m.doReturn(g, fr, ret)
		return 1
	}
	fr.prev, fr.block, fr.pc = block, join, 0
	if sp0 != nil && sp0.fr == fr && sp0.block == join {
		fr.phiOv = phis
		if fr.phiOv == nil {
			fr.phiOv = []Value{}
		}
		return 2
	}
	ins := fr.fi.blocks[join.Index]
	for i := range phis {
		fr.regs[ins[i].dst] = phis[i]
	}
	fr.pc = len(phis)
	return 1
}

// cheapArms: both arms are at most one small block without calls.
func (m *Machine) cheapArms(fr *Frame, join *ssa.BasicBlock) bool {
	if join == nil {
		return false
	}
	for _, s := range fr.block.Succs {
		if s == join {
			continue
		}
		if len(s.Succs) != 1 || s.Succs[0] != join || len(s.Instrs) > 8 {
			return false
		}
		for _, in := range s.Instrs {
			switch in.(type) {
			case *ssa.Call, *ssa.Panic, *ssa.Go, *ssa.Defer, *ssa.MakeSlice, *ssa.MapUpdate:
				return false
			}
		}
	}
	return true
}

func (m *Machine) bothFeasible(c *Term) bool {
	if m.model != nil {
		if v := m.model.Eval(c); v != nil {
			if v.Sign() != 0 {
				c = m.c.Not(c)
			}
			r, _ := m.sat(c, false)
			return r != Unsat
		}
	}
	r, md := m.sat(c, true)
	if r == Unsat {
		return false
	}
	if r == Sat {
		m.model = md
	}
	r, _ = m.sat(m.c.Not(c), false)
	return r != Unsat
}
