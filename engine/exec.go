package main

import (
	"go/token"
	"go/types"
	"math"
	"math/big"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func bigU(u uint64) *big.Int { return new(big.Int).SetUint64(u) }

func (m *Machine) exec(fr *Frame, ci *cinstr) {
	switch in := ci.in.(type) {
	case *ssa.UnOp:
		fr.regs[ci.dst] = m.unop(fr, ci, in)
	case *ssa.BinOp:
		fr.regs[ci.dst] = m.binop(in.Op, in.X.Type(), in.Y.Type(), m.get(fr, &ci.ops[0]), m.get(fr, &ci.ops[1]))
	case *ssa.Store:
		p := m.get(fr, &ci.ops[0])
		v := m.get(fr, &ci.ops[1])
		m.store(p, v)
	case *ssa.Alloc:
		fr.regs[ci.dst] = m.newCell(m.zero(in.Type().Underlying().(*types.Pointer).Elem()))
	case *ssa.FieldAddr:
		p := m.ptr(m.get(fr, &ci.ops[0]))
		s, ok := (*p).(Struct)
		if !ok {
			if po, ok := (*p).(Poison); ok {
				panic(engErr("field of poison: %s", po.why))
			}
			panic(engErr("field address of %T (%v)", *p, in))
		}
		fr.regs[ci.dst] = &s[in.Field]
	case *ssa.Field:
		s, ok := m.get(fr, &ci.ops[0]).(Struct)
		if !ok {
			panic(engErr("field of %T", m.get(fr, &ci.ops[0])))
		}
		fr.regs[ci.dst] = copyVal(s[in.Field])
	case *ssa.IndexAddr:
		fr.regs[ci.dst] = m.indexAddr(m.get(fr, &ci.ops[0]), m.get(fr, &ci.ops[1]).(*Term), in)
	case *ssa.Index:
		fr.regs[ci.dst] = m.index(m.get(fr, &ci.ops[0]), m.get(fr, &ci.ops[1]).(*Term), in.Index.Type())
	case *ssa.Lookup:
		fr.regs[ci.dst] = m.lookup(fr, ci, in)
	case *ssa.MapUpdate:
		mp := m.get(fr, &ci.ops[0])
		m.mapSet(mp, m.get(fr, &ci.ops[1]), m.get(fr, &ci.ops[2]))
	case *ssa.MakeMap:
		mt := in.Type().Underlying().(*types.Map)
		fr.regs[ci.dst] = &Map{kt: mt.Key(), vt: mt.Elem()}
	case *ssa.MakeChan:
		n := m.concInt(m.get(fr, &ci.ops[0]).(*Term))
		fr.regs[ci.dst] = &Chan{cap: int(n)}
	case *ssa.MakeSlice:
		l := m.concInt(m.get(fr, &ci.ops[0]).(*Term))
		c := m.concInt(m.get(fr, &ci.ops[1]).(*Term))
		if l < 0 || l > 1<<24 {
			m.panicRuntime("makeslice: len out of range")
		}
		if c < l || c > 1<<24 {
			m.panicRuntime("makeslice: cap out of range")
		}
		fr.regs[ci.dst] = m.makeSlice(in.Type().Underlying().(*types.Slice).Elem(), int(l), int(c))
	case *ssa.MakeClosure:
		env := make([]Value, len(ci.ops)-1)
		for i := range env {
			env[i] = m.get(fr, &ci.ops[i+1])
		}
		fr.regs[ci.dst] = &Closure{fn: in.Fn.(*ssa.Function), env: env}
	case *ssa.MakeInterface:
		fr.regs[ci.dst] = Iface{in.X.Type(), copyVal(m.get(fr, &ci.ops[0]))}
	case *ssa.ChangeInterface:
		fr.regs[ci.dst] = m.get(fr, &ci.ops[0])
	case *ssa.ChangeType:
		fr.regs[ci.dst] = m.get(fr, &ci.ops[0])
	case *ssa.Convert:
		fr.regs[ci.dst] = m.convert(in.X.Type(), in.Type(), m.get(fr, &ci.ops[0]))
	case *ssa.MultiConvert:
		fr.regs[ci.dst] = m.convert(in.X.Type(), in.Type(), m.get(fr, &ci.ops[0]))
	case *ssa.SliceToArrayPointer:
		s := m.get(fr, &ci.ops[0]).(Slice)
		n := int(in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if n > len(s.v) {
			m.panicRuntime("cannot convert slice with length to array or pointer to array")
		}
		if s.nil {
			fr.regs[ci.dst] = (*Value)(nil)
		} else {
			fr.regs[ci.dst] = m.newCell(Array(s.v[:n:n])) // shares the elements
		}
	case *ssa.TypeAssert:
		fr.regs[ci.dst] = m.typeAssert(m.get(fr, &ci.ops[0]), in)
	case *ssa.Extract:
		t, ok := m.get(fr, &ci.ops[0]).(Tuple)
		if !ok {
			if p, ok := m.get(fr, &ci.ops[0]).(Poison); ok {
				fr.regs[ci.dst] = p
				return
			}
			panic(engErr("extract of %T", m.get(fr, &ci.ops[0])))
		}
		fr.regs[ci.dst] = t[in.Index]
	case *ssa.Slice:
		fr.regs[ci.dst] = m.sliceOp(fr, ci, in)
	case *ssa.Phi:
		panic(engErr("phi reached in %s", fr.fi.name))
	case *ssa.Range:
		switch x := m.get(fr, &ci.ops[0]).(type) {
		case *Map:
			if x == nil {
				fr.regs[ci.dst] = &RangeIter{m: x}
			} else {
				fr.regs[ci.dst] = &RangeIter{m: x, ents: append([]mapEntry(nil), x.ents...)}
			}
		default:
			fr.regs[ci.dst] = &RangeIter{str: x}
		}
	case *ssa.Next:
		fr.regs[ci.dst] = m.next(m.get(fr, &ci.ops[0]).(*RangeIter), in)
	default:
		panic(engErr("instruction %T", ci.in))
	}
}

func (m *Machine) ptr(v Value) *Value {
	switch p := v.(type) {
	case *Value:
		if p == nil {
			m.panicRuntime("invalid memory address or nil pointer dereference")
		}
		return p
	case SymPtr:
		return &p.elems[m.concIndex(p.idx, len(p.elems))]
	case Poison:
		panic(engErr("dereference of poison: %s", p.why))
	}
	panic(engErr("dereference of %T", v))
}

func (m *Machine) load(v Value) Value {
	if p, ok := v.(SymPtr); ok {
		return m.symLoad(p.elems, p.idx)
	}
	return copyVal(*m.ptr(v))
}

func (m *Machine) store(p, v Value) {
	if sp, ok := p.(SymPtr); ok {
		for i := range sp.elems {
			g := m.c.Eq(sp.idx, m.c.Const(sp.idx.w, uint64(i)))
			nv, ok := m.iteVal(g, v, sp.elems[i])
			if !ok {
				panic(engErr("symbolic store"))
			}
			m.set(&sp.elems[i], nv)
		}
		return
	}
	m.storeInto(m.ptr(p), v)
}

func (m *Machine) symLoad(elems []Value, idx *Term) Value {
	if idx.IsConst() {
		return copyVal(elems[idx.u])
	}
	r := elems[len(elems)-1]
	for i := len(elems) - 2; i >= 0; i-- {
		v, ok := m.iteVal(m.c.Eq(idx, m.c.Const(idx.w, uint64(i))), elems[i], r)
		if !ok {
			return copyVal(elems[m.concIndex(idx, len(elems))])
		}
		r = v
	}
	return r
}

// concIndex forks over the values of a symbolic index known to be in range.
func (m *Machine) concIndex(t *Term, n int) int {
	if t.IsConst() {
		return int(t.u)
	}
	return int(m.concInt(t))
}

// concInt makes an integer concrete, forking over its possible values.
func (m *Machine) concInt(t *Term) int64 {
	for i := 0; ; i++ {
		if t.IsConst() {
			return t.S64()
		}
		if t.op == OIte {
			if m.decide(t.a[0]) {
				t = t.a[1]
			} else {
				t = t.a[2]
			}
			continue
		}
		if i > 64 {
			panic(engErr("too many values of a symbolic integer"))
		}
		var v uint64
		if m.replaying() {
			e := m.prefix[len(m.log)]
			if evKind(e) != evConc {
				panic(engErr("replay diverged at concretisation"))
			}
			m.log = append(m.log, e)
			v = uint64(evVal(e))
			if v&(1<<23) != 0 {
				v |= ^uint64(1<<23 - 1)
			}
		} else {
			md := m.model
			var x *big.Int
			if md != nil {
				x = md.Eval(t)
			}
			if x == nil {
				r, md := m.sat(m.c.True, true)
				if r != Sat {
					panic(engErr("no value for a symbolic integer"))
				}
				m.model = md
				if x = md.Eval(t); x == nil {
					panic(engErr("no value for a symbolic integer"))
				}
			}
			v = x.Uint64()
			sv := m.c.Const(t.w, v).S64()
			if sv >= 1<<23 || sv < -(1<<23) {
				// far outside every bound used here: classify as large
				panic(engErr("symbolic integer too large to make concrete: %d", sv))
			}
			m.log = append(m.log, ev(evConc, int(uint64(sv)&0xffffff)))
			v = uint64(sv)
		}
		if m.decide(m.c.Eq(t, m.c.Const(t.w, v))) {
			return m.c.Const(t.w, v).S64()
		}
	}
}

func (m *Machine) bound(idx *Term, t types.Type, n int, what string) *Term {
	// idx as 64-bit, checked 0 <= idx < n
	w, signed, _ := intType(t)
	if w < 64 {
		if signed {
			idx = m.c.Sext(idx, 64)
		} else {
			idx = m.c.Zext(idx, 64)
		}
	}
	ok := m.c.Ult(idx, m.c.Const(64, uint64(n)))
	if !m.decide(ok) {
		m.panicRuntime("index out of range")
	}
	return idx
}

func (m *Machine) indexAddr(x Value, idx *Term, in *ssa.IndexAddr) Value {
	var elems []Value
	switch x := x.(type) {
	case Slice:
		elems = x.v
	case *Value:
		p := m.ptr(x)
		a, ok := (*p).(Array)
		if !ok {
			panic(engErr("index address of %T", *p))
		}
		elems = a
	case SymPtr:
		a, ok := (*m.ptr(x)).(Array)
		if !ok {
			panic(engErr("index address of SymPtr"))
		}
		elems = a
	default:
		panic(engErr("index address of %T", x))
	}
	idx = m.bound(idx, in.Index.Type(), len(elems), "index")
	if idx.IsConst() {
		return &elems[idx.u]
	}
	for _, e := range elems {
		if _, ok := e.(*Term); !ok {
			return &elems[m.concIndex(idx, len(elems))]
		}
	}
	return SymPtr{elems, idx}
}

func (m *Machine) index(x Value, idx *Term, it types.Type) Value {
	switch x := x.(type) {
	case Array:
		idx = m.bound(idx, it, len(x), "index")
		return m.symLoad(x, idx)
	case string:
		idx = m.bound(idx, it, len(x), "index")
		if idx.IsConst() {
			return m.c.bytes[x[idx.u]]
		}
		return m.symLoad(termVals(m.strBytes(x)), idx)
	case SymStr:
		idx = m.bound(idx, it, len(x), "index")
		if idx.IsConst() {
			return x[idx.u]
		}
		return m.symLoad(termVals(x), idx)
	}
	panic(engErr("index of %T", x))
}

func termVals(ts []*Term) []Value {
	out := make([]Value, len(ts))
	for i, t := range ts {
		out[i] = t
	}
	return out
}

func (m *Machine) unop(fr *Frame, ci *cinstr, in *ssa.UnOp) Value {
	x := m.get(fr, &ci.ops[0])
	switch in.Op {
	case token.MUL:
		return m.load(x)
	case token.NOT:
		return m.c.Not(x.(*Term))
	case token.SUB:
		switch x := x.(type) {
		case *Term:
			return m.c.Neg(x)
		case float64:
			return -x
		case complex128:
			return -x
		}
	case token.XOR:
		return m.c.BNot(x.(*Term))
	}
	panic(engErr("unop %v on %T", in.Op, x))
}

func (m *Machine) binop(op token.Token, tx, ty types.Type, x, y Value) Value {
	if p, ok := x.(Poison); ok {
		return p
	}
	if p, ok := y.(Poison); ok {
		return p
	}
	switch op {
	case token.EQL:
		return m.eqVal(tx, x, y)
	case token.NEQ:
		return m.c.Not(m.eqVal(tx, x, y))
	}
	switch a := x.(type) {
	case *Term:
		b := y.(*Term)
		_, signed, _ := intType(tx)
		if a.w == -1 || b.w == -1 {
			panic(engErr("Int arithmetic in binop"))
		}
		switch op {
		case token.SHL, token.SHR:
			if _, sy, _ := intType(ty); sy {
				if m.decide(m.c.Slt(b, m.c.Const(b.w, 0))) {
					m.panicRuntime("negative shift amount")
				}
			}
			o := OShl
			if op == token.SHR {
				o = OLshr
				if signed {
					o = OAshr
				}
			}
			return m.c.Shift(o, a, b)
		}
		if a.w != b.w {
			panic(engErr("binop %v on widths %d %d", op, a.w, b.w))
		}
		switch op {
		case token.ADD:
			return m.c.Add(a, b)
		case token.SUB:
			return m.c.Sub(a, b)
		case token.MUL:
			return m.c.Mul(a, b)
		case token.QUO, token.REM:
			if m.decide(m.c.Eq(b, m.c.Const(b.w, 0))) {
				m.panicRuntime("integer divide by zero")
			}
			switch {
			case op == token.QUO && signed:
				return m.c.Div(OSDiv, a, b)
			case op == token.QUO:
				return m.c.Div(OUDiv, a, b)
			case signed:
				return m.c.Div(OSRem, a, b)
			}
			return m.c.Div(OURem, a, b)
		case token.AND:
			if a.w == 0 {
				return m.c.And(a, b)
			}
			return m.c.BAnd(a, b)
		case token.OR:
			if a.w == 0 {
				return m.c.Or(a, b)
			}
			return m.c.BOr(a, b)
		case token.XOR:
			return m.c.BXor(a, b)
		case token.AND_NOT:
			return m.c.BAnd(a, m.c.BNot(b))
		case token.LSS:
			if signed {
				return m.c.Slt(a, b)
			}
			return m.c.Ult(a, b)
		case token.LEQ:
			if signed {
				return m.c.Sle(a, b)
			}
			return m.c.Ule(a, b)
		case token.GTR:
			if signed {
				return m.c.Slt(b, a)
			}
			return m.c.Ult(b, a)
		case token.GEQ:
			if signed {
				return m.c.Sle(b, a)
			}
			return m.c.Ule(b, a)
		}
	case string, SymStr:
		if op == token.ADD {
			if s, ok := x.(string); ok {
				if t, ok := y.(string); ok {
					return s + t
				}
			}
			return mkStr(append(append([]*Term(nil), m.strBytes(x)...), m.strBytes(y)...))
		}
		p, q := m.strBytes(x), m.strBytes(y)
		lt := func(p, q []*Term) *Term {
			n := min(len(p), len(q))
			r := m.c.Bool(len(p) < len(q))
			for i := n - 1; i >= 0; i-- {
				r = m.c.Or(m.c.Ult(p[i], q[i]), m.c.And(m.c.Eq(p[i], q[i]), r))
			}
			return r
		}
		switch op {
		case token.LSS:
			return lt(p, q)
		case token.GTR:
			return lt(q, p)
		case token.LEQ:
			return m.c.Not(lt(q, p))
		case token.GEQ:
			return m.c.Not(lt(p, q))
		}
	case float64:
		b := y.(float64)
		switch op {
		case token.ADD:
			return a + b
		case token.SUB:
			return a - b
		case token.MUL:
			return a * b
		case token.QUO:
			return a / b
		case token.LSS:
			return m.c.Bool(a < b)
		case token.LEQ:
			return m.c.Bool(a <= b)
		case token.GTR:
			return m.c.Bool(a > b)
		case token.GEQ:
			return m.c.Bool(a >= b)
		}
	}
	panic(engErr("binop %v on %T %T", op, x, y))
}

// eqVal is Go's == on two values of the same static type.
func (m *Machine) eqVal(t types.Type, x, y Value) *Term {
	switch a := x.(type) {
	case *Term:
		b, ok := y.(*Term)
		if !ok {
			panic(engErr("eq term %T", y))
		}
		return m.c.Eq(a, b)
	case string, SymStr:
		if s, ok := x.(string); ok {
			if t, ok := y.(string); ok {
				return m.c.Bool(s == t)
			}
		}
		return m.eqBytes(m.strBytes(x), m.strBytes(y))
	case float64:
		return m.c.Bool(a == y.(float64))
	case complex128:
		return m.c.Bool(a == y.(complex128))
	case *Value:
		b, ok := y.(*Value)
		if !ok {
			if _, sym := y.(SymPtr); sym {
				return m.c.Bool(false)
			}
			if _, isN := y.(Native); isN || y == nil {
				return m.c.Bool(false)
			}
			panic(engErr("eq pointer %T", y))
		}
		return m.c.Bool(a == b)
	case *Map:
		b, _ := y.(*Map)
		return m.c.Bool(a == b)
	case *Chan:
		b, _ := y.(*Chan)
		return m.c.Bool(a == b)
	case *Closure:
		b, _ := y.(*Closure)
		return m.c.Bool(a == b)
	case Slice:
		b := y.(Slice)
		return m.c.Bool(a.nil && b.nil)
	case Iface:
		b, ok := y.(Iface)
		if !ok { // mixed comparison with a concrete value
			if y == nil {
				return m.c.Bool(a.t == nil)
			}
			panic(engErr("eq iface %T", y))
		}
		if a.t == nil || b.t == nil {
			return m.c.Bool(a.t == nil && b.t == nil)
		}
		if !types.Identical(a.t, b.t) {
			return m.c.False
		}
		if !types.Comparable(a.t) {
			m.panicRuntime("comparing uncomparable type " + a.t.String())
		}
		return m.eqVal(a.t, a.v, b.v)
	case Struct:
		b := y.(Struct)
		st := t.Underlying().(*types.Struct)
		r := m.c.True
		for i := range a {
			if st.Field(i).Name() == "_" {
				continue
			}
			r = m.c.And(r, m.eqVal(st.Field(i).Type(), a[i], b[i]))
		}
		return r
	case Array:
		b := y.(Array)
		et := t.Underlying().(*types.Array).Elem()
		if w, _, ok := intType(et); ok && w == 8 {
			return m.eqBytes(valTerms(a), valTerms(b))
		}
		r := m.c.True
		for i := range a {
			r = m.c.And(r, m.eqVal(et, a[i], b[i]))
		}
		return r
	case nil:
		return m.c.Bool(isNilVal(y))
	case Native:
		b, ok := y.(Native)
		return m.c.Bool(ok && a.x == b.x)
	case Poison:
		panic(engErr("eq of poison: %s", a.why))
	}
	panic(engErr("eq of %T", x))
}

func isNilVal(v Value) bool {
	switch v := v.(type) {
	case nil:
		return true
	case *Value:
		return v == nil
	case *Map:
		return v == nil
	case *Chan:
		return v == nil
	case *Closure:
		return v == nil
	case Slice:
		return v.nil
	case Iface:
		return v.t == nil
	}
	return false
}

func valTerms(vs []Value) []*Term {
	out := make([]*Term, len(vs))
	for i, v := range vs {
		t, ok := v.(*Term)
		if !ok {
			if p, ok := v.(Poison); ok {
				panic(engErr("poison: %s", p.why))
			}
			panic(engErr("not a term: %T", v))
		}
		out[i] = t
	}
	return out
}

func (m *Machine) eqBytes(p, q []*Term) *Term {
	if len(p) != len(q) {
		return m.c.False
	}
	if len(p) == 0 {
		return m.c.True
	}
	for i := range p {
		if p[i].IsConst() && q[i].IsConst() && p[i] != q[i] {
			return m.c.False
		}
	}
	return m.c.Eq(m.c.Concat(p...), m.c.Concat(q...))
}

func (m *Machine) makeSlice(et types.Type, l, c int) Slice {
	v := make([]Value, c)
	if c > 0 {
		switch et.Underlying().(type) {
		case *types.Struct, *types.Array:
			for i := range v {
				v[i] = m.zero(et)
			}
		default:
			z := m.zero(et)
			for i := range v {
				v[i] = z
			}
		}
	}
	m.noteAlloc(v)
	return Slice{v: v[:l]}
}

func (m *Machine) sliceOp(fr *Frame, ci *cinstr, in *ssa.Slice) Value {
	x := m.get(fr, &ci.ops[0])
	get := func(i int, v ssa.Value) (int64, bool) {
		if v == nil {
			return 0, false
		}
		return m.concInt(m.conv64(m.get(fr, &ci.ops[i]).(*Term), v.Type())), true
	}
	var cs []Value
	var n int
	switch s := x.(type) {
	case string, SymStr:
		n = strLen(s)
		lo, _ := get(1, in.Low)
		hi, ok := get(2, in.High)
		if !ok {
			hi = int64(n)
		}
		if hi < 0 || hi > int64(n) || lo < 0 || lo > hi {
			m.panicRuntime("slice bounds out of range")
		}
		if ss, ok := s.(string); ok {
			return ss[lo:hi]
		}
		return mkStr(s.(SymStr)[lo:hi])
	case Slice:
		cs = s.v[:cap(s.v)]
		n = len(s.v)
		if s.nil {
			cs, n = nil, 0
		}
	default:
		p := m.ptr(x)
		a, ok := (*p).(Array)
		if !ok {
			panic(engErr("slice of %T", *p))
		}
		cs, n = a, len(a)
		cs = cs[:len(cs):len(cs)]
	}
	lo, _ := get(1, in.Low)
	hi, okh := get(2, in.High)
	mx, okm := get(3, in.Max)
	if !okh {
		hi = int64(n)
	}
	if !okm {
		mx = int64(len(cs))
	}
	if mx < 0 || mx > int64(len(cs)) || hi < 0 || hi > mx || lo < 0 || lo > hi {
		m.panicRuntime("slice bounds out of range")
	}
	if s, ok := x.(Slice); ok && s.nil {
		return s
	}
	return Slice{v: cs[lo:hi:mx]}
}

func (m *Machine) conv64(t *Term, ty types.Type) *Term {
	if t.w == 64 {
		return t
	}
	_, signed, _ := intType(ty)
	if signed {
		return m.c.Sext(t, 64)
	}
	return m.c.Zext(t, 64)
}

func (m *Machine) convert(from, to types.Type, x Value) Value {
	if p, ok := x.(Poison); ok {
		return p
	}
	fu, tu := from.Underlying(), to.Underlying()
	if tp, ok := tu.(*types.Pointer); ok {
		_ = tp
		return x // unsafe.Pointer -> *T, checked on use
	}
	switch t := tu.(type) {
	case *types.Slice:
		switch s := x.(type) {
		case string, SymStr:
			if eb, ok := t.Elem().Underlying().(*types.Basic); ok && eb.Kind() == types.Int32 {
				var out []Value
				ss, ok := s.(string)
				if !ok {
					for _, b := range m.strBytes(s) {
						m.asciiOnly(b)
						out = append(out, m.c.Zext(b, 32))
					}
				} else {
					for _, r := range ss {
						out = append(out, m.c.Const(32, uint64(uint32(r))))
					}
				}
				m.noteAlloc(out)
				return Slice{v: out}
			}
			out := termVals(m.strBytes(s))
			out = append(make([]Value, 0, roundCap(len(out))), out...)
			full := out[:cap(out)]
			for i := len(out); i < len(full); i++ {
				full[i] = m.c.bytes[0]
			}
			m.noteAlloc(full)
			return Slice{v: out}
		}
		return x
	case *types.Basic:
		if t.Info()&types.IsString != 0 {
			switch s := x.(type) {
			case Slice:
				if sl, ok := fu.(*types.Slice); ok {
					if eb, ok := sl.Elem().Underlying().(*types.Basic); ok && eb.Kind() == types.Int32 {
						var bs []*Term
						for _, v := range s.v {
							r := v.(*Term)
							if r.IsConst() {
								for _, b := range []byte(string(rune(int32(r.u)))) {
									bs = append(bs, m.c.bytes[b])
								}
							} else {
								if !m.decide(m.c.Ult(r, m.c.Const(32, 0x80))) {
									panic(engErr("symbolic non-ASCII rune"))
								}
								bs = append(bs, m.c.Extract(r, 7, 0))
							}
						}
						return mkStr(bs)
					}
				}
				return mkStr(valTerms(s.v))
			case *Term:
				if !s.IsConst() {
					panic(engErr("string of symbolic integer"))
				}
				return string(rune(s.S64()))
			}
			return x
		}
		if w, _, ok := basicWidth(t); ok {
			switch v := x.(type) {
			case *Term:
				_, fs, _ := intType(from)
				switch {
				case w == v.w:
					return v
				case w < v.w:
					return m.c.Extract(v, w-1, 0)
				case fs:
					return m.c.Sext(v, w)
				}
				return m.c.Zext(v, w)
			case float64:
				if v < 0 {
					return m.c.Const(w, uint64(int64(v)))
				}
				if v >= math.MaxInt64 {
					return m.c.Const(w, uint64(v))
				}
				return m.c.Const(w, uint64(int64(v)))
			case *Value: // unsafe.Pointer -> uintptr
				panic(engErr("pointer to integer conversion"))
			}
		}
		if t.Info()&types.IsFloat != 0 {
			switch v := x.(type) {
			case float64:
				if t.Kind() == types.Float32 {
					return float64(float32(v))
				}
				return v
			case *Term:
				if !v.IsConst() {
					panic(engErr("float of symbolic integer"))
				}
				_, s, _ := intType(from)
				if s {
					return float64(v.S64())
				}
				return float64(v.u)
			}
		}
		if t.Info()&types.IsComplex != 0 {
			return x
		}
		if t.Kind() == types.UnsafePointer {
			return x
		}
	}
	panic(engErr("convert %v to %v (%T)", from, to, x))
}

func (m *Machine) asciiOnly(b *Term) {
	if !m.decide(m.c.Ult(b, m.c.Const(8, 0x80))) {
		panic(engErr("symbolic non-ASCII byte in a rune conversion"))
	}
}

func (m *Machine) typeAssert(x Value, in *ssa.TypeAssert) Value {
	i, ok := x.(Iface)
	if !ok {
		if p, isP := x.(Poison); isP {
			panic(engErr("type assertion on poison: %s", p.why))
		}
		panic(engErr("type assertion on %T", x))
	}
	match := false
	_, isI := in.AssertedType.Underlying().(*types.Interface)
	if i.t != nil {
		if isI {
			match = types.Implements(i.t, in.AssertedType.Underlying().(*types.Interface))
		} else {
			match = types.Identical(i.t, in.AssertedType)
		}
	}
	if in.CommaOk {
		if !match {
			return Tuple{m.zero(in.AssertedType), m.c.False}
		}
		if isI {
			return Tuple{i, m.c.True}
		}
		return Tuple{copyVal(i.v), m.c.True}
	}
	if !match {
		d := "nil"
		if i.t != nil {
			d = i.t.String()
		}
		m.panicRuntime("interface conversion: interface is " + d + ", not " + in.AssertedType.String())
	}
	if isI {
		return i
	}
	return copyVal(i.v)
}

func (m *Machine) next(it *RangeIter, in *ssa.Next) Value {
	if in.IsString {
		switch s := it.str.(type) {
		case string:
			if it.i >= len(s) {
				return Tuple{m.c.False, m.c.Const(64, 0), m.c.Const(32, 0)}
			}
			r, n := utf8.DecodeRuneInString(s[it.i:])
			k := it.i
			m.iterAdvance(it, n)
			return Tuple{m.c.True, m.c.Const(64, uint64(k)), m.c.Const(32, uint64(uint32(r)))}
		case SymStr:
			if it.i >= len(s) {
				return Tuple{m.c.False, m.c.Const(64, 0), m.c.Const(32, 0)}
			}
			m.asciiOnly(s[it.i])
			k := it.i
			m.iterAdvance(it, 1)
			return Tuple{m.c.True, m.c.Const(64, uint64(k)), m.c.Zext(s[k], 32)}
		}
	}
	tt := in.Type().(*types.Tuple)
	for it.m != nil && it.i < len(it.ents) {
		e := it.ents[it.i]
		m.iterAdvance(it, 1)
		// entries deleted meanwhile are skipped, updated ones show the new value
		for _, c := range it.m.ents {
			if sameKey(c.k, e.k) {
				return Tuple{m.c.True, copyVal(e.k), copyVal(c.v)}
			}
		}
	}
	z := func(i int) Value {
		if b, ok := tt.At(i).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
			return nil
		}
		return m.zero(tt.At(i).Type())
	}
	return Tuple{m.c.False, z(1), z(2)}
}

func (m *Machine) iterAdvance(it *RangeIter, n int) {
	if len(m.arms) > 0 {
		panic(abortSpec{"iterator"})
	}
	it.i += n
}

func sameKey(a, b Value) bool {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case string:
		y, ok := b.(string)
		return ok && x == y
	case SymStr:
		y, ok := b.(SymStr)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if x[i] != y[i] {
				return false
			}
		}
		return true
	case *Value:
		y, ok := b.(*Value)
		return ok && x == y
	case Array:
		y, ok := b.(Array)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameKey(x[i], y[i]) {
				return false
			}
		}
		return true
	case Struct:
		y, ok := b.(Struct)
		if !ok {
			return false
		}
		return sameKey(Array(x), Array(y))
	case Iface:
		y, ok := b.(Iface)
		return ok && x.t == y.t && sameKey(x.v, y.v)
	}
	return false
}

// ---- maps ----

func (m *Machine) mapFind(mp *Map, k Value) int {
	for i, e := range mp.ents {
		if sameKey(e.k, k) {
			return i
		}
	}
	for i, e := range mp.ents {
		if m.decide(m.eqVal(mp.kt, e.k, k)) {
			return i
		}
	}
	return -1
}

func (m *Machine) lookup(fr *Frame, ci *cinstr, in *ssa.Lookup) Value {
	x := m.get(fr, &ci.ops[0])
	switch s := x.(type) {
	case string, SymStr:
		return m.index(s, m.get(fr, &ci.ops[1]).(*Term), in.Index.Type())
	case *Map:
		k := m.get(fr, &ci.ops[1])
		vt := in.X.Type().Underlying().(*types.Map).Elem()
		i := -1
		if s != nil {
			i = m.mapFind(s, k)
		}
		var v Value
		if i >= 0 {
			v = copyVal(s.ents[i].v)
		} else {
			v = m.zero(vt)
		}
		if in.CommaOk {
			return Tuple{v, m.c.Bool(i >= 0)}
		}
		return v
	case Poison:
		return s
	}
	panic(engErr("lookup in %T", x))
}

func (m *Machine) mapSet(x, k, v Value) {
	mp, ok := x.(*Map)
	if !ok {
		panic(engErr("map update of %T", x))
	}
	if mp == nil {
		panic(goPanic{Iface{m.p.runtimeErrT, "assignment to entry in nil map"}})
	}
	i := m.mapFind(mp, k)
	old := mp.ents
	m.onUndo(func() { mp.ents = old })
	n := append(make([]mapEntry, 0, len(old)+1), old...)
	if i >= 0 {
		n[i].v = copyVal(v)
	} else {
		n = append(n, mapEntry{copyVal(k), copyVal(v)})
	}
	mp.ents = n
}

func (m *Machine) mapDelete(mp *Map, k Value) {
	if mp == nil {
		return
	}
	i := m.mapFind(mp, k)
	if i < 0 {
		return
	}
	old := mp.ents
	m.onUndo(func() { mp.ents = old })
	n := append(make([]mapEntry, 0, len(old)), old[:i]...)
	mp.ents = append(n, old[i+1:]...)
}

// ---- channels ----

func (m *Machine) chanSend(c, v Value) bool {
	ch, ok := c.(*Chan)
	if !ok {
		panic(engErr("send on %T", c))
	}
	if ch == nil {
		m.block("send on nil channel", func() bool { return false })
		return false
	}
	if ch.closed {
		panic(goPanic{Iface{m.p.runtimeErrT, "send on closed channel"}})
	}
	if len(m.arms) > 0 {
		panic(abortSpec{"chan"})
	}
	if !m.canSend(ch) {
		m.block("send", func() bool { return ch.closed || m.canSend(ch) })
		return false
	}
	ch.buf = append(append([]Value(nil), ch.buf...), copyVal(v))
	return true
}

// canSend: unbuffered channels are approximated by a one-place buffer that is
// usable only while it is empty.
func (m *Machine) canSend(ch *Chan) bool {
	if ch.cap == 0 {
		return len(ch.buf) == 0
	}
	return len(ch.buf) < ch.cap
}

func (m *Machine) chanRecv(c Value, in *ssa.UnOp) (Value, bool) {
	ch, ok := c.(*Chan)
	if !ok {
		panic(engErr("receive on %T", c))
	}
	if len(m.arms) > 0 {
		panic(abortSpec{"chan"})
	}
	if ch == nil {
		m.block("receive on nil channel", func() bool { return false })
		return nil, false
	}
	if len(ch.buf) == 0 && !ch.closed {
		m.block("receive", func() bool { return len(ch.buf) > 0 || ch.closed })
		return nil, false
	}
	var v Value
	okv := m.c.False
	if len(ch.buf) > 0 {
		v = ch.buf[0]
		ch.buf = ch.buf[1:]
		okv = m.c.True
	} else {
		v = m.zero(in.X.Type().Underlying().(*types.Chan).Elem())
	}
	if in.CommaOk {
		return Tuple{v, okv}, true
	}
	return v, true
}

func (m *Machine) doSelect(fr *Frame, ci *cinstr, in *ssa.Select) (Value, bool) {
	if len(m.arms) > 0 {
		panic(abortSpec{"select"})
	}
	type st struct {
		ch   *Chan
		send Value
		dir  types.ChanDir
	}
	var sts []st
	k := 0
	for _, s := range in.States {
		var x st
		c, ok := m.get(fr, &ci.ops[k]).(*Chan)
		if !ok {
			panic(engErr("select on %T", m.get(fr, &ci.ops[k])))
		}
		x.ch = c
		k++
		x.dir = s.Dir
		if s.Send != nil {
			x.send = m.get(fr, &ci.ops[k])
		}
		k++
		sts = append(sts, x)
	}
	ready := func() []int {
		var r []int
		for i, s := range sts {
			if s.ch == nil {
				continue
			}
			if s.dir == types.SendOnly {
				if s.ch.closed || m.canSend(s.ch) {
					r = append(r, i)
				}
			} else if len(s.ch.buf) > 0 || s.ch.closed {
				r = append(r, i)
			}
		}
		return r
	}
	r := ready()
	idx := -1
	if len(r) == 0 {
		if in.Blocking {
			m.block("select", func() bool { return len(ready()) > 0 })
			return nil, false
		}
	} else {
		idx = r[m.choose(len(r))]
	}
	res := Tuple{m.c.Const(64, uint64(int64(idx))), m.c.False}
	for i, s := range sts {
		if s.dir == types.SendOnly {
			if i == idx {
				if s.ch.closed {
					panic(goPanic{Iface{m.p.runtimeErrT, "send on closed channel"}})
				}
				s.ch.buf = append(append([]Value(nil), s.ch.buf...), copyVal(s.send))
			}
			continue
		}
		et := in.States[i].Chan.Type().Underlying().(*types.Chan).Elem()
		v := m.zero(et)
		if i == idx && len(s.ch.buf) > 0 {
			v = s.ch.buf[0]
			s.ch.buf = s.ch.buf[1:]
			res[1] = m.c.True
		}
		res = append(res, v)
	}
	return res, true
}

// ---- calls ----

func (m *Machine) callTarget(fr *Frame, ci *cinstr, cc *ssa.CallCommon) (Value, []Value) {
	args := make([]Value, 0, len(ci.ops))
	if cc.IsInvoke() {
		recv := m.get(fr, &ci.ops[0])
		i, ok := recv.(Iface)
		if !ok {
			if p, ok := recv.(Poison); ok {
				panic(engErr("method call on poison: %s", p.why))
			}
			panic(engErr("invoke on %T", recv))
		}
		if i.t == nil {
			m.panicRuntime("invalid memory address or nil pointer dereference")
		}
		if nv, ok := i.v.(Native); ok {
			if d, ok := nv.x.(nativeObj); ok {
				for k := 1; k < len(ci.ops); k++ {
					args = append(args, m.get(fr, &ci.ops[k]))
				}
				name := cc.Method.Name()
				return &Closure{native: func(m *Machine, args []Value) Value { return d.call(m, name, args) }}, args
			}
		}
		fn := m.method(i.t, cc.Method)
		args = append(args, i.v)
		for k := 1; k < len(ci.ops); k++ {
			args = append(args, m.get(fr, &ci.ops[k]))
		}
		return &Closure{fn: fn}, args
	}
	fv := m.get(fr, &ci.ops[0])
	for k := 1; k < len(ci.ops); k++ {
		args = append(args, m.get(fr, &ci.ops[k]))
	}
	return fv, args
}

type nativeObj interface {
	call(m *Machine, name string, args []Value) Value
}

func (m *Machine) method(t types.Type, meth *types.Func) *ssa.Function {
	tc := m.tcache[t]
	if tc == nil {
		tc = map[string]*ssa.Function{}
		m.tcache[t] = tc
	}
	key := meth.Name()
	if !meth.Exported() && meth.Pkg() != nil {
		key = meth.Pkg().Path() + "." + key
	}
	if fn, ok := tc[key]; ok {
		return fn
	}
	m.p.mu.Lock()
	fn := m.p.prog.LookupMethod(t, meth.Pkg(), meth.Name())
	m.p.mu.Unlock()
	if fn == nil {
		panic(engErr("no method %s on %v", meth.Name(), t))
	}
	tc[key] = fn
	return fn
}

func (m *Machine) call(g *G, fr *Frame, ci *cinstr, cc *ssa.CallCommon) {
	fn, args := m.callTarget(fr, ci, cc)
	if cl, ok := fn.(*Closure); ok && cl != nil && cl.bi != nil {
		v := m.builtin(fr, cl.bi, args, cc, fr.isDefer)
		if ci.dst >= 0 {
			fr.regs[ci.dst] = v
		}
		return
	}
	if m.tolerant > 0 {
		if p, ok := fn.(Poison); ok {
			fr.regs[ci.dst] = p
			return
		}
		m.callTolerant(g, fr, fn, args, ci.dst)
		return
	}
	m.callValue(g, fn, args, ci.dst, false)
}

// callTolerant: during the initialisation of library packages a call that the
// engine cannot execute yields poison instead of failing.
func (m *Machine) callTolerant(g *G, fr *Frame, fn Value, args []Value, dst int) {
	depth := len(g.stack)
	nest := m.nested
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		var why string
		switch e := r.(type) {
		case *EngineError:
			why = e.msg
		case goPanic:
			why = "panic in init: " + m.panicText(e.v)
		default:
			panic(r)
		}
		g.stack = g.stack[:depth]
		g.panics = nil
		m.nested = nest
		fr.unwinding = false
		if dst >= 0 {
			fr.regs[dst] = Poison{why}
		}
	}()
	cl, ok := fn.(*Closure)
	if ok && cl != nil && cl.bi == nil {
		v := m.callSync(cl, args)
		if dst >= 0 {
			fr.regs[dst] = v
		}
		return
	}
	m.callValue(g, fn, args, dst, false)
}

func (m *Machine) builtin(fr *Frame, b *ssa.Builtin, args []Value, cc *ssa.CallCommon, isDefer bool) Value {
	switch b.Name() {
	case "len", "cap":
		n := 0
		switch x := args[0].(type) {
		case string, SymStr:
			n = strLen(x)
		case Slice:
			n = len(x.v)
			if b.Name() == "cap" {
				n = cap(x.v)
			}
		case Array:
			n = len(x)
		case *Map:
			if x != nil {
				n = len(x.ents)
			}
		case *Chan:
			if x != nil {
				n = len(x.buf)
				if b.Name() == "cap" {
					n = x.cap
				}
			}
		case *Value:
			n = int(cc.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		case Poison:
			return x
		default:
			panic(engErr("len of %T", args[0]))
		}
		return m.c.Const(64, uint64(n))
	case "append":
		return m.appendOp(args, cc)
	case "copy":
		d := args[0].(Slice)
		var src []Value
		switch s := args[1].(type) {
		case Slice:
			src = s.v
		default:
			src = termVals(m.strBytes(s))
		}
		n := min(len(d.v), len(src))
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			m.storeInto(&d.v[i], tmp[i])
		}
		return m.c.Const(64, uint64(n))
	case "delete":
		m.mapDelete(args[0].(*Map), args[1])
		return nil
	case "close":
		ch := args[0].(*Chan)
		if len(m.arms) > 0 {
			panic(abortSpec{"close"})
		}
		if ch == nil {
			panic(goPanic{Iface{m.p.runtimeErrT, "close of nil channel"}})
		}
		if ch.closed {
			panic(goPanic{Iface{m.p.runtimeErrT, "close of closed channel"}})
		}
		ch.closed = true
		return nil
	case "panic":
		v, _ := args[0].(Iface)
		panic(goPanic{v})
	case "recover":
		// the frame executing recover must be a deferred call of an unwinding frame
		if fr == nil || !fr.isDefer {
			return Iface{}
		}
		g := m.g
		for i := len(g.stack) - 1; i > 0; i-- {
			if g.stack[i] == fr {
				if g.stack[i-1].unwinding && !g.stack[i-1].recoverd && len(g.panics) > 0 && !g.panics[len(g.panics)-1].recovered {
					p := g.panics[len(g.panics)-1]
					p.recovered = true
					return p.val
				}
			}
		}
		return Iface{}
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		for _, y := range args[1:] {
			op := token.LSS
			if b.Name() == "max" {
				op = token.GTR
			}
			t := cc.Args[0].Type()
			c := m.binop(op, t, t, y, r).(*Term)
			v, ok := m.iteVal(c, y, r)
			if !ok {
				panic(engErr("min/max"))
			}
			r = v
		}
		return r
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			if x != nil {
				old := x.ents
				m.onUndo(func() { x.ents = old })
				x.ents = nil
			}
		case Slice:
			et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
			for i := range x.v {
				m.storeInto(&x.v[i], m.zero(et))
			}
		}
		return nil
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			m.panicRuntime("invalid memory address or nil pointer dereference")
		}
		return args[0]
	case "String": // unsafe.String(ptr, len)
		n := int(m.concInt(args[1].(*Term)))
		if n == 0 {
			return ""
		}
		switch p := args[0].(type) {
		case UnsafeData:
			return mkStr(valTerms(p.s.v[:n]))
		case *Value:
			if n == 1 {
				return mkStr([]*Term{(*p).(*Term)})
			}
			return mkStr(valTerms(m.cellsFrom(p, n)))
		}
		panic(engErr("unsafe.String of %T", args[0]))
	case "Slice":
		n := int(m.concInt(args[1].(*Term)))
		switch p := args[0].(type) {
		case UnsafeData:
			return Slice{v: p.s.v[:n:n]}
		case *Value:
			if p == nil {
				return Slice{nil: true}
			}
		}
		panic(engErr("unsafe.Slice of %T", args[0]))
	case "SliceData":
		return UnsafeData{args[0].(Slice)}
	case "StringData":
		return UnsafeData{Slice{v: termVals(m.strBytes(args[0]))}}
	}
	panic(engErr("builtin %s", b.Name()))
}

func (m *Machine) cellsFrom(p *Value, n int) []Value {
	panic(engErr("unsafe.String of an element pointer"))
}

func (m *Machine) appendOp(args []Value, cc *ssa.CallCommon) Value {
	s := args[0].(Slice)
	if len(args) == 1 {
		return s
	}
	var add []Value
	switch y := args[1].(type) {
	case Slice:
		add = y.v
	default:
		add = termVals(m.strBytes(y))
	}
	if len(add) == 0 {
		return s
	}
	n := len(s.v) + len(add)
	if !s.nil && n <= cap(s.v) {
		full := s.v[:n]
		tmp := make([]Value, len(add))
		for i, a := range add {
			tmp[i] = copyVal(a)
		}
		for i := range tmp {
			m.storeInto(&full[len(s.v)+i], tmp[i])
		}
		return Slice{v: full}
	}
	var et types.Type
	if cc != nil {
		if st, ok := cc.Args[0].Type().Underlying().(*types.Slice); ok {
			et = st.Elem()
		}
	}
	c := n
	if et != nil {
		c = growCap(int(m.p.sizes.Sizeof(et)), cap(s.v), n)
	}
	out := make([]Value, c)
	for i, v := range s.v {
		out[i] = copyVal(v)
	}
	for i, a := range add {
		out[len(s.v)+i] = copyVal(a)
	}
	if c > n {
		switch et.Underlying().(type) {
		case *types.Struct, *types.Array:
			for i := n; i < c; i++ {
				out[i] = m.zero(et)
			}
		default:
			z := m.zero(et)
			for i := n; i < c; i++ {
				out[i] = z
			}
		}
	}
	m.noteAlloc(out)
	return Slice{v: out[:n]}
}

var sizeClasses = []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundCap(n int) int {
	if n == 0 {
		return 0
	}
	if n <= 32 {
		return 32 // conversions of short strings may use a 32-byte buffer
	}
	return roundSize(n)
}

func roundSize(n int) int {
	for _, c := range sizeClasses {
		if n <= c {
			return c
		}
	}
	return (n + 8191) / 8192 * 8192
}

// growCap mirrors runtime.growslice.
func growCap(esize, old, want int) int {
	if esize == 0 {
		return want
	}
	nc := want
	if want <= 2*old {
		if old < 256 {
			nc = 2 * old
		} else {
			nc = old
			for nc < want {
				nc += (nc + 3*256) >> 2
			}
		}
	}
	return roundSize(nc*esize) / esize
}
