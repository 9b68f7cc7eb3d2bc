package main

// Runtime values of the symbolic machine.
//
//	*Term            integers, booleans
//	string / SymStr  strings (concrete / concrete length with symbolic bytes)
//	float64          floats (concrete only)
//	*Value           pointers (address of a cell); nil pointer is (*Value)(nil)
//	SymPtr           pointer to an array element at a symbolic index
//	Struct, Array    aggregates ([]Value)
//	Slice            slices: share backing arrays like Go's own
//	*Map, *Chan      maps and channels
//	Iface            interface values
//	*Closure         functions
//	Tuple            multiple results
//	Native           engine-private objects

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

type SymStr []*Term
type Struct []Value
type Array []Value
type Tuple []Value
type Slice struct {
	v   []Value
	nil bool
}
type Iface struct {
	t types.Type
	v Value
}
type Closure struct {
	fn     *ssa.Function
	env    []Value
	native func(m *Machine, args []Value) Value
	bi     *ssa.Builtin
}
type SymPtr struct {
	elems []Value
	idx   *Term
}
type mapEntry struct {
	k, v Value
}
type Map struct {
	ents []mapEntry
	vt   types.Type
	kt   types.Type
}
type Chan struct {
	buf    []Value
	cap    int
	closed bool
	nil    bool
	recvq  int // goroutines blocked receiving (rendezvous)
}
type UnsafeData struct{ s Slice } // result of unsafe.SliceData / StringData
type Native struct{ x interface{} }
type RangeIter struct {
	m    *Map
	ents []mapEntry
	str  Value
	i    int
}

// Poison stands for a value the engine could not compute during tolerant
// initialisation; using it is an engine error.
type Poison struct{ why string }

type EngineError struct{ msg string }

func (e *EngineError) Error() string { return e.msg }

func engErr(f string, a ...interface{}) *EngineError { return &EngineError{fmt.Sprintf(f, a...)} }

func (m *Machine) strBytes(v Value) []*Term {
	switch v := v.(type) {
	case string:
		out := make([]*Term, len(v))
		for i := 0; i < len(v); i++ {
			out[i] = m.c.bytes[v[i]]
		}
		return out
	case SymStr:
		return v
	}
	panic(engErr("not a string: %T", v))
}

func mkStr(bs []*Term) Value {
	buf := make([]byte, len(bs))
	for i, b := range bs {
		if b.op != OConst {
			return SymStr(bs)
		}
		buf[i] = byte(b.u)
	}
	return string(buf)
}

func strLen(v Value) int {
	switch v := v.(type) {
	case string:
		return len(v)
	case SymStr:
		return len(v)
	}
	panic(engErr("not a string: %T", v))
}

func basicWidth(b *types.Basic) (w int, signed bool, ok bool) {
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false, true
	case types.Int8:
		return 8, true, true
	case types.Uint8:
		return 8, false, true
	case types.Int16:
		return 16, true, true
	case types.Uint16:
		return 16, false, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint32:
		return 32, false, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

func intType(t types.Type) (w int, signed bool, ok bool) {
	if b, isb := t.Underlying().(*types.Basic); isb {
		return basicWidth(b)
	}
	return 0, false, false
}

func (m *Machine) zero(t types.Type) Value {
	switch t := t.(type) {
	case *types.Basic:
		if w, _, ok := basicWidth(t); ok {
			return m.c.Const(w, 0)
		}
		switch t.Kind() {
		case types.String, types.UntypedString:
			return ""
		case types.Float32, types.Float64, types.UntypedFloat:
			return float64(0)
		case types.Complex64, types.Complex128:
			return complex128(0)
		case types.UnsafePointer:
			return (*Value)(nil)
		case types.UntypedNil:
			return nil
		}
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Slice:
		return Slice{nil: true}
	case *types.Map:
		return (*Map)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Struct:
		s := make(Struct, t.NumFields())
		for i := range s {
			s[i] = m.zero(t.Field(i).Type())
		}
		return s
	case *types.Array:
		a := make(Array, t.Len())
		if t.Len() > 0 {
			switch t.Elem().Underlying().(type) {
			case *types.Struct, *types.Array:
				for i := range a {
					a[i] = m.zero(t.Elem())
				}
			default:
				z := m.zero(t.Elem())
				for i := range a {
					a[i] = z
				}
			}
		}
		return a
	case *types.Tuple:
		s := make(Tuple, t.Len())
		for i := range s {
			s[i] = m.zero(t.At(i).Type())
		}
		return s
	case *types.Named, *types.Alias:
		return m.zero(t.Underlying())
	case *types.TypeParam:
		panic(engErr("type parameter %v", t))
	}
	panic(engErr("zero of %v (%T)", t, t))
}

// copyVal copies aggregates (values in registers are never mutated).
func copyVal(v Value) Value {
	switch v := v.(type) {
	case Struct:
		s := make(Struct, len(v))
		for i, x := range v {
			s[i] = copyVal(x)
		}
		return s
	case Array:
		if len(v) > 0 {
			switch v[0].(type) {
			case Struct, Array:
			default:
				return append(Array(nil), v...)
			}
		}
		s := make(Array, len(v))
		for i, x := range v {
			s[i] = copyVal(x)
		}
		return s
	}
	return v
}

// ---- journal ----

type undo struct {
	cell *Value
	old  Value
	f    func()
}

func (m *Machine) set(cell *Value, v Value) {
	if m.journalOn {
		m.journal = append(m.journal, undo{cell: cell, old: *cell})
	}
	*cell = v
}

func (m *Machine) onUndo(f func()) {
	if m.journalOn {
		m.journal = append(m.journal, undo{f: f})
	}
}

func (m *Machine) rollback(n int) {
	for i := len(m.journal) - 1; i >= n; i-- {
		u := &m.journal[i]
		if u.f != nil {
			u.f()
		} else {
			*u.cell = u.old
		}
		*u = undo{}
	}
	m.journal = m.journal[:n]
}

// storeInto writes v into the cell, keeping the addresses of nested cells.
func (m *Machine) storeInto(cell *Value, v Value) {
	switch v := v.(type) {
	case Struct:
		if d, ok := (*cell).(Struct); ok && len(d) == len(v) {
			for i := range v {
				m.storeInto(&d[i], v[i])
			}
			return
		}
	case Array:
		if d, ok := (*cell).(Array); ok && len(d) == len(v) {
			for i := range v {
				m.storeInto(&d[i], v[i])
			}
			return
		}
	}
	m.set(cell, copyVal(v))
}

// ite merges two values under a condition.
func (m *Machine) iteVal(g *Term, a, b Value) (Value, bool) {
	if g.IsConst() {
		if g.u == 1 {
			return a, true
		}
		return b, true
	}
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok || x.w != y.w {
			return nil, false
		}
		return m.c.Ite(g, x, y), true
	case string, SymStr:
		switch b.(type) {
		case string, SymStr:
		default:
			return nil, false
		}
		if sa, ok := a.(string); ok {
			if sb, ok := b.(string); ok && sa == sb {
				return a, true
			}
		}
		p, q := m.strBytes(a), m.strBytes(b)
		if len(p) != len(q) {
			return nil, false
		}
		if len(p) == 0 {
			return "", true
		}
		return mkStr(m.iteBytes(g, p, q)), true
	case Struct:
		y, ok := b.(Struct)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		out := make(Struct, len(x))
		for i := range x {
			if out[i], ok = m.iteVal(g, x[i], y[i]); !ok {
				return nil, false
			}
		}
		return out, true
	case Array:
		y, ok := b.(Array)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		out, ok := m.iteVals(g, x, y)
		return Array(out), ok
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		out := make(Tuple, len(x))
		for i := range x {
			if out[i], ok = m.iteVal(g, x[i], y[i]); !ok {
				return nil, false
			}
		}
		return out, true
	case Slice:
		y, ok := b.(Slice)
		if !ok || x.nil != y.nil || len(x.v) != len(y.v) {
			return nil, false
		}
		if cap(x.v) == 0 && cap(y.v) == 0 {
			return x, true
		}
		if cap(x.v) != cap(y.v) || cap(x.v) == 0 {
			return nil, false
		}
		fx, fy := x.v[:cap(x.v)], y.v[:cap(y.v)]
		if &fx[0] == &fy[0] {
			return x, true
		}
		// both backing arrays must have been allocated during the speculation
		// and be paired consistently
		if m.spec == nil {
			return nil, false
		}
		return m.mergeSlices(g, x, y)
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return nil, false
		}
		if x.t == nil && y.t == nil {
			return x, true
		}
		if x.t == nil || y.t == nil || !types.Identical(x.t, y.t) {
			return nil, false
		}
		v, ok := m.iteVal(g, x.v, y.v)
		return Iface{x.t, v}, ok
	case *Value:
		y, ok := b.(*Value)
		return a, ok && x == y
	case *Map:
		y, ok := b.(*Map)
		return a, ok && x == y
	case *Chan:
		y, ok := b.(*Chan)
		return a, ok && x == y
	case *Closure:
		y, ok := b.(*Closure)
		if !ok {
			return nil, false
		}
		if x == y {
			return a, true
		}
		if x == nil || y == nil || x.fn != y.fn || x.native != nil || x.fn == nil || len(x.env) != len(y.env) {
			return nil, false
		}
		if len(x.env) == 0 {
			return x, true
		}
		return nil, false
	case float64:
		y, ok := b.(float64)
		return a, ok && x == y
	case nil:
		return nil, b == nil
	}
	return nil, false
}

func (m *Machine) iteBytes(g *Term, p, q []*Term) []*Term {
	same := true
	for i := range p {
		if p[i] != q[i] {
			same = false
			break
		}
	}
	if same {
		return p
	}
	w := m.c.Ite(g, m.c.Concat(p...), m.c.Concat(q...))
	return m.splitBytes(w, len(p))
}

func (m *Machine) splitBytes(w *Term, n int) []*Term {
	out := make([]*Term, n)
	for i := range out {
		out[i] = m.c.Extract(w, 8*(n-i)-1, 8*(n-i-1))
	}
	return out
}

// iteVals merges element lists; byte lists are merged as one wide term.
func (m *Machine) iteVals(g *Term, x, y []Value) ([]Value, bool) {
	out := make([]Value, len(x))
	allBytes := len(x) > 1
	for i := range x {
		p, ok1 := x[i].(*Term)
		q, ok2 := y[i].(*Term)
		if !ok1 || !ok2 || p.w != 8 || q.w != 8 {
			allBytes = false
			break
		}
	}
	if allBytes {
		p, q := make([]*Term, len(x)), make([]*Term, len(x))
		for i := range x {
			p[i], q[i] = x[i].(*Term), y[i].(*Term)
		}
		for i, t := range m.iteBytes(g, p, q) {
			out[i] = t
		}
		return out, true
	}
	for i := range x {
		v, ok := m.iteVal(g, x[i], y[i])
		if !ok {
			return nil, false
		}
		out[i] = v
	}
	return out, true
}

func (m *Machine) mergeSlices(g *Term, x, y Slice) (Value, bool) {
	sp := m.spec
	fx, fy := x.v[:cap(x.v)], y.v[:cap(y.v)]
	kx, ky := &fx[0], &fy[0]
	if !sp.freshA[kx] || !sp.freshB[ky] {
		return nil, false
	}
	pa, oka := sp.pairA[kx]
	pb, okb := sp.pairB[ky]
	if oka || okb {
		if !oka || !okb || pa.other != ky || pb.other != kx {
			return nil, false
		}
		return Slice{v: pa.merged[:len(x.v):cap(x.v)]}, true
	}
	ca, cb := make([]Value, len(fx)), make([]Value, len(fy))
	for i := range fx {
		ca[i], cb[i] = final(sp.finalA, &fx[i]), final(sp.finalB, &fy[i])
	}
	out, ok := m.iteVals(g, ca, cb)
	if !ok {
		return nil, false
	}
	m.noteAlloc(out)
	sp.pairA[kx] = &slicePair{ky, out}
	sp.pairB[ky] = &slicePair{kx, out}
	return Slice{v: out[:len(x.v):cap(x.v)]}, true
}

func final(f map[*Value]Value, c *Value) Value {
	if v, ok := f[c]; ok {
		return v
	}
	return *c
}

type slicePair struct {
	other  *Value
	merged []Value
}

// specState: the merge in progress (arms A and B already executed).
type specState struct {
	freshA, freshB map[*Value]bool
	finalA, finalB map[*Value]Value
	pairA, pairB   map[*Value]*slicePair
}

// noteAlloc records freshly allocated cells while an arm is being executed.
func (m *Machine) noteAlloc(cells []Value) {
	if len(m.arms) == 0 {
		return
	}
	f := m.arms[len(m.arms)-1].fresh
	var rec func(vs []Value)
	rec = func(vs []Value) {
		for i := range vs {
			f[&vs[i]] = true
			switch v := vs[i].(type) {
			case Struct:
				rec(v)
			case Array:
				rec(v)
			}
		}
	}
	rec(cells)
}

func (m *Machine) newCell(v Value) *Value {
	p := new(Value)
	*p = v
	if len(m.arms) > 0 {
		f := m.arms[len(m.arms)-1].fresh
		f[p] = true
		switch v := v.(type) {
		case Struct:
			m.noteAlloc(v)
		case Array:
			m.noteAlloc(v)
		}
	}
	return p
}
