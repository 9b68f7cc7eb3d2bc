package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type nativeFn func(m *Machine, fr *Frame, args []Value) Value

const symPkg = "github.com/coniks-sys/coniks-go/internal/verifsym"

var natives map[string]nativeFn

func (m *Machine) nativeFor(fn *ssa.Function) func(*Machine, *Frame, []Value) Value {
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	if n, ok := natives[name]; ok {
		return n
	}
	if m.p.vrfAbstract {
		if n, ok := groupNatives[name]; ok {
			return n
		}
	}
	// initialisers of other packages run lazily
	if fn.Name() == "init" && fn.Parent() == nil && fn.Signature.Recv() == nil && fn.Synthetic == "package initializer" {
		return func(m *Machine, fr *Frame, args []Value) Value {
			if fr == nil {
				return nil
			}
			// called from another package's init: skip, it is initialised on use
			return nil
		}
	}
	return nil
}

func bytesOf(m *Machine, v Value) []*Term {
	switch s := v.(type) {
	case Slice:
		return valTerms(s.v)
	case string, SymStr:
		return m.strBytes(v)
	case Array:
		return valTerms(s)
	}
	panic(engErr("not bytes: %T", v))
}

func (m *Machine) newBytes(ts []*Term) Slice {
	v := termVals(ts)
	c := roundSize(len(v))
	out := make([]Value, c)
	copy(out, v)
	for i := len(v); i < c; i++ {
		out[i] = m.c.bytes[0]
	}
	m.noteAlloc(out)
	return Slice{v: out[:len(v)]}
}

func (m *Machine) exactBytes(ts []*Term) Slice {
	out := termVals(ts)
	m.noteAlloc(out)
	return Slice{v: out[:len(out):len(out)]}
}

func concStr(v Value) string {
	s, ok := v.(string)
	if !ok {
		panic(engErr("concrete string wanted, got %T", v))
	}
	return s
}

// errText: concrete text of an error value, best effort.
func (m *Machine) errText(v Iface) string {
	if v.t == nil {
		return "<nil>"
	}
	fn := m.p.lookup(v.t, "Error")
	if fn == nil {
		fn = m.p.lookup(v.t, "String")
	}
	if fn == nil {
		return ""
	}
	var out string
	func() {
		defer func() { recover() }()
		if x, ok := m.callSync(&Closure{fn: fn}, []Value{v.v}).(string); ok {
			out = x
		}
	}()
	return out
}

// format renders a format string when everything is concrete; symbolic parts
// are rendered as a placeholder (formatted text is never decided upon).
func (m *Machine) format(f string, args []Value) Value {
	var ga []interface{}
	for _, a := range args {
		ga = append(ga, m.fmtArg(a))
	}
	return fmt.Sprintf(strings.ReplaceAll(f, "%w", "%v"), ga...)
}

func (m *Machine) fmtArg(a Value) interface{} {
	i, ok := a.(Iface)
	if !ok {
		return m.fmtRaw(a, nil)
	}
	if i.t == nil {
		return nil
	}
	if _, isStruct := i.v.(Struct); !isStruct {
		if s := m.errText(i); s != "" {
			return s
		}
	}
	return m.fmtRaw(i.v, i.t)
}

func (m *Machine) fmtRaw(v Value, t types.Type) interface{} {
	switch x := v.(type) {
	case string:
		return x
	case SymStr:
		return "<sym>"
	case *Term:
		if x.IsConst() {
			if x.w == 0 {
				return x.u == 1
			}
			if t != nil {
				if _, s, _ := intType(t); s {
					return x.S64()
				}
			}
			if x.w == 8 {
				return uint8(x.u)
			}
			return x.u
		}
		return "<sym>"
	case float64:
		return x
	case Slice:
		var bs []byte
		for _, e := range x.v {
			t, ok := e.(*Term)
			if !ok || !t.IsConst() || t.w != 8 {
				return "<sym>"
			}
			bs = append(bs, byte(t.u))
		}
		return bs
	}
	return "<val>"
}

func (m *Machine) newError(text Value) Value {
	p := m.newCell(Struct{text})
	return Iface{m.p.errStringT, p}
}

// ---- locks ----

func (m *Machine) lockOf(p *Value) *lockState {
	l := m.locks[p]
	if l == nil {
		l = &lockState{}
		m.locks[p] = l
	}
	return l
}

func lockNative(f func(m *Machine, l *lockState) (bool, func() bool, Value)) nativeFn {
	return func(m *Machine, fr *Frame, args []Value) Value {
		if len(m.arms) > 0 {
			panic(abortSpec{"lock"})
		}
		if m.syncPoint() {
			return nil
		}
		l := m.lockOf(m.ptr(args[0]))
		ok, wake, v := f(m, l)
		if !ok {
			m.block("lock", wake)
			return nil
		}
		return v
	}
}

func fatal(msg string) {
	panic(pathEnd{"violation", "fatal error: " + msg})
}

func noArms(m *Machine, why string) {
	if len(m.arms) > 0 {
		panic(abortSpec{why})
	}
}

func init() {
	nop := func(m *Machine, fr *Frame, args []Value) Value { return nil }
	natives = map[string]nativeFn{
		"bytes.Equal": func(m *Machine, fr *Frame, a []Value) Value {
			return m.eqBytes(bytesOf(m, a[0]), bytesOf(m, a[1]))
		},
		"internal/bytealg.Equal": func(m *Machine, fr *Frame, a []Value) Value {
			return m.eqBytes(bytesOf(m, a[0]), bytesOf(m, a[1]))
		},
		"crypto/subtle.ConstantTimeCompare": func(m *Machine, fr *Frame, a []Value) Value {
			return m.c.Zext(m.c.BoolToBV1(m.eqBytes(bytesOf(m, a[0]), bytesOf(m, a[1]))), 64)
		},
		"internal/bytealg.IndexByte":       indexByte,
		"internal/bytealg.IndexByteString": indexByte,
		"bytes.IndexByte":                  indexByte,
		"strings.IndexByte":                indexByte,
		"internal/bytealg.LastIndexByte": func(m *Machine, fr *Frame, a []Value) Value {
			return lastIndexByte(m, a)
		},
		"internal/bytealg.LastIndexByteString": func(m *Machine, fr *Frame, a []Value) Value {
			return lastIndexByte(m, a)
		},
		"internal/bytealg.CountString": countByte,
		"internal/bytealg.Count":       countByte,
		"internal/bytealg.Compare":     compareBytes,
		"bytes.Compare":                compareBytes,
		"strings.Index":                indexStr,
		"internal/bytealg.IndexString": indexStr,
		"strings.EqualFold":            nil,
		"internal/bytealg.MakeNoZero": func(m *Machine, fr *Frame, a []Value) Value {
			n := int(m.concInt(a[0].(*Term)))
			return m.makeSlice(types.Typ[types.Uint8], n, roundSize(n))
		},
		"(*strings.Builder).copyCheck": nop,
		"(*strings.Builder).String": func(m *Machine, fr *Frame, a []Value) Value {
			s := (*m.ptr(a[0])).(Struct)
			return mkStr(bytesOf(m, s[1]))
		},
		"strings.Clone":              func(m *Machine, fr *Frame, a []Value) Value { return a[0] },
		"internal/stringslite.Clone": func(m *Machine, fr *Frame, a []Value) Value { return a[0] },
		"runtime.GC":                 nop,
		"runtime.KeepAlive":          nop,
		"runtime.SetFinalizer":       nop,
		"runtime.Gosched": func(m *Machine, fr *Frame, a []Value) Value {
			m.syncPoint()
			return nil
		},
		"runtime.Stack":       func(m *Machine, fr *Frame, a []Value) Value { return m.c.Const(64, 0) },
		"runtime/debug.Stack": func(m *Machine, fr *Frame, a []Value) Value { return m.newBytes(nil) },
		"os.Exit": func(m *Machine, fr *Frame, a []Value) Value {
			panic(pathEnd{"violation", "os.Exit called"})
		},
		"time.Now": func(m *Machine, fr *Frame, a []Value) Value {
			return m.zero(m.p.namedType("time", "Time"))
		},
		"time.now": func(m *Machine, fr *Frame, a []Value) Value {
			return Tuple{m.c.Const(64, 0), m.c.Const(32, 0), m.c.Const(64, 0)}
		},
		"time.Sleep":         nop,
		"(time.Time).String": func(m *Machine, fr *Frame, a []Value) Value { return "<time>" },
		"(time.Time).Format": func(m *Machine, fr *Frame, a []Value) Value { return "<time>" },

		// fmt
		"fmt.Sprintf": func(m *Machine, fr *Frame, a []Value) Value {
			f, ok := a[0].(string)
			if !ok {
				return "<sym>"
			}
			return m.format(f, a[1].(Slice).v)
		},
		"fmt.Errorf": func(m *Machine, fr *Frame, a []Value) Value {
			f, ok := a[0].(string)
			if !ok {
				return m.newError("<sym>")
			}
			return m.newError(m.format(f, a[1].(Slice).v))
		},
		"fmt.Sprint": func(m *Machine, fr *Frame, a []Value) Value {
			var ga []interface{}
			for _, x := range a[0].(Slice).v {
				ga = append(ga, m.fmtArg(x))
			}
			return fmt.Sprint(ga...)
		},
		"fmt.Sprintln": func(m *Machine, fr *Frame, a []Value) Value {
			var ga []interface{}
			for _, x := range a[0].(Slice).v {
				ga = append(ga, m.fmtArg(x))
			}
			return fmt.Sprintln(ga...)
		},
		"fmt.Println":  printNative,
		"fmt.Printf":   printNative,
		"fmt.Print":    printNative,
		"fmt.Fprintf":  printNative,
		"fmt.Fprintln": printNative,
		"fmt.Fprint":   printNative,
		"log.Println":  nop,
		"log.Printf":   nop,
		"log.Print":    nop,
		"errors.New": func(m *Machine, fr *Frame, a []Value) Value {
			return m.newError(a[0])
		},

		// sync
		"(*sync.Mutex).Lock": lockNative(func(m *Machine, l *lockState) (bool, func() bool, Value) {
			if l.writer {
				return false, func() bool { return !l.writer }, nil
			}
			m.lockW(l, true)
			return true, nil, nil
		}),
		"(*sync.Mutex).TryLock": lockNative(func(m *Machine, l *lockState) (bool, func() bool, Value) {
			if l.writer {
				return true, nil, m.c.False
			}
			m.lockW(l, true)
			return true, nil, m.c.True
		}),
		"(*sync.Mutex).Unlock": lockNative(func(m *Machine, l *lockState) (bool, func() bool, Value) {
			if !l.writer {
				fatal("sync: unlock of unlocked mutex")
			}
			m.lockW(l, false)
			return true, nil, nil
		}),
		"(*sync.RWMutex).Lock": lockNative(func(m *Machine, l *lockState) (bool, func() bool, Value) {
			if l.writer || l.readers > 0 {
				return false, func() bool { return !l.writer && l.readers == 0 }, nil
			}
			m.lockW(l, true)
			return true, nil, nil
		}),
		"(*sync.RWMutex).TryLock": lockNative(func(m *Machine, l *lockState) (bool, func() bool, Value) {
			if l.writer || l.readers > 0 {
				return true, nil, m.c.False
			}
			m.lockW(l, true)
			return true, nil, m.c.True
		}),
		"(*sync.RWMutex).Unlock": lockNative(func(m *Machine, l *lockState) (bool, func() bool, Value) {
			if !l.writer {
				fatal("sync: Unlock of unlocked RWMutex")
			}
			m.lockW(l, false)
			return true, nil, nil
		}),
		"(*sync.RWMutex).RLock": lockNative(func(m *Machine, l *lockState) (bool, func() bool, Value) {
			if l.writer {
				return false, func() bool { return !l.writer }, nil
			}
			m.lockR(l, 1)
			return true, nil, nil
		}),
		"(*sync.RWMutex).TryRLock": lockNative(func(m *Machine, l *lockState) (bool, func() bool, Value) {
			if l.writer {
				return true, nil, m.c.False
			}
			m.lockR(l, 1)
			return true, nil, m.c.True
		}),
		"(*sync.RWMutex).RUnlock": lockNative(func(m *Machine, l *lockState) (bool, func() bool, Value) {
			if l.readers <= 0 {
				fatal("sync: RUnlock of unlocked RWMutex")
			}
			m.lockR(l, -1)
			return true, nil, nil
		}),
		"(*sync.WaitGroup).Add": func(m *Machine, fr *Frame, a []Value) Value {
			noArms(m, "wg")
			l := m.lockOf(m.ptr(a[0]))
			m.lockR(l, int(m.concInt(a[1].(*Term))))
			if l.readers < 0 {
				panic(goPanic{Iface{m.p.runtimeErrT, "sync: negative WaitGroup counter"}})
			}
			return nil
		},
		"(*sync.WaitGroup).Done": func(m *Machine, fr *Frame, a []Value) Value {
			noArms(m, "wg")
			l := m.lockOf(m.ptr(a[0]))
			m.lockR(l, -1)
			if l.readers < 0 {
				panic(goPanic{Iface{m.p.runtimeErrT, "sync: negative WaitGroup counter"}})
			}
			return nil
		},
		"(*sync.WaitGroup).Wait": func(m *Machine, fr *Frame, a []Value) Value {
			noArms(m, "wg")
			l := m.lockOf(m.ptr(a[0]))
			if l.readers > 0 {
				m.block("WaitGroup.Wait", func() bool { return l.readers <= 0 })
			}
			return nil
		},
		"(*sync.Once).Do": func(m *Machine, fr *Frame, a []Value) Value {
			noArms(m, "once")
			l := m.lockOf(m.ptr(a[0]))
			if !l.writer {
				m.lockW(l, true)
				m.callSync(a[1].(*Closure), nil)
			}
			return nil
		},
		"(*sync.Pool).Get": func(m *Machine, fr *Frame, a []Value) Value {
			s := (*m.ptr(a[0])).(Struct)
			if cl, ok := s[len(s)-1].(*Closure); ok && cl != nil {
				return m.callSync(cl, nil)
			}
			return Iface{}
		},
		"(*sync.Pool).Put": nop,

		"math.Float64bits": func(m *Machine, fr *Frame, a []Value) Value {
			return m.c.Const(64, math.Float64bits(a[0].(float64)))
		},
		"math.Float64frombits": func(m *Machine, fr *Frame, a []Value) Value {
			t := a[0].(*Term)
			if !t.IsConst() {
				panic(engErr("symbolic float"))
			}
			return math.Float64frombits(t.u)
		},
		"math.Floor": func(m *Machine, fr *Frame, a []Value) Value { return math.Floor(a[0].(float64)) },
		"math.Ceil":  func(m *Machine, fr *Frame, a []Value) Value { return math.Ceil(a[0].(float64)) },

		"reflect.DeepEqual": func(m *Machine, fr *Frame, a []Value) Value {
			return m.deepEqual(a[0], a[1], map[[2]*Value]bool{})
		},
		"encoding/json.Marshal":       jsonMarshal,
		"encoding/json.MarshalIndent": jsonMarshal,
		"encoding/json.Unmarshal":     jsonUnmarshal,
		"encoding/json.Valid": func(m *Machine, fr *Frame, a []Value) Value {
			n, _ := m.jsonParse(a[0])
			return m.c.Bool(n != nil)
		},
	}
	delete(natives, "strings.EqualFold")
	for _, w := range []struct {
		n string
		w int
	}{{"Int32", 32}, {"Uint32", 32}, {"Int64", 64}, {"Uint64", 64}, {"Uintptr", 64}} {
		_ = w
		natives["sync/atomic.Load"+w.n] = func(m *Machine, fr *Frame, a []Value) Value {
			if m.syncPoint() {
				return nil
			}
			return m.load(a[0])
		}
		natives["sync/atomic.Store"+w.n] = func(m *Machine, fr *Frame, a []Value) Value {
			if m.syncPoint() {
				return nil
			}
			m.store(a[0], a[1])
			return nil
		}
		natives["sync/atomic.Add"+w.n] = func(m *Machine, fr *Frame, a []Value) Value {
			if m.syncPoint() {
				return nil
			}
			v := m.c.Add(m.load(a[0]).(*Term), a[1].(*Term))
			m.store(a[0], v)
			return v
		}
		natives["sync/atomic.Swap"+w.n] = func(m *Machine, fr *Frame, a []Value) Value {
			if m.syncPoint() {
				return nil
			}
			v := m.load(a[0])
			m.store(a[0], a[1])
			return v
		}
		natives["sync/atomic.CompareAndSwap"+w.n] = func(m *Machine, fr *Frame, a []Value) Value {
			if m.syncPoint() {
				return nil
			}
			if m.decide(m.c.Eq(m.load(a[0]).(*Term), a[1].(*Term))) {
				m.store(a[0], a[2])
				return m.c.True
			}
			return m.c.False
		}
	}
	natives["sync/atomic.LoadPointer"] = func(m *Machine, fr *Frame, a []Value) Value { return m.load(a[0]) }
	natives["sync/atomic.StorePointer"] = func(m *Machine, fr *Frame, a []Value) Value { m.store(a[0], a[1]); return nil }
	natives["(*sync/atomic.Value).Load"] = func(m *Machine, fr *Frame, a []Value) Value {
		return (*m.ptr(a[0])).(Struct)[0]
	}
	natives["(*sync/atomic.Value).Store"] = func(m *Machine, fr *Frame, a []Value) Value {
		s := (*m.ptr(a[0])).(Struct)
		m.set(&s[0], a[1])
		return nil
	}
	addSymNatives()
	addLiftNatives()
}

func printNative(m *Machine, fr *Frame, a []Value) Value {
	return Tuple{m.c.Const(64, 0), Iface{}}
}

func (m *Machine) lockW(l *lockState, w bool) {
	old := l.writer
	m.onUndo(func() { l.writer = old })
	l.writer = w
}

func (m *Machine) lockR(l *lockState, d int) {
	old := l.readers
	m.onUndo(func() { l.readers = old })
	l.readers += d
}

func indexByte(m *Machine, fr *Frame, a []Value) Value {
	bs, b := bytesOf(m, a[0]), a[1].(*Term)
	for i, x := range bs {
		if m.decide(m.c.Eq(x, b)) {
			return m.c.Const(64, uint64(i))
		}
	}
	return m.c.Const(64, ^uint64(0))
}

func lastIndexByte(m *Machine, a []Value) Value {
	bs, b := bytesOf(m, a[0]), a[1].(*Term)
	for i := len(bs) - 1; i >= 0; i-- {
		if m.decide(m.c.Eq(bs[i], b)) {
			return m.c.Const(64, uint64(i))
		}
	}
	return m.c.Const(64, ^uint64(0))
}

func countByte(m *Machine, fr *Frame, a []Value) Value {
	r := m.c.Const(64, 0)
	for _, x := range bytesOf(m, a[0]) {
		r = m.c.Add(r, m.c.Zext(m.c.BoolToBV1(m.c.Eq(x, a[1].(*Term))), 64))
	}
	return r
}

func compareBytes(m *Machine, fr *Frame, a []Value) Value {
	p, q := bytesOf(m, a[0]), bytesOf(m, a[1])
	n := min(len(p), len(q))
	r := m.c.Const(64, 0)
	if len(p) < len(q) {
		r = m.c.Const(64, ^uint64(0))
	} else if len(p) > len(q) {
		r = m.c.Const(64, 1)
	}
	for i := n - 1; i >= 0; i-- {
		r = m.c.Ite(m.c.Eq(p[i], q[i]), r, m.c.Ite(m.c.Ult(p[i], q[i]), m.c.Const(64, ^uint64(0)), m.c.Const(64, 1)))
	}
	return r
}

func indexStr(m *Machine, fr *Frame, a []Value) Value {
	s, t := m.strBytes(a[0]), m.strBytes(a[1])
	for i := 0; i+len(t) <= len(s); i++ {
		if m.decide(m.eqBytes(s[i:i+len(t)], t)) {
			return m.c.Const(64, uint64(i))
		}
	}
	return m.c.Const(64, ^uint64(0))
}

// deepEqual mirrors reflect.DeepEqual.
func (m *Machine) deepEqual(x, y Value, seen map[[2]*Value]bool) *Term {
	switch a := x.(type) {
	case Iface:
		b, ok := y.(Iface)
		if !ok || (a.t == nil) != (b.t == nil) {
			return m.c.False
		}
		if a.t == nil {
			return m.c.True
		}
		if !types.Identical(a.t, b.t) {
			return m.c.False
		}
		return m.deepEqual(a.v, b.v, seen)
	case *Value:
		b, ok := y.(*Value)
		if !ok {
			return m.c.False
		}
		if a == b {
			return m.c.True
		}
		if a == nil || b == nil {
			return m.c.False
		}
		k := [2]*Value{a, b}
		if seen[k] {
			return m.c.True
		}
		seen[k] = true
		return m.deepEqual(*a, *b, seen)
	case Slice:
		b, ok := y.(Slice)
		if !ok || a.nil != b.nil || len(a.v) != len(b.v) {
			return m.c.False
		}
		if len(a.v) > 0 && &a.v[0] == &b.v[0] {
			return m.c.True
		}
		return m.deepEqual(Array(a.v), Array(b.v), seen)
	case Array:
		b, ok := y.(Array)
		if !ok || len(a) != len(b) {
			return m.c.False
		}
		if len(a) > 0 {
			if t, ok := a[0].(*Term); ok && t.w == 8 {
				return m.eqBytes(valTerms(a), valTerms(b))
			}
		}
		r := m.c.True
		for i := range a {
			r = m.c.And(r, m.deepEqual(a[i], b[i], seen))
			if r.IsFalse() {
				return r
			}
		}
		return r
	case Struct:
		b, ok := y.(Struct)
		if !ok || len(a) != len(b) {
			return m.c.False
		}
		r := m.c.True
		for i := range a {
			r = m.c.And(r, m.deepEqual(a[i], b[i], seen))
			if r.IsFalse() {
				return r
			}
		}
		return r
	case *Map:
		b, ok := y.(*Map)
		if !ok || (a == nil) != (b == nil) {
			return m.c.False
		}
		if a == nil || a == b {
			return m.c.True
		}
		if len(a.ents) != len(b.ents) {
			return m.c.False
		}
		// keys are pairwise different within a map: every entry of a needs a
		// partner in b
		r := m.c.True
		for _, e := range a.ents {
			any := m.c.False
			for _, f := range b.ents {
				any = m.c.Or(any, m.c.And(m.eqVal(a.kt, e.k, f.k), m.deepEqual(e.v, f.v, seen)))
			}
			r = m.c.And(r, any)
		}
		return r
	case *Closure:
		b, _ := y.(*Closure)
		return m.c.Bool(a == nil && b == nil)
	case *Term:
		b, ok := y.(*Term)
		if !ok || a.w != b.w {
			return m.c.False
		}
		return m.c.Eq(a, b)
	case string, SymStr:
		switch y.(type) {
		case string, SymStr:
			return m.eqBytes(m.strBytes(x), m.strBytes(y))
		}
		return m.c.False
	case *Chan:
		b, _ := y.(*Chan)
		return m.c.Bool(a == b)
	case float64:
		b, ok := y.(float64)
		return m.c.Bool(ok && a == b)
	case nil:
		return m.c.Bool(y == nil)
	}
	panic(engErr("DeepEqual of %T", x))
}

// ---- state marks ----

// snapshot makes a deep copy of everything reachable from v.
func (m *Machine) deepCopy(v Value, seen map[*Value]*Value, maps map[*Map]*Map) Value {
	switch x := v.(type) {
	case Iface:
		return Iface{x.t, m.deepCopy(x.v, seen, maps)}
	case *Value:
		if x == nil {
			return x
		}
		if c, ok := seen[x]; ok {
			return c
		}
		c := new(Value)
		seen[x] = c
		*c = m.deepCopy(*x, seen, maps)
		return c
	case Slice:
		if x.nil {
			return x
		}
		out := make([]Value, len(x.v))
		for i := range x.v {
			out[i] = m.deepCopy(x.v[i], seen, maps)
		}
		return Slice{v: out}
	case Array:
		out := make(Array, len(x))
		for i := range x {
			out[i] = m.deepCopy(x[i], seen, maps)
		}
		return out
	case Struct:
		out := make(Struct, len(x))
		for i := range x {
			out[i] = m.deepCopy(x[i], seen, maps)
		}
		return out
	case *Map:
		if x == nil {
			return x
		}
		if c, ok := maps[x]; ok {
			return c
		}
		c := &Map{kt: x.kt, vt: x.vt}
		maps[x] = c
		for _, e := range x.ents {
			c.ents = append(c.ents, mapEntry{m.deepCopy(e.k, seen, maps), m.deepCopy(e.v, seen, maps)})
		}
		return c
	case *Closure:
		return x
	}
	return v
}

// sameState compares a state with an earlier copy; function values compare by identity.
func (m *Machine) sameState(x, y Value, seen map[[2]*Value]bool) *Term {
	switch a := x.(type) {
	case *Closure:
		b, _ := y.(*Closure)
		return m.c.Bool(a == b)
	case *Value:
		b, ok := y.(*Value)
		if !ok {
			return m.c.False
		}
		if a == b {
			return m.c.True
		}
		if a == nil || b == nil {
			return m.c.False
		}
		k := [2]*Value{a, b}
		if seen[k] {
			return m.c.True
		}
		seen[k] = true
		return m.sameState(*a, *b, seen)
	case Iface:
		b, ok := y.(Iface)
		if !ok || (a.t == nil) != (b.t == nil) {
			return m.c.False
		}
		if a.t == nil {
			return m.c.True
		}
		if !types.Identical(a.t, b.t) {
			return m.c.False
		}
		return m.sameState(a.v, b.v, seen)
	case Struct:
		b, ok := y.(Struct)
		if !ok || len(a) != len(b) {
			return m.c.False
		}
		return m.sameState(Array(a), Array(b), seen)
	case Slice:
		b, ok := y.(Slice)
		if !ok || len(a.v) != len(b.v) || (a.nil != b.nil) {
			return m.c.False
		}
		return m.sameState(Array(a.v), Array(b.v), seen)
	case Array:
		b, ok := y.(Array)
		if !ok || len(a) != len(b) {
			return m.c.False
		}
		if len(a) > 0 {
			if t, ok := a[0].(*Term); ok && t.w == 8 {
				return m.eqBytes(valTerms(a), valTerms(b))
			}
		}
		r := m.c.True
		for i := range a {
			r = m.c.And(r, m.sameState(a[i], b[i], seen))
			if r.IsFalse() {
				return r
			}
		}
		return r
	case *Map:
		b, ok := y.(*Map)
		if !ok || (a == nil) != (b == nil) {
			return m.c.False
		}
		if a == nil || a == b {
			return m.c.True
		}
		if len(a.ents) != len(b.ents) {
			return m.c.False
		}
		r := m.c.True
		for _, e := range a.ents {
			any := m.c.False
			for _, f := range b.ents {
				ke := m.eqVal(a.kt, e.k, f.k)
				if ke.IsFalse() {
					continue
				}
				any = m.c.Or(any, m.c.And(ke, m.sameState(e.v, f.v, seen)))
			}
			r = m.c.And(r, any)
		}
		return r
	}
	return m.deepEqual(x, y, seen)
}
